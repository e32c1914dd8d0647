// base-64 against an independent bit-stream implementation
#include "h.hpp"
#include <libdevcore/Base64.h>
using namespace dev; using h::Rng; typedef std::vector<uint8_t> B;
static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const B& b) { std::string r; unsigned acc = 0, n = 0; for (uint8_t x : b) { acc = (acc << 8) | x; n += 8; while (n >= 6) { n -= 6; r += AL[(acc >> n) & 63]; } } if (n) r += AL[(acc << (6 - n)) & 63]; while (r.size() % 4) r += '='; return r; }
static B dec(const std::string& s) { B r; unsigned acc = 0, n = 0; for (char c : s) { size_t v = AL.find(c); if (v == std::string::npos || c == 0) break; acc = (acc << 6) | (unsigned)v; n += 6; if (n >= 8) { n -= 8; r.push_back((uint8_t)(acc >> n)); } } return r; }
static void e(const B& b) {
    h::count("e" + h::hex(b)); std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() + 1]); std::unique_ptr<uint8_t[]> q(new uint8_t[b.size() ? b.size() : 1]); if (b.size()) memcpy(q.get(), b.data(), b.size());
    std::string s = toBase64(bytesConstRef(q.get(), b.size())); H_CHECK(s == enc(b), "encode", "bytes=" << h::hex(b).substr(0, 300) << " got=" << s.substr(0, 300)); bytes d = fromBase64(s); H_CHECK(d == b, "roundtrip", "bytes=" << h::hex(b).substr(0, 300) << " got=" << h::hex(d).substr(0, 300));
}
static void d(const std::string& s) { h::count("d" + s); std::string t(s); t.shrink_to_fit(); bytes r = fromBase64(t); B w = dec(s); H_CHECK(r == w, "decode", "text=" << h::hex(s).substr(0, 300) << " got=" << h::hex(r).substr(0, 300) << " expected=" << h::hex(w).substr(0, 300)); }
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    for (auto& x : h::hints) { B b = h::unhex(x.value); e(b); d(std::string(b.begin(), b.end())); }
    e({}); d(""); for (int a = 0; a < 256; ++a) { e({(uint8_t)a}); d(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) { e({(uint8_t)a, (uint8_t)b}); d(std::string{(char)a, (char)b}); } for (int k = 0; k < 4; ++k) { std::string s = "QUJD"; s[k] = (char)a; d(s); d("QUJD" + s); d(s + "RA=="); } }
    while (h::more()) {
        B b = g.bytes(g.chance(1, 50) ? g.below(3000) : g.below(30)); e(b); std::string s = enc(b);
        for (int k = 0; k < 4; ++k) { std::string t = s; switch (g.below(5)) { case 0: if (!t.empty()) t[g.below(t.size())] = (char)g.next(); break; case 1: t.resize(g.below(t.size() + 1)); break; case 2: t += AL[g.below(64)]; break; case 3: t.insert(g.below(t.size() + 1), 1, "=\n +/_-"[g.below(7)]); break; default: for (auto& c : t) c = AL[g.below(64)]; } d(t); }
    }
    return h::done();
}
