// conversions: repository code against independent hex / big-endian / number text implementations
#include "h.hpp"
#include <libethcore/CommonJS.h>
#include <libdevcore/CommonJS.h>
#include <libdevcore/CommonData.h>
#include <libdevcore/FixedHash.h>
using namespace dev; using h::Rng; typedef std::vector<uint8_t> B;
static int hv(char c) { const char* d = "0123456789abcdef"; for (int i = 0; i < 16; ++i) if (d[i] == c || (d[i] >= 'a' && d[i] - 32 == c)) return i; return -1; }
static std::string hexOf(const B& b) { return h::hex(b); }
template <class F> static int thr(F f) { try { f(); return 0; } catch (...) { return 1; } }
static bool specHex(const std::string& s, B& out) { // optional 0x, odd length allowed: first digit alone
    out.clear(); size_t p = s.size() >= 2 && s[0] == '0' && s[1] == 'x' ? 2 : 0; std::string d = s.substr(p); for (char c : d) if (hv(c) < 0) return false;
    if (d.size() % 2) d = "0" + d; for (size_t i = 0; i < d.size(); i += 2) out.push_back(hv(d[i]) * 16 + hv(d[i + 1])); return true;
}
static void checkText(const std::string& s) {
    h::count(s); B want; bool ok = specHex(s, want); B got; std::string d = "text=" + h::hex(s) + " (\"" + s.substr(0, 40) + "\")";
    int t = thr([&] { got = fromHex(s, WhenError::Throw); }); H_CHECK((t == 0) == ok, "fromHex.throw-mode", d); if (!t) H_CHECK(got == want, "fromHex.value", d);
    got = B{9}; t = thr([&] { got = fromHex(s); }); H_CHECK(t == 0 && got == (ok ? want : B()), "fromHex.lenient", d);
    bool ish = true; { size_t p = s.size() >= 2 && s[0] == '0' && s[1] == 'x' ? 2 : 0; for (size_t i = p; i < s.size(); ++i) if (hv(s[i]) < 0) ish = false; }
    H_CHECK(isHex(s) == ish, "isHex", d);
    for (int f = 0; f < 3; ++f) { got = B{7}; t = thr([&] { got = jsToBytes(s, (OnFailed)f); }); if (ok) H_CHECK(t == 0 && got == want, "jsToBytes.value", d); else if (f == int(OnFailed::Throw)) H_CHECK(t == 1, "jsToBytes.throw", d); else if (f == int(OnFailed::Empty)) H_CHECK(t == 0 && got.empty(), "jsToBytes.empty", d); else H_CHECK(t == 0 && got == B(s.begin(), s.end()), "jsToBytes.raw", d); }
    H_CHECK(isHash<h256>(s) == (ish && (s.size() == 64 || (s.size() == 66 && s.substr(0, 2) == "0x"))), "isHash", d);
}
template <class T> static T num(const B& b) { T v = 0; for (auto x : b) v = T(v * 256) + x; return v; }
static std::string dec(bigint v) { if (v == 0) return "0"; std::string r; while (v > 0) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return r; }
static std::string hexNum(bigint v) { if (v == 0) return "0"; std::string r; while (v > 0) { r.insert(r.begin(), "0123456789abcdef"[(int)(v % 16)]); v /= 16; } return r; }
static void checkBytes(const B& b) {
    h::count(hexOf(b)); std::string hx = hexOf(b), d = "bytes=" + hx.substr(0, 300);
    H_CHECK(toHex(b) == hx && toHexPrefixed(b) == "0x" + hx && toJS(b) == "0x" + hx, "toHex", d);
    B r; thr([&] { r = fromHex(hx, WhenError::Throw); }); H_CHECK(r == b, "hex-roundtrip", d); r.clear(); thr([&] { r = jsToBytes("0x" + hx); }); H_CHECK(r == b, "js-roundtrip", d);
    std::string up = hx; for (auto& c : up) c = toupper(c); r.clear(); thr([&] { r = fromHex(up, WhenError::Throw); }); H_CHECK(r == b, "hex-upper", d);
    std::string s(b.begin(), b.end()); H_CHECK(toHex(s) == hx, "toHex.string", d); H_CHECK(asBytes(s) == b && asString(b) == s && asString(bytesConstRef(&b)) == s, "asBytes", d);
    B nb; for (auto x : b) { nb.push_back(x >> 4); nb.push_back(x & 15); } H_CHECK(asNibbles(bytesConstRef(&b)) == nb, "asNibbles", d);
    for (unsigned l : {0u, 1u, 2u, 20u, 32u, (unsigned)b.size(), (unsigned)b.size() + 3}) { B w; for (unsigned i = 0; i < l; ++i) { long j = long(b.size()) - long(l) + i; w.push_back(j < 0 ? 0 : b[j]); } H_CHECK(padded(b, l) == w, "padded", d << " l=" << l); B wr = b; wr.resize(l); H_CHECK(paddedRight(b, l) == wr, "paddedRight", d << " l=" << l); std::string j = hexOf(b); while (j.size() < 2 * l) j += "00"; H_CHECK(toJS(b, l) == "0x" + j, "toJS.padding", d << " l=" << l); }
    B u = b; while (!u.empty() && u.back() == 0) u.pop_back(); H_CHECK(unpadded(b) == u, "unpadded", d); u = b; while (!u.empty() && u[0] == 0) u.erase(u.begin()); H_CHECK(unpadLeft(b) == u, "unpadLeft", d);
    if (b.size() <= 32) { H_CHECK(fromBigEndian<u256>(b) == num<u256>(b), "fromBigEndian.u256", d); H_CHECK(fromBigEndian<u256>(s) == num<u256>(b), "fromBigEndian.string", d); }
    H_CHECK(fromBigEndian<bigint>(b) == num<bigint>(b), "fromBigEndian.bigint", d); if (b.size() <= 8) { H_CHECK(fromBigEndian<uint64_t>(b) == num<uint64_t>(b), "fromBigEndian.u64", d); } if (b.size() <= 20) H_CHECK(fromBigEndian<u160>(b) == num<u160>(b), "fromBigEndian.u160", d);
    B b2 = b; if (!b2.empty()) { size_t p = h::evals % b2.size(); b2[p] ^= 1; H_CHECK(commonPrefix(b, b2) == p, "commonPrefix", d << " p=" << p); b2.resize(p); H_CHECK(commonPrefix(b, b2) == p && commonPrefix(b2, b) == p, "commonPrefix.cut", d << " p=" << p); }
    if (b.size() >= 2) { B t = b; trimFront(t, 1); H_CHECK(t == B(b.begin() + 1, b.end()), "trimFront", d); pushFront(t, b[0]); H_CHECK(t == b, "pushFront", d); B c = b; c += t; B w = b; w.insert(w.end(), t.begin(), t.end()); H_CHECK(c == w, "append", d); }
}
static void checkNum(const u256& v) {
    std::ostringstream o; o << v; h::count(o.str()); std::string d = "v=" + o.str(); B m; for (u256 x = v; x != 0; x = x / 256) m.insert(m.begin(), (uint8_t)(x % 256)); B full(32 - m.size(), 0); full.insert(full.end(), m.begin(), m.end());
    H_CHECK(toBigEndian(v) == full && toBigEndianString(v) == std::string(full.begin(), full.end()), "toBigEndian", d);
    for (unsigned mn : {0u, 1u, 8u, 32u, 33u}) { B w(m.size() < mn ? mn - m.size() : 0, 0); w.insert(w.end(), m.begin(), m.end()); H_CHECK(toCompactBigEndian(v, mn) == w, "toCompactBigEndian", d << " min=" << mn); H_CHECK(toCompactBigEndianString(v, mn) == std::string(w.begin(), w.end()), "toCompactBigEndianString", d); H_CHECK(toCompactHex(v, mn) == hexOf(w) && toCompactHexPrefixed(v, mn) == "0x" + hexOf(w), "toCompactHex", d); }
    H_CHECK(bytesRequired(v) == m.size() && bytesRequired(bigint(v)) == m.size(), "bytesRequired", d); H_CHECK(toHex(v) == hexOf(full) && toHexPrefixed(v) == "0x" + hexOf(full), "toHex.u256", d);
    for (size_t w : {1, 8, 31}) { B o(w, 0xee); toBigEndian(v, o); H_CHECK(o == B(full.end() - w, full.end()), "toBigEndian.narrow", d << " width=" << w); } { B o(40, 0xee); toBigEndian(v, o); B w(8, 0); w.insert(w.end(), full.begin(), full.end()); H_CHECK(o == w, "toBigEndian.wide", d); }
    std::string q = "0x" + hexNum(bigint(v)); H_CHECK(toJS(v) == q, "toJS.u256", d << " got=" << toJS(v)); 
    auto pj = [&](const std::string& t, const char* k) { u256 g; int e = thr([&] { g = jsToU256(t); }); H_CHECK(e == 0 && g == v, k, "text=" << t); e = thr([&] { g = jsToInt<32>(t); }); H_CHECK(e == 0 && g == v, k, "text=" << t); };
    pj(q, "jsToU256.hex"); pj(dec(bigint(v)), "jsToU256.dec"); pj("0x" + hexOf(full), "jsToU256.full"); { std::string t; int e = thr([&] { t = jsToDecimal(q); }); H_CHECK(e == 0 && t == dec(bigint(v)), "jsToDecimal", d); }
    { h256 g; int e = thr([&] { g = jsToFixed<32>("0x" + hexOf(full)); }); H_CHECK(e == 0 && g.asBytes() == full, "jsToFixed.hex", d); e = thr([&] { g = jsToFixed<32>(dec(bigint(v))); }); H_CHECK(e == 0 && g.asBytes() == full, "jsToFixed.dec", d); H_CHECK(toJS(h256(v)) == "0x" + hexOf(full), "toJS.hash", d); H_CHECK(u256_to_js(v).size() == 66 && u256_to_js(v) == "0x" + hexOf(full), "u256_to_js", d << " got=" << u256_to_js(v)); }
    { u160 a = (u160)v; B fa(full.begin() + 12, full.end()); H_CHECK(toBigEndian(a) == fa && toBigEndianString(a) == std::string(fa.begin(), fa.end()), "toBigEndian.u160", d); H_CHECK(toJS(a) == "0x" + hexNum(bigint(a)), "toJS.u160", d); u160 g; int e = thr([&] { g = jsToInt<20>("0x" + hexNum(bigint(a))); }); H_CHECK(e == 0 && g == a, "jsToInt20", d); }
    uint64_t k = (uint64_t)(v & ~uint64_t(0)); H_CHECK(toCompactBigEndian(k) == toCompactBigEndian(u256(k)) && bytesRequired(k) == bytesRequired(u256(k)), "compact.u64", "v=" << k);
    H_CHECK(toJS((uint64_t)k) == "0x" + hexNum(bigint(k)), "toJS.u64", "v=" << k);
    int i = int(k & 0x7fffffff); int e, g = 0; e = thr([&] { g = jsToInt(std::to_string(i)); }); H_CHECK(e == 0 && g == i, "jsToInt.dec", "v=" << i); std::ostringstream ox; ox << "0x" << std::hex << i; e = thr([&] { g = jsToInt(ox.str()); }); H_CHECK(e == 0 && g == i, "jsToInt.hex", "v=" << i);
    eth::BlockNumber bn = 0; e = thr([&] { bn = eth::jsToBlockNumber(ox.str()); }); H_CHECK(e == 0 && bn == (unsigned)i, "jsToBlockNumber.hex", "v=" << i); e = thr([&] { bn = eth::jsToBlockNumber(std::to_string(i)); }); H_CHECK(e == 0 && bn == (unsigned)i, "jsToBlockNumber.dec", "v=" << i); 
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    for (auto& x : h::hints) { B b = h::unhex(x.value); checkText(std::string(b.begin(), b.end())); checkBytes(b); try { checkNum(u256(x.value)); } catch (...) {} }
    for (auto s : {"latest", "earliest", "pending"}) { eth::BlockNumber b = 77; thr([&] { b = eth::jsToBlockNumber(s); }); H_CHECK(b == (s[0] == 'l' ? eth::LatestBlock : s[0] == 'e' ? 0 : eth::PendingBlock), "jsToBlockNumber.tag", s); }
    for (auto s : {"-1", "abc", "", "99999999999999999999"}) H_CHECK(thr([&] { eth::jsToBlockNumber(s); }) == 1, "jsToBlockNumber.reject", s);
    for (auto s : {"abc", "12x", "-1", "x12", " 1"}) H_CHECK(thr([&] { jsToU256(s); }) == 1 && thr([&] { jsToFixed<32>(s); }) == 1, "jsToU256.reject", s);
    checkText(""); for (int a = 0; a < 256; ++a) { checkText(std::string(1, a)); for (int b = 0; b < 256; ++b) { if (!((hv(a) >= 0 && g.chance(1, 2)) || g.chance(1, 12))) continue; checkText({(char)a, (char)b}); if ((a ^ b) % 5 == 0) { checkText({'0', 'x', (char)a, (char)b}); checkText({(char)a, (char)b, '7'}); checkText({'4', (char)a, (char)b, '7'}); } } }
    for (size_t n = 0; n < 70; ++n) for (int k = 0; k < 4; ++k) { B b = g.bytes(n); if (k == 1 && n) b[0] = 0; if (k == 2 && n) b[n - 1] = 0; if (k == 3) for (auto& x : b) x = g.chance(1, 2) ? 0 : 0xff; checkBytes(b); }
    for (int b = 0; b <= 256; ++b) for (int d = -1; d <= 1; ++d) checkNum(u256((bigint(1) << b) + d));
    while (h::more()) {
        for (int k = 0; k < 20; ++k) { checkBytes(g.bytes(g.below(80))); std::string s; size_t n = g.below(70); for (size_t i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[g.below(22)]; if (g.chance(1, 2)) s = "0x" + s; if (g.chance(1, 3) && !s.empty()) s[g.below(s.size())] = (char)g.next(); checkText(s); }
        B b = g.bytes(g.below(33)); checkNum(num<u256>(b)); checkNum(u256(g.edgy()) << g.below(200));
    }
    return h::done();
}
