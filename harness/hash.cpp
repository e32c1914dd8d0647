// fixed-size hashes: repository code against plain byte-vector / big-integer definitions
#include "h.hpp"
#include <libdevcore/FixedHash.h>
using namespace dev; using h::Rng; typedef std::vector<uint8_t> B;
template <class F> static int thr(F f) { try { f(); return 0; } catch (...) { return 1; } }
static bigint num(const B& b) { bigint v = 0; for (auto x : b) v = v * 256 + x; return v; }
template <unsigned N> static FixedHash<N> mk(const B& b) { FixedHash<N> r; for (unsigned i = 0; i < N; ++i) r.asArray()[i] = b[i]; return r; }
static B bop(const B& a, const B& b, int o) { B r; for (size_t i = 0; i < a.size(); ++i) r.push_back(o == 0 ? a[i] ^ b[i] : o == 1 ? a[i] | b[i] : a[i] & b[i]); return r; }
template <unsigned N> static void pair(const B& a, const B& b) {
    h::count(h::hex(a) + h::hex(b)); std::string d = "N=" + std::to_string(N) + " a=" + h::hex(a) + " b=" + h::hex(b);
    auto x = mk<N>(a), y = mk<N>(b); int c = a < b ? -1 : a == b ? 0 : 1;
    H_CHECK((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "compare", d);
    H_CHECK((x ^ y).asBytes() == bop(a, b, 0) && (x | y).asBytes() == bop(a, b, 1) && (x & y).asBytes() == bop(a, b, 2), "bitwise", d);
    auto z = x; z ^= y; H_CHECK(z.asBytes() == bop(a, b, 0), "xor-assign", d); z = x; z |= y; H_CHECK(z.asBytes() == bop(a, b, 1), "or-assign", d); z = x; z &= y; H_CHECK(z.asBytes() == bop(a, b, 2), "and-assign", d);
    H_CHECK(x.contains(y) == (bop(a, b, 2) == b), "contains", d); H_CHECK(x.asBytes() == a && y.asBytes() == b, "operands-unchanged", d);
    H_CHECK((typename FixedHash<N>::hash()(x) == typename FixedHash<N>::hash()(y)) || a != b, "hash", d);
}
template <unsigned N> static void one(const B& a) {
    h::count(h::hex(a)); std::string d = "N=" + std::to_string(N) + " a=" + h::hex(a); auto x = mk<N>(a);
    B n; for (auto v : a) n.push_back(~v); H_CHECK((~x).asBytes() == n, "complement", d);
    auto y = x; ++y; B inc = a; for (int i = N; i > 0 && ++inc[--i] == 0;) {} H_CHECK(y.asBytes() == inc, "increment", d);
    bool z = true; for (auto v : a) if (v) z = false; H_CHECK(bool(x) == !z, "bool", d);
    unsigned f = 0; while (f < N * 8 && !(a[f / 8] >> (7 - f % 8) & 1)) ++f; H_CHECK(x.firstBitSet() == f, "firstBitSet", d << " got=" << x.firstBitSet());
    H_CHECK(x.hex() == h::hex(a) && toHex(x.ref()) == h::hex(a), "hex", d);
    H_CHECK(FixedHash<N>(h::hex(a)) == x && FixedHash<N>("0x" + h::hex(a)) == x && FixedHash<N>(std::string(a.begin(), a.end()), FixedHash<N>::FromBinary) == x && FixedHash<N>(a.data(), FixedHash<N>::ConstructFromPointer) == x && FixedHash<N>(a) == x && FixedHash<N>(bytesConstRef(&a)) == x, "construct.exact", d);
    { std::ostringstream o; o << x; std::istringstream i(o.str()); FixedHash<N> r; i >> r; H_CHECK(r == x, "stream", d); }
    auto q = x; q.clear(); H_CHECK(q.asBytes() == B(N, 0), "clear", d); for (unsigned i = 0; i < N; ++i) H_CHECK(x[i] == a[i] && *(x.begin() + i) == a[i], "index", d);
}
template <unsigned N> static void arith(const B& a) {
    std::string d = "N=" + std::to_string(N) + " a=" + h::hex(a); auto x = mk<N>(a); typename FixedHash<N>::Arith v = (typename FixedHash<N>::Arith)x; H_CHECK(bigint(v) == num(a), "to-integer", d); FixedHash<N> y(v); H_CHECK(y.asBytes() == a, "from-integer", d);
    unsigned u = a[0] * 16777259u + a[N - 1] * 65537u; FixedHash<N> w(u); H_CHECK(num(w.asBytes()) == bigint(u), "from-unsigned", "N=" << N << " u=" << u);
}
template <unsigned N> static void from(const B& s) {
    h::count(h::hex(s)); std::string d = "N=" + std::to_string(N) + " s=" + h::hex(s); B l(N, 0), r(N, 0), e(N, 0);
    for (unsigned i = 0; i < N; ++i) { if (i < s.size()) l[i] = s[i]; if (i < s.size()) r[N - 1 - i] = s[s.size() - 1 - i]; } if (s.size() == N) { e = s; l = s; r = s; }
    typedef FixedHash<N> H; bytesConstRef v(&s); std::string st(s.begin(), s.end());
    H_CHECK(H(s, H::AlignLeft).asBytes() == l && H(v, H::AlignLeft).asBytes() == l && H(st, H::FromBinary, H::AlignLeft).asBytes() == l && H(h::hex(s), H::FromHex, H::AlignLeft).asBytes() == l, "align-left", d);
    H_CHECK(H(s, H::AlignRight).asBytes() == r && H(v, H::AlignRight).asBytes() == r && H(st, H::FromBinary, H::AlignRight).asBytes() == r && H(h::hex(s), H::FromHex, H::AlignRight).asBytes() == r, "align-right", d);
    H_CHECK(H(s).asBytes() == e && H(v).asBytes() == e && H(st, H::FromBinary).asBytes() == e && H(h::hex(s)).asBytes() == e, "exact", d);
}
template <unsigned N, unsigned M> static void resize(const B& a) {
    std::string d = "N=" + std::to_string(N) + " M=" + std::to_string(M) + " a=" + h::hex(a); auto x = mk<M>(a); B l(N, 0), r(N, 0); for (unsigned i = 0; i < std::min(N, M); ++i) { l[i] = a[i]; r[N - 1 - i] = a[M - 1 - i]; }
    H_CHECK(FixedHash<N>(x).asBytes() == l && FixedHash<N>(x, FixedHash<N>::AlignLeft).asBytes() == l, "resize-left", d); H_CHECK(FixedHash<N>(x, FixedHash<N>::AlignRight).asBytes() == r, "resize-right", d);
}
static void bloom(const std::vector<B>& vs) {
    FixedHash<256> b; B w(256, 0); for (auto& v : vs) { auto x = mk<32>(v); FixedHash<256> before = b; b.shiftBloom<3>(x); for (int i = 0; i < 3; ++i) { unsigned k = ((v[2 * i] << 8) | v[2 * i + 1]) & 2047; w[255 - k / 8] |= 1 << (k % 8); } H_CHECK(b.asBytes() == w, "bloom.bits", "v=" << h::hex(v)); H_CHECK((b & before) == before, "bloom.removes", "v=" << h::hex(v)); }
    for (auto& v : vs) H_CHECK(b.containsBloom<3>(mk<32>(v)), "bloom.contains", "v=" << h::hex(v)); h::count(h::hex(w));
    FixedHash<256> one; if (vs.size()) { one.shiftBloom<3>(mk<32>(vs[0])); for (auto& v : vs) { bool in = true; for (int i = 0; i < 3; ++i) { unsigned k = ((v[2 * i] << 8) | v[2 * i + 1]) & 2047; if (!(one[255 - k / 8] >> (k % 8) & 1)) in = false; } H_CHECK(one.containsBloom<3>(mk<32>(v)) == in, "bloom.exact", "v=" << h::hex(v)); } }
}
template <unsigned N> static void secure(const B& a, const B& b) {
    std::string d = "a=" + h::hex(a) + " b=" + h::hex(b); SecureFixedHash<N> x(a), y(b); auto f = mk<N>(b);
    H_CHECK((x ^ y).makeInsecure().asBytes() == bop(a, b, 0) && (x | y).makeInsecure().asBytes() == bop(a, b, 1) && (x & y).makeInsecure().asBytes() == bop(a, b, 2), "secure.bitwise", d);
    H_CHECK((x ^ f).makeInsecure().asBytes() == bop(a, b, 0) && (x | f).makeInsecure().asBytes() == bop(a, b, 1) && (x & f).makeInsecure().asBytes() == bop(a, b, 2), "secure.bitwise.plain", d);
    int c = a < b ? -1 : a == b ? 0 : 1; H_CHECK((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "secure.compare", d);
}
static B edgy(Rng& g, size_t n) { B b = g.bytes(n); switch (g.below(6)) { case 0: for (auto& x : b) x = 0; break; case 1: for (auto& x : b) x = 0xff; break; case 2: for (size_t i = g.below(n); i < n; ++i) b[i] = 0xff; break; case 3: for (size_t i = 0; i < n && g.below(4); ++i) b[i] = 0; break; } if (g.chance(1, 3)) b[g.below(n)] ^= 1 << g.below(8); return b; }
template <unsigned N> static void round(Rng& g) {
    B a = edgy(g, N), b = g.chance(1, 2) ? edgy(g, N) : a; if (g.chance(1, 2)) b[g.below(N)] ^= 1 << g.below(8); pair<N>(a, b); pair<N>(a, a); one<N>(a); arith<N>(a); from<N>(g.bytes(g.below(2 * N))); for (int k = -1; k < 2; ++k) from<N>(g.bytes(N + k));
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    for (auto& x : h::hints) { B b = h::unhex(x.value); for (auto n : {8, 20, 32, 256}) { B c = b; c.resize(n); B z(n, 0); if (n == 8) one<8>(c), pair<8>(c, z), from<8>(b); if (n == 20) one<20>(c), arith<20>(c), from<20>(b); if (n == 32) { one<32>(c); arith<32>(c); from<32>(b); bloom({c}); for (auto& y : h::hints) { B e = h::unhex(y.value); e.resize(32); pair<32>(c, e); secure<32>(c, e); } } if (n == 256) one<256>(c); } }
    for (unsigned n = 0; n < 70; ++n) { from<8>(g.bytes(n)); from<20>(g.bytes(n)); from<32>(g.bytes(n)); from<4>(g.bytes(n)); }
    for (unsigned i = 0; i < 256; ++i) { B b(32, 0); b[i / 8] = 1 << (i % 8); one<32>(b); pair<32>(b, B(32, 0)); pair<32>(B(32, 0), b); B c(32, 0xff); c[i / 8] ^= 1 << (i % 8); one<32>(c); pair<32>(c, B(32, 0xff)); pair<32>(c, b); secure<32>(b, c); resize<20, 32>(b); resize<32, 32>(c); }
    for (unsigned k = 0; k < 65536; k += 1 + g.below(9)) { B b = g.bytes(32); int p = g.below(3) * 2; b[p] = k >> 8; b[p + 1] = k; bloom({b}); }
    for (int i = 0; i < 2000; ++i) { B h = g.bytes(32); h256 x = mk<32>(h); H_CHECK(right160(x).asBytes() == B(h.begin() + 12, h.end()), "right160", h::hex(h)); if (i > 100) break; }
    while (h::more()) { round<4>(g); round<8>(g); round<16>(g); round<20>(g); round<32>(g); { B a = edgy(g, 256), b = edgy(g, 256); pair<256>(a, b); one<256>(a); } B a = edgy(g, 32); resize<20, 32>(a); resize<64, 32>(a); resize<8, 32>(a); B c = edgy(g, 20); resize<32, 20>(c); secure<32>(a, edgy(g, 32)); std::vector<B> vs; for (unsigned n = g.below(6); n--;) vs.push_back(edgy(g, 32)); bloom(vs); }
    return h::done();
}
