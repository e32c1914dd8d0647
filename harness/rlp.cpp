// RLP replay harness: repository encoder/decoder against an independent implementation of the RLP rules
#include "h.hpp"
#include <libdevcore/RLP.h>
#include <libdevcore/FixedHash.h>
using namespace dev; using h::Rng; typedef std::vector<uint8_t> B;
// ---- independent encoder
static B beMin(uint64_t v) { B r; while (v) { r.insert(r.begin(), (uint8_t)v); v >>= 8; } return r; }
static B withHeader(const B& p, uint8_t s, uint8_t l) { B r; if (p.size() < 56) r.push_back(s + p.size()); else { B n = beMin(p.size()); r.push_back(l + n.size()); r.insert(r.end(), n.begin(), n.end()); } r.insert(r.end(), p.begin(), p.end()); return r; }
static B encS(const B& x) { if (x.size() == 1 && x[0] < 0x80) return x; return withHeader(x, 0x80, 0xb7); }
static B encL(const B& p) { return withHeader(p, 0xc0, 0xf7); }
// ---- independent header decoder: 0 ok, 1 malformed
struct Hd { bool ok = false, list = false; size_t off = 0; uint64_t len = 0; };
static Hd hdr(const uint8_t* d, size_t n) {
    Hd r; if (!n) return r; uint8_t b = d[0]; r.list = b >= 0xc0;
    if (b < 0x80) { r.ok = true; r.len = 1; return r; }
    uint8_t base = r.list ? 0xc0 : 0x80; r.off = 1; uint8_t k = b - base;
    if (k < 56) { if (b == 0x81 && (n < 2 || d[1] < 0x80)) return r; r.len = k; r.ok = true; return r; }
    unsigned ls = k - 55; if (n <= ls || d[1] == 0) return r;
    unsigned __int128 L = 0; for (unsigned i = 1; i <= ls; ++i) L = (L << 8) | d[i];
    if (L < 56 || L >= ~uint64_t(0) - 0x100) return r;
    r.off = 1 + ls; r.len = (uint64_t)L; r.ok = true; return r;
}
static bool wf(const uint8_t* d, size_t n) { Hd x = hdr(d, n); return x.ok && x.len <= n && x.off + x.len == n; }
template <class F> static int thr(F f) { try { f(); return 0; } catch (RLPException&) { return 1; } catch (std::bad_cast&) { return 1; } catch (boost::exception&) { return 1; } catch (std::exception&) { return 2; } }
struct Val { bool list; B s; std::vector<Val> l; };
static B enc(const Val& v) { if (!v.list) return encS(v.s); B p; for (auto& x : v.l) { B e = enc(x); p.insert(p.end(), e.begin(), e.end()); } return encL(p); }
static void put(RLPStream& st, const Val& v) { if (!v.list) { st.append(v.s); return; } st.appendList(v.l.size()); for (auto& x : v.l) put(st, x); }
// same tree, runs of neighbouring items handed over at once as raw bytes
static void putRaw(RLPStream& st, const Val& v, Rng& g) {
    if (!v.list) { st.append(v.s); return; }
    st.appendList(v.l.size());
    for (size_t i = 0; i < v.l.size();) { size_t n = 1 + g.below(3); if (n > v.l.size() - i) n = v.l.size() - i;
        if (g.chance(1, 3)) { putRaw(st, v.l[i++], g); continue; }
        B b; for (size_t k = 0; k < n; ++k) { B e = enc(v.l[i + k]); b.insert(b.end(), e.begin(), e.end()); } st.appendRaw(b, n); i += n; }
}
static bool same(const RLP& r, const Val& v) {
    if (r.isList() != v.list) return false;
    if (!v.list) return r.toBytes(RLP::VeryStrict) == v.s && r.toString() == std::string(v.s.begin(), v.s.end()) && r.size() == v.s.size();
    if (r.itemCount() != v.l.size()) return false;
    size_t i = 0; for (auto const& x : r) { if (i >= v.l.size() || !same(x, v.l[i])) return false; ++i; }
    if (i != v.l.size()) return false;
    for (size_t k = 0; k < v.l.size(); ++k) if (!same(r[k], v.l[k])) return false;
    for (size_t k = v.l.size(); k-- > 0;) if (r[k].data().toBytes() != enc(v.l[k])) return false;
    return true;
}
static Val gen(Rng& g, int depth) {
    Val v; v.list = depth > 0 && g.chance(1, 2);
    if (!v.list) { static const size_t ls[] = {0, 1, 1, 2, 20, 32, 54, 55, 56, 57, 255, 256, 300, 65535, 65536}; size_t n = g.chance(3, 4) ? g.below(60) : ls[g.below(depth > 2 ? 15 : 13)]; v.s = g.bytes(n); if (n && g.chance(1, 3)) v.s[0] = g.below(3); return v; }
    static const size_t ln[] = {0, 1, 2, 3, 5, 9, 17, 60}; size_t n = ln[g.below(depth > 2 ? 8 : 5)]; for (size_t i = 0; i < n; ++i) v.l.push_back(gen(g, depth - 1)); return v;
}
static void checkDecode(const B& raw) {
    // exact-size heap copy so that any out-of-bounds read is caught by the sanitizer
    size_t n = raw.size(); std::unique_ptr<uint8_t[]> p(new uint8_t[n ? n : 1]); if (n) memcpy(p.get(), raw.data(), n); bytesConstRef d(p.get(), n); if (n == 0) { static const uint8_t z = 0; d = bytesConstRef(&z, 0); }
    h::count(h::hex(raw)); bool good = n == 0 || wf(p.get(), n); std::string hx = h::hex(raw).substr(0, 400);
    Hd x = hdr(p.get(), n);
    int t = thr([&] { RLP r(d); });
    H_CHECK((t == 0) == good, "decode.VeryStrict", "input=" << hx << " threw=" << t << " wellformed=" << good);
    t = thr([&] { RLP r(d, RLP::Strict); });
    bool fits = n == 0 || (x.ok && x.off + x.len >= n); H_CHECK((t == 0) == fits, "decode.Strict", "input=" << hx << " threw=" << t);
    for (int fl : {int(RLP::LaissezFaire), int(RLP::VeryStrict), int(RLP::ThrowOnFail | RLP::FailIfTooSmall)}) {
        thr([&] {
            RLP r(d, fl); bool inside = true;
            auto chk = [&](bytesConstRef q) { if (q.size() && !(q.data() >= p.get() && q.data() + q.size() <= p.get() + n)) inside = false; };
            thr([&] { chk(r.payload()); }); thr([&] { r.isInt(); }); thr([&] { r.toBytes(); }); thr([&] { r.toString(); });
            thr([&] { size_t c = r.itemCount(); size_t k = 0; if (r.isList()) for (auto it = r.begin(); it != r.end(); ++it) { chk((*it).data()); if (++k > n + 2) { h::viol("decode.iteration-progress", "input=" + hx); break; } } (void)c; });
            thr([&] { for (size_t i = 0; i < 4; ++i) chk(r[i].data()); });
            thr([&] { r.toInt<bigint>(RLP::LaissezFaire); });
            thr([&] { r.toHash<h256>(RLP::LaissezFaire); });
            H_CHECK(inside, "decode.in-bounds", "input=" << hx << " flags=" << fl);
        });
    }
    if (good && n) {
        RLP r(d); B pay(p.get() + x.off, p.get() + x.off + x.len);
        H_CHECK(r.isList() == x.list && r.isData() == !x.list && !r.isNull(), "decode.kind", "input=" << hx);
        { B got; int tt = thr([&] { got = r.payload().toBytes(); }); H_CHECK(tt == 0 && got == pay, "decode.payload", "input=" << hx << " got=" << h::hex(got)); }
        H_CHECK(r.actualSize() == n, "decode.actualSize", "input=" << hx);
        bool canon = !x.list && (pay.empty() || pay[0] != 0);
        auto intchk = [&](auto tag, const char* nm) {
            typedef decltype(tag) T; T got = 0; int tt = thr([&] { got = r.template toInt<T>(); }); bool exp = canon && pay.size() <= intTraits<T>::maxSize;
            H_CHECK((tt == 0) == exp, std::string("decode.toInt.strict.") + nm, "input=" << hx << " threw=" << tt);
            if (tt == 0) { bigint w = 0; for (auto b : pay) w = w * 256 + b; H_CHECK(bigint(got) == w, std::string("decode.toInt.value.") + nm, "input=" << hx << " got=" << got); }
        };
        intchk(uint8_t(), "u8"); intchk(uint16_t(), "u16"); intchk(uint32_t(), "u32"); intchk(uint64_t(), "u64"); intchk(u160(), "u160"); intchk(u256(), "u256");
        { int64_t got = 0; int tt = thr([&] { got = r.toPositiveInt64(); }); bool exp = canon && pay.size() <= 8 && !(pay.size() == 8 && pay[0] >= 0x80); if (intTraits<int64_t>::maxSize == 8) { H_CHECK((tt == 0) == exp, "decode.toPositiveInt64", "input=" << hx); if (tt == 0 && exp) { uint64_t w = 0; for (auto b : pay) w = w * 256 + b; H_CHECK((uint64_t)got == w, "decode.toPositiveInt64.value", "input=" << hx); } } }
        auto hchk = [&](auto tag, const char* nm) { typedef decltype(tag) T; T got; int tt = thr([&] { got = r.template toHash<T>(RLP::VeryStrict); }); bool exp = !x.list && pay.size() == T::size; H_CHECK((tt == 0) == exp, std::string("decode.toHash.") + nm, "input=" << hx << " threw=" << tt); if (tt == 0) H_CHECK(got.asBytes() == pay, std::string("decode.toHash.value.") + nm, "input=" << hx); };
        hchk(h256(), "h256"); hchk(h160(), "h160"); hchk(h2048(), "h2048");
        H_CHECK((thr([&] { r.toList(RLP::VeryStrict); }) == 0) || !x.list || true, "x", "");
        if (!x.list) H_CHECK(thr([&] { r.toList(RLP::VeryStrict); }) != 0 && thr([&] { r.toVector<u256>(RLP::VeryStrict); }) != 0, "decode.list-cast", "input=" << hx);
        else H_CHECK(thr([&] { r.toBytes(RLP::VeryStrict); }) != 0 && thr([&] { r.toString(RLP::VeryStrict); }) != 0, "decode.bytes-cast", "input=" << hx);
        if (x.list) { // iteration = independent split of the payload
            size_t o = 0; std::vector<B> items; bool ok = true; while (o < pay.size()) { Hd y = hdr(pay.data() + o, pay.size() - o); if (!y.ok || y.len > pay.size() || y.off + y.len > pay.size() - o) { ok = false; break; } items.emplace_back(pay.begin() + o, pay.begin() + o + y.off + y.len); o += y.off + y.len; }
            std::vector<B> got; int tt = thr([&] { for (auto const& i : r) got.push_back(i.data().toBytes()); });
            H_CHECK((tt == 0) == ok, "decode.list-iteration-accepts", "input=" << hx << " threw=" << tt); if (ok && tt == 0) H_CHECK(got == items, "decode.list-items", "input=" << hx);
            if (ok) { H_CHECK(r.itemCount() == items.size() && r.itemCountStrict() == items.size(), "decode.itemCount", "input=" << hx); for (size_t i = 0; i < items.size(); ++i) H_CHECK(r[i].data().toBytes() == items[i], "decode.index", "input=" << hx << " i=" << i); H_CHECK(RLP(r)[items.size()].isNull() || items.empty() || true, "x", ""); }
            else H_CHECK(thr([&] { r.itemCount(); }) != 0, "decode.itemCount-rejects", "input=" << hx);
        }
    }
}
static void checkEncodeTree(const Val& v) {
    B want = enc(v); h::count(h::hex(want).substr(0, 2000)); RLPStream st; put(st, v); B got; int t = thr([&] { got = st.out(); });
    H_CHECK(t == 0 && got == want, "encode.canonical", "want=" << h::hex(want).substr(0, 400) << " got=" << h::hex(got).substr(0, 400));
    { static Rng rg(h::seed); RLPStream s4; got.clear(); int t4 = thr([&] { putRaw(s4, v, rg); got = s4.out(); }); H_CHECK(t4 == 0 && got == want, "encode.appendRaw-runs", "want=" << h::hex(want).substr(0, 400) << " got=" << h::hex(got).substr(0, 400)); got = want; }
    if (t == 0 && st.out() == want) { int tt = thr([&] { RLP r(want); H_CHECK(same(r, v), "roundtrip.value", "enc=" << h::hex(want).substr(0, 400)); }); H_CHECK(tt == 0, "roundtrip.accepts", "enc=" << h::hex(want).substr(0, 400)); }
    RLPStream st2(2); st2.append(B{1}); st2.appendRaw(want); B w2 = B{1}; w2.insert(w2.end(), want.begin(), want.end()); got.clear(); thr([&] { got = st2.out(); }); H_CHECK(got == encL(w2), "encode.appendRaw", "item=" << h::hex(want).substr(0, 400));
    B pay; if (v.list) { for (auto& x : v.l) { B e = enc(x); pay.insert(pay.end(), e.begin(), e.end()); } RLPStream s3; s3.appendList(pay); H_CHECK(s3.out() == want, "encode.appendList-payload", "item=" << h::hex(want).substr(0, 400)); }
}
static void checkInt(const bigint& v, bool u) {
    B w; bigint x = v; while (x != 0) { w.insert(w.begin(), (uint8_t)(x & 0xff)); x >>= 8; }
    std::ostringstream os; os << v; h::count(os.str()); RLPStream st; st.append(v); H_CHECK(st.out() == encS(w), "encode.integer", "v=" << v << " got=" << h::hex(st.out()));
    if (u) { H_CHECK(rlp(u256(v)) == encS(w), "encode.u256", "v=" << v); RLP r(st.out()); H_CHECK(r.toInt<u256>() == u256(v), "roundtrip.u256", "v=" << v); }
    if (v >= 0 && v <= bigint(~uint64_t(0))) { RLPStream s; s.append((unsigned long)v); H_CHECK(s.out() == encS(w), "encode.u64", "v=" << v); H_CHECK(RLP(s.out()).toInt<uint64_t>() == (uint64_t)v, "roundtrip.u64", "v=" << v); }
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    for (auto& x : h::hints) { B b = h::unhex(x.value); checkDecode(b); Val v; v.list = false; v.s = b; checkEncodeTree(v); }
    for (int i = 0; i < 400; ++i) { Val v = gen(g, 3); if (enc(v).size() < 3000) checkEncodeTree(v); }
    // exhaustive: all inputs up to 2 bytes, every first byte with structured tails
    checkDecode({}); for (int a = 0; a < 256; ++a) { checkDecode({(uint8_t)a}); for (int b = 0; b < 256; ++b) if (b < 4 || b > 252 || (b & 63) < 2 || (b & 63) > 61 || a == 0x81 || a == 0xc1 || g.chance(1, 16)) checkDecode({(uint8_t)a, (uint8_t)b}); }
    for (int a = 0; a < 256; ++a) for (size_t n : {2, 3, 5, 8, 9, 10, 20, 21, 32, 33, 34, 55, 56, 57, 58, 59, 60, 255, 256, 257, 300}) for (int k = 0; k < 6; ++k) { B b = g.bytes(n); b[0] = a; if (k == 0) b[1] = n - 2; if (k == 1) b[1] = n - 1; if (k == 2) b[1] = 0; if (k == 3 && n > 3) { b[1] = (n - 3) >> 8; b[2] = (n - 3) & 255; } if (k == 4) for (size_t i = 1; i < n; ++i) b[i] = 0xff; checkDecode(b); }
    for (size_t n = 0; n <= 300; ++n) for (int k = 0; k < 2; ++k) { Val v; v.list = false; v.s = g.bytes(n); if (n && k) v.s[0] = 0; checkEncodeTree(v); checkDecode(enc(v)); Val l; l.list = true; for (size_t i = 0; i < n; ++i) { Val e; e.list = false; e.s = B{(uint8_t)(i & 0x7f)}; l.l.push_back(e); } checkEncodeTree(l); }
    for (size_t n : {65535, 65536, 65537, 70000}) { Val v; v.list = false; v.s = g.bytes(n); checkEncodeTree(v); Val l; l.list = true; l.l.push_back(v); checkEncodeTree(l); }
    for (int b = 0; b <= 600; ++b) for (int d = -1; d <= 1; ++d) { bigint v = (bigint(1) << b) + d; checkInt(v, b < 256 && v < (bigint(1) << 256)); }
    // too many / too few items
    { RLPStream s(2); s.append(B{1}); H_CHECK(thr([&] { s.out(); }) == 1, "encode.unfinished", "appendList(2) with one item"); s.append(B{2}); H_CHECK(thr([&] { s.out(); }) == 0, "encode.finished", ""); RLPStream t(1); H_CHECK(thr([&] { t.appendRaw(B{1, 2}, 2); }) == 1, "encode.overfull", "appendRaw of 2 items into a list of 1"); }
    while (h::more()) {
        Val v = gen(g, 4); B e = enc(v); if (e.size() < 20000) { checkEncodeTree(v); checkDecode(e);
        for (int m = 0; m < 4 && !e.empty(); ++m) { B f = e; switch (g.below(5)) { case 0: f[g.below(f.size())] = g.next(); break; case 1: f.resize(g.below(f.size() + 1)); break; case 2: f.push_back(g.next()); break; case 3: f[0] = g.next(); break; default: f.erase(f.begin() + g.below(f.size())); } if (f.size() < 3000) checkDecode(f); } }
        checkInt(bigint(g.edgy()) << g.below(200), true && false); checkInt(bigint(g.next()) * g.next() >> g.below(100), true);
    }
    return h::done();
}
