// hex-prefix encoding and nibble views: repository code against plain nibble vectors
#include "h.hpp"
#include <libdevcore/TrieCommon.h>
using namespace dev; using h::Rng; typedef std::vector<int> N; typedef std::vector<uint8_t> B;
static B pack(const N& n) { B b; for (size_t i = 0; i + 1 < n.size() + 1; i += 2) b.push_back(n[i] * 16 + (i + 1 < n.size() ? n[i + 1] : 0)); return b; }
static std::string want(const N& p, bool leaf) { N f; f.push_back((leaf ? 2 : 0) + p.size() % 2); if (p.size() % 2 == 0) f.push_back(0); f.insert(f.end(), p.begin(), p.end()); B b = pack(f); return std::string(b.begin(), b.end()); }
static std::string str(const N& n) { std::string s; for (int x : n) s += "0123456789abcdef"[x]; return s; }
static N nibs(NibbleSlice s) { N r; for (unsigned i = 0; i < s.size(); ++i) r.push_back(s[i]); return r; }
struct V { B b; unsigned o; NibbleSlice s() const { return NibbleSlice(bytesConstRef(&b), o); } };
// a view whose nibbles are exactly n (offset chosen so that the view ends at a byte boundary)
static V view(const N& n, Rng& g) { N f; unsigned pre = (n.size() % 2) + 2 * g.below(3); for (unsigned i = 0; i < pre; ++i) f.push_back(g.below(16)); f.insert(f.end(), n.begin(), n.end()); return V{pack(f), pre}; }
static void path(const N& p, bool leaf, Rng& g) {
    std::string w = want(p, leaf), d = "path=" + str(p) + " leaf=" + std::to_string(leaf); h::count(d); V v = view(p, g);
    H_CHECK(hexPrefixEncode(v.s(), leaf) == w, "encode.view", d << " offset=" << v.o << " got=" << h::hex(hexPrefixEncode(v.s(), leaf)));
    B raw(p.begin(), p.end()); H_CHECK(hexPrefixEncode(raw, leaf) == w, "encode.nibbles", d);
    if (p.size()) { unsigned b = g.below(p.size() + 1), e = b + g.below(p.size() - b + 1); N sub(p.begin() + b, p.begin() + e); H_CHECK(hexPrefixEncode(v.s(), leaf, b, e) == want(sub, leaf), "encode.view.range", d << " " << b << ".." << e); H_CHECK(hexPrefixEncode(raw, leaf, b, e) == want(sub, leaf), "encode.nibbles.range", d << " " << b << ".." << e);
        N tail(p.begin() + b, p.end()); H_CHECK(hexPrefixEncode(v.s(), leaf, b) == want(tail, leaf) && hexPrefixEncode(raw, leaf, b) == want(tail, leaf), "encode.tail", d << " from " << b); }
    { unsigned c = g.below(p.size() + 1); N a(p.begin(), p.begin() + c), b(p.begin() + c, p.end()); V x = view(a, g), y = view(b, g); H_CHECK(hexPrefixEncode(x.s(), y.s(), leaf) == w, "encode.two", d << " cut=" << c << " got=" << h::hex(hexPrefixEncode(x.s(), y.s(), leaf))); }
    B enc(w.begin(), w.end()); NibbleSlice k = keyOf(bytesConstRef(&enc)); H_CHECK(nibs(k) == p && k.size() == p.size() && k.empty() == p.empty(), "keyOf", d << " got=" << str(nibs(k)));
    RLPStream s(2); s << w << "value"; bytes o = s.out(); RLP r(o); H_CHECK(isLeaf(r) == leaf && nibs(keyOf(r)) == p, "node", d);
}
static void views(const N& a, const N& b, Rng& g) {
    std::string d = "a=" + str(a) + " b=" + str(b); h::count(d); V x = view(a, g), y = view(b, g); NibbleSlice s = x.s(), t = y.s(); unsigned sh = 0; while (sh < a.size() && sh < b.size() && a[sh] == b[sh]) ++sh;
    H_CHECK(s.shared(t) == sh && t.shared(s) == sh, "shared", d << " got=" << s.shared(t)); H_CHECK(s.contains(t) == (sh == b.size()), "contains", d); H_CHECK((s == t) == (a == b) && (s != t) == (a != b), "equal", d);
    bool e = sh == b.size() ? false : sh == a.size() ? true : a[sh] < b[sh]; H_CHECK(s.isEarlierThan(t) == e, "isEarlierThan", d);
    for (unsigned i = 0; i <= a.size(); ++i) { N m(a.begin() + i, a.end()); H_CHECK(nibs(s.mid(i)) == m, "mid", d << " i=" << i); } auto c = s; c.clear(); H_CHECK(c.empty() && c.size() == 0, "clear", d);
    std::ostringstream os; os << s; H_CHECK(os.str() == str(a), "print", d);
    unsigned b1 = g.below(a.size() + 1), e1 = b1 + g.below(a.size() - b1 + 1), b2 = g.below(b.size() + 1), e2 = b2 + g.below(b.size() - b2 + 1), w = 0; while (b1 + w < e1 && b2 + w < e2 && a[b1 + w] == b[b2 + w]) ++w; H_CHECK(sharedNibbles(s.data, s.offset + b1, s.offset + e1, t.data, t.offset + b2, t.offset + e2) == w, "sharedNibbles", d);
}
static void branch(Rng& g) {
    RLPStream s(17); std::set<int> used; for (int i = 0; i < 17; ++i) { if (g.chance(1, 12)) { used.insert(i); s << "x"; } else s << ""; } bytes o = s.out(); for (int ex : {0, 5, 15, 16, 255, (int)g.below(17)}) { std::set<int> u = used; u.erase(ex); int w = u.size() == 1 ? *u.begin() : 255; H_CHECK(uniqueInUse(RLP(o), ex) == w, "uniqueInUse", h::hex(o) << " except=" << ex); } h::count(h::hex(o));
}
static N rnd(Rng& g, unsigned n) { N r; unsigned m = g.chance(1, 2) ? 16 : 2; while (n--) r.push_back(g.chance(1, 3) ? 15 : g.below(m)); return r; }
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed); std::map<std::string, std::string> seen;
    for (unsigned len = 0; len < 5; ++len) for (unsigned x = 0; x < (1u << (4 * len)) && (len < 4 || x < 20000); ++x) for (int l = 0; l < 2; ++l) { N p; for (unsigned i = 0; i < len; ++i) p.push_back(x >> (4 * i) & 15); path(p, l, g); B raw(p.begin(), p.end()); std::string e = hexPrefixEncode(raw, l), id = str(p) + (l ? "L" : "E"); auto it = seen.find(e); H_CHECK(it == seen.end() || it->second == id, "injective", id << " and " << it->second); seen[e] = id; }
    B none; H_CHECK(keyOf(bytesConstRef(&none)).empty(), "keyOf.empty", "");
    while (h::more()) { N p = rnd(g, g.below(80)); path(p, g.below(2), g); N q = p; if (g.chance(1, 2) && q.size()) q.resize(g.below(q.size() + 1)); N t = rnd(g, g.below(4)); q.insert(q.end(), t.begin(), t.end()); if (g.chance(1, 3) && q.size()) q[g.below(q.size())] ^= 1; views(p, q, g); views(q, p, g); branch(g); }
    return h::done();
}
