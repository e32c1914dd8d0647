// range masks: repository code against plain sets, random operation sequences (small windows placed anywhere in the unsigned range)
#include "h.hpp"
#include <libdevcore/RangeMask.h>
#include <climits>
using namespace dev; using h::Rng; typedef std::set<uint64_t> Set; typedef uint64_t u;
struct M { RangeMask m; Set s; u a = 0, b = 0; };
static std::string str(const M& x) { std::ostringstream o; o << x.m; o << " ground=" << x.a << ".." << x.b << " set={"; for (auto e : x.s) o << e << ","; o << "}"; return o.str(); }
static void check(const M& x, u base, u span, const std::string& how) {
    h::count(how + str(x)); std::string d = how + " -> " + str(x);
    H_CHECK(x.m.all().first == x.a && x.m.all().second == x.b, "ground", d);
    for (u e = base > 2 ? base - 2 : 0; e <= base + span + 2 && e <= UINT_MAX; ++e) {
        H_CHECK(x.m.contains(e) == (x.s.count(e) > 0), "contains", d << " e=" << e);
        auto it = x.s.upper_bound(e); u want = it == x.s.end() ? x.b : *it; H_CHECK(x.m.next(e) == want, "next", d << " e=" << e << " got=" << x.m.next(e));
    }
    auto it = x.s.upper_bound(UINT_MAX); (void)it; H_CHECK(x.m.next(UINT_MAX) == x.b, "next-max", d);
    H_CHECK(x.m.size() == x.s.size(), "size", d << " got=" << x.m.size()); H_CHECK(x.m.empty() == x.s.empty(), "empty", d); H_CHECK(x.m.full() == (x.s.size() == x.b - x.a), "full", d);
    Set got; u n = 0; for (auto i = x.m.begin(); i != x.m.end() && n <= x.s.size() + 2; ++i, ++n) got.insert(*i); H_CHECK(got == x.s && n == x.s.size(), "iterate", d); n = 0; got.clear(); for (auto i = x.m.begin(); i != x.m.end() && n <= x.s.size() + 2; ++n) got.insert(*i++); H_CHECK(got == x.s && n == x.s.size(), "iterate-post", d);
    u f = x.a; while (x.s.count(f)) ++f; H_CHECK(x.m.firstOut() == f, "firstOut", d); H_CHECK(x.m.lastIn() == (x.s.empty() ? x.a : *x.s.rbegin()), "lastIn", d);
    for (unsigned k : {0u, 1u, 2u, 3u, 5u, 9u, 100u, UINT_MAX - 1, UINT_MAX}) { RangeMask l = x.m.lowest(k); Set w; for (auto e : x.s) if (w.size() < k) w.insert(e); bool ok = l.size() == w.size() && l.all() == x.m.all(); for (u e = base > 2 ? base - 2 : 0; e <= base + span + 2 && e <= UINT_MAX; ++e) if (l.contains(e) != (w.count(e) > 0)) ok = false; H_CHECK(ok, "lowest", d << " k=" << k << " got=" << l); }
}
static Set compl_(const M& x) { Set r; for (u e = x.a; e < x.b; ++e) if (!x.s.count(e)) r.insert(e); return r; }
static M rnd(Rng& g, u base, u span) { M x; x.a = base + g.below(span); x.b = x.a + g.below(base + span - x.a + 1); x.m = RangeMask((unsigned)x.a, (unsigned)x.b); if (x.a == x.b) return x; for (u k = g.below(5); k--;) { u p = x.a + g.below(x.b - x.a), q = p + g.below(x.b - p + 1); x.m += RangeMask::Range(p, q); for (u e = p; e < q; ++e) x.s.insert(e); } return x; }
static void opseq(Rng& g, u base, u span) {
    M x = rnd(g, base, span); std::string how = "start " + str(x); check(x, base, span, how);
    for (int i = 0; i < 8 && !h::viols; ++i) {
        std::ostringstream o; M before = x; u p = x.a < x.b ? x.a + g.below(x.b - x.a) : x.a, q = p + (x.b > p ? g.below(x.b - p + 1) : 0); M y = rnd(g, base, span);
        switch (g.below(12)) {
        case 0: if (x.a < x.b) { if (g.chance(1, 2)) x.m += (unsigned)p; else x.m.unionWith((unsigned)p); x.s.insert(p); o << "+=" << p; } break;
        case 1: if (g.chance(1, 2)) x.m += RangeMask::Range(p, q); else x.m.unionWith(RangeMask::Range(p, q)); for (u e = p; e < q; ++e) x.s.insert(e); o << "+=[" << p << "," << q << ")"; break;
        case 2: { RangeMask r = g.chance(1, 2) ? x.m + y.m : x.m.unionedWith(y.m); if (g.chance(1, 2)) x.m += y.m; else x.m = r; x.s.insert(y.s.begin(), y.s.end()); x.a = std::min(x.a, y.a); x.b = std::max(x.b, y.b); o << "+=" << str(y); break; }
        case 3: if (g.chance(1, 2)) x.m.invert(); else x.m = g.chance(1, 2) ? ~x.m : x.m.inverted(); x.s = compl_(x); o << "~"; break;
        case 4: if (x.a < x.b) { if (g.chance(1, 2)) x.m -= (unsigned)p; else x.m = x.m - (unsigned)p; x.s.erase(p); o << "-=" << p; } break;
        case 5: if (g.chance(1, 2)) x.m -= RangeMask::Range(p, q); else x.m = x.m - RangeMask::Range(p, q); for (u e = p; e < q; ++e) x.s.erase(e); o << "-=[" << p << "," << q << ")"; break;
        case 6: if (g.chance(1, 2)) x.m -= y.m; else x.m = x.m - y.m; for (auto e : y.s) x.s.erase(e); x.a = std::min(x.a, y.a); x.b = std::max(x.b, y.b); o << "-=" << str(y); break;
        case 7: { u e = base + g.below(span); x.m.extendAll(e); x.a = std::min(x.a, e); x.b = std::max(x.b, e + 1); o << "extendAll " << e; break; }
        case 8: x.m += x.m; o << "+=self"; break;
        case 9: if (g.chance(1, 4)) { x.m -= x.m; x.s.clear(); o << "-=self"; } break;
        case 10: if (g.chance(1, 6)) { x.m.clear(); x.s.clear(); o << "clear"; } break;
        case 11: if (g.chance(1, 8)) { x.m.reset(); x.s.clear(); x.a = x.b = 0; o << "reset"; } break;
        }
        if (x.b - x.a > 4000) return;
        check(x, base, span, str(before) + " " + o.str());
    }
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    // all masks inside a window of 6 elements, all single ranges and elements
    for (unsigned base : {0u, 1u, 1000u, UINT_MAX - 6}) for (unsigned bits = 0; bits < 64; ++bits) for (unsigned p = 0; p < 6; ++p) for (unsigned q = p; q <= 6; ++q) { M x; x.a = base; x.b = base + 6; x.m = RangeMask(base, base + 6); for (unsigned i = 0; i < 6; ++i) if (bits >> i & 1) { x.m += base + i; x.s.insert(base + i); } x.m += RangeMask::Range(base + p, base + q); for (unsigned e = p; e < q; ++e) x.s.insert(base + e); check(x, base, 6, "all"); M y = x; y.m -= RangeMask::Range(base + p, base + q); for (unsigned e = p; e < q; ++e) y.s.erase(base + e); check(y, base, 6, "all-minus"); }
    while (h::more()) { u span = 1 + g.below(40), base = g.below(4) == 0 ? 0 : g.below(3) == 0 ? UINT_MAX - span : g.below(UINT_MAX - span); opseq(g, base, span); }
    return h::done();
}
