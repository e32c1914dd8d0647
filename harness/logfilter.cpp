// log filters against a direct definition; blooms never lose a match
#include "h.hpp"
#include <libethereum/LogFilter.h>
#include <libethereum/TransactionReceipt.h>
#include <libethereum/Block.h>
#include <libdevcore/SHA3.h>
using namespace dev; using namespace dev::eth; using h::Rng;
struct F { std::vector<Address> a; std::vector<h256> t[4]; };
static bool matches(const F& f, const LogEntry& e) {
    if (f.a.size() && std::find(f.a.begin(), f.a.end(), e.address) == f.a.end()) return false;
    for (unsigned i = 0; i < 4; ++i) if (f.t[i].size()) { if (e.topics.size() <= i) return false; if (std::find(f.t[i].begin(), f.t[i].end(), e.topics[i]) == f.t[i].end()) return false; }
    return true;
}
static bool eq(const LogEntry& a, const LogEntry& b) { return a.address == b.address && a.topics == b.topics && a.data == b.data; }
static bool has(const LogBloom& b, const LogBloom& part) { return (b & part) == part; }
static LogBloom bit(h256 const& hs) { LogBloom b; auto d = hs.data(); for (int i = 0; i < 3; ++i) { unsigned n = ((d[2 * i] << 8) | d[2 * i + 1]) & 2047; b[255 - n / 8] |= 1 << (n % 8); } return b; }
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    while (h::more()) {
        std::vector<Address> as; std::vector<h256> ts; for (int i = 0; i < 4; ++i) { as.push_back(Address(g.next())); ts.push_back(h256(g.next())); }
        ts[3] = h256(); if (g.chance(1, 4)) as[3] = Address();
        F f; LogFilter lf(g.below(10), g.below(10)); unsigned na = g.below(3); std::string d = "filter:";
        for (unsigned i = 0; i < na; ++i) { unsigned k = g.below(4); lf = lf.address(as[k]); d += " a" + std::to_string(k); if (std::find(f.a.begin(), f.a.end(), as[k]) == f.a.end()) f.a.push_back(as[k]); }
        for (unsigned p = 0; p < 5; ++p) { unsigned n = g.chance(1, 2) ? 0 : g.below(3); for (unsigned i = 0; i < n; ++i) { unsigned k = g.below(4); lf = lf.topic(p, ts[k]); if (p < 4) { d += " t" + std::to_string(p) + "=" + std::to_string(k); if (std::find(f.t[p].begin(), f.t[p].end(), ts[k]) == f.t[p].end()) f.t[p].push_back(ts[k]); } } }
        H_CHECK(lf.getAddresses() == f.a, "build.addresses", d); for (int p = 0; p < 4; ++p) H_CHECK(lf.getTopics()[p] == f.t[p], "build.topics", d);
        H_CHECK(lf.isRangeFilter() == (f.a.empty() && f.t[0].empty() && f.t[1].empty() && f.t[2].empty() && f.t[3].empty()), "range", d);
        LogEntries log; unsigned n = g.below(6); d += " log:";
        for (unsigned i = 0; i < n; ++i) { unsigned k = g.below(4), m = g.below(5); d += " a" + std::to_string(k) + "("; h256s tt; for (unsigned j = 0; j < m; ++j) { unsigned q = g.below(4); tt.push_back(ts[q]); d += std::to_string(q); } d += ")"; tt.shrink_to_fit(); log.push_back(LogEntry(as[k], tt, g.bytes(g.below(5)))); }
        h::count(d + std::to_string(g.next() % 7));
        TransactionReceipt r = g.chance(1, 2) ? TransactionReceipt(uint8_t(1), 21000, log) : TransactionReceipt(h256(5), 21000, log);
        LogEntries want; for (auto& e : log) if (matches(f, e)) want.push_back(e);
        LogBloom all; for (auto& e : log) { LogBloom b = bit(dev::sha3(e.address)); for (auto& t : e.topics) b |= bit(dev::sha3(t)); H_CHECK(e.bloom() == b, "bloom.entry", d); all |= b; }
        H_CHECK(r.bloom() == all, "bloom.receipt", d);
        LogEntries got = lf.matches(r); bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); ++i) same = eq(got[i], want[i]);
        H_CHECK(same, "matches", d << " returned=" << got.size() << " expected=" << want.size());
        // the pre-checks: a block's bloom is the union over its receipts
        LogBloom block = all; if (g.chance(1, 2)) { LogBloom o; for (int i = 0; i < 3; ++i) o |= bit(h256(g.next())); block |= o; }
        bool dims = f.a.empty(); for (auto& a : f.a) dims = dims || has(block, bit(dev::sha3(a))); for (auto& t : f.t) { bool k = t.empty(); for (auto& x : t) k = k || has(block, bit(dev::sha3(x))); dims = dims && k; }
        H_CHECK(lf.matches(block) == dims, "bloom.filter", d); if (!want.empty()) H_CHECK(lf.matches(block), "bloom.loses", d);
        auto poss = lf.bloomPossibilities(); bool anyp = false; for (auto& p : poss) anyp = anyp || has(block, p);
        size_t combos = std::max<size_t>(1, f.a.size()); for (auto& t : f.t) combos *= std::max<size_t>(1, t.size());
        H_CHECK(poss.size() == (lf.isRangeFilter() ? 0 : combos), "possibilities.count", d << " got=" << poss.size()); H_CHECK(lf.isRangeFilter() || anyp == dims, "possibilities", d);
        RLPStream s; lf.streamRLP(s); auto rlp = s.out(); RLP q(rlp); H_CHECK(q[0].toVector<Address>() == f.a, "rlp", d);
    }
    return h::done();
}
