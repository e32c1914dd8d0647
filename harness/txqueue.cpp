// C16: random histories on the transaction queue against plain maps per sender
#include "h.hpp"
#include <boost/log/core.hpp>
#include <libdevcrypto/Common.h>
#include <libethereum/TransactionQueue.h>
#include <libethereum/SchainPatch.h>
#include <libethcore/ChainOperationParams.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }
extern "C" void MicroProfileGetTokenC(MicroProfileToken*, const char*, const char*, uint32_t, MicroProfileTokenType) {}
using namespace dev; using namespace dev::eth;
static std::vector<std::vector<std::vector<Transaction>>> T;   // [sender][nonce][variant]
static std::vector<Address> A; enum { NS = 4, NN = 8, NV = 3 };
struct Id { unsigned s, n, v; bool operator<(Id const& o) const { return std::tie(s, n, v) < std::tie(o.s, o.n, o.v); } bool operator==(Id const& o) const { return s == o.s && n == o.n && v == o.v; } };
static std::map<h256, Id> byHash;
static Transaction const& tx(Id i) { return T[i.s][i.n][i.v]; }
static std::string nm(Id i) { return std::string(1, "ABCDEF"[i.s]) + std::to_string(i.n) + (i.v ? std::string(i.v, '\'') : ""); }
static size_t sz(Id i) { return tx(i).toBytes().size(); }
typedef std::map<unsigned, unsigned> M;   // nonce -> variant
struct Ref {
    M cur[NS], fut[NS]; std::set<Id> known, dropped; std::map<Id, int> cat;
    std::set<Id> all(M const* m) const { std::set<Id> r; for (unsigned s = 0; s < NS; ++s) for (auto& e : m[s]) r.insert({s, e.first, e.second}); return r; }
    void follow(unsigned s, unsigned n) { for (unsigned k = n + 1; fut[s].count(k); ++k) { cur[s][k] = fut[s][k]; cat[{s, k, cur[s][k]}] = 0; fut[s].erase(k); } }
    void remove(Id i) { auto j = cur[i.s].find(i.n); if (j != cur[i.s].end() && j->second == i.v) { cur[i.s].erase(j); known.erase(i); cat.erase(i); } }
};
static std::string ids(Transactions const& t) { std::string s; for (auto& x : t) s += " " + nm(byHash.at(x.sha3())); return s; }
static size_t bytesOf(std::set<Id> const& s) { size_t n = 0; for (auto& i : s) n += sz(i); return n; }
struct Limits { unsigned c, f, cb, fb; };
// per sender, in the order handed out: nonces increase among transactions of one category
static void order(Ref const& f, Transactions const& t, std::string const& hist, const char* key, bool cats) {
    std::map<std::pair<unsigned, int>, unsigned> last; std::set<Id> seen;
    for (auto& x : t) { Id i = byHash.at(x.sha3()); H_CHECK(seen.insert(i).second, "queue-distinct", nm(i) << " handed out twice:" << ids(t) << " after" << hist); auto c = f.cat.find(i); std::pair<unsigned, int> k{i.s, cats && c != f.cat.end() ? c->second : 0}; auto l = last.find(k);
        H_CHECK(l == last.end() || l->second < i.n, key, "the queue hands out" << ids(t) << " after" << hist); last[k] = i.n; }
}
static void compare(TransactionQueue& q, Ref& f, Limits l, std::string const& hist) {
    Transactions t = q.topTransactions(1000000, h256Hash()); std::set<Id> got; for (auto& x : t) got.insert(byHash.at(x.sha3())); auto want = f.all(f.cur), fut = f.all(f.fut);
    H_CHECK(got.size() == t.size(), "queue-distinct", "handed out twice:" << ids(t) << " after" << hist);
    H_CHECK(got == want, "queue-content", "the queue holds" << ids(t) << " after" << hist); order(f, t, hist, "queue-order", true);
    std::set<Id> gf; for (auto& x : q.debugGetFutureTransactions()) gf.insert(byHash.at(x.sha3())); H_CHECK(gf == fut, "queue-future", "the future transactions are" << ids(q.debugGetFutureTransactions()) << " after" << hist);
    auto s = q.status(); H_CHECK(s.current == want.size() && s.future == fut.size() && q.futureSize() == fut.size(), "queue-count", "reports " << s.current << " and " << s.future << " future, has " << want.size() << " and " << fut.size() << " after" << hist);
    H_CHECK(s.currentBytes == bytesOf(want) && s.futureBytes == bytesOf(fut), "queue-bytes", "reports " << s.currentBytes << " and " << s.futureBytes << " bytes, has " << bytesOf(want) << " and " << bytesOf(fut) << " after" << hist);
    std::set<Id> k; for (auto& h : q.knownTransactions()) k.insert(byHash.at(h)); H_CHECK(k == f.known, "queue-known", "known are " << k.size() << " not " << f.known.size() << " after" << hist);
    for (unsigned a = 0; a < NS; ++a) {
        H_CHECK(q.waiting(A[a]) == f.cur[a].size() + f.fut[a].size(), "queue-waiting", "waiting of " << a << " is " << q.waiting(A[a]) << " after" << hist);
        u256 mc = f.cur[a].empty() ? 0 : f.cur[a].rbegin()->first + 1, m = std::max(mc, u256(f.fut[a].empty() ? 0 : f.fut[a].rbegin()->first + 1)); H_CHECK(q.maxCurrentNonce(A[a]) == mc && q.maxNonce(A[a]) == m, "queue-maxnonce", "next nonce of " << a << " is " << q.maxNonce(A[a]) << " after" << hist);
    }
}
static void run(h::Rng& r) {
    Limits l{r.chance(1, 3) ? (unsigned)r.below(6) : 1000u, r.chance(1, 3) ? (unsigned)r.below(4) : 1000u, r.chance(1, 5) ? (unsigned)r.below(700) : 10000000u, r.chance(1, 5) ? (unsigned)r.below(500) : 10000000u};
    TransactionQueue q(l.c, l.f, l.cb, l.fb); Ref f; std::string hist; unsigned ready = 0; auto hd = q.onReady([&] { ++ready; });
    if (l.c < 1000) hist += " (limit " + std::to_string(l.c) + ")"; if (l.f < 1000) hist += " (future limit " + std::to_string(l.f) + ")"; if (l.cb < 10000000) hist += " (bytes " + std::to_string(l.cb) + ")"; if (l.fb < 10000000) hist += " (future bytes " + std::to_string(l.fb) + ")";
    bool exact = l.c >= 1000 && l.cb >= 10000000 && l.f >= 1000 && l.fb >= 10000000; unsigned ns = 1 + r.below(NS), nn = 2 + r.below(NN - 1);
    for (unsigned step = 0, n = 5 + r.below(40); step < n && !h::viols; ++step) {
        Id i{(unsigned)r.below(ns), (unsigned)r.below(nn), (unsigned)r.below(NV)}; Transaction const& t = tx(i); unsigned s = i.s;
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: case 4: {
            bool fut = r.chance(1, 4), retry = r.chance(1, 4); hist += (fut ? " importFuture(" : " import(") + nm(i) + (retry ? ",retry)" : ")");
            auto got = q.import(t, retry ? IfDropped::Retry : IfDropped::Ignore, fut); ImportResult want = ImportResult::Success;
            if (f.fut[s].count(i.n)) { f.known.erase({s, i.n, f.fut[s][i.n]}); f.fut[s].erase(i.n); }   // a transaction waiting for its predecessor gives way
            bool wasDropped = f.dropped.count(i);
            if (f.known.count(i)) want = ImportResult::AlreadyKnown; else if (wasDropped && !retry) want = ImportResult::AlreadyInChain;
            else if (f.cur[s].count(i.n)) want = ImportResult::SameNonceAlreadyInQueue;
            H_CHECK(got == want, "queue-import", "result " << (int)got << " not " << (int)want << " after" << hist);
            if (want == ImportResult::Success) { f.cur[s][i.n] = i.v; f.cat[i] = 0; f.known.insert(i); f.follow(s, i.n); 
                std::set<Id> c0 = f.all(f.cur), left; if (c0.size() > l.c || bytesOf(c0) > l.cb || l.f < 1000 || l.fb < 10000000) {   // some may have been given up to stay within the limits
                    for (auto& h : q.knownTransactions()) left.insert(byHash.at(h)); std::vector<Id> gone; for (auto& x : c0) if (!left.count(x)) gone.push_back(x);
                    if (c0.size() > l.c || bytesOf(c0) > l.cb) { // as many as needed and no more: putting back any one that was given up exceeds a limit
                        std::set<Id> kept = c0; if (!fut) { for (auto& x : gone) kept.erase(x); bool back = gone.empty() ? false : true; size_t small = ~size_t(0); for (auto& x : gone) small = std::min(small, sz(x)); if (back) { size_t big = 0; for (auto& x : gone) big = std::max(big, sz(x)); H_CHECK(kept.size() + 1 > l.c || bytesOf(kept) + big > l.cb, "queue-evict", "gave up more than needed after" << hist); } } }
                    if (!fut) for (auto& x : gone) f.remove(x); }
                if (fut && exact) { for (auto j = f.cur[s].lower_bound(i.n); j != f.cur[s].end();) { f.fut[s][j->first] = j->second; f.cat.erase({s, j->first, j->second}); j = f.cur[s].erase(j); } }
                else if (fut) { // resynchronise: the pieces are checked for consistency below
                    std::set<Id> before = f.all(f.cur), bf = f.all(f.fut); before.insert(bf.begin(), bf.end()); for (auto& m : f.cur) m.clear(); for (auto& m : f.fut) m.clear(); std::set<Id> kn;
                    for (auto& x : q.topTransactions(1000000, h256Hash())) { Id k = byHash.at(x.sha3()); H_CHECK(before.count(k), "queue-content", nm(k) << " appeared after" << hist); f.cur[k.s][k.n] = k.v; kn.insert(k); }
                    for (auto& x : q.debugGetFutureTransactions()) { Id k = byHash.at(x.sha3()); H_CHECK(before.count(k) && !kn.count(k), "queue-content", nm(k) << " appeared among the future ones after" << hist); f.fut[k.s][k.n] = k.v; kn.insert(k); }
                    f.known = kn; for (auto j = f.cat.begin(); j != f.cat.end();) if (f.all(f.cur).count(j->first)) ++j; else j = f.cat.erase(j); }
                auto c = f.all(f.cur), u = f.all(f.fut); H_CHECK(c.size() <= l.c && bytesOf(c) <= l.cb, "queue-limit", c.size() << " transactions of " << bytesOf(c) << " bytes after" << hist); if (fut) H_CHECK(u.size() <= l.f && bytesOf(u) <= l.fb, "queue-future-limit", u.size() << " future transactions of " << bytesOf(u) << " bytes after" << hist);
                H_CHECK(ready > 0, "queue-ready", "no notification after" << hist); }
            break; }
        case 5: { hist += " drop(" + nm(i) + ")"; q.drop(t.sha3()); if (f.known.count(i)) { f.dropped.insert(i); f.remove(i); } break; }
        case 6: { hist += " dropGood(" + nm(i) + ")"; q.dropGood(t); f.follow(s, i.n); if (f.known.count(i)) f.remove(i); break; }
        case 7: { if (!exact) break; hist += " setFuture(" + nm(i) + ")"; q.setFuture(t.sha3()); if (f.cur[s].count(i.n) && f.cur[s][i.n] == i.v) for (auto j = f.cur[s].lower_bound(i.n); j != f.cur[s].end();) { f.fut[s][j->first] = j->second; f.cat.erase({s, j->first, j->second}); j = f.cur[s].erase(j); } break; }
        case 8: { unsigned k = 1 + r.below(r.chance(1, 2) ? 1 : 5); bool mark = r.chance(2, 3); hist += (mark ? " take(" : " look(") + std::to_string(k) + ")"; Transactions g = q.topTransactions(k, 0, mark ? 1 : -1); size_t free = 0; for (auto& e : f.cat) free += e.second <= 0;
            H_CHECK(g.size() == std::min<size_t>(k, free), "queue-take", "took" << ids(g) << " of " << free << " after" << hist); order(f, g, hist, "queue-take-order", true);
            for (auto& x : g) { Id y = byHash.at(x.sha3()); H_CHECK(f.cat.count(y) && f.cat[y] <= 0, "queue-take-again", nm(y) << " was taken before; took" << ids(g) << " after" << hist);
                for (auto& e : f.cat) if (e.second <= 0 && e.first.s == y.s && e.first.n < y.n) { bool in = false; for (auto& z : g) in |= z.sha3() == tx(e.first).sha3(); H_CHECK(in, "queue-take-gap", "took" << ids(g) << " before " << nm(e.first) << " after" << hist); } }
            if (mark) for (auto& x : g) f.cat[byHash.at(x.sha3())] = 1; break; }
        case 9: { unsigned k = r.below(6); Transactions all = q.topTransactions(1000000, h256Hash()), g = q.topTransactions(k, h256Hash()); all.resize(std::min<size_t>(k, all.size())); H_CHECK(ids(all) == ids(g), "queue-prefix", ids(g) << " after" << hist);
            h256Hash avoid; avoid.insert(t.sha3()); Transactions w = q.topTransactions(1000000, avoid); for (auto& x : w) H_CHECK(!(byHash.at(x.sha3()) == i), "queue-avoid", nm(i) << " handed out although to be avoided after" << hist); H_CHECK(w.size() == f.all(f.cur).size() - f.all(f.cur).count(i), "queue-avoid", w.size() << " handed out after" << hist);
            if (r.chance(1, 10)) { hist += " clear"; q.clear(); f = Ref(); } break; }
        }
        compare(q, f, l, hist);
    }
    h::count(hist);
}
int main(int argc, char** argv) {
    h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); ChainOperationParams cp; SchainPatch::init(cp); SchainPatch::useLatestBlockTimestamp(10);
    T.resize(NS); for (unsigned s = 0; s < NS; ++s) { Secret k(h256(1000 + s * 77)); for (unsigned n = 0; n < NN; ++n) { T[s].push_back({}); for (unsigned v = 0; v < NV; ++v) { Transaction t(1, 1 + (v * 5 + s * 3 + n) % 4, 21000, Address(9), bytes(v * 20, 1), n, k); t.sender(); byHash[t.sha3()] = {s, n, v}; T[s][n].push_back(t); } } A.push_back(T[s][0][0].sender()); }
    h::Rng r(h::seed); while (h::more()) run(r); return h::done();
}
