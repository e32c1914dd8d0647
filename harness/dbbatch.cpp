// C12: a batching database hands all pending operations to the store in one batch at the commit point, in order, and nothing before
#include "memdb.hpp"
#include <libbatched-io/batched_db.h>
#include <libdevcore/LevelDB.h>
#include <libdevcore/SplitDB.h>
#include <boost/filesystem.hpp>
#include <boost/log/core.hpp>
#include <sys/wait.h>
#include <unistd.h>
using namespace dev; using namespace dev::db;
static std::string show(std::vector<Op> const& v) { std::string s; for (auto& o : v) s += (o.ins ? " ins " : " kill ") + h::hex(o.k) + (o.ins ? "=" + h::hex(o.v) : ""); return s; }
static void mem(h::Rng& r) {
    auto m = std::make_shared<MemDB>(); batched_io::batched_db d; H_CHECK(!d.is_open(), "open", "open before open()"); d.open(m); H_CHECK(d.is_open(), "open", "not open after open()"); std::vector<Op> pend; Map want; size_t commits = 0; std::string hist;
    for (int i = 0; i < 40; ++i) {
        std::string k = rkey(r), v = rkey(r, true); if (r.chance(1, 2)) { static const std::string few[] = {"a", "b", std::string("\0", 1)}; k = few[r.below(3)]; }
        switch (r.below(8)) {
        case 0: case 1: case 2: case 3: { std::string kk = k, vv = v; d.insert(kk, vv); kk.assign(kk.size(), 'x'); vv.assign(vv.size(), 'x'); } pend.push_back({true, k, v}); hist += " ins " + h::hex(k) + "=" + h::hex(v); break;
        case 4: case 5: { std::string kk = k; d.kill(kk); kk.assign(kk.size(), 'x'); } pend.push_back({false, k, ""}); hist += " kill " + h::hex(k); break;
        case 6: { unsigned n = m->commits.size(); d.commit(r.chance(1, 2) ? "x" : ""); hist += " commit";
            bool ok = pend.empty() ? (m->commits.size() == n || (m->commits.size() == n + 1 && m->commits.back().empty())) : (m->commits.size() == n + 1 && m->commits.back() == pend);
            H_CHECK(ok, "batch-commit", "after" << hist << ": " << m->commits.size() - n << " batches" << (m->commits.size() > n ? show(m->commits.back()) : "") << ", pending were" << show(pend));
            for (auto& o : pend) if (o.ins) want[o.k] = o.v; else want.erase(o.k); pend.clear(); commits = m->commits.size(); break; }
        case 7: d.revert(); pend.clear(); hist += " revert"; break;
        }
        H_CHECK(m->direct == 0, "batch-direct", "an operation bypassed the batch after" << hist); H_CHECK(m->commits.size() == commits && m->m == want, "batch-early", "the store changed before the commit after" << hist << ": " << show(m->m) << " want " << show(want));
        H_CHECK(d.lookup(Sl(k.data(), k.size())) == (want.count(k) ? want[k] : "") && d.exists(Sl(k.data(), k.size())) == (want.count(k) > 0), "batch-read", "key " << h::hex(k) << " after" << hist);
        size_t stop = r.chance(1, 2) ? ~size_t(0) : 1 + r.below(3); H_CHECK(each(d, stop) == seqOf(want, "", stop), "batch-forEach", "after" << hist); H_CHECK(eachP(d, k.substr(0, 1), stop) == seqOf(want, k.substr(0, 1), stop), "batch-forEachWithPrefix", "prefix " << h::hex(k.substr(0, 1)) << " after" << hist);
    }
    d.revert(); h::count(hist);
}
template <class D> void sameAs(D const& d, Map const& m, const char* who, std::string const& hist, h::Rng& r) {
    size_t stop = r.chance(1, 2) ? ~size_t(0) : 1 + r.below(3); auto e = each(d, stop); H_CHECK(e == seqOf(m, "", stop), std::string(who) + "-content", "got " << show(e) << " want " << show(seqOf(m, "", stop)) << " after" << hist);
    std::string p = rkey(r).substr(0, 1); if (!m.empty() && r.chance(1, 2)) p = m.begin()->first.substr(0, 1); H_CHECK(eachP(d, p, stop) == seqOf(m, p, stop), std::string(who) + "-prefix", "prefix " << h::hex(p) << " after" << hist);
    for (int i = 0; i < 3; ++i) { std::string k = rkey(r); if (!m.empty() && i) k = m.begin()->first; auto it = m.find(k); H_CHECK(d.exists(k) == (it != m.end()) && d.lookup(k) == (it == m.end() ? "" : it->second), std::string(who) + "-lookup", "key " << h::hex(k) << " after" << hist); }
}
static void ldb(h::Rng& r, boost::filesystem::path const& p) {
    Map m; std::string hist; int64_t reopen = r.chance(1, 2) ? -1 : 0; auto mk = [&] { return std::make_unique<LevelDB>(p, LevelDB::defaultReadOptions(), LevelDB::defaultWriteOptions(), LevelDB::defaultDBOptions(), reopen); };
    auto d = mk(); struct B { std::unique_ptr<WriteBatchFace> b; std::vector<Op> ops; }; std::vector<B> bs;
    for (int i = 0; i < 60; ++i) {
        std::string k = rkey(r), v = rkey(r, true); if (!m.empty() && r.chance(1, 2)) { auto it = m.begin(); std::advance(it, r.below(m.size())); k = it->first; }
        switch (r.below(7)) {
        case 0: d->insert(k, v); m[k] = v; hist += " ins " + h::hex(k) + "=" + h::hex(v); break;
        case 1: d->kill(k); m.erase(k); hist += " kill " + h::hex(k); break;
        case 2: case 3: case 4: { if (bs.empty() || (bs.size() < 3 && r.chance(1, 4))) bs.push_back({d->createWriteBatch(), {}}); auto& b = bs[r.below(bs.size())]; bool ins = r.chance(2, 3); if (ins) b.b->insert(k, v); else b.b->kill(k); b.ops.push_back({ins, k, v}); hist += (ins ? " bins " : " bkill ") + h::hex(k) + "=" + h::hex(v); break; }
        case 5: if (!bs.empty()) { size_t j = r.below(bs.size()); for (auto& o : bs[j].ops) if (o.ins) m[o.k] = o.v; else m.erase(o.k); d->commit(std::move(bs[j].b)); bs.erase(bs.begin() + j); hist += " commit"; } break;
        case 6: if (r.chance(1, 4)) { d.reset(); d = mk(); hist += " reopen"; } else if (r.chance(1, 4)) { d->doCompaction(); hist += " compact"; } break;
        }
        sameAs(*d, m, "leveldb", hist, r);
    }
    secp256k1_sha256_t ctx; secp256k1_sha256_initialize(&ctx); for (auto& e : m) { std::string kv = e.first + e.second; secp256k1_sha256_write(&ctx, kv.data(), kv.size()); } h256 w; secp256k1_sha256_finalize(&ctx, w.data()); H_CHECK(d->hashBase() == w, "leveldb-hashBase", "after" << hist);
    h::count(hist);
}
// the process ends at a commit point; the next process sees exactly the batches committed before it
static void crash(h::Rng& r, boost::filesystem::path const& p) {
    size_t n = 1 + r.below(5), at = r.below(n); Map want; std::vector<std::vector<Op>> bat(n); std::string hist;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0, c = r.below(6); j < c; ++j) bat[i].push_back({r.chance(2, 3), rkey(r).substr(0, 2), rkey(r, true)});
    for (size_t i = 0; i < at; ++i) for (auto& o : bat[i]) if (o.ins) want[o.k] = o.v; else want.erase(o.k);
    bool split = r.chance(1, 2); for (auto& b : bat) hist += " [" + show(b) + " ]"; hist += " crash at commit " + std::to_string(at);
    std::vector<std::string> args = {"child", p.string(), std::to_string(at), split ? "1" : "0"}; for (auto& b : bat) { for (auto& o : b) { args.push_back(o.ins ? "ins" : "kill"); args.push_back(h::hex(o.k)); args.push_back(h::hex(o.v)); } args.push_back("commit"); }
    int s = again(args); H_CHECK(s == 33, "crash-point", "exit status " << s << " after" << hist); if (s != 33) return;
    auto bd = std::make_shared<batched_io::batched_db>(); bd->open(std::make_shared<LevelDB>(p)); batched_io::db_splitter sp(bd); auto* f = split ? sp.new_interface() : (batched_io::db_operations_face*)bd.get(); auto e = each(*f); H_CHECK(e == seqOf(want), "crash-content", "got " << show(e) << " want " << show(want) << " after" << hist); bd->revert(); h::count(hist);
}
static int child(int argc, char** argv) {
    auto str = [&](int i) { auto v = h::unhex(argv[i]); return std::string(v.begin(), v.end()); };
    try { batched_io::test_enable_crash_at(std::string("crash") + argv[3]); auto bd = std::make_shared<batched_io::batched_db>(); bd->open(std::make_shared<LevelDB>(argv[2])); batched_io::db_splitter s(bd); auto* f = argv[4][0] == '1' ? s.new_interface() : (batched_io::db_operations_face*)bd.get(); int c = 0;
        for (int i = 5; i < argc; ++i) { std::string a = argv[i]; if (a == "commit") { bd->commit("crash" + std::to_string(c++)); continue; } if (a == "ins") f->insert(str(i + 1), str(i + 2)); else f->kill(str(i + 1)); i += 2; } } catch (...) { _exit(44); }
    _exit(0);
}
int main(int argc, char** argv) {
    if (argc > 4 && std::string(argv[1]) == "child") { boost::log::core::get()->set_logging_enabled(false); return child(argc, argv); }
    h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); h::Rng r(h::seed); boost::filesystem::path sc(h::scratch); unsigned long c = 0;
    while (h::more()) { for (int i = 0; i < 20; ++i) mem(r); auto p = sc / ("b" + std::to_string(c)); if (c % 2) ldb(r, p); else crash(r, p); boost::filesystem::remove_all(p); ++c; }
    return h::done();
}
