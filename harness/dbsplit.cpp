// C11: several logical databases on one store, against one plain map per logical database
#include "memdb.hpp"
#include <libdevcore/SplitDB.h>
#include <libdevcore/LevelDB.h>
#include <libbatched-io/batched_db.h>
#include <boost/filesystem.hpp>
#include <boost/log/core.hpp>
using namespace dev; using namespace dev::db;
template <class D> void compare(const char* who, D const& d, Map const& m, h::Rng& r, std::string const& hist) {
    for (int i = 0; i < 3; ++i) {
        std::string k = rkey(r); if (!m.empty() && r.chance(1, 2)) { auto it = m.begin(); std::advance(it, r.below(m.size())); k = it->first; }
        auto it = m.find(k); std::vector<char> kb(k.begin(), k.end());
        H_CHECK(d.exists(Sl(kb.data(), kb.size())) == (it != m.end()), std::string(who) + "-exists", "key " << h::hex(k) << " after " << hist);
        H_CHECK(d.lookup(Sl(kb.data(), kb.size())) == (it == m.end() ? "" : it->second), std::string(who) + "-lookup", "key " << h::hex(k) << " after " << hist);
    }
    size_t stop = r.chance(1, 2) ? ~size_t(0) : r.below(m.size() + 1) + 1;
    auto e = each(d, stop); H_CHECK(e == seqOf(m, {}, stop), std::string(who) + "-forEach", "stop after " << (long)stop << ": got " << show(e) << " want " << show(seqOf(m, {}, stop)) << " after " << hist);
    std::string p = r.chance(1, 4) ? std::string() : rkey(r).substr(0, 1 + r.below(2)); stop = r.chance(1, 2) ? ~size_t(0) : r.below(m.size() + 1) + 1;
    auto q = eachP(d, p, stop); H_CHECK(q == seqOf(m, p, stop), std::string(who) + "-forEachWithPrefix", "prefix " << h::hex(p) << " stop after " << (long)stop << ": got " << show(q) << " want " << show(seqOf(m, p, stop)) << " after " << hist);
}
static void split(h::Rng& r, std::shared_ptr<DatabaseFace> back, bool lv, size_t nops) {
    SplitDB s(back); size_t n = 1 + (r.chance(1, 10) ? 60 + r.below(130) : r.below(4)); std::vector<DatabaseFace*> d; std::vector<Map> m(n); for (size_t i = 0; i < n; ++i) d.push_back(s.newInterface());
    struct B { size_t i; std::unique_ptr<WriteBatchFace> b; std::vector<Op> ops; }; std::vector<B> bs; std::string hist;
    auto pick = [&] { return n > 10 && r.chance(1, 2) ? (r.chance(1, 2) ? n - 1 - r.below(3) : 47 + r.below(5)) : r.below(n); };
    for (size_t o = 0; o < nops; ++o) {
        size_t i = pick(); std::string k = rkey(r), v = rkey(r, true); if (!m[i].empty() && r.chance(1, 3)) { auto it = m[i].begin(); std::advance(it, r.below(m[i].size())); k = it->first; }
        switch (r.below(6)) {
        case 0: case 1: d[i]->insert(k, v); m[i][k] = v; hist += " ins" + std::to_string(i) + ":" + h::hex(k) + "=" + h::hex(v); break;
        case 2: d[i]->kill(k); m[i].erase(k); hist += " kill" + std::to_string(i) + ":" + h::hex(k); break;
        case 3: if (bs.size() < 3) { bs.push_back({i, d[i]->createWriteBatch(), {}}); hist += " batch" + std::to_string(i); } break;
        case 4: if (!bs.empty()) { auto& b = bs[r.below(bs.size())]; bool ins = r.chance(2, 3); { std::string kk = k, vv = v; if (ins) b.b->insert(kk, vv); else b.b->kill(kk); kk.assign(kk.size(), 'x'); vv.assign(vv.size(), 'x'); } b.ops.push_back({ins, k, v}); hist += std::string(ins ? " bins" : " bkill") + std::to_string(b.i) + ":" + h::hex(k) + "=" + h::hex(v); } break;
        case 5: if (!bs.empty() && r.chance(1, 2)) { size_t j = r.below(bs.size()); for (auto& op : bs[j].ops) if (op.ins) m[bs[j].i][op.k] = op.v; else m[bs[j].i].erase(op.k); d[bs[j].i]->commit(std::move(bs[j].b)); hist += " commit" + std::to_string(bs[j].i); bs.erase(bs.begin() + j); } break;
        }
        size_t c = pick(); compare(lv ? "split-leveldb" : "split", *d[c], m[c], r, hist);
    }
    if (lv) for (size_t i = 0; i < n; ++i) { // the hash of one logical database depends on its own entries only
        secp256k1_sha256_t ctx; secp256k1_sha256_initialize(&ctx); for (auto& e : m[i]) { std::string kv = std::string(1, (char)i) + e.first + e.second; secp256k1_sha256_write(&ctx, kv.data(), kv.size()); }
        h256 w; secp256k1_sha256_finalize(&ctx, w.data()); H_CHECK(d[i]->hashBase() == w, "split-hashBase", "logical database " << i << " after " << hist); }
    h::count(hist);
}
static void splitter(h::Rng& r, size_t nops) {
    auto mem = std::make_shared<MemDB>(); auto bd = std::make_shared<batched_io::batched_db>(); bd->open(mem); batched_io::db_splitter s(bd);
    size_t n = 1 + (r.chance(1, 10) ? 60 + r.below(130) : r.below(4)); std::vector<batched_io::db_operations_face*> d; std::vector<Map> m(n), pend; for (size_t i = 0; i < n; ++i) d.push_back(s.new_interface()); pend = m; std::string hist;
    auto pick = [&] { return n > 10 && r.chance(1, 2) ? (r.chance(1, 2) ? n - 1 - r.below(3) : 47 + r.below(5)) : r.below(n); };
    for (size_t o = 0; o < nops; ++o) {
        size_t i = pick(); std::string k = rkey(r), v = rkey(r, true); if (!pend[i].empty() && r.chance(1, 3)) { auto it = pend[i].begin(); std::advance(it, r.below(pend[i].size())); k = it->first; }
        switch (r.below(6)) {
        case 0: case 1: case 2: { std::string kk = k, vv = v; d[i]->insert(kk, vv); kk.assign(kk.size(), 'x'); vv.assign(vv.size(), 'x'); } pend[i][k] = v; hist += " ins" + std::to_string(i) + ":" + h::hex(k) + "=" + h::hex(v); break;
        case 3: d[i]->kill(k); pend[i].erase(k); hist += " kill" + std::to_string(i) + ":" + h::hex(k); break;
        case 4: case 5: { bool c = r.chance(3, 4); batched_io::batched_face* f = r.chance(1, 2) ? (batched_io::batched_face*)bd.get() : dynamic_cast<batched_io::batched_face*>(d[i]); if (c) { f->commit(); m = pend; hist += " commit"; } else { f->revert(); pend = m; hist += " revert"; } break; }
        }
        size_t c = pick(); compare("splitter", *d[c], m[c], r, hist);
    }
    bd->revert(); h::count(hist);
}
int main(int argc, char** argv) {
    h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); h::Rng r(h::seed); boost::filesystem::path sc(h::scratch);
    { auto b = std::make_shared<MemDB>(); SplitDB s(b); std::vector<DatabaseFace*> d; for (int i = 0; i < 256; ++i) d.push_back(s.newInterface()); for (int i = 0; i < 256; ++i) d[i]->insert(std::string("k"), std::to_string(i)); for (int i = 0; i < 256; ++i) { auto e = each(*d[i]); H_CHECK(e == (Seq{{"k", std::to_string(i)}}), "split-256", "logical database " << i << " sees " << show(e)); } }
    { auto b = std::make_shared<MemDB>(); auto bd = std::make_shared<batched_io::batched_db>(); bd->open(b); batched_io::db_splitter s(bd); std::vector<batched_io::db_operations_face*> d; for (int i = 0; i < 256; ++i) d.push_back(s.new_interface()); for (int i = 0; i < 256; ++i) d[i]->insert(std::string("k"), std::to_string(i)); bd->commit(); for (int i = 0; i < 256; ++i) { auto e = each(*d[i]); H_CHECK(e == (Seq{{"k", std::to_string(i)}}), "splitter-256", "logical database " << i << " sees " << show(e)); } }
    unsigned long c = 0;
    while (h::more()) {
        split(r, std::make_shared<MemDB>(), false, 30); splitter(r, 30);
        if (c % 50 == 0) { auto p = sc / ("l" + std::to_string(c)); { auto l = std::make_shared<LevelDB>(p); split(r, l, true, 60); } boost::filesystem::remove_all(p); }
        ++c;
    }
    return h::done();
}
