// C10: the state overlay database against one plain reference (committed and current content)
#include "memdb.hpp"
#include <boost/filesystem.hpp>
#include <boost/log/core.hpp>
#include <libbatched-io/batched_db.h>
#include <libdevcore/LevelDB.h>
#include <libethereum/SchainPatch.h>
#include <libskale/OverlayDB.h>
using namespace dev; using namespace dev::db; 
struct Flaky : MemDB { int fail = 0; bool may = false; // commits that fail before they succeed
    void commit(std::unique_ptr<WriteBatchFace> b) override { if (fail > 0) { --fail; BOOST_THROW_EXCEPTION(DatabaseError()); } MemDB::commit(std::move(b)); } };
struct Ref { std::map<h160, std::string> acc; std::map<std::pair<h160, int>, std::string> aux; std::map<std::pair<h160, h256>, h256> st; h256 last; bytes rec; s256 used = 0; };
static std::string bin(bytes const& b) { return std::string(b.begin(), b.end()); }
static void run(h::Rng& r, std::shared_ptr<DatabaseFace> store, std::function<std::shared_ptr<DatabaseFace>()> reopen, Flaky* flaky) {
    auto open = [&](std::shared_ptr<DatabaseFace> s) { auto b = std::make_unique<batched_io::batched_db>(); b->open(s); return std::make_unique<skale::OverlayDB>(std::move(b)); };
    auto o = open(store); Ref now, com; std::string hist; if (!flaky) store.reset();
    h160 A[3] = {h160(1), h160(u160(1) << 159), ~h160()}; h256 S[3] = {h256(0), h256(7), ~h256()};
    bool usedSet = false;
    for (int i = 0; i < 30; ++i) {
        h160 a = A[r.below(3)]; h256 s = S[r.below(3)]; int sp = r.chance(1, 2) ? 0xFF : (int)r.below(2); bytes v = r.bytes(1 + r.below(4)); bytesConstRef vr(v.data(), v.size()); std::string n = std::to_string(i);
        switch (r.below(14)) {
        case 0: case 1: o->insert(a, vr); now.acc[a] = bin(v); hist += " ins " + a.hex().substr(0, 4) + "=" + h::hex(v); break;
        case 2: o->kill(a); now.acc.erase(a); hist += " kill " + a.hex().substr(0, 4); break;
        case 3: case 4: o->insertAuxiliary(a, vr, sp); now.aux[{a, sp}] = bin(v); hist += " aux " + a.hex().substr(0, 4) + "." + std::to_string(sp) + "=" + h::hex(v); break;
        case 5: o->killAuxiliary(a, sp); now.aux.erase({a, sp}); hist += " killaux " + a.hex().substr(0, 4) + "." + std::to_string(sp); break;
        case 6: case 7: { h256 x = r.chance(1, 3) ? h256() : h256(r.next()); o->insert(a, s, x); now.st[{a, s}] = x; hist += " store " + a.hex().substr(0, 4) + "[" + s.hex().substr(60) + "]=" + x.hex().substr(48); break; }
        case 8: { h256 x(r.next()); o->setLastExecutedTransactionHash(x); now.last = x; hist += " last"; break; }
        case 9: { o->setPartialTransactionReceipts(v); now.rec = v; hist += " receipts=" + h::hex(v); break; }
        case 10: { now.used = s256(r.below(1000)); o->updateStorageUsage(now.used); hist += " used=" + now.used.str(); usedSet = true; break; }
        case 11: { if (!usedSet) { o->updateStorageUsage(now.used); usedSet = true; } // (the counter is set before every commit, as State::commit does)
            if (flaky && flaky->may && r.chance(1, 4)) { flaky->may = false; flaky->fail = 1; hist += " (first try fails)"; }
            o->commit(n); com = now; hist += " commit"; break; }
        case 12: o->rollback(); now = com; hist += " rollback"; break;
        case 13: if (r.chance(1, 3)) { o->clearDB(); bool em = o->empty(); H_CHECK(em, "overlay-clear", "entries left after clearDB after" << hist); o.reset(); now = com = Ref(); o = open(reopen()); usedSet = false; hist += " clear+reopen"; }
            else if (r.chance(1, 2)) { o.reset(); o = open(reopen()); now = com; usedSet = false; o->updateStorageUsage(now.used); hist += " reopen"; } break;
        }
        for (auto& x : A) {
            auto w = now.acc.find(x); H_CHECK(o->lookup(x) == (w == now.acc.end() ? "" : w->second), "overlay-lookup", "account " << x.hex().substr(0, 4) << " got '" << h::hex(o->lookup(x)) << "' after" << hist); H_CHECK(o->exists(x) == (w != now.acc.end()), "overlay-exists", "account " << x.hex().substr(0, 4) << " after" << hist);
            for (int p : {0, 1, 0xFF}) { auto y = now.aux.find({x, p}); H_CHECK(o->lookupAuxiliary(x, p) == (y == now.aux.end() ? "" : y->second), "overlay-aux", "auxiliary " << x.hex().substr(0, 4) << "." << p << " got '" << h::hex(o->lookupAuxiliary(x, p)) << "' after" << hist); }
            for (auto& q : S) { auto y = now.st.find({x, q}); H_CHECK(o->lookup(x, q) == (y == now.st.end() ? h256() : y->second), "overlay-storage", "slot " << x.hex().substr(0, 4) << "[" << q.hex().substr(60) << "] after" << hist); }
            std::map<u256, u256> ws, gs; for (auto& e : com.st) if (e.first.first == x && e.second != h256()) ws[u256(e.first.second)] = u256(e.second); for (auto& e : o->storage(x)) if (e.second) gs[e.first] = e.second; H_CHECK(ws == gs, "overlay-iterate-storage", "committed storage of " << x.hex().substr(0, 4) << " after" << hist);
        }
        std::map<h160, std::string> ga; for (auto& e : o->accounts()) ga[e.first] = e.second; H_CHECK(ga == com.acc, "overlay-accounts", "committed accounts after" << hist);
        H_CHECK(o->getLastExecutedTransactionHash() == now.last, "overlay-last", "after" << hist); H_CHECK(o->getPartialTransactionReceipts() == now.rec, "overlay-receipts", "after" << hist); H_CHECK(o->storageUsed() == com.used, "overlay-used", "got " << o->storageUsed() << " after" << hist);
    }
    h::count(hist);
}
int main(int argc, char** argv) {
    h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); h::Rng r(h::seed); boost::filesystem::path sc(h::scratch); unsigned long c = 0;
    while (h::more()) {
        auto m = std::make_shared<Flaky>(); m->may = c % 100 == 5; run(r, m, [&] { return std::static_pointer_cast<DatabaseFace>(m); }, m.get());
        if (++c % 16 == 0) { auto p = sc / ("o" + std::to_string(c)); auto op = [&] { return std::static_pointer_cast<DatabaseFace>(std::make_shared<LevelDB>(p)); }; run(r, op(), op, nullptr); boost::filesystem::remove_all(p); }
    }
    return h::done();
}
