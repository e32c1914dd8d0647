// C08, C09: the account state, its savepoints and rollbacks against plain maps copied at each savepoint
#include "memdb.hpp"
#include <boost/log/core.hpp>
#include <libbatched-io/batched_db.h>
#include <libdevcore/SHA3.h>
#include <libethereum/SchainPatch.h>
#include <libethcore/ChainOperationParams.h>
#include <libskale/OverlayDB.h>
#include <libskale/State.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; } // (libdevcore/Common.cpp does not compile with this boost)
using namespace dev; using namespace dev::eth;
struct Acc { u256 nonce = 0, bal = 0; bytes code; std::map<u256, u256> st; bool dirty = false, fresh = false; bool empty() const { return nonce == 0 && bal == 0 && code.empty(); } };
using World = std::map<Address, Acc>;
static const u256 KEYS[4] = {0, 1, u256(1) << 255, ~u256(0)};
static std::string nm(Address const& a) { return a.hex().substr(0, 4); }
static u256 val(h::Rng& r) { return r.chance(1, 3) ? u256(0) : r.chance(1, 4) ? (u256(r.next()) << 190) : u256(r.below(5)); }
struct Frame { size_t sp; World w; };
#ifdef TRANSFERS_ONLY
static void compare(skale::State const&, World const&, std::vector<Address> const&, u256, u256, const char*, std::string const&) {}
#undef H_CHECK
#define H_CHECK(c, key, msg) do { if (!strcmp(key, "debit") || !strcmp(key, "transfer-sum")) { if (!(c)) { std::ostringstream o_; o_ << msg; h::viol(key, o_.str()); } } else (void)(c); } while (0)
#else
static void compare(skale::State const& s, World const& w, std::vector<Address> const& A, u256 start, u256 funds, const char* key, std::string const& hist) {
    for (auto& a : A) {
        auto i = w.find(a); bool in = i != w.end(); H_CHECK(s.addressInUse(a) == in, key, "account " << nm(a) << (in ? " is gone" : " appeared") << " after" << hist); Acc x; x.bal = funds; if (in) x = i->second; // (an absent account shows the initial funds)
        H_CHECK(s.balance(a) == x.bal, key, "balance of " << nm(a) << " is " << s.balance(a) << " not " << x.bal << " after" << hist);
        H_CHECK(s.getNonce(a) == (in ? x.nonce : start), key, "nonce of " << nm(a) << " is " << s.getNonce(a) << " not " << x.nonce << " after" << hist);
        H_CHECK(s.code(a) == x.code, key, "code of " << nm(a) << " is " << h::hex(s.code(a)) << " after" << hist);
        H_CHECK(s.codeHash(a) == (x.code.empty() ? EmptySHA3 : sha3(x.code)), key, "code hash of " << nm(a) << " after" << hist);
        H_CHECK(s.codeSize(a) == x.code.size(), key, "code size of " << nm(a) << " after" << hist);
        H_CHECK(s.addressHasCode(a) == !x.code.empty(), key, "has code " << nm(a) << " after" << hist);
        H_CHECK(s.accountNonemptyAndExisting(a) == (in && !x.empty()), key, "non-empty " << nm(a) << " after" << hist);
        for (auto& k : KEYS) { auto j = x.st.find(k); u256 v = j == x.st.end() ? u256(0) : j->second; H_CHECK(s.storage(a, k) == v, key, "slot " << nm(a) << "[" << k << "] is " << s.storage(a, k) << " not " << v << " after" << hist); }
    }
}
#endif
static void run(h::Rng& r) {
    std::vector<Address> A{Address(0), Address(1), Address(u160(1) << 159), ~Address(), Address(r.next())};
    auto m = std::make_shared<MemDB>(); auto b = std::make_unique<batched_io::batched_db>(); b->open(std::static_pointer_cast<db::DatabaseFace>(m));
    u256 start = r.chance(1, 2) ? u256(0) : u256(r.below(3)), funds = r.chance(1, 2) ? u256(0) : u256(r.below(1000)); s256 limit = r.chance(1, 3) ? s256(32 * (1 + (int)r.below(6))) : s256(1) << 100;
    skale::State base(start, skale::OverlayDB(std::move(b)), skale::BaseState::PreExisting, funds, limit);
    skale::State s = base.createStateModifyCopy();
    ChainOperationParams cp; bool patch = r.chance(3, 4); cp.sChain._patchTimestamps[(int)SchainPatchEnum::ContractStoragePatch] = patch ? 1 : 0; SchainPatch::init(cp); SchainPatch::useLatestBlockTimestamp(10);
    World w; std::vector<Frame> fr; std::string hist; if (funds) hist += " (initial funds " + funds.str() + ")"; if (start) hist += " (first nonce " + start.str() + ")";
    auto touch = [&](Address const& a) -> Acc& { auto i = w.find(a); if (i == w.end()) { Acc n; n.nonce = start; n.bal = funds; n.fresh = true; i = w.emplace(a, n).first; } i->second.dirty = true; return i->second; };
    s256 used = 0; // slots in use, counted from the reference
    auto slots = [&] { s256 n = 0; for (auto& e : w) for (auto& q : e.second.st) if (q.second) ++n; return n; };
    unsigned steps = 6 + r.below(40);
    for (unsigned i = 0; i < steps; ++i) {
        Address a = A[r.below(A.size())], c = A[r.below(A.size())]; u256 v = val(r);
        switch (r.below(15)) {
        case 0: case 1: { Acc& x = touch(a); x.bal += v; s.addBalance(a, v); hist += " add(" + nm(a) + "," + v.str() + ")"; break; }
        case 2: { bool ok = v == 0 || (w.count(a) && w[a].bal >= v); bool got = true; hist += " sub(" + nm(a) + "," + v.str() + ")"; try { s.subBalance(a, v); } catch (NotEnoughCash const&) { got = false; } H_CHECK(ok == got, "debit", (got ? "accepted" : "refused") << " after" << hist); if (ok && v) touch(a).bal -= v; break; }
        case 3: case 4: { bool ok = v == 0 || (w.count(a) && w[a].bal >= v); bool got = true; hist += " transfer(" + nm(a) + "," + nm(c) + "," + v.str() + ")";
            u256 before = s.balance(a) + (a == c ? u256(0) : s.balance(c)); try { s.transferBalance(a, c, v); } catch (NotEnoughCash const&) { got = false; } H_CHECK(ok == got, "debit", (got ? "accepted" : "refused") << " after" << hist);
            if (ok) { if (v) touch(a).bal -= v; touch(c).bal += v; u256 after = s.balance(a) + (a == c ? u256(0) : s.balance(c)); H_CHECK(before == after, "transfer-sum", before << " became " << after << " after" << hist); } break; }
        case 5: { Acc& x = touch(a); x.bal = v; s.setBalance(a, v); hist += " setBalance(" + nm(a) + "," + v.str() + ")"; break; }
        case 6: { bool in = w.count(a); Acc& x = touch(a); x.nonce = in ? x.nonce + 1 : start + 1; s.incNonce(a); hist += " incNonce(" + nm(a) + ")"; break; }
        case 7: { Acc& x = touch(a); x.nonce = v; s.setNonce(a, v); hist += " setNonce(" + nm(a) + "," + v.str() + ")"; break; }
        case 8: { if (w.count(a)) break; touch(a); s.createContract(a); hist += " create(" + nm(a) + ")"; break; }
        case 9: { if (!w.count(a) || !w[a].code.empty()) break; bytes co = r.bytes(r.below(4)); hist += " code(" + nm(a) + "," + h::hex(co) + ")"; if (!w[a].dirty) { s.addBalance(a, 0); touch(a); } w[a].code = co; s.setCode(a, bytes(co), 0); break; }
        case 10: case 11: { if (!w.count(a)) break; u256 k = KEYS[r.below(4)]; if (limit < (s256(1) << 90) && fr.empty()) { fr.push_back({s.savepoint(), w}); hist += " savepoint"; } hist += " store(" + nm(a) + "[" + k.str().substr(0, 6) + "]=" + v.str() + ")"; Acc& x = touch(a); x.st[k] = v; 
            bool over = false; try { s.setStorage(a, k, v); } catch (dev::StorageOverflow const&) { over = true; }
            if (patch) H_CHECK(over == (slots() * 32 > limit), "storage-limit", (over ? "refused at " : "accepted at ") << slots() << " slots in use after" << hist);
            if (over) { size_t j = r.below(fr.size()); s.rollback(fr[j].sp); w = fr[j].w; fr.resize(j); hist += " overflow,rollback" + std::to_string(j); compare(s, w, A, start, funds, "rollback", hist); } break; }
        case 12: if (fr.size() < 6) { fr.push_back({s.savepoint(), w}); hist += " savepoint"; } break;
        case 13: if (!fr.empty()) { size_t j = r.below(fr.size()); s.rollback(fr[j].sp); w = fr[j].w; fr.resize(j + (r.chance(1, 3) ? 1 : 0)); hist += " rollback" + std::to_string(j); compare(s, w, A, start, funds, "rollback", hist); } break;
        case 14: if (r.chance(1, 2)) break; { if (limit < (s256(1) << 90)) break; bool rem = r.chance(1, 2); s.commit(rem ? CommitBehaviour::RemoveEmptyAccounts : CommitBehaviour::KeepEmptyAccounts); hist += rem ? " commit(remove empty)" : " commit";
            for (auto j = w.begin(); j != w.end();) { if (rem && j->second.dirty && j->second.empty()) { if (!j->second.st.empty()) return; j = w.erase(j); } else { j->second.dirty = false; ++j; } }
            fr.clear(); std::unordered_map<Address, u256> all = s.addresses(), want; for (auto& e : w) want[e.first] = e.second.bal; for (auto j = all.begin(); j != all.end();) ++j; H_CHECK(all == want, "touch", "accounts stored by the commit differ (" << all.size() << ", expected " << want.size() << ") after" << hist); compare(s, w, A, start, funds, "commit", hist);
            break; }
        }
        if (r.chance(1, 3)) compare(s, w, A, start, funds, "state", hist);
    }
    (void)used; h::count(hist);
}
int main(int argc, char** argv) { h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); h::Rng r(h::seed); while (h::more()) run(r); return h::done(); }
