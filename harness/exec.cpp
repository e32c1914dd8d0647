// C15: transactions executed by Executive (with the interpreter) against a ledger kept beside it
#include "memdb.hpp"
#include <boost/log/core.hpp>
#include <libbatched-io/batched_db.h>
#include <libdevcore/SHA3.h>
#include <libethereum/SchainPatch.h>
#include <libethereum/Executive.h>
#include <libethereum/ExtVM.h>
#include <libethereum/LastBlockHashesFace.h>
#include <libethcore/ChainOperationParams.h>
#include <libethcore/CommonJS.h>
#include <libskale/OverlayDB.h>
#include <libskale/State.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; } // (libdevcore/Common.cpp does not compile with this boost)
// never reached here: recovery of a sender from a signature, files of the file storage contract
namespace dev { Public recover(Signature const&, h256 const&) { abort(); } }
namespace skutils::eth { std::string call_error_message_2_str(std::vector<unsigned char> const&) { abort(); } }
namespace skale { void OverlayFS::commit() { abort(); } }
#include <libevm/EVMC.h>
extern "C" evmc_instance* evmc_create_interpreter() { abort(); }
namespace dev::eth { EVMC::EVMC(evmc_instance* i) noexcept : evmc::vm(i) { abort(); } owning_bytes_ref EVMC::exec(u256&, ExtVMFace&, OnOpFunc const&) { abort(); } }
using namespace dev; using namespace dev::eth;
struct NoHashes : LastBlockHashesFace { h256s precedingHashes(h256 const&) const override { return h256s(256); } void clear() override {} };
struct Contract { const char* what; bytes code; };
static bytes hx(std::string const& s) { return h::unhex(s); }
static const Address TARGET(0x7777);
static std::vector<Contract> const KINDS{{"no code", {}}, {"stops", hx("00")}, {"loops", hx("5b600056")}, {"reverts", hx("60016000fd")}, {"clears a slot", hx("600060005500")}, {"sets a slot", hx("600160015500")}, {"destroys itself", hx("33ff")},
    {"passes the value on", hx("6000600060006000347300000000000000000000000000000000000077775af100")}, {"invalid", hx("fe")}, {"clears two slots", hx("6000600055600060025500")}, {"destroys itself for itself", hx("30ff")}};
static std::vector<Contract> const INITS{{"nothing", {}}, {"32 bytes", hx("60206000f3")}, {"0x10001 bytes", hx("620100016000f3")}, {"reverts", hx("60016000fd")}, {"invalid", hx("fe")}, {"16384 bytes", hx("6140006000f3")}, {"sets a slot", hx("600160015500")}};
static u256 big(h::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return r.below(5); case 2: return r.below(2000000); case 3: return u256(1) << r.below(256); case 4: return (u256(1) << r.below(256)) - 1; default: { u256 v = r.next(); for (int i = 0; i < 3; ++i) v = (v << 64) | r.next(); return v >> r.below(256); } } }
static void run(h::Rng& r) {
    auto m = std::make_shared<MemDB>(); auto b = std::make_unique<batched_io::batched_db>(); b->open(std::static_pointer_cast<db::DatabaseFace>(m));
    skale::State base(u256(0), skale::OverlayDB(std::move(b)), skale::BaseState::PreExisting, 0, s256(1) << 100); skale::State s = base.createStateModifyCopy();
    ChainOperationParams cp; cp.homesteadForkBlock = cp.EIP150ForkBlock = cp.EIP158ForkBlock = cp.byzantiumForkBlock = cp.constantinopleForkBlock = cp.constantinopleFixForkBlock = 0; cp.istanbulForkBlock = cp.experimentalForkBlock = u256(1) << 60; cp.chainID = 7; cp.externalGasDifficulty = 1; cp.skaleDisableChainIdCheck = false;
    for (auto& t : cp.sChain._patchTimestamps) t = 1;
    SchainPatch::init(cp); SchainPatch::useLatestBlockTimestamp(10);
    unsigned pcost = 100; Address PRE(5); cp.precompiled[PRE] = PrecompiledContract(pcost, 10, PrecompiledExecutor([](bytesConstRef in, auto&&...) -> std::pair<bool, bytes> { return {in.empty() || in[0] != 1, bytes(3, 9)}; }));
    BlockHeader bh; bh.setNumber(1000); u256 blockLimit = r.chance(1, 2) ? u256(10000000) : u256(1) << 60; bh.setGasLimit(blockLimit); Address author = r.chance(1, 4) ? Address(0x1111) : Address(0xAAAA); bh.setAuthor(author);
    NoHashes lh; u256 already = r.chance(1, 2) ? u256(0) : u256(r.below(10000000)); EnvInfo env(bh, lh, 10, already, 7);
    Address S(0x1111); u256 minPrice = r.chance(1, 2) ? u256(0) : u256(r.below(10));
    std::vector<Address> all{S, author, TARGET, PRE}; std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    std::string hist;
    unsigned n = 1 + r.below(4);
    for (unsigned i = 0; i < n; ++i) {
        // receiver
        bool create = r.chance(1, 4); unsigned kind = create ? r.below(INITS.size()) : r.below(KINDS.size() + 1); Address to; std::string what;
        if (create) what = std::string("creation with init code: ") + INITS[kind].what;
        else if (kind == KINDS.size()) { to = PRE; what = "precompiled contract"; }
        else { to = kind == 0 && r.chance(1, 3) ? S : Address(0x100 + kind); what = KINDS[kind].what; if (!s.addressHasCode(to) && kind) { s.setNonce(to, 1); s.setCode(to, bytes(KINDS[kind].code), 0); } if (kind == 4 || kind == 9) { s.setStorage(to, 0, 5); s.setStorage(to, 2, 5); } if (std::find(all.begin(), all.end(), to) == all.end()) all.push_back(to); }
        bytes data = create ? INITS[kind].code : r.bytes(r.chance(1, 2) ? 0 : r.below(40)); if (r.chance(1, 3)) for (auto& x : data) if (!create && r.chance(1, 2)) x = 0; if (!create && kind == KINDS.size() && r.chance(1, 3)) { data.assign(1, 1); }
        int64_t intrinsic = create ? 53000 : 21000; for (auto x : data) intrinsic += x ? 68 : 4;
        u256 gas; switch (r.below(7)) { case 0: gas = intrinsic - 1; break; case 1: gas = intrinsic; break; case 2: gas = intrinsic + r.below(200); break; case 3: gas = 100000; break; case 4: gas = blockLimit - already + r.below(3) - 1; break; case 5: gas = 60000 + r.below(3000000); break; default: gas = big(r); }
        u256 price = r.chance(1, 2) ? u256(r.below(12)) : big(r), value = r.chance(1, 2) ? u256(r.below(100)) : big(r); bigint cost = bigint(gas) * price + value;
        if ((create || kind == 2) && gas > 3000000 && r.chance(9, 10)) { gas = 3000000; cost = bigint(gas) * price + value; } if (kind == 2 && !create && gas > 8000000) { gas = 8000000; cost = bigint(gas) * price + value; }
        u256 bal; switch (r.below(5)) { case 0: case 1: bal = cost < (bigint(1) << 255) ? u256(cost) : big(r); break; case 2: bal = cost > 0 && cost < (bigint(1) << 255) ? u256(cost - 1) : big(r); break; case 3: bal = u256(1) << 250; break; default: bal = big(r); }
        if (bal > (u256(1) << 255)) bal = u256(1) << 255;
        s.setBalance(S, bal); for (auto& a : all) if (a != S && s.balance(a) > (u256(1) << 240)) s.setBalance(a, 1000);
        u256 nonce = s.getNonce(S), tn = r.chance(1, 8) ? nonce + r.below(3) - 1 : nonce; bool xt = r.chance(1, 8) && gas < 5000000; u256 egas = xt ? u256(intrinsic + r.below(200000)) : u256(0);
        Transaction t = create ? Transaction(value, price, gas, data, tn) : Transaction(value, price, gas, to, data, tn);
        t.m_vrs = SignatureStruct(h256(5), h256(r.chance(1, 15) ? u256("0x7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1") : u256(6)), 0); bool high = u256(t.m_vrs->s) == u256("0x7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1"); t.m_sender = S; uint64_t cid = r.chance(1, 12) ? 8 : 7; t.m_chainId = cid; t.m_externalGasIsChecked = true; if (xt) t.m_externalGas = egas;
        u256 g = xt ? egas : gas, p = xt ? u256(0) : price; bigint need = bigint(g) * p + value;
        bool ok = (xt || price >= minPrice) && tn == nonce && bal >= need && g >= intrinsic && bigint(already) + g <= blockLimit && cid == 7 && !high;
        std::ostringstream d; d << what << ", gas " << g << (xt ? " (external)" : "") << ", price " << p << ", value " << value << ", nonce " << tn << " (next " << nonce << "), balance " << bal << ", intrinsic " << intrinsic << ", block gas " << already << "/" << blockLimit << ", chain " << cid << (author == S ? ", sender is author" : ""); h::count(d.str()); if (getenv("DBG")) { printf("%s\n", d.str().c_str()); fflush(stdout); }
        std::map<Address, u256> before; for (auto& a : all) before[a] = s.balance(a);
        ExecutionResult res; Executive e(s, env, cp, minPrice, 0, false); e.setResultRecipient(res);
        bool acc = true; try { e.initialize(t); } catch (Exception const&) { acc = false; }
        H_CHECK(acc == ok, "accept", (acc ? "accepted: " : "refused: ") << d.str());
        if (!acc || !ok) { for (auto& a : all) H_CHECK(s.balance(a) == before[a], "refused-effect", "balance of " << a << " changed by a refused transaction: " << d.str()); H_CHECK(s.getNonce(S) == nonce, "refused-effect", "nonce changed by a refused transaction: " << d.str()); if (acc != ok) return; continue; }
        bool threw = false; try { if (!e.execute()) e.go(); e.finalize(); } catch (Exception const& x) { threw = true; }
        H_CHECK(!threw, "run", "an accepted transaction could not run: " << d.str()); if (threw) return;
        bool good = res.excepted == TransactionException::None; u256 used = res.gasUsed; Address made = res.newAddress;
        if (create && good && std::find(all.begin(), all.end(), made) == all.end()) { before[made] = 0; all.push_back(made); }
        d << ": used " << used << (good ? "" : ", failed");
        H_CHECK(used <= g && used >= intrinsic / 2, "gas-range", "gas used is out of range: " << d.str());
        bigint sb = 0, sa = 0; for (auto& a : all) { sb += before[a]; sa += s.balance(a); }
        bool burns = !create && kind == 10 && good; if (burns) sa += bigint(before[to]) + value; // what a contract leaves to itself is gone
        H_CHECK(sb == sa, "conservation", "the balances add up to " << sa << " instead of " << sb << ": " << d.str());
        bigint fee = bigint(used) * p; bool moved = good; bigint want = bigint(bal) - fee; if (author == S) want += fee; if (moved && !(!create && to == S)) want -= value; if (!create && kind == 6 && good) want += bigint(before[to]) + value;
        H_CHECK(bigint(s.balance(S)) == want, "charge", "the sender has " << s.balance(S) << " instead of " << want << ": " << d.str());
        if (author != S) H_CHECK(bigint(s.balance(author)) == bigint(before[author]) + fee, "fee", "the author got " << (bigint(s.balance(author)) - before[author]) << " instead of " << fee << ": " << d.str());
        H_CHECK(s.getNonce(S) == nonce + 1, "nonce", "the nonce went from " << nonce << " to " << s.getNonce(S) << ": " << d.str());
        // exact amounts for executions whose cost is known
        bigint exact = -1; bool known = false, expectGood = true;
        auto stop = [&](int64_t c, int64_t refund) { known = true; if (g >= intrinsic + c) { bigint u = intrinsic + c; bigint cap = u / 2; exact = u - (refund < cap ? bigint(refund) : cap); } else { exact = g; expectGood = false; } };
        if (!create) switch (kind) { case 0: case 1: stop(0, 0); break; case 2: case 8: known = true; exact = g; expectGood = false; break; case 3: stop(9, 0); known = true; expectGood = false; break; case 4: stop(5006, 15000); break; case 9: stop(10012, 30000); break; default: if (kind == KINDS.size()) { stop(pcost + 10 * ((data.size() + 31) / 32), 0); if (expectGood && !data.empty() && data[0] == 1) { exact = g; expectGood = false; } } }
        else switch (kind) { case 0: stop(0, 0); break; case 1: { if (g >= intrinsic + 9 + 6400) stop(9 + 6400, 0); else { known = true; expectGood = false; exact = g; } break; } case 2: case 4: known = true; expectGood = false; exact = g; break; case 3: stop(9, 0); expectGood = false; break; }
        if (known) { H_CHECK(bigint(used) == exact, "gas-exact", "gas used should be " << exact << ": " << d.str()); H_CHECK(good == expectGood, "outcome", d.str()); }
        if (create) { if (good && kind == 1) H_CHECK(s.code(made) == bytes(32, 0), "deposit", "code deposited is " << h::hex(s.code(made)) << ": " << d.str()); if (good) { H_CHECK(s.balance(made) == value, "endowment", "the contract has " << s.balance(made) << ": " << d.str()); RLPStream rs(2); rs << S << nonce; H_CHECK(made == right160(sha3(rs.out())), "address", d.str()); H_CHECK(s.getNonce(made) == 1, "contract-nonce", d.str()); } }
        else if (to != S && to != author && to != TARGET && kind != 6 && kind != 7 && kind != 10) H_CHECK(bigint(s.balance(to)) == bigint(before[to]) + (good ? bigint(value) : bigint(0)), "value", "the receiver has " << s.balance(to) << ": " << d.str());
        if (!create && good && (kind == 4 || kind == 9)) H_CHECK(s.storage(to, 0) == 0, "effect", "slot not cleared: " << d.str());
        if (!create && !good && (kind == 4 || kind == 9)) H_CHECK(s.storage(to, 0) == 5, "effect", "slot cleared by a failed transaction: " << d.str());
        if (!create && (kind == 6 || kind == 10)) { if (good) H_CHECK(s.balance(to) == 0 && s.getNonce(to) == 0, "destroyed", "the destroyed contract has " << s.balance(to) << ": " << d.str()); }
    }
}
int main(int c, char** v) {
    h::init(c, v); boost::log::core::get()->set_logging_enabled(false); std::cerr.setstate(std::ios::failbit);
    for (uint64_t i = 0; h::more(); ++i) { h::Rng r(h::seed * 1000003 + i); run(r); }
    return h::done();
}
