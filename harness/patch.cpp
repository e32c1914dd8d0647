// patches and fork rules: repository code against an independent table
#include "h.hpp"
#include <boost/log/core.hpp>
#include <libethereum/SchainPatch.h>
#include <libethcore/ChainOperationParams.h>
using namespace dev; using namespace dev::eth; using h::Rng;
static const char* NAMES[] = {"RevertableFSPatch", "PrecompiledConfigPatch", "PowCheckPatch", "CorrectForkInPowPatch", "ContractStorageZeroValuePatch", "PushZeroPatch", "ContractStoragePatch", "StorageDestructionPatch", "SkipInvalidTransactionsPatch", "SelfdestructStorageLimitPatch", "VerifyDaSigsPatch", "FastConsensusPatch", "EIP1559TransactionsPatch", "VerifyBlsSyncPatch", "FlexibleDeploymentPatch", "ExternalGasPatch"};
static const int NP = 16;
struct X : SchainPatch { static bool w(int e, time_t t) { return isPatchEnabledWhen((SchainPatchEnum)e, t); } static bool b(int e) { return isPatchEnabledInWorkingBlock((SchainPatchEnum)e); } };
template < class P > static void cls(int want, bool hasWhen, ChainOperationParams const& cp, time_t now, const std::string& d) {
    (void)hasWhen; time_t a = cp.sChain._patchTimestamps[want]; h::count(d); H_CHECK((int)P::getEnum() == want, "class.enum", NAMES[want]); H_CHECK(P::isEnabledInWorkingBlock() == (a != 0 && now >= a), "class.working", NAMES[want] << " " << d); }
template < class P > static void clsW(int want, ChainOperationParams const& cp, time_t t) { time_t a = cp.sChain._patchTimestamps[want]; H_CHECK(P::isEnabledWhen(t) == (a != 0 && t >= a), "class.when", NAMES[want] << " a=" << a << " t=" << t); }
static void patches(Rng& g, ChainOperationParams& cp) {
    for (int i = 0; i < NP; ++i) cp.sChain._patchTimestamps[i] = g.chance(1, 3) ? 0 : g.chance(1, 2) ? (time_t)g.below(6) : (time_t)(g.next() >> 2) - (g.chance(1, 4) ? (time_t)1 << 60 : 0);
    SchainPatch::init(cp); time_t now = g.chance(1, 2) ? (time_t)g.below(6) : cp.sChain._patchTimestamps[g.below(NP)] + (time_t)g.below(3) - 1; SchainPatch::useLatestBlockTimestamp(now); std::string d; for (int i = 0; i < NP; ++i) d += std::to_string(cp.sChain._patchTimestamps[i]) + ","; d += " now=" + std::to_string(now);
    for (int i = 0; i < NP; ++i) { time_t a = cp.sChain._patchTimestamps[i]; for (time_t t : {a - 1, a, a + 1, now, (time_t)0, (time_t)1}) H_CHECK(X::w(i, t) == (a != 0 && t >= a), "when", NAMES[i] << " a=" << a << " t=" << t); H_CHECK(X::b(i) == (a != 0 && now >= a), "working", NAMES[i] << " " << d); H_CHECK(cp.getPatchTimestamp((SchainPatchEnum)i) == a, "timestamp", NAMES[i]); }
#define C(P, i) cls< P >(i, true, cp, now, d);
#define W(P, i) C(P, i) clsW< P >(i, cp, now); clsW< P >(i, cp, cp.sChain._patchTimestamps[i] - 1); clsW< P >(i, cp, cp.sChain._patchTimestamps[i]);
    W(RevertableFSPatch, 0) C(PrecompiledConfigPatch, 1) W(PowCheckPatch, 2) W(CorrectForkInPowPatch, 3) C(ContractStorageZeroValuePatch, 4) W(PushZeroPatch, 5) C(ContractStoragePatch, 6) C(StorageDestructionPatch, 7) W(SelfdestructStorageLimitPatch, 9) W(VerifyDaSigsPatch, 10) W(EIP1559TransactionsPatch, 12) C(VerifyBlsSyncPatch, 13) W(FlexibleDeploymentPatch, 14) W(ExternalGasPatch, 15)
}
static std::vector<uint64_t> flat(EVMSchedule const& s) {
    std::vector<uint64_t> v{s.accountVersion, s.exceptionalFailedCodeDeposit, s.haveDelegateCall, s.eip150Mode, s.eip158Mode, s.eip1283Mode, s.haveBitwiseShifting, s.haveRevert, s.haveReturnData, s.haveStaticCall, s.haveCreate2, s.haveExtcodehash, s.haveChainID, s.haveSelfbalance, s.havePush0}; for (unsigned x : s.tierStepGas) v.push_back(x);
    for (unsigned x : {s.expGas, s.expByteGas, s.sha3Gas, s.sha3WordGas, s.sloadGas, s.sstoreSetGas, s.sstoreResetGas, s.sstoreUnchangedGas, s.sstoreRefundGas, s.sstoreRefundNonzeroGas, s.jumpdestGas, s.logGas, s.logDataGas, s.logTopicGas, s.createGas, s.callGas, s.callStipend, s.callValueTransferGas, s.callNewAccountGas, s.suicideRefundGas, s.memoryGas, s.quadCoeffDiv, s.createDataGas, s.txGas, s.txCreateGas, s.txDataZeroGas, s.txDataNonZeroGas, s.copyGas, s.extcodesizeGas, s.extcodecopyGas, s.extcodehashGas, s.balanceGas, s.suicideGas, s.blockhashGas, s.maxCodeSize}) v.push_back(x);
    v.push_back(s.blockRewardOverwrite ? (uint64_t)*s.blockRewardOverwrite : 0); return v; }
static void forks(Rng& g, ChainOperationParams& cp) {
    u256* f[] = {&cp.homesteadForkBlock, &cp.EIP150ForkBlock, &cp.EIP158ForkBlock, &cp.byzantiumForkBlock, &cp.constantinopleForkBlock, &cp.constantinopleFixForkBlock, &cp.istanbulForkBlock, &cp.experimentalForkBlock};
    EVMSchedule const* s[] = {&FrontierSchedule, &HomesteadSchedule, &EIP150Schedule, &EIP158Schedule, &ByzantiumSchedule, &ConstantinopleSchedule, &ConstantinopleFixSchedule, &IstanbulSchedule, &ExperimentalSchedule};
    uint64_t rw[] = {0, 0, 0, 0, 3000000000000000000ull, 2000000000000000000ull, 2000000000000000000ull, 2000000000000000000ull, 2000000000000000000ull};
    std::string d; u256 last = 0; bool mono = g.chance(1, 2); for (auto p : f) { *p = mono ? last + g.below(3) : g.chance(1, 4) ? u256(c_infiniteBlockNumber) : u256(g.below(8)); last = *p; d += p->str() + ","; }
    u256 rewd = g.next(); cp.setBlockReward(rewd); cp.sChain._patchTimestamps[5] = g.below(4); SchainPatch::init(cp);
    for (int k = 0; k < 6; ++k) { u256 b = k == 5 ? ~u256(0) : k == 4 ? *f[g.below(8)] : u256(g.below(20)); time_t t = g.below(5); int i = 8; while (i > 0 && b < *f[i - 1]) --i; EVMSchedule w = *s[i]; time_t a = cp.sChain._patchTimestamps[5]; if (i >= 2 && a != 0 && t >= a) w.havePush0 = true;
        std::string dd = d + " block=" + b.str() + " t=" + std::to_string(t) + " push0=" + std::to_string(a); h::count(dd); EVMSchedule r = cp.makeEvmSchedule(t, b); H_CHECK(flat(r) == flat(w) && !!r.blockRewardOverwrite == !!w.blockRewardOverwrite, "schedule", dd << " expected fork index " << i); H_CHECK(cp.blockReward(t, b) == (i >= 4 ? u256(rw[i]) : rewd), "reward", dd); }
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed); boost::log::core::get()->set_logging_enabled(false); ChainOperationParams cp;
    for (int i = 0; i < NP; ++i) { std::string n; try { n = getPatchNameForEnum((SchainPatchEnum)i); } catch (std::exception&) {} H_CHECK(n == NAMES[i], "name", i << " " << n); int k = -1; try { k = (int)getEnumForPatchName(NAMES[i]); } catch (std::exception&) {} H_CHECK(k == i, "enum", NAMES[i] << " " << k); for (std::string bad : {n + "x", n.substr(1), n.substr(0, n.size() - 1), std::string()}) { bool t = false; try { getEnumForPatchName(bad); } catch (std::out_of_range&) { t = true; } H_CHECK(t, "unknown", bad); } }
    for (int i : {16, 17, 1000, -1}) { bool t = false; try { getPatchNameForEnum((SchainPatchEnum)i); } catch (std::out_of_range&) { t = true; } H_CHECK(t, "unknown", i); }
    while (h::more()) { ChainOperationParams c2; patches(g, c2); forks(g, c2); }
    return h::done();
}
