from common import *
SRC = os.path.join(VERIF, 'tu/patch.cpp')
# the order of the configuration vector and the kind of each patch: True = can be asked for an explicit timestamp
NAMES = [('RevertableFSPatch', 1), ('PrecompiledConfigPatch', 0), ('PowCheckPatch', 1), ('CorrectForkInPowPatch', 1), ('ContractStorageZeroValuePatch', 0), ('PushZeroPatch', 1), ('ContractStoragePatch', 0), ('StorageDestructionPatch', 0), ('SkipInvalidTransactionsPatch', None), ('SelfdestructStorageLimitPatch', 1), ('VerifyDaSigsPatch', 1), ('FastConsensusPatch', None), ('EIP1559TransactionsPatch', 1), ('VerifyBlsSyncPatch', 0), ('FlexibleDeploymentPatch', 1), ('ExternalGasPatch', 1)]
WANT = ['dev::eth::*', 'SchainPatch::*', 'getEnumForPatchName', 'getPatchNameForEnum'] + [n + '::*' for n, _ in NAMES]
S = dict(src=SRC, want=WANT, mode='int')
And, Or, Not = z3.And, z3.Or, z3.Not
CO = 'dev::eth::ChainOperationParams::'
NP = len(NAMES)
def enumerators(u):
    """the declared enumerators, from the current source"""
    for t in u.T:
        if t['k'] == 'enum' and t.get('qn') == 'SchainPatchEnum' and 'enums' in t: return t['enums']
def params(u, name='cp'):
    """chain parameters: arbitrary patch timestamps, fork blocks and block reward; the other fields do not matter"""
    rt = next(t for t in u.T if t['k'] == 'rec' and t['qn'] == 'dev::eth::ChainOperationParams' and 'rec' in t)
    f = {}
    for fd in u.I.all_fields(rt):
        t = u.T[fd['t']]; iv = u.I.as_bigint(t)
        if fd['n'] == 'sChain':
            ts = [int_in(u, '%s.patch.%s' % (name, n), 64, True) for n, _ in NAMES]
            f['sChain'] = RecV('dev::eth::SChain', {'_patchTimestamps': u.I.seq_of(ts)})
        elif iv: f[fd['n']] = int_in(u, name + '.' + fd['n'], *iv)
        else: f[fd['n']] = OpaqueV(fd['n'])
    v = RecV(rt['qn'], f); return u.I.new(v, name), v, [x.t for x in ts]
def setglobals(u):
    loc, v, ts = params(u); now = int_in(u, 'committedBlockTimestamp', 64, True)
    u.I.cfg['globals'] = {'SchainPatch::chainParams': lambda I, gd: v, 'SchainPatch::committedBlockTimestamp': lambda I, gd: now}
    return ts, now.t
def active(ts, now): return And(ts != 0, now >= ts)
def u_names(u):
    i = u.p.choose(NP); n = NAMES[i][0]; e = IntV(i, 32, True)
    got = u.I.val(u.call('getPatchNameForEnum', [e])); u.cover('returns')
    u.prove('patch %d is named %s' % (i, n), u.I.veq(got, u.I.bytes_const(list(n.encode()))))
    back = u.call('getEnumForPatchName', [u.I.new(u.I.bytes_const(list(n.encode())))]); u.prove('%s maps back to patch %d' % (n, i), u.I.veq(back, e))
def u_unknown(u):
    i = int_in(u, 'enum', 32, True); ex, _ = u.throws(u.call, 'getPatchNameForEnum', [i])
    u.prove('a number without a patch is refused, every other one is named', Or(i.t < 0, i.t >= NP) if ex else And(i.t >= 0, i.t < NP)); u.cover('returns', z3.BoolVal(ex is None))
    if ex: u.prove('refused with out_of_range', ex == 'std::out_of_range')
def u_unknown_name(u):
    loc, s = bytes_in(u, 'name', maxlen=40, signed=True, kind='str'); ex, r = u.throws(u.call, 'getEnumForPatchName', [loc]); u.cover('returns')
    if ex: u.prove('refused with out_of_range', ex == 'std::out_of_range'); u.prove('no patch name is refused', And(*[Not(B(u.I.veq(s, u.I.bytes_const(list(n.encode()))))) for n, _ in NAMES]))
    else: u.prove('only the name of the patch returned', Or(*[And(r.t == i, B(u.I.veq(s, u.I.bytes_const(list(n.encode()))))) for i, (n, _) in enumerate(NAMES)]))
def u_when(u):
    ts, now = setglobals(u); i = u.p.choose(NP); t = int_in(u, 't', 64, True)
    r = u.call('SchainPatch::isPatchEnabledWhen', [IntV(i, 32, True), t]); u.cover('returns'); u.prove('active exactly when configured and reached', B(r) == active(ts[i], t.t))
    r = u.call('SchainPatch::isPatchEnabledInWorkingBlock', [IntV(i, 32, True)]); u.prove('working block: active exactly when configured and the committed timestamp has reached it', B(r) == active(ts[i], now))
def u_class(u):
    ts, now = setglobals(u); i = u.p.choose(NP); n, kind = NAMES[i]
    if kind is None: u.prove('no class', True); return
    t = int_in(u, 't', 64, True); u.cover('returns')
    u.prove('%s reads its own timestamp' % n, u.call(n + '::getEnum', []).t == i)
    u.prove('%s active in the working block exactly when reached' % n, B(u.call(n + '::isEnabledInWorkingBlock', [])) == active(ts[i], now))
    if kind: u.prove('%s active at a timestamp exactly when reached' % n, B(u.call(n + '::isEnabledWhen', [t])) == active(ts[i], t.t))
def u_latest(u):
    setglobals(u); t = int_in(u, 't', 64, True); u.call('SchainPatch::useLatestBlockTimestamp', [t]); u.cover('returns')
    ts, _ = u.I.read(u.I.global_loc(next(g for g, d in u.I.tu.globals.items() if d['qn'] == 'SchainPatch::chainParams'), 'SchainPatch::chainParams')).f['sChain'].f['_patchTimestamps'], 0
    i = u.p.choose(NP); u.prove('later queries use the new timestamp', B(u.call('SchainPatch::isPatchEnabledInWorkingBlock', [IntV(i, 32, True)])) == active(ts.get(i).t, t.t))
def u_get(u):
    loc, v, ts = params(u); i = u.p.choose(NP); u.cover('returns'); u.prove('each patch has its own timestamp', u.call(CO + 'getPatchTimestamp', [loc, IntV(i, 32, True)]).t == ts[i])
def u_init(u):
    u.I.contracts = dict(u.I.contracts, **{'SchainPatch::printInfo': lambda I, e, fr, a: None}); loc, v, ts = params(u); setglobals2(u); u.call('SchainPatch::init', [loc]); u.cover('returns'); t = int_in(u, 't', 64, True); i = u.p.choose(NP)
    u.prove('patches follow the given parameters', B(u.call('SchainPatch::isPatchEnabledWhen', [IntV(i, 32, True), t])) == active(ts[i], t.t))
def setglobals2(u):
    _, v, _ = params(u, 'old'); u.I.cfg['globals'] = {'SchainPatch::chainParams': lambda I, gd: v}
FORKS = [('experimentalForkBlock', 'ExperimentalSchedule'), ('istanbulForkBlock', 'IstanbulSchedule'), ('constantinopleFixForkBlock', 'ConstantinopleFixSchedule'), ('constantinopleForkBlock', 'ConstantinopleSchedule'), ('byzantiumForkBlock', 'ByzantiumSchedule'), ('EIP158ForkBlock', 'EIP158Schedule'), ('EIP150ForkBlock', 'EIP150Schedule'), ('homesteadForkBlock', 'HomesteadSchedule'), (None, 'FrontierSchedule')]
def sched(u, n):
    g = next(g for g, d in u.I.tu.globals.items() if d['qn'] == 'dev::eth::' + n); return u.I.read(u.I.global_loc(g, 'dev::eth::' + n))
BASE = dict(accountVersion=0, exceptionalFailedCodeDeposit=1, haveDelegateCall=1, eip150Mode=0, eip158Mode=0, eip1283Mode=0, haveBitwiseShifting=0, haveRevert=0, haveReturnData=0, haveStaticCall=0, haveCreate2=0, haveExtcodehash=0, haveChainID=0, haveSelfbalance=0, havePush0=0, expGas=10, expByteGas=10, sha3Gas=30, sha3WordGas=6, sloadGas=50, sstoreSetGas=20000, sstoreResetGas=5000, sstoreUnchangedGas=200, sstoreRefundGas=15000, sstoreRefundNonzeroGas=4800, jumpdestGas=1, logGas=375, logDataGas=8, logTopicGas=375, createGas=32000, callGas=40, callStipend=2300, callValueTransferGas=9000, callNewAccountGas=25000, suicideRefundGas=24000, memoryGas=3, quadCoeffDiv=512, createDataGas=200, txGas=21000, txCreateGas=53000, txDataZeroGas=4, txDataNonZeroGas=68, copyGas=3, extcodesizeGas=20, extcodecopyGas=20, extcodehashGas=400, balanceGas=20, suicideGas=0, blockhashGas=20, maxCodeSize=2 ** 32 - 1, blockRewardOverwrite=None)
RULES = {'DefaultSchedule': BASE}
def rule(n, base, **kw): RULES[n] = dict(RULES[base], **kw)
rule('HomesteadSchedule', 'DefaultSchedule'); rule('FrontierSchedule', 'DefaultSchedule', exceptionalFailedCodeDeposit=0, haveDelegateCall=0, txCreateGas=21000)
rule('EIP150Schedule', 'HomesteadSchedule', eip150Mode=1, extcodesizeGas=700, extcodecopyGas=700, balanceGas=400, sloadGas=200, callGas=700, suicideGas=5000)
rule('EIP158Schedule', 'EIP150Schedule', expByteGas=50, eip158Mode=1, maxCodeSize=65536)
rule('ByzantiumSchedule', 'EIP158Schedule', haveRevert=1, haveReturnData=1, haveStaticCall=1, blockRewardOverwrite=3 * 10 ** 18)
rule('ConstantinopleSchedule', 'ByzantiumSchedule', haveCreate2=1, haveBitwiseShifting=1, haveExtcodehash=1, eip1283Mode=1, blockRewardOverwrite=2 * 10 ** 18)
rule('ConstantinopleFixSchedule', 'ConstantinopleSchedule', eip1283Mode=0)
rule('IstanbulSchedule', 'ConstantinopleFixSchedule', txDataNonZeroGas=16, sloadGas=800, balanceGas=700, extcodehashGas=700, haveChainID=1, haveSelfbalance=1, sstoreUnchangedGas=800)
rule('ExperimentalSchedule', 'IstanbulSchedule', accountVersion=1, blockhashGas=800)
def is_rule(u, v, n, push0=False):
    cs = []
    for k, w in RULES[n].items():
        x = u.I.val(v.f[k]); 
        if k == 'blockRewardOverwrite': cs.append(Not(B(x.has)) if w is None else And(B(x.has), x.v.t == w if x.v is not None else z3.BoolVal(False)))
        elif k == 'havePush0': cs.append(B(x) == push0)
        elif isinstance(x, IntV): cs.append(z3.BoolVal(x.t == w) if isc(x.t) else x.t == w)
        else: cs.append(B(x) == z3.BoolVal(bool(w)))
    for i, w in enumerate((0, 2, 3, 5, 8, 10, 20, 0)): cs.append(z3.IntVal(0) + v.f['tierStepGas'].get(i).t == w)
    return And(*cs)
def u_rules(u):
    ns = list(RULES); n = ns[u.p.choose(len(ns))]; v = sched(u, n); u.cover('returns'); u.prove('the rules of %s' % n, is_rule(u, v, n, z3.BoolVal(False)))
def spec_sched(v, blk):
    """(condition, rule set) pairs: the latest fork reached"""
    out = []; no = []
    for f, n in FORKS:
        c = And(*no, blk >= v.f[f].t) if f else And(*no)
        out.append((c, f, n)); 
        if f: no.append(blk < v.f[f].t)
    return out
def u_schedule(u):
    loc, v, ts = params(u); u.I.cfg['globals'] = {'SchainPatch::chainParams': lambda I, gd: v}
    t = int_in(u, 't', 64, True); blk = int_in(u, 'block', 256, False); k = 'PushZeroPatch'; i = [n for n, _ in NAMES].index(k)
    r = u.I.val(u.call(CO + 'makeEvmSchedule', [loc, t, u.I.new(blk)])); u.cover('returns')
    for c, f, n in spec_sched(v, blk.t):
        u.prove('rule set %s' % n, Imp(c, is_rule(u, r, n, active(ts[i], t.t) if n not in ('HomesteadSchedule', 'FrontierSchedule') else z3.BoolVal(False))))
def u_reward(u):
    loc, v, ts = params(u); u.I.cfg['globals'] = {'SchainPatch::chainParams': lambda I, gd: v}
    t = int_in(u, 't', 64, True); blk = int_in(u, 'block', 256, False)
    r = u.call(CO + 'blockReward', [loc, t, u.I.new(blk)], lambda I, fn: len(fn['params']) == 2).t; u.cover('returns')
    for c, f, n in spec_sched(v, blk.t):
        w = RULES[n]['blockRewardOverwrite']; u.prove('block reward under %s' % n, Imp(c, r == (v.f['m_blockReward'].t if w is None else w)))
def u_setreward(u):
    loc, v, ts = params(u); x = int_in(u, 'x', 256, False); u.call(CO + 'setBlockReward', [loc, u.I.new(x)]); u.cover('returns'); w = u.I.read(loc)
    u.prove('reward replaced, nothing else', And(w.f['m_blockReward'].t == x.t, *[B(u.I.veq(w.f[k], y)) for k, y in v.f.items() if k != 'm_blockReward' and isinstance(y, IntV)]))
def u_pushzero(u):
    ns = list(RULES); n = ns[u.p.choose(len(ns))]; v = sched(u, n); r = u.I.val(u.call('PushZeroPatch::makeSchedule', [u.I.new(v)])); u.cover('returns'); u.prove('only PUSH0 is added to %s' % n, is_rule(u, r, n, z3.BoolVal(True)))
UNITS = [dict(name='patch.names', body=u_names, **S), dict(name='patch.unknownEnum', body=u_unknown, **S), dict(name='patch.unknownName', body=u_unknown_name, **S), dict(name='patch.enabledWhen', body=u_when, **S), dict(name='patch.classes', body=u_class, **S), dict(name='patch.init', body=u_init, **S), dict(name='patch.latestTimestamp', body=u_latest, **S), dict(name='patch.timestamp', body=u_get, **S),
         dict(name='rules.contents', body=u_rules, **S), dict(name='rules.schedule', body=u_schedule, **S), dict(name='rules.reward', body=u_reward, **S), dict(name='rules.setReward', body=u_setreward, **S), dict(name='rules.pushZero', body=u_pushzero, **S)]
if __name__ == '__main__': main(UNITS)
