"""transaction execution (C15): the checks before, the charge, and what is given back"""
from common import *
import econt
from econt import SegV, EV, pair
from rangemask import ftype
from evalx import _RefV
from loops import LoopSpec
SRC = os.path.join(VERIF, 'tu/exec.cpp'); WANT = ['dev::eth::Executive::*', 'dev::eth::Transaction::*', 'dev::eth::TransactionBase::*', 'dev::eth::SealEngineFace::*', 'skale::State::transferBalance', 'dev::eth::EnvInfo::*', 'dev::eth::CallParameters::*', 'dev::eth::SubState::*']
And, Or, Not = z3.And, z3.Or, z3.Not
X = 'dev::eth::Executive'; TB = 'dev::eth::TransactionBase'; MOD = 1 << 256
INT = z3.IntSort(); BOOL = z3.BoolSort()
def term(u, nm, kind='hash20'): c = z3.Int(nm); u.p.inputs[nm] = lambda m: str(m.eval(c, True)); return TermV(c, kind)
def filled(u, qn, given, tag=''):
    """a record with arbitrary integer, boolean and hash fields; other fields opaque unless given"""
    I = u.I; rt = next(t for t in u.T if t['k'] == 'rec' and t['qn'] == qn and 'rec' in t); f = {}
    for fd in I.all_fields(rt):
        n = fd['n']; t = I._strip(fd['t']) if hasattr(I, '_strip') else u.T[fd['t']]; iv = I.as_bigint(t)
        if n in given: f[n] = given[n]
        elif iv: f[n] = int_in(u, tag + n, *iv)
        elif t['k'] in ('int', 'enum'): f[n] = int_in(u, tag + n, t.get('w', 32), t.get('sg', False))
        elif t['k'] == 'bool': f[n] = I.fresh_bool(tag + n)
        elif t['k'] == 'rec' and t['qn'] == 'dev::FixedHash': f[n] = term(u, tag + n, 'hash32')
        else: f[n] = OpaqueV(n)
    return RecV(qn, f)
class W: pass
def world(u):
    I = u.I; w = W(); w.u = u
    def rng(t): u.assume(And(t >= 0, t < MOD)); return IntV(t, 256, False)
    w.sender = term(u, 'sender'); w.vrs = z3.Bool('signed'); w.r, w.s = term(u, 'sig.r', 'hash32'), term(u, 'sig.s', 'hash32'); u.assume(And(w.r.t >= 0, w.r.t < MOD, w.s.t >= 0, w.s.t < MOD)); u.p.inputs['signed'] = lambda m: str(m.eval(w.vrs, True))
    w.checked = z3.Bool('external gas determined'); w.ext = z3.Bool('has external gas'); w.xgas = int_in(u, 'external gas', 256); u.assume(Imp(w.ext, w.xgas.t > 0)); w.hasid = z3.Bool('has chain id'); w.cid = int_in(u, 'tx chain id', 64)
    w.data = bytes_in(u, 'tx data', maxlen=1 << 32)
    w.t = filled(u, 'dev::eth::Transaction', {'m_externalGasIsChecked': True, 'm_externalGas': OptV(w.ext, w.xgas), 'm_data': w.data[1], 'm_chainId': OptV(w.hasid, w.cid), 'm_vrs': OptV(w.vrs, RecV('dev::SignatureStruct', {'r': w.r, 's': w.s, 'v': int_in(u, 'sig.v', 8)})), 'm_sender': OptV(True, w.sender), 'm_receiveAddress': term(u, 'to'), 'verifiedOn': IntV(-1, 64, True)}, 'tx.')
    f = w.t.f; u.assume(And(f['m_type'].t >= 0, f['m_type'].t <= 3)); w.tf = f
    w.gas = If(w.ext, w.xgas.t, f['m_gas'].t); w.price = If(w.ext, 0, f['m_gasPrice'].t); w.zero = And(w.vrs, w.r.t == 0, w.s.t == 0)
    w.base = int_in(u, 'intrinsic cost', 64, True); w.sched = filled(u, 'dev::eth::EVMSchedule', {}, 'schedule.')
    w.header = filled(u, 'dev::eth::BlockHeader', {'m_author': term(u, 'author')}, 'header.'); w.num = w.header.f['m_number'].t; u.assume(And(w.num >= 0)); u.assume(w.header.f['m_gasLimit'].t < 1 << 63)
    w.cp = filled(u, 'dev::eth::ChainOperationParams', {}, 'params.'); w.cpl = I.new(w.cp, 'params'); w.when = {}
    def patch(nm):
        b = z3.Bool('patch ' + nm)
        def h(I, e, fr, a): return b
        w.when[nm] = b; return h
    # the state as seen by an execution: balances and nonces of all accounts; savepoints restore them
    w.B, w.Nn = z3.Array('balances', INT, INT), z3.Array('nonces', INT, INT); w.B0, w.N0 = w.B, w.Nn; w.snaps = {}; w.killed = []; w.touched = []; w.codeset = []; w.cleared = []
    w.balof = lambda a, m=None: rng(z3.Select(w.B if m is None else m, a)); w.nonceof = lambda a, m=None: rng(z3.Select(w.Nn if m is None else m, a))
    def k(I, x): return I.val(x).t
    def add(I, e, fr, a): x, v = k(I, a[1]), k(I, a[2]); w.touched.append(x); w.B = z3.Store(w.B, x, (w.balof(x).t + v) % MOD); return OpaqueV('void')
    def debit(I, e, fr, a):
        x, v = k(I, a[1]), k(I, a[2]); b = w.balof(x).t
        if I.p.branch(v == 0): return OpaqueV('void')
        if I.p.branch(b < v): raise CxxThrow('dev::eth::NotEnoughCash')
        w.B = z3.Store(w.B, x, b - v); return OpaqueV('void')
    def move(I, e, fr, a): debit(I, e, fr, [a[0], a[1], a[3]]); return add(I, e, fr, [a[0], a[2], a[3]])
    def incn(I, e, fr, a): x = k(I, a[1]); w.Nn = z3.Store(w.Nn, x, w.nonceof(x).t + 1); return OpaqueV('void')
    def setn(I, e, fr, a): w.Nn = z3.Store(w.Nn, k(I, a[1]), k(I, a[2])); return OpaqueV('void')
    def save(I, e, fr, a): n = I.fresh_int('savepoint', 64, False); w.snaps[n.t.get_id()] = (n.t, w.B, w.Nn); w.last = n; return n
    def back(I, e, fr, a):
        n = k(I, a[1]); h = w.snaps.get(n.get_id()) if not isinstance(n, int) else None
        if h is None: raise Unsupported('rollback to an unknown savepoint')
        w.B, w.Nn = h[1], h[2]; w.rolled.append(n); return OpaqueV('void')
    w.rolled = []
    def kill(I, e, fr, a): x = k(I, a[1]); w.killed.append(x); return OpaqueV('void')
    w.hascode = z3.Function('has code', INT, BOOL); w.ver = z3.Function('version of', INT, INT); w.start = int_in(u, 'start nonce', 256)
    con = {'skale::State::getNonce': lambda I, e, fr, a: w.nonceof(k(I, a[1])), 'skale::State::balance': lambda I, e, fr, a: w.balof(k(I, a[1])), 'skale::State::subBalance': debit, 'skale::State::addBalance': add, 'skale::State::transferBalance': move, 'skale::State::incNonce': incn, 'skale::State::setNonce': setn, 'skale::State::savepoint': save, 'skale::State::rollback': back, 'skale::State::kill': kill,
           'skale::State::addressHasCode': lambda I, e, fr, a: w.hascode(k(I, a[1])), 'skale::State::code': lambda I, e, fr, a: I.new(RecV('GhostCode', {'of': I.val(a[1])})), 'skale::State::codeHash': lambda I, e, fr, a: OpaqueV('code hash'), 'skale::State::version': lambda I, e, fr, a: rng(w.ver(k(I, a[1]))), 'skale::State::requireAccountStartNonce': lambda I, e, fr, a: w.start,
           'skale::State::setCode': lambda I, e, fr, a: w.codeset.append((k(I, a[1]), I.val(a[2]), I.val(a[3]))), 'skale::State::clearStorage': lambda I, e, fr, a: w.cleared.append(k(I, a[1])), 'skale::State::fs': lambda I, e, fr, a: PtrV(I.new(OpaqueV('fs'))),
           'dev::eth::formatBalance': lambda I, e, fr, a: OpaqueV('string'), TB + '::sender': lambda I, e, fr, a: w.sender, TB + '::sha3': lambda I, e, fr, a: OpaqueV('hash'), 'dev::eth::ChainOperationParams::makeEvmSchedule': lambda I, e, fr, a: w.sched, 'boost::multiprecision::number::(ctor string)': lambda I, e, fr, a: IntV(z3.Int('a constant'), 256, False)}
    for nm in ('PowCheckPatch', 'FlexibleDeploymentPatch', 'ExternalGasPatch', 'CorrectForkInPowPatch'): con[nm + '::isEnabledWhen'] = patch(nm)
    u.I.contracts = hashcon(con); w.con = u.I.contracts
    w.N = 115792089237316195423570985008687907852837564279074904382605163141518161494337
    I.cfg['globals'] = {'dev::eth::c_secp256k1n': lambda I, gd: IntV(w.N, 256, False), 'c_secp256k1n': lambda I, gd: IntV(w.N, 256, False)}
    w.state = I.new(RecV('GhostState', {}), 'state'); w.tl = I.new(w.t, 'tx'); w.hl = I.new(w.header, 'header')
    return w
def based(u, w):
    """intrinsic cost of this transaction under the schedule (its own unit: exec.intrinsic)"""
    u.assume(w.base.t >= 0); u.I.contracts[TB + '::baseGasRequired'] = lambda I, e, fr, a: w.base
def u_verify(u):
    w = world(u); based(u, w); f = w.tf; used, minp = int_in(u, 'gas used in block', 256), int_in(u, 'minimal gas price', 256); fut = z3.Bool('allow future'); u.assume(f['m_type'].t != 3)
    ex, _ = u.throws(u.call, X + '::verifyTransaction', [w.tl, int_in(u, 'timestamp', 64, True), w.hl, w.state, w.cpl, u.I.new(used), u.I.new(minp), fut]); u.cover('accepts or refuses')
    nonce, bal = w.nonceof(w.sender.t).t, w.balof(w.sender.t).t; g = If(w.when['PowCheckPatch'], w.gas, f['m_gas'].t); cp = w.cp.f
    cost = f['m_value'].t + If(w.ext, z3.IntVal(0), w.gas * f['m_gasPrice'].t)      # unbounded integers
    badnonce = And(Not(w.zero), w.vrs, If(fut, f['m_nonce'].t < nonce, f['m_nonce'].t != nonce)); poor = And(Not(w.zero), bal < cost); cheap = And(Not(w.ext), f['m_gasPrice'].t < minp.t); small = w.base.t > g; big = used.t + g > w.header.f['m_gasLimit'].t
    if ex is None:
        u.p.prove_all([('accepted: price at least the minimal one', Not(cheap)), ('accepted: nonce is the next one', Not(badnonce)), ('accepted: the sender can pay gas limit times price plus value', Not(poor)), ('accepted: gas covers the intrinsic cost', Not(small)), ('accepted: gas fits the block', Not(big)), ('accepted: replay protected for this chain', Imp(And(w.num >= cp['EIP158ForkBlock'].t, w.hasid), w.cid.t == cp['chainID'].t)), ('accepted: has a chain id', Imp(And(w.num >= cp['EIP158ForkBlock'].t, Not(cp['skaleDisableChainIdCheck'])), w.hasid)), ('accepted: low signature', Imp(And(w.num >= cp['homesteadForkBlock'].t, w.vrs), w.s.t <= w.N // 2)), ('accepted: no zero signature before its fork', Imp(w.zero, w.num >= cp['experimentalForkBlock'].t)), ('accepted: a zero signature carries no value', Imp(w.zero, And(f['m_value'].t == 0, f['m_gasPrice'].t == 0, f['m_nonce'].t == 0)))])
        u.prove('noted as verified for this block', u.I.read(w.tl).f['verifiedOn'].t == w.num)
    else:
        n = ex.split('::')[-1]; why = {'GasPriceTooLow': cheap, 'InvalidNonce': badnonce, 'NotEnoughCash': poor, 'OutOfGasIntrinsic': small, 'BlockGasLimitReached': big}.get(n)
        if why is not None: u.prove('refused as ' + n + ' only for that reason', why)
        else: u.prove('refused for its signature or chain id', n in ('InvalidSignature', 'InvalidTransactionFormat', 'InvalidZeroSignatureTransaction', 'TransactionIsUnsigned'))
def u_intrinsic(create):
    def f(u):
        """the transaction price plus the price of every byte of data, exactly, for data of any length"""
        w = world(u); sc = w.sched.f; base = sc['txCreateGas'].t if create else sc['txGas'].t; lo, se = bytes_in(u, 'call data', maxlen=1 << 32); C = z3.Function('cost of the first bytes', INT, INT); u.assume(C(0) == base); LIM = 1 << 30
        for k in ('txCreateGas', 'txGas', 'txDataNonZeroGas', 'txDataZeroGas'): u.assume(sc[k].t < LIM)
        def st(I, env, k):
            if not isc(k) and not z3.is_int_value(k):
                stp = lambda j: z3.If(se.get(j).t != 0, sc['txDataNonZeroGas'].t, sc['txDataZeroGas'].t)
                u.p.assume(Imp(k >= 0, C(k + 1) == C(k) + stp(k))); u.p.assume(Imp(k >= 1, C(k) == C(k - 1) + stp(k - 1))); u.p.assume(Imp(And(k >= 0, k <= se.n), And(C(k) >= 0, C(k) <= LIM + k * LIM)))      # by induction from the step
            return [(env.modint(64), IntV(C(k), 64, True))]
        u.I.cfg.setdefault('loops', {})[(TB + '::baseGasRequired', None)] = LoopSpec(None, st, name='baseGasRequired loop'); u.I.loops = u.I.cfg['loops']
        r = u.call(TB + '::baseGasRequired', [create, vref(lo, 0, se.n), u.I.new(w.sched)], lambda I, f: len(f['params']) == 3); u.cover('returns'); u.prove('exactly the price of the transaction and of every byte', r.t == C(se.n))
    return f
def u_intrinsic_tx(u):
    w = world(u); got = []; u.assume(w.tf['m_type'].t != 3)
    real = u.I.call_fn
    r3 = u.fkey(TB + '::baseGasRequired', lambda I, f: len(f['params']) == 3)
    def con(I, e, fr, a):
        if len(a) == 2:
            k = u.fkey(TB + '::baseGasRequired', lambda I, f: len(f['params']) == 1); return I.call_fn({'key': k, 'qn': TB + '::baseGasRequired'}, a)
        got.append([I.val(x) for x in a[-3:]]); return w.base
    u.I.contracts[TB + '::baseGasRequired'] = con
    r = con(u.I, None, None, [w.tl, u.I.new(w.sched)]); u.cover('returns'); u.prove('asked once', len(got) == 1); g = got[0]; u.prove('creations are priced as creations', B(u.I.tobool(g[0]) if isinstance(g[0], IntV) else g[0]) == (w.tf['m_type'].t == 1)); v = g[1]; u.prove('all of the data is priced', And(B(v.f['m_count'].t == w.data[1].n))); u.prove('answer returned', r.t == w.base.t)
def u_gas(u):
    """the gas limit of a transaction: its external gas if it has any, else the one signed"""
    w = world(u); u.assume(w.tf['m_type'].t != 3); r = u.call(TB + '::gas', [w.tl]) if not u.I.tu.byqn.get('dev::eth::Transaction::gas') else u.call('dev::eth::Transaction::gas', [w.tl]); u.cover('returns'); u.prove('external gas if there is any, else the gas signed', r.t == w.gas)
    r = u.call('dev::eth::Transaction::gasPrice', [w.tl]); u.prove('external gas is free', r.t == priced(u, w)); r = u.call(TB + '::nonPowGas', [w.tl]); u.prove('the gas signed', r.t == w.tf['m_gas'].t)
def u_pow(u):
    """external gas: exactly the mined gas over the difficulty, when it covers the intrinsic cost"""
    w = world(u); based(u, w); f = dict(w.tf, m_externalGasIsChecked=False, m_externalGas=OptV(False, None)); u.assume(w.tf['m_type'].t != 3); tl = u.I.new(RecV(w.t.qn, f), 'tx'); H = {}
    def h(I, v):
        x = I.val(v); k = repr(z3.simplify(x.t)) if isinstance(x, (TermV, IntV)) and not isc(x.t) else repr(x)
        if k not in H: H[k] = z3.BitVec('hash %d' % len(H), 256)
        return H[k]
    hv = z3.Int('xor of the hashes'); u.assume(And(hv >= 0, hv < MOD)); con = u.I.contracts; seen = []
    con['dev::sha3'] = lambda I, e, fr, a: (seen.append(I.val(a[0])), TermV(z3.Int(u.p.fresh('sha3')), 'hash32'))[1]
    con['dev::FixedHash::operator^'] = lambda I, e, fr, a: TermV(hv, 'hash32'); con['dev::FixedHash::ref'] = lambda I, e, fr, a: I.val(a[0])
    d = w.cp.f['externalGasDifficulty'].t; u.assume(d > 0)
    u.call('dev::eth::Transaction::checkOutExternalGas', [tl, w.cpl, int_in(u, 'timestamp', 64, True), int_in(u, 'number', 64)]); u.cover('returns'); g = u.I.read(tl).f; hh = z3.If(hv == 0, 1, hv); m = ((MOD - 1) / hh) / d
    u.prove('determined', B(g['m_externalGasIsChecked'])); o = g['m_externalGas']; u.prove('external gas exactly when the mined gas covers the intrinsic cost', B(o.has) == (m >= w.base.t))
    if o.v is not None and o.has is not False: u.prove('it is the mined gas', Imp(B(o.has), o.v.t == m))
    ts = [x.t for x in seen if isinstance(x, (TermV, IntV))]; u.prove('depends on sender, nonce and price alone', And(B(len(seen) == 3), B(len(ts) == 3), Or(*[B(x is w.sender.t or z3.is_true(z3.simplify(x == w.sender.t))) for x in ts]), *[Or(*[z3.simplify(x == y) if not isc(x) else B(False) for x in ts]) for y in (f['m_nonce'].t, f['m_gasPrice'].t)]))
def u_go(u):
    """running code: gas never grows, failures take all gas and all effects, reverts take the effects only"""
    w = world(u); sub = OpaqueV('sub'); extl = u.I.new(RecV('dev::eth::ExtVM', {'sub': sub, 'origin': term(u, 'origin'), 'caller': term(u, 'caller'), 'myAddress': term(u, 'contract'), 'version': int_in(u, 'version', 256)}), 'ext'); has = u.p.choose(2); e = executive(u, w, PtrV(extl) if has else None, res=u.p.choose(2)); after(u, w, e); con = u.I.contracts; how = u.p.choose(5); run = []; rev = []; out = bytes_in(u, 'result', maxlen=1 << 24)[1]
    HOW = [None, 'dev::eth::RevertInstruction', 'dev::eth::OutOfGas', 'dev::eth::BadInstruction', 'dev::eth::InternalVMError']; g1 = int_in(u, 'gas after', 256); u.assume(g1.t <= w.gas0.t); hexans = bytes_in(u, 'answer in hex', maxlen=1 << 30)[1]; ansv = int_in(u, 'answer', 256); deny = And(hexans.n > 0, ansv.t == 0)
    OUT = lambda s: RecV('dev::eth::owning_bytes_ref', {'bytes': s, 'm_count': IntV(s.n, 64, False), 'm_data': OpaqueV('p')})
    def exec_(I, ex, fr, a):
        run.append(I.val(a[1]).t); I.write(a[1], g1)
        if HOW[how]: raise CxxThrow(HOW[how], RecV(HOW[how], {'m_output': OpaqueV('revert output')}))
        return OUT(out)
    con['dev::eth::VMFactory::create'] = lambda I, ex, fr, a: PtrV(I.new(RecV('GhostVM', {})))
    con['dev::eth::VMFace::exec'] = exec_; con['dev::eth::ExtVM::evmSchedule'] = con['dev::eth::ExtVMFace::evmSchedule'] = lambda I, ex, fr, a: I.new(w.sched)
    asked = []
    con['dev::eth::ExtVM::call'] = con['dev::eth::ExtVMFace::call'] = lambda I, ex, fr, a: (asked.append(I.val(a[1])), RecV('dev::eth::CallResult', {'output': OpaqueV('answer')}))[1]
    con['dev::toHex'] = lambda I, ex, fr, a: hexans; con['boost::multiprecision::number::(ctor string)'] = lambda I, ex, fr, a: ansv
    con['dev::vector_ref::toVector'] = lambda I, ex, fr, a: I.val(a[0]).f['bytes'] if isinstance(I.val(a[0]), RecV) and 'bytes' in I.val(a[0]).f else I.seq_of([], 8)
    con[X + '::revert'] = lambda I, ex, fr, a: rev.append(1); con['dev::eth::toTransactionException'] = lambda I, ex, fr, a: IntV(z3.Int('why'), 32, True)
    for nm in ('isDeploymentAllowedCallData', 'isAddressWhitelistedCallData'): con['dev::eth::' + nm] = con['dev::' + nm] = con[nm] = lambda I, ex, fr, a: bytes_in(u, 'call data', maxlen=1 << 20)[1]
    creating = w.ef()['m_isCreation']; th, r = u.throws(u.call, X + '::go', [e, OpaqueV('onOp')]); u.cover('case'); f = w.ef()
    u.prove('gas never grows', f['m_gas'].t <= w.gas0.t)
    if not has: u.prove('nothing happens without code', And(B(not run), B(not rev), f['m_gas'].t == w.gas0.t)); return
    cr = B(creating); refused = And(cr, deny); ran = Not(refused); n = out.n; fee = n * w.sched.f['createDataGas'].t; mx = w.sched.f['maxCodeSize'].t; vmfail = how in (2, 3); ok = how == 0
    u.prove('runs exactly once, unless the deployment is refused', B(len(run) == 1) == ran); u.prove('runs with the gas that is left', And(*[x == w.gas0.t for x in run]))
    toobig = And(cr, ran, B(ok), n > mx); poor = And(cr, ran, B(ok), Not(toobig), fee > g1.t); strict = B(w.sched.f['exceptionalFailedCodeDeposit']); fails = Or(refused, And(ran, B(vmfail)), toobig, And(poor, strict)); reverted = Or(fails, And(ran, B(how in (1, 4))))
    u.prove('an internal error is passed on, nothing else is', B(th is not None) == And(ran, B(how == 4)))
    u.p.prove_all([('a failure takes all gas', Imp(fails, f['m_gas'].t == 0)), ('effects are rolled back exactly after failures and reverts', Imp(B(th is None), B(len(rev) == 1) == reverted)), ('and rolled back at most once', B(len(rev) <= 1)), ('an internal error rolls back', Imp(B(th is not None), B(len(rev) == 1)))])
    if th is None:
        u.p.prove_all([('a failure is reported', Imp(fails, f['m_excepted'].t == z3.Int('why'))), ('a revert keeps the gas left', Imp(And(ran, B(how == 1)), And(f['m_gas'].t == g1.t, f['m_excepted'].t == 15))), ('a successful call keeps the gas left', Imp(And(ok, Not(cr)), f['m_gas'].t == g1.t)), ('a deposit costs exactly its price', Imp(And(B(ok), cr, ran, Not(toobig), Not(poor)), f['m_gas'].t == g1.t - fee)), ('a deposit that cannot be paid costs nothing', Imp(And(poor, Not(strict)), f['m_gas'].t == g1.t)),
                       ('code is deposited exactly by a successful creation', B(len(w.codeset) == 1) == And(B(ok), cr, ran, Not(toobig), Not(And(poor, strict))))])
        for a, c, v in w.codeset: u.prove('the code deposited is the result, or empty when it cannot be paid', And(a == u.I.read(extl).f['myAddress'].t, c.n == z3.If(poor, 0, n)))
def lemma(u, a, b, c):
    """0 <= a <= b and c >= 0 give a*c <= b*c (proved on its own, then used)"""
    x, y, z = (z3.Int(u.p.fresh('lemma')) for _ in range(3)); u.prove('products are monotonic', Imp(And(0 <= x, x <= y, z >= 0), And(x * z >= 0, x * z <= y * z))); u.assume(Imp(And(0 <= a, a <= b, c >= 0), And(a * c >= 0, a * c <= b * c)))
ADDRS = ('m_newAddress',)
def executive(u, w, ext=None, t=None, res=False):
    I = u.I; w.gas0 = int_in(u, 'gas left', 256); w.gascost = int_in(u, 'gas cost', 256); w.bgr = int_in(u, 'base gas', 64, True); w.env = filled(u, 'dev::eth::EnvInfo', {'m_headerInfo': w.header}, 'env.'); w.num = w.header.f['m_number'].t
    w.res = NULL if not res else PtrV(I.new(filled(u, 'dev::eth::ExecutionResult', {}, 'result.')))
    f = filled(u, X, {'m_s': _RefV(w.state), 'm_envInfo': w.env, 'm_ext': ext if ext is not None else NULL, 'm_output': OpaqueV('output'), 'm_res': w.res, 'm_baseGasRequired': w.bgr, 'm_gas': w.gas0, 'm_t': w.t if t is None else t, 'm_logs': OpaqueV('logs'), 'm_gasCost': w.gascost, 'm_chainParams': _RefV(w.cpl), 'm_newAddress': term(u, 'new address'), 'm_savepoint': IntV(z3.Int('old savepoint'), 64, False)}, 'exec.')
    w.e = I.new(f, 'executive'); w.ef = lambda: I.read(w.e).f; return w.e
def priced(u, w): return z3.If(w.ext, z3.IntVal(0), w.tf['m_gasPrice'].t)
def u_initialize(u):
    w = world(u); based(u, w); e = executive(u, w); w.bad = z3.Bool('refused'); u.I.contracts['dev::eth::toTransactionException'] = lambda I, e, fr, a: IntV(I.fresh_int('why', 32, False).t, 32, False)
    def ver(I, e_, fr, a):
        w.vargs = [I.val(x) if isinstance(x, Loc) else x for x in a]
        if I.p.branch(w.bad): raise CxxThrow('dev::eth::NotEnoughCash')
        u.assume(w.gas * priced(u, w) < MOD); u.assume(w.gas * priced(u, w) >= 0); return OpaqueV('void')
    u.I.contracts[X + '::verifyTransaction'] = ver; u.assume(w.tf['m_type'].t != 3)
    x, _ = u.throws(u.call, X + '::initialize', [e, u.I.new(w.t)], ptypes('Transaction')); u.cover('initializes or refuses'); f = w.ef()
    u.prove('a refused transaction is reported to the caller', B(x is not None) == w.bad)
    u.prove('checked against this block, state and minimal price', And(*[And(p.t == q.t) for p, q in ((w.vargs[1], w.env.f['m_committedBlockTimestamp']), (w.vargs[5], w.env.f['m_gasUsed']), (w.vargs[6], f['m_systemGasPrice']))]))
    if x is None: u.prove('gas is paid in full: gas limit times price', f['m_gasCost'].t == w.gas * priced(u, w)); u.prove('intrinsic cost noted', f['m_baseGasRequired'].t == w.base.t)
def u_execute(u):
    w = world(u); f = w.tf; e = executive(u, w); got = {}; u.assume(And(w.bgr.t >= 0, w.bgr.t <= w.gas)); u.assume(w.balof(w.sender.t).t >= w.gascost.t); u.assume(f['m_type'].t != 3)
    def rec(nm, n):
        def h(I, e_, fr, a):
            if len(a) != n: raise Unsupported(nm)
            got[nm] = [I.val(x) if isinstance(x, Loc) else x for x in a[1:]]; got['B'] = w.B; return z3.Bool('done')
        return h
    u.I.contracts[X + '::create'] = rec('create', 7); u.I.contracts[X + '::call'] = rec('call', 7)
    r = u.call(X + '::execute', [e]); u.cover('executes'); a = z3.Int('any address'); create = f['m_type'].t == 1
    u.prove('gas is paid once, by the sender', z3.Select(got['B'], a) == w.balof(a, w.B0).t - z3.If(And(a == w.sender.t, Not(w.ext)), w.gascost.t, 0))
    nm = 'create' if 'create' in got else 'call'; g = got[nm]; u.prove('creates a contract exactly when the transaction does', create == (nm == 'create')); u.prove('returns what it returns', B(r) == z3.Bool('done'))
    if nm == 'create': u.p.prove_all([('on behalf of the sender', And(g[0].t == w.sender.t, g[5].t == w.sender.t)), ('with the value sent', g[1].t == f['m_value'].t), ('with the gas left after the intrinsic cost', g[3].t == w.gas - w.bgr.t)])
    else: u.p.prove_all([('calls the receiver on behalf of the sender', And(g[0].t == f['m_receiveAddress'].t, g[1].t == w.sender.t)), ('with the value sent', g[2].t == f['m_value'].t), ('with the gas left after the intrinsic cost', g[5].t == w.gas - w.bgr.t)])
MAXA = (1 << 160) - 1
def ext_(u, w, sub=None): return RecV('dev::eth::ExtVM', {'sub': sub})
def cparams(u, w):
    w.p = {nm: term(u, nm) for nm in ('sender', 'code address', 'receiver')}; w.v, w.av, w.pg = int_in(u, 'value', 256), int_in(u, 'apparent value', 256), int_in(u, 'gas given', 256)
    return filled(u, 'dev::eth::CallParameters', {'senderAddress': w.p['sender'], 'codeAddress': w.p['code address'], 'receiveAddress': w.p['receiver'], 'valueTransfer': w.v, 'apparentValue': w.av, 'gas': w.pg, 'data': OpaqueV('data'), 'onOp': OpaqueV('onOp')}, 'p.')
def after(u, w, e):
    """contracts of everything an execution needs besides the state"""
    def mkext(I, ex, fr, a): w.made.append([I.val(x) if isinstance(x, Loc) else x for x in a]); return PtrV(I.new(RecV('dev::eth::ExtVM', {'sub': OpaqueV('sub')})))
    w.made = []; w.out = bytes_in(u, 'output', maxlen=1 << 32)[1]; C = 'dev::eth::ChainOperationParams'; w.pre, w.preok, w.ok = z3.Bool('precompiled'), z3.Bool('precompiled allowed'), z3.Bool('precompiled succeeds'); w.cost = int_in(u, 'cost of precompiled', 0, True); u.assume(w.cost.t >= 0)
    def owned(I, ex, fr, a):
        if not a: return OpaqueV('no output')
        v, b, n = I.val(a[0]), I.val(a[1]).t, I.val(a[2]).t; I.p.prove('the output lies within its bytes', And(b >= 0, b + n <= v.n)); return RecV('GhostOut', {'bytes': v, 'from': IntV(b, 64, False), 'n': IntV(n, 64, False)})
    u.I.contracts.update({'std::make_shared': mkext, 'dev::eth::owning_bytes_ref::(ctor)': owned, C + '::isPrecompiled': lambda I, ex, fr, a: w.pre, C + '::precompiledExecutionAllowedFrom': lambda I, ex, fr, a: w.preok, C + '::costOfPrecompiled': lambda I, ex, fr, a: w.cost, C + '::executePrecompiled': lambda I, ex, fr, a: pair(w.ok, w.out)})
    u.I.cfg['globals']['dev::MaxAddress'] = u.I.cfg['globals']['dev::eth::MaxAddress'] = lambda I, gd: TermV(z3.IntVal(MAXA), 'hash20')
def u_call(u):
    w = world(u); t = RecV(w.t.qn, w.tf); e = executive(u, w); after(u, w, e); p = cparams(u, w); S, R = w.p['sender'].t, w.p['receiver'].t; b0 = w.balof(S).t; br = w.balof(R).t; n0 = w.nonceof(S).t; a = z3.Int('any address'); ex0 = w.ef()['m_excepted']; u.assume(n0 < MOD - 1)
    u.assume(Imp(S != R, b0 + br < MOD))     # the total supply fits 256 bits
    th, r = u.throws(u.call, X + '::call', [e, u.I.new(p), u.I.new(int_in(u, 'price', 256)), u.I.new(term(u, 'origin'))], lambda I, f: len(f['params']) == 3); u.cover('calls'); f = w.ef()
    u.assume(w.tf['m_type'].t != 3); ext = w.tf['m_type'].t != 0; inc = And(ext, Or(S != MAXA, w.num < w.cp.f['constantinopleForkBlock'].t))
    u.prove('the nonce of the sender grows by one for a transaction, and no other nonce changes', And(z3.Select(w.Nn, a) == w.nonceof(a, w.N0).t + z3.If(And(inc, a == S), 1, 0)))
    u.prove('a rollback keeps the nonce', z3.Select(w.snaps[w.last.t.get_id()][2], a) == z3.Select(w.Nn, a)); u.prove('a rollback restores all balances', z3.Select(w.snaps[w.last.t.get_id()][1], a) == z3.Select(w.B0, a)); u.prove('the savepoint is kept for a rollback', f['m_savepoint'].t == w.last.t)
    pre = And(w.pre, w.preok); oog = And(pre, w.pg.t < w.cost.t); fails = And(pre, Not(oog), Not(w.ok)); moved = z3.Select(w.B, a) == w.balof(a, w.B0).t + z3.If(And(a == R, R != S), w.v.t, 0) - z3.If(And(a == S, R != S), w.v.t, 0)
    if th is not None: u.prove('refused only when the sender cannot pay the value', And(z3.BoolVal(th.endswith('NotEnoughCash')), b0 < w.v.t, Not(oog), Not(fails))); u.prove('then nothing is moved', z3.Select(w.B, a) == z3.Select(w.B0, a)); return
    exc = f['m_excepted'].t != ex0.t; code = And(Not(pre), w.hascode(w.p['code address'].t))
    u.p.prove_all([('the value is moved exactly once, unless the call failed', If(Or(oog, fails), z3.Select(w.B, a) == z3.Select(w.B0, a), moved)), ('a failed call leaves no gas', Imp(fails, f['m_gas'].t == 0)), ('too little gas for a precompiled contract is an exception', Imp(oog, f['m_excepted'].t == 8)), ('a failing precompiled contract is an exception', Imp(fails, f['m_excepted'].t == 12)), ('no exception otherwise', Imp(Not(Or(oog, fails)), Not(exc))),
                   ('gas left: all of it, less the cost of a precompiled contract', Imp(Not(Or(oog, fails)), f['m_gas'].t == w.pg.t - z3.If(pre, w.cost.t, 0))), ('done unless the called account has code', Imp(Not(Or(oog, fails)), B(r) == Not(code))), ('done after a failure', Imp(Or(oog, fails), B(r)))])
    u.prove('code runs exactly when the called account has code', B(len(w.made) == 1) == And(code, Not(Or(oog, fails))))
    o = f['m_output']
    if isinstance(o, RecV): u.prove('the output of a precompiled contract is returned whole', And(B(o.f['n'].t == w.out.n), o.f['from'].t == 0, B(o.f['bytes'] is w.out)))
    else: u.prove('only a precompiled contract gives output at once', Or(Not(pre), oog))
    if w.made:
        m = w.made[0]; u.p.prove_all([('runs in the context of the receiver', m[3].t == R), ('on behalf of the sender', m[4].t == S), ('with the value shown', m[6].t == w.av.t), ('runs the code of the called account', B(u.I.read(m[9].loc).f['of'].t == w.p['code address'].t) if isinstance(m[9], PtrV) else z3.BoolVal(False)), ('is not a creation', Not(B(m[13]))), ('static exactly when asked', B(m[14]) == B(p.f['staticCall'])), ('at this depth', m[12].t == f['m_depth'].t)])
def u_create(u):
    w = world(u); e = executive(u, w); after(u, w, e); S = term(u, 'sender'); v, g = int_in(u, 'endowment', 256), int_in(u, 'gas given', 256); il, ini = bytes_in(u, 'init code', maxlen=1 << 32); N = w.ef()['m_newAddress'].t; ver = int_in(u, 'version', 256); org = term(u, 'origin'); price = int_in(u, 'price', 256)
    u.I.contracts['dev::sha3'] = lambda I, ex, fr, a: OpaqueV('hash'); b0, br, n0, nn = w.balof(S.t).t, w.balof(N).t, w.nonceof(S.t).t, w.nonceof(N).t; a = z3.Int('any address'); u.assume(n0 < MOD - 1); u.assume(Imp(S.t != N, b0 + br < MOD)); u.assume(N != S.t); u.assume(w.start.t < MOD - 1)      # a created address differs from its creator
    th, r = u.throws(u.call, X + '::executeCreate', [e, u.I.new(S), u.I.new(v), u.I.new(price), u.I.new(g), vref(il, 0, ini.n), u.I.new(org), u.I.new(ver)]); u.cover('creates'); f = w.ef(); inc = Or(S.t != MAXA, w.num < w.cp.f['experimentalForkBlock'].t)
    taken = Or(w.hascode(N), nn > 0); u.prove('a rollback keeps the nonce of the creator and restores all balances', And(z3.Select(w.snaps[w.last.t.get_id()][2], a) == w.nonceof(a, w.N0).t + z3.If(And(inc, a == S.t), 1, 0), z3.Select(w.snaps[w.last.t.get_id()][1], a) == z3.Select(w.B0, a)))
    if th is not None: u.prove('refused only when the creator cannot pay the endowment', And(z3.BoolVal(th.endswith('NotEnoughCash')), b0 < v.t, Not(taken))); u.prove('then nothing is moved', z3.Select(w.B, a) == z3.Select(w.B0, a)); return
    own = z3.If(w.num >= w.cp.f['EIP158ForkBlock'].t, w.start.t + 1, w.start.t); init = ini.n > 0
    u.p.prove_all([('no nonce but those of creator and contract changes', Imp(And(a != S.t, a != N), z3.Select(w.Nn, a) == z3.Select(w.N0, a))), ('the nonce of the creator grows by one', z3.Select(w.Nn, S.t) == n0 + z3.If(inc, 1, 0)), ('an address in use is never taken over', Imp(taken, And(f['m_gas'].t == 0, z3.Select(w.Nn, N) == nn, z3.Select(w.B, a) == z3.Select(w.B0, a), z3.BoolVal(not w.made and not w.codeset), B(r)))), ('it is an exception', Imp(taken, f['m_excepted'].t == 17)),
                   ('the endowment is moved exactly once', Imp(Not(taken), z3.Select(w.B, a) == w.balof(a, w.B0).t + z3.If(a == N, v.t, 0) - z3.If(a == S.t, v.t, 0))), ('the contract starts with the nonce of its fork', Imp(Not(taken), z3.Select(w.Nn, N) == own)), ('all gas is available to the init code', Imp(Not(taken), f['m_gas'].t == g.t)), ('the init code runs exactly when there is some', Imp(Not(taken), And(B(r) == Not(init), B(len(w.made) == 1) == init))), ('storage of the address is cleared', Imp(Not(taken), z3.BoolVal(len(w.cleared) == 1) if not w.cleared else w.cleared[0] == N)), ('without init code the code is empty', Imp(And(Not(taken), Not(init)), And(z3.BoolVal(len(w.codeset) == 1), *[And(c[0] == N, c[2].t == ver.t) for c in w.codeset])))])
    if w.made: m = w.made[0]; u.p.prove_all([('runs in the context of the contract', m[3].t == N), ('on behalf of the creator', m[4].t == S.t), ('with the endowment', m[6].t == v.t), ('is a creation', B(m[13])), ('not static', Not(B(m[14])))])
def u_finalize(u):
    w = world(u); vm = u.p.choose(2); k = u.p.choose(3) if vm else 0; dead = [term(u, 'suicide %d' % i) for i in range(k)]; ref = int_in(u, 'refunds', 64, True)
    sub = filled(u, 'dev::eth::SubState', {'suicides': econt.make(u.I, ftype(u, 'dev::eth::SubState', 'suicides'), dead), 'logs': OpaqueV('logs of the execution'), 'refunds': ref}, 'sub.'); u.assume(And(ref.t >= 0, ref.t < 1 << 62))
    for i in range(k):
        for j in range(i): u.assume(dead[j].t < dead[i].t)
    ext = PtrV(u.I.new(RecV('dev::eth::ExtVM', {'sub': sub}), 'ext')) if vm else None; e = executive(u, w, ext, res=u.p.choose(2)); u.I.contracts['dev::eth::ExtVM::evmSchedule'] = u.I.contracts['dev::eth::ExtVMFace::evmSchedule'] = lambda I, ex, fr, a: I.new(w.sched)
    f0 = w.ef(); S, A = w.sender.t, w.header.f['m_author'].t; g, price, left = w.gas, priced(u, w), w.gas0.t; isx = w.tf['m_type'].t != 0; u.assume(w.tf['m_type'].t != 3); sr = w.sched.f['suicideRefundGas'].t; u.assume(sr < 1 << 32)
    u.assume(left <= g); u.assume(Imp(Not(w.ext), g < 1 << 63)); u.assume(Imp(w.ext, g < 1 << 63)); cost = g * price; u.assume(cost < MOD)
    cap = (g - left) / 2; refund = z3.If(cap < ref.t + sr * k, cap, ref.t + sr * k) if vm else z3.IntVal(0); rest = left + refund; lemma(u, rest, g, price); lemma(u, g - rest, g, price); bs, ba = w.balof(S).t, w.balof(A).t; u.assume(If(S == A, bs + cost < MOD, And(bs + cost < MOD, ba + cost < MOD)))    # the total supply fits 256 bits, and the gas was paid before
    a = z3.Int('any address'); r = u.call(X + '::finalize', [e]); u.cover('finalizes'); f = w.ef()
    u.p.prove_all([('refunds never exceed half of the gas used', f['m_gas'].t <= left + (g - left) / 2), ('refunds are exactly those earned, up to half of the gas used', f['m_gas'].t == rest), ('gas left never exceeds the gas limit', f['m_gas'].t <= g)])
    u.prove('unused gas goes back to the sender and the rest to the author, at the price of the transaction', Imp(isx, z3.Select(w.B, a) == w.balof(a, w.B0).t + z3.If(a == S, rest * price, 0) + z3.If(a == A, (g - rest) * price, 0)))
    u.prove('fees and refund add up to what was paid', rest * price + (g - rest) * price == cost); u.prove('without a transaction nothing is paid', Imp(Not(isx), z3.Select(w.B, a) == z3.Select(w.B0, a)))
    u.prove('exactly the accounts that destroyed themselves are removed', And(*[B(len(w.killed) == k)] + [Or(*[x == d.t for x in w.killed]) for d in dead])); u.prove('tells whether the execution ended normally', B(r) == (f0['m_excepted'].t == 0))
    if not isinstance(w.res, NullV if 'NullV' in globals() else type(None)) and w.res is not NULL and isinstance(w.res, PtrV) and w.res.loc is not None:
        q = u.I.read(w.res.loc).f; u.prove('reports the gas used', q['gasUsed'].t == g - rest); u.prove('reports the outcome', q['excepted'].t == f0['m_excepted'].t)
def u_revert(u):
    w = world(u); vm = u.p.choose(2); sub = filled(u, 'dev::eth::SubState', {'suicides': econt.make(u.I, ftype(u, 'dev::eth::SubState', 'suicides'), [term(u, 's')]), 'logs': econt.make(u.I, ftype(u, 'dev::eth::SubState', 'logs'), [SegV('logs', u.I.fresh_int('n', 64, False).t, lambda k: False)]) , 'refunds': int_in(u, 'refunds', 64, True)}, 'sub.')
    ext = PtrV(u.I.new(RecV('dev::eth::ExtVM', {'sub': sub}), 'ext')) if vm else None; e = executive(u, w, ext); sp = w.ef()['m_savepoint'].t; back = []
    u.I.contracts['skale::State::rollback'] = lambda I, ex, fr, a: back.append(I.val(a[1]).t); u.call(X + '::revert', [e]); u.cover('reverts'); f = w.ef()
    u.prove('rolled back once, to the savepoint of this execution', And(B(len(back) == 1), *[x == sp for x in back])); u.prove('no new address', f['m_newAddress'].t == 0)
    if vm: q = u.I.read(ext.loc).f['sub'].f; u.prove('no self-destructs, logs or refunds are left', And(B(econt.count(q['suicides']) == 0), B(econt.count(q['logs']) == 0), q['refunds'].t == 0))
B_ = dict(src=SRC, want=WANT, mode='int', cfg={'emap': True})
def un(name, fn, **kw):
    d = dict(B_, name=name, body=fn); d.update(kw); return d
UNITS = [un('exec.verify', u_verify), un('exec.intrinsic.call', u_intrinsic(False)), un('exec.intrinsic.create', u_intrinsic(True)), un('exec.intrinsic.tx', u_intrinsic_tx), un('exec.gas', u_gas), un('exec.pow', u_pow), un('exec.go', u_go), un('exec.initialize', u_initialize), un('exec.execute', u_execute), un('exec.call', u_call), un('exec.create', u_create), un('exec.finalize', u_finalize), un('exec.revert', u_revert)]
if __name__ == '__main__': main(UNITS)
