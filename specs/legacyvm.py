"""the virtual machine (C21): every instruction against its definition; gas, stack limits and jumps"""
from common import *
from exec import filled, term
from evalx import _RefV
from loops import LoopSpec
SRC = os.path.join(VERIF, 'tu/legacyvm.cpp'); WANT = ['dev::eth::LegacyVM::*', 'dev::eth::EVMSchedule::*', 'dev::eth::CallParameters::*', 'dev::eth::CallResult::*', 'dev::eth::CreateResult::*', 'dev::eth::EnvInfo::*', 'dev::eth::BlockHeader::*', 'dev::eth::asAddress', 'dev::eth::fromAddress', 'dev::u2s', 'dev::s2u']
And, Or, Not = z3.And, z3.Or, z3.Not
VM = 'dev::eth::LegacyVM'; EX = 'dev::eth::ExtVMFace'; M = 1 << 256; INT = z3.IntSort()
class Done(PathEnd): pass
def sgn(x): return z3.If(x >= 1 << 255, x - M, x)
def uns(x): return z3.If(x < 0, x + M, x)
def tdiv(x, y):
    """division of integers rounding towards zero"""
    return z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
def b2i(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
# name: (opcode, taken from the stack, put on it, price tier)  -- the yellow paper's table, independent of the code's
OPS = {'STOP': (0, 0, 0, 0), 'ADD': (1, 2, 1, 2), 'MUL': (2, 2, 1, 3), 'SUB': (3, 2, 1, 2), 'DIV': (4, 2, 1, 3), 'SDIV': (5, 2, 1, 3), 'MOD': (6, 2, 1, 3), 'SMOD': (7, 2, 1, 3), 'ADDMOD': (8, 3, 1, 4), 'MULMOD': (9, 3, 1, 4), 'EXP': (10, 2, 1, 7), 'SIGNEXTEND': (11, 2, 1, 3),
       'LT': (16, 2, 1, 2), 'GT': (17, 2, 1, 2), 'SLT': (18, 2, 1, 2), 'SGT': (19, 2, 1, 2), 'EQ': (20, 2, 1, 2), 'ISZERO': (21, 1, 1, 2), 'AND': (22, 2, 1, 2), 'OR': (23, 2, 1, 2), 'XOR': (24, 2, 1, 2), 'NOT': (25, 1, 1, 2), 'BYTE': (26, 2, 1, 2), 'SHL': (27, 2, 1, 2), 'SHR': (28, 2, 1, 2), 'SAR': (29, 2, 1, 2),
       'SHA3': (32, 2, 1, 7), 'ADDRESS': (48, 0, 1, 1), 'BALANCE': (49, 1, 1, 7), 'ORIGIN': (50, 0, 1, 1), 'CALLER': (51, 0, 1, 1), 'CALLVALUE': (52, 0, 1, 1), 'CALLDATALOAD': (53, 1, 1, 2), 'CALLDATASIZE': (54, 0, 1, 1), 'CALLDATACOPY': (55, 3, 0, 2), 'CODESIZE': (56, 0, 1, 1), 'CODECOPY': (57, 3, 0, 2), 'GASPRICE': (58, 0, 1, 1), 'EXTCODESIZE': (59, 1, 1, 7), 'EXTCODECOPY': (60, 4, 0, 7), 'RETURNDATASIZE': (61, 0, 1, 1), 'RETURNDATACOPY': (62, 3, 0, 2), 'EXTCODEHASH': (63, 1, 1, 7),
       'BLOCKHASH': (64, 1, 1, 7), 'COINBASE': (65, 0, 1, 1), 'TIMESTAMP': (66, 0, 1, 1), 'NUMBER': (67, 0, 1, 1), 'DIFFICULTY': (68, 0, 1, 1), 'GASLIMIT': (69, 0, 1, 1), 'CHAINID': (70, 0, 1, 1), 'SELFBALANCE': (71, 0, 1, 3),
       'POP': (80, 1, 0, 1), 'MLOAD': (81, 1, 1, 2), 'MSTORE': (82, 2, 0, 2), 'MSTORE8': (83, 2, 0, 2), 'SLOAD': (84, 1, 1, 7), 'SSTORE': (85, 2, 0, 7), 'JUMP': (86, 1, 0, 4), 'JUMPI': (87, 2, 0, 5), 'PC': (88, 0, 1, 1), 'MSIZE': (89, 0, 1, 1), 'GAS': (90, 0, 1, 1), 'JUMPDEST': (91, 0, 0, 7), 'PUSH0': (95, 0, 1, 1),
       'CREATE': (240, 3, 1, 7), 'CALL': (241, 7, 1, 7), 'CALLCODE': (242, 7, 1, 7), 'RETURN': (243, 2, 0, 0), 'DELEGATECALL': (244, 6, 1, 7), 'CREATE2': (245, 4, 1, 7), 'STATICCALL': (250, 6, 1, 7), 'REVERT': (253, 2, 0, 0), 'SUICIDE': (255, 1, 0, 7)}
for i in range(1, 33): OPS['PUSH%d' % i] = (95 + i, 0, 1, 2)
for i in range(1, 17): OPS['DUP%d' % i] = (127 + i, i, i + 1, 2); OPS['SWAP%d' % i] = (143 + i, i + 1, i + 1, 2)
for i in range(5): OPS['LOG%d' % i] = (160 + i, i + 2, 0, 7)
class BytesHash(TermV):
    """a hash given byte by byte"""
    __slots__ = ('bs',)
    def __init__(s, bs): s.bs = bs; s.kind = 'hash%d' % len(bs)
    t = property(lambda s: sum((b * 256 ** (len(s.bs) - 1 - i) for i, b in enumerate(s.bs)), z3.IntVal(0)))
class ByteRef:
    def __init__(s, loc, i): s.loc = loc; s.i = i
    def load(s, I): return IntV(I.read(s.loc).bs[s.i], 8, False)
    def store(s, I, v): h = I.read(s.loc); b = list(h.bs); v = I.val(v); b[s.i] = I.zi(v.t if v.w == 8 and not v.s else v.t % 256); I.write(s.loc, BytesHash(b))
class W: pass
def world(u, op, vals=None, mem=None):
    """the machine in an arbitrary state in front of one instruction"""
    I = u.I; w = W(); w.u = u; w.op, w.args, w.ret, w.tier = OPS[op] if isinstance(op, str) else (op, 0, 0, 6); I.cfg['ptr_checks'] = False
    bv = I.mode == 'bv'
    w.v = []
    for i in range(max(w.args, 1)):
        x = (vals or {}).get(i)
        if x is None: x = int_in(u, 'stack[%d]' % i, 256)
        else: x = IntV(x, 256, False); u.p.inputs['stack[%d]' % i] = (lambda y: lambda m: str(y))(x.t)
        w.v.append(x)
    w.a = [I.zi(x.t) if not bv else I.bvt(x) for x in w.v]
    w.k = int_in(u, 'stack pointer', 64).t; u.assume(z3.ULE(w.k, 1024) if bv else And(w.k >= 0, w.k <= 1024)); S = z3.Array('stack', z3.BitVecSort(64) if bv else INT, z3.BitVecSort(256) if bv else INT)
    def elem(i):
        d = z3.simplify((z3.BitVecVal(i, 64) if bv else z3.IntVal(i)) - w.k) if isc(i) else z3.simplify(i - w.k)
        if (z3.is_int_value(d) or z3.is_bv_value(d)):
            n = d.as_signed_long() if bv else d.as_long()
            if 0 <= n < len(w.v): return w.v[n]
        x = z3.Select(S, i)
        if not bv: u.assume(And(x >= 0, x < M))
        return IntV(x, 256, False)
    w.elem = elem; st = SeqV(1024, elem, None, 'arr')
    w.gas = int_in(u, 'gas left', 64); u.assume(z3.ULT(w.gas.t, 1 << 62) if bv else w.gas.t < 1 << 62)
    sch = {n: int_in(u, 'schedule.' + n, 32) for n in GASF}
    for x in sch.values(): u.assume(z3.ULT(x.t, 1 << 24) if bv else x.t < 1 << 24)
    sch.update(memoryGas=IntV(3, 32, False), quadCoeffDiv=IntV(512, 32, False)); w.tierv = [int_in(u, 'tier %d' % i, 32) for i in range(8)]
    for x in w.tierv: u.assume(z3.ULT(x.t, 1 << 24) if bv else x.t < 1 << 24)
    def tier(i):
        if not isc(i): raise Unsupported('price tier')
        return w.tierv[i]
    sch['tierStepGas'] = SeqV(8, tier, None, 'arr'); w.schv = filled(u, 'dev::eth::EVMSchedule', sch, 'schedule.'); w.sch = w.schv.f; w.schl = I.new(w.schv, 'schedule')
    if mem: mem(u, w)
    else: w.mem = SeqV(0, lambda i: IntV(0, 8, False), None, 'vec')
    w.codel, w.code = bytes_in(u, 'code', maxlen=1 << 40); w.pc = int_in(u, 'pc', 64); u.assume(z3.ULT(w.pc.t, w.code.n) if bv else w.pc.t < w.code.n)
    def codeat(i):
        d = z3.simplify(i - w.pc.t)
        return IntV(w.op, 8, False) if not isc(i) and (z3.is_int_value(d) and d.as_long() == 0 or z3.is_bv_value(d) and d.as_long() == 0) else w.code.get(i)
    u.assume(w.code.get(w.pc.t).t == w.op)
    # the code is followed by 33 zero bytes (unit vm.optimize): an instruction other than STOP lies in the code itself
    if not bv: u.assume(w.code.n >= 33); u.assume(w.pc.t < w.code.n - (33 if w.op else 0))
    ext = W(); w.ext = ext; h = filled(u, 'dev::eth::BlockHeader', {'m_author': term(u, 'author')}, 'header.') if not bv else None; w.header = h
    env = RecV('dev::eth::EnvInfo', {'m_headerInfo': h, 'm_chainID': int_in(u, 'chain id', 256)}) if h else OpaqueV('env'); w.env = env; w.addr = {n: (term(u, n) if not bv else OpaqueV(n)) for n in ('myAddress', 'caller', 'origin')}
    w.calldata = bytes_in(u, 'call data', maxlen=1 << 40); w.extcode = bytes_in(u, 'account code', maxlen=1 << 40); w.refunds = int_in(u, 'refunds', 64, True)
    if not bv: u.assume(And(w.refunds.t > -(1 << 62), w.refunds.t < 1 << 62))
    w.extl = I.new(RecV(EX, {'m_envInfo': _RefV(I.new(env, 'env')), **w.addr, 'value': int_in(u, 'call value', 256), 'gasPrice': int_in(u, 'gas price', 256), 'data': vref(w.calldata[0], 0, w.calldata[1].n), 'code': w.extcode[1], 'staticCall': I.fresh_bool('static call'), 'depth': int_in(u, 'call depth', 32), 'isCreate': I.fresh_bool('is create'), 'sub': RecV('dev::eth::SubState', {'refunds': w.refunds})}), 'ext')
    w.extv = I.read(w.extl).f
    w.rd = bytes_in(u, 'return data', maxlen=1 << 40); w.jd = I.fresh_seq('jump destinations', 64, False, maxlen=1 << 40) if not bv else OpaqueV('jumpdests')
    w.iop = I.new(int_in(u, 'caller gas variable', 256))
    w.vm = I.new(RecV(VM, {'m_stack': st, 'm_io_gas': w.gas, 'm_io_gas_p': PtrV(w.iop), 'm_ext': PtrV(w.extl), 'm_onOp': FnV(null=True), 'm_bounce': FnV(key='interpretCases'), 'm_onFail': FnV(null=True), 'm_nSteps': int_in(u, 'steps', 64), 'm_schedule': PtrV(w.schl), 'm_output': OpaqueV('output'), 'm_mem': w.mem, 'm_code': SeqV(w.code.n, codeat, None, 'vec'), 'm_returnData': w.rd[1], 'm_OP': int_in(u, 'last op', 32) if False else IntV(0, 8, False), 'm_PC': w.pc,
                             'm_runGas': int_in(u, 'runGas', 64), 'm_newMemSize': int_in(u, 'newMemSize', 64), 'm_copyMemSize': int_in(u, 'copyMemSize', 64), 'm_jumpDests': w.jd}), 'vm')
    base = w.vm.f('m_stack'); I.write(w.vm.f('m_SPP'), PtrV(base, w.k)); I.write(w.vm.f('m_SP'), PtrV(base, int_in(u, 'old stack pointer', 64).t)); I.write(w.vm.f('m_stackEnd'), PtrV(base, 1024))
    def metric(i):
        if not isc(i): raise Unsupported('metrics of an unknown instruction')
        n = next((o for o in OPS.values() if o[0] == i), (i, 0, 0, 6)); return RecV('dev::eth::InstructionMetric', {'gasPriceTier': IntV(n[3], 32, False), 'args': IntV(n[1], 32, True), 'ret': IntV(n[2], 32, True)})
    I.cfg['globals'] = {VM + '::c_metrics': lambda I, gd: SeqV(256, metric, None, 'arr')}
    w.n = 0
    def fetch(I, e, fr, a):
        w.n += 1
        if w.n > 1: raise Done()
        I.contracts.pop(VM + '::fetchInstruction'); u.call(VM + '::fetchInstruction', [w.vm]); I.contracts[VM + '::fetchInstruction'] = fetch
        return OpaqueV('void')
    w.bal, w.csize, w.chash, w.bhash, w.there, w.stor, w.orig = [z3.Function(n, INT, z3.BoolSort() if n == 'exists' else INT) for n in ('balance', 'code size', 'code hash', 'block hash', 'exists', 'storage', 'original storage')]; w.isdest = z3.Function('valid jump destination', INT, z3.BoolSort()); w.sets, w.sui, w.logs, w.calls, w.creates = [], [], [], [], []
    def rng(t, top=M): u.assume(And(t >= 0, t < top)); return t
    if not bv:
        for n in w.addr.values(): rng(n.t, 1 << 160)
        rng(h.f['m_author'].t, 1 << 160); 
        for n in ('m_number', 'm_timestamp'): u.assume(h.f[n].t >= 0)
    fn = lambda F, top=M, mk=lambda t: IntV(t, 256, False): (lambda I, e, fr, a: mk(rng(F(I.zi(I.val(a[1]).t)), top)))
    def setstore(I, e, fr, a): w.sets.append((I.zi(I.val(a[1]).t), I.zi(I.val(a[2]).t))); return OpaqueV('void')
    def suicide(I, e, fr, a): w.sui.append(I.val(a[1]).t); return OpaqueV('void')
    def bsearch(I, e, fr, a):
        t = I.zi(I.val(a[2]).t); u.prove('the whole list of destinations is searched', z3.BoolVal(True) if getattr(I.val(a[0]), 'off', None) is not None and isc(I.val(a[0]).off) and I.val(a[0]).off == 0 and same(I.val(a[1]).off, w.jd.n) else z3.BoolVal(False)); u.assume(Imp(w.isdest(t), t < w.code.n - 33)); return w.isdest(t)
    w.ec = bytes_in(u, 'other code', maxlen=1 << 40) if not bv else None
    extc = {'store': fn(w.stor), 'originalStorageValue': fn(w.orig), 'balance': fn(w.bal), 'codeSizeAt': fn(w.csize, 1 << 64, lambda t: IntV(t, 64, False)), 'codeHashAt': fn(w.chash, M, lambda t: TermV(t, 'hash32')), 'blockHash': fn(w.bhash, M, lambda t: TermV(t, 'hash32')), 'exists': lambda I, e, fr, a: w.there(I.val(a[1]).t), 'setStore': setstore, 'suicide': suicide, 'codeAt': lambda I, e, fr, a: (w.calls.append(I.val(a[1]).t), w.ec[0])[1]}
    w.con = hashcon({**{EX + '::' + n: x for n, x in extc.items()}, 'std::binary_search': bsearch, 'dev::right160': lambda I, e, fr, a: TermV(I.zi(I.val(a[0]).t) % (1 << 160), 'hash20'), VM + '::fetchInstruction': fetch, 'boost::multiprecision::number::(ctor string)': lambda I, e, fr, a: lit(I, a[0])})
    hc = w.con['dev::FixedHash::(ctor)']; w.con['dev::FixedHash::(ctor)'] = lambda I, e, fr, a: hc(I, e, fr, a) if a else BytesHash([z3.IntVal(0)] * int(hc(I, e, fr, a).kind[4:]))
    def hat(I, e, fr, a):
        i = I.val(a[1]); j = i.t if isc(i.t) else None
        if j is None or not isinstance(I.val(a[0]), BytesHash): raise Unsupported('byte of a hash')
        if not 0 <= j < len(I.val(a[0]).bs): u.prove('byte of a hash in bounds', z3.BoolVal(False))
        return ByteRef(a[0], j)
    w.con['dev::FixedHash::operator[]'] = hat; w.con['dev::eth::BlockHeader::timestamp'] = lambda I, e, fr, a: w.header.f['m_timestamp']
    I.contracts = w.con; return w
def lit(I, v):
    v = I.val(v)
    s = ''.join(chr(v.get(i).t) for i in range(v.n)) if isc(v.n) else None
    if s is None: raise Unsupported('number from a text')
    return IntV(int(s.rstrip('\0'), 0) % M, 256, False)
GASF = ['expGas', 'expByteGas', 'sha3Gas', 'sha3WordGas', 'sloadGas', 'sstoreSetGas', 'sstoreResetGas', 'sstoreUnchangedGas', 'sstoreRefundGas', 'sstoreRefundNonzeroGas', 'logGas', 'logDataGas', 'logTopicGas', 'createGas', 'callGas', 'callStipend', 'callValueTransferGas', 'callNewAccountGas', 'copyGas', 'extcodesizeGas', 'extcodecopyGas', 'extcodehashGas', 'balanceGas', 'suicideGas', 'blockhashGas']
def run(u, w):
    """execute the instruction; returns None if it went through (falling to the next one or leaving the loop), else the exception"""
    w.left = False
    try:
        ex, _ = u.throws(u.call, VM + '::interpretCases', [w.vm]); w.left = ex is None; b = u.I.read(w.vm.f('m_bounce'))
        if w.left and b.null is not True and 'interpretCases' not in repr(b.key):
            w.left = False; ex, _ = u.throws(u.call, VM + '::' + next(x for x in ('caseCreate', 'caseCall', str(b.key)) if x in str(b.key)), [w.vm])
            if ex is None: u.prove('the interpreter goes on afterwards', z3.BoolVal('interpretCases' in repr(u.I.read(w.vm.f('m_bounce')).key)))
    except Done: ex = None; u.I.callstack.clear()
    return ex
def judge(u, w, cost, bad=False, results=None, pc=None, after=None, end=False, ok=None):
    """the instruction goes through exactly when the stack fits, nothing forbids it and its price can be paid"""
    I = u.I; bv = I.mode == 'bv'; ex = run(u, w); ex = None if ok and ex == ok else ex; f = lambda n: I.read(w.vm.f(n)); k = w.k
    if bv:
        under = z3.UGT(k + w.args, 1024); over = k + w.args < w.ret; c64 = z3.ZeroExt(32, cost) if cost.size() == 32 else cost; poor = z3.ULT(w.gas.t, c64)
    else: under = k + w.args > 1024; over = k + w.args < w.ret; poor = w.gas.t < cost
    stop = Or(under, over, B(bad), poor)
    if ex is not None:
        u.prove('it fails only for a stack that does not fit, a forbidden use or too little gas (%s)' % ex.split('::')[-1], stop); u.cover('fails'); return ex
    u.prove('it does not go through when the stack does not fit', Not(Or(under, over))); u.prove('it does not go through when it is forbidden', Not(B(bad))); u.prove('it does not go through when the gas does not suffice', Not(poor)); u.cover('goes through')
    g = f('m_io_gas'); u.prove('its price is taken from the gas', I.bvt(g, 64) == w.gas.t - c64 if bv else g.t == (after() if after else w.gas.t - cost))
    if end: return None
    if callable(results): results = results()
    sp = f('m_SPP'); nk = k + w.args - w.ret; u.prove('the stack shrinks and grows by the defined number of items', sp.off == nk)
    for j, r in enumerate(results or []):
        if r is None: continue
        x = I.read(Loc(sp.loc.cell, sp.loc.path + (('i', nk + j),))); u.prove('result %d is the defined one' % j, (I.bvt(x, 256) if bv else x.t) == r)
    j = u.I.fresh_int('any other slot', 64, False).t; u.p.inputs['slot'] = lambda m: str(m.eval(j, True))
    u.assume(And(z3.UGE(j, nk + len(results or [])), z3.ULT(j, 1024)) if bv else And(j >= nk + len(results or []), j < 1024))
    x = I.read(Loc(sp.loc.cell, sp.loc.path + (('i', j),))); u.prove('the rest of the stack is unchanged', (I.bvt(x, 256) if bv else x.t) == w.elem(j).t)
    if not w.left and not bv: u.prove('the program counter stays in the code or its padding', And(f('m_PC').t >= 0, f('m_PC').t < w.code.n))
    if pc is not None: u.prove('the program counter moves to the defined place', I.bvt(f('m_PC'), 64) == pc if bv else f('m_PC').t == pc)
    return None
def simple(op, res, bad=None, vals=None):
    def body(u):
        w = world(u, op, vals(u) if vals else None); cost = w.tierv[w.tier].t if w.tier != 7 else z3.IntVal(0)
        judge(u, w, cost, bad(w) if bad else False, res(w), w.pc.t + 1)
    return body
Z0 = z3.IntVal(0)
ARITH = {'ADD': lambda a, b: (a + b) % M, 'MUL': lambda a, b: (a * b) % M, 'SUB': lambda a, b: (a - b) % M, 'DIV': lambda a, b: z3.If(b == 0, Z0, a / b), 'MOD': lambda a, b: z3.If(b == 0, Z0, a % b),
         'SDIV': lambda a, b: z3.If(b == 0, Z0, tdiv(sgn(a), sgn(b)) % M), 'SMOD': lambda a, b: z3.If(b == 0, Z0, (sgn(a) - tdiv(sgn(a), sgn(b)) * sgn(b)) % M),
         'ADDMOD': lambda a, b, n: z3.If(n == 0, Z0, (a + b) % n), 'MULMOD': lambda a, b, n: z3.If(n == 0, Z0, (a * b) % n),
         'LT': lambda a, b: b2i(a < b), 'GT': lambda a, b: b2i(a > b), 'SLT': lambda a, b: b2i(sgn(a) < sgn(b)), 'SGT': lambda a, b: b2i(sgn(a) > sgn(b)), 'EQ': lambda a, b: b2i(a == b), 'ISZERO': lambda a: b2i(a == 0)}
UNITS = [dict(name='vm.' + op, src=SRC, want=WANT, body=simple(op, (lambda g: lambda w: [g(*w.a[:w.args])])(g))) for op, g in ARITH.items()]
def bvu(op, res, badf=None):
    def body(u):
        w = world(u, op); cost = w.tierv[w.tier].t; judge(u, w, cost, badf(w) if badf else False, [res(*w.a[:w.args])], w.pc.t + 1)
    return body
def c256(n): return z3.BitVecVal(n, 256)
def byte(i, x): return z3.If(z3.ULT(i, 32), z3.LShR(x, 8 * (31 - i)) & 255, c256(0))
def signext(b, x): n = 8 * b + 7; m = (c256(1) << (n + 1)) - 1; return z3.If(z3.UGE(b, 31), x, z3.If(z3.Extract(0, 0, z3.LShR(x, n)) == 1, x | ~m, x & m))
BITS = {'AND': lambda a, b: a & b, 'OR': lambda a, b: a | b, 'XOR': lambda a, b: a ^ b, 'NOT': lambda a: ~a, 'BYTE': byte, 'SIGNEXTEND': signext}
SHIFTS = {'SHL': lambda s, x: x << s, 'SHR': lambda s, x: z3.LShR(x, s), 'SAR': lambda s, x: x >> s}     # bit-vector shifts give 0 or the sign for amounts of 256 and more
UNITS += [dict(name='vm.' + op, src=SRC, want=WANT, body=bvu(op, g), mode='bv') for op, g in BITS.items()]
UNITS += [dict(name='vm.' + op, src=SRC, want=WANT, body=bvu(op, g, lambda w: Not(w.sch['haveBitwiseShifting'])), mode='bv') for op, g in SHIFTS.items()]
def addr(x): return x % (1 << 160)
S = lambda n: (lambda w: w.sch[n].t)
E = lambda n: (lambda w: w.extv[n].t)
TIER = lambda w: w.tierv[w.tier].t
def cdl(w):
    n, g, o = w.calldata[1].n, w.calldata[1].get, w.a[0]; r = 0
    for j in range(32): r = r * 256 + z3.If(o + j < n, g(o + j).t, Z0)
    return [r]
# name: (price, forbidden, results)
ENV = {'ADDRESS': (TIER, None, lambda w: [w.addr['myAddress'].t]), 'ORIGIN': (TIER, None, lambda w: [w.addr['origin'].t]), 'CALLER': (TIER, None, lambda w: [w.addr['caller'].t]), 'CALLVALUE': (TIER, None, lambda w: [E('value')(w)]), 'GASPRICE': (TIER, None, lambda w: [E('gasPrice')(w)]),
       'BALANCE': (S('balanceGas'), None, lambda w: [w.bal(addr(w.a[0]))]), 'EXTCODESIZE': (S('extcodesizeGas'), None, lambda w: [w.csize(addr(w.a[0]))]), 'EXTCODEHASH': (S('extcodehashGas'), lambda w: Not(w.sch['haveExtcodehash']), lambda w: [w.chash(addr(w.a[0]))]), 'BLOCKHASH': (S('blockhashGas'), None, lambda w: [w.bhash(w.a[0])]), 'SELFBALANCE': (TIER, lambda w: Not(w.sch['haveSelfbalance']), lambda w: [w.bal(w.addr['myAddress'].t)]), 'CHAINID': (TIER, lambda w: Not(w.sch['haveChainID']), lambda w: [w.env.f['m_chainID'].t]),
       'CALLDATASIZE': (TIER, None, lambda w: [w.calldata[1].n]), 'CODESIZE': (TIER, None, lambda w: [w.extcode[1].n]), 'RETURNDATASIZE': (TIER, lambda w: Not(w.sch['haveReturnData']), lambda w: [w.rd[1].n]), 'CALLDATALOAD': (TIER, None, cdl),
       'COINBASE': (TIER, None, lambda w: [w.header.f['m_author'].t]), 'TIMESTAMP': (TIER, None, lambda w: [w.header.f['m_timestamp'].t]), 'NUMBER': (TIER, None, lambda w: [w.header.f['m_number'].t]), 'DIFFICULTY': (TIER, None, lambda w: [w.header.f['m_difficulty'].t]), 'GASLIMIT': (TIER, None, lambda w: [w.header.f['m_gasLimit'].t]),
       'POP': (TIER, None, lambda w: []), 'PC': (TIER, None, lambda w: [w.pc.t]), 'MSIZE': (TIER, None, lambda w: [w.mem.n]), 'GAS': (TIER, None, lambda w: [w.gas.t - TIER(w)]), 'JUMPDEST': (lambda w: z3.IntVal(1), None, lambda w: []), 'PUSH0': (TIER, lambda w: Not(w.sch['havePush0']), lambda w: [Z0]), 'SLOAD': (S('sloadGas'), None, lambda w: [w.stor(w.a[0])])}
def env(op, price, bad, res):
    def body(u):
        w = world(u, op, mem=anymem if op == 'MSIZE' else None); judge(u, w, price(w), bad(w) if bad else False, res(w), w.pc.t + 1)
    return body
def anymem(u, w):
    w.meml, w.mem = bytes_in(u, 'memory', maxlen=1 << 40); u.assume(w.mem.n % 32 == 0)
UNITS += [dict(name='vm.' + op, src=SRC, want=WANT, body=env(op, *x)) for op, x in ENV.items()]
def u_push(n):
    def body(u):
        w = world(u, 'PUSH%d' % n); r = 0
        for j in range(n): r = r * 256 + w.code.get(w.pc.t + 1 + j).t
        judge(u, w, TIER(w), False, [r], w.pc.t + 1 + n)
    return body
def u_dup(n):
    def body(u): w = world(u, 'DUP%d' % n); judge(u, w, TIER(w), False, [w.a[n - 1]] + w.a, w.pc.t + 1)
    return body
def u_swap(n):
    def body(u): w = world(u, 'SWAP%d' % n); judge(u, w, TIER(w), False, [w.a[n]] + w.a[1:n] + [w.a[0]], w.pc.t + 1)
    return body
UNITS += [dict(name='vm.PUSH%d' % n, src=SRC, want=WANT, body=u_push(n)) for n in range(1, 33)]
UNITS += [dict(name='vm.DUP%d' % n, src=SRC, want=WANT, body=u_dup(n)) for n in range(1, 17)] + [dict(name='vm.SWAP%d' % n, src=SRC, want=WANT, body=u_swap(n)) for n in range(1, 17)]
def isd(u, w): u.assume(Imp(w.isdest(w.a[0]), w.a[0] < w.code.n - 33)); return w
def u_jump(u): w = isd(u, world(u, 'JUMP')); judge(u, w, TIER(w), Not(w.isdest(w.a[0])), [], w.a[0])
def u_jumpi(u): w = isd(u, world(u, 'JUMPI')); judge(u, w, TIER(w), And(w.a[1] != 0, Not(w.isdest(w.a[0]))), [], z3.If(w.a[1] != 0, w.a[0], w.pc.t + 1))
def u_sstore(u):
    w = world(u, 'SSTORE'); s = lambda n: w.sch[n].t; cur, new, org = w.stor(w.a[0]), w.a[1], w.orig(w.a[0]); net = B(w.sch['eip1283Mode']); u.assume(And(cur >= 0, org >= 0))
    old = z3.If(And(cur == 0, new != 0), s('sstoreSetGas'), s('sstoreResetGas'))
    cost = z3.If(net, z3.If(cur == new, s('sstoreUnchangedGas'), z3.If(org == cur, z3.If(org == 0, s('sstoreSetGas'), s('sstoreResetGas')), s('sstoreUnchangedGas'))), old)
    R, N = s('sstoreRefundGas'), s('sstoreRefundNonzeroGas')
    ref = z3.If(net, z3.If(cur == new, Z0, z3.If(org == cur, z3.If(And(org != 0, new == 0), R, Z0), z3.If(org != 0, z3.If(cur == 0, -R, Z0) + z3.If(new == 0, R, Z0), Z0) + z3.If(org == new, z3.If(org == 0, R + N, N), Z0))), z3.If(And(cur != 0, new == 0), R, Z0))
    ex = judge(u, w, cost, w.extv['staticCall'], [], w.pc.t + 1)
    if ex is None:
        u.prove('the word is written once', z3.BoolVal(len(w.sets) == 1)); k, v = w.sets[0]; u.prove('the defined word with the defined value', And(k == w.a[0], v == w.a[1])); u.prove('the refund changes as defined', u.I.read(w.extl).f['sub'].f['refunds'].t == w.refunds.t + ref)
    else: u.prove('nothing is written when it fails', z3.BoolVal(not w.sets))
def u_stop(u):
    w = world(u, 'STOP'); ex = judge(u, w, TIER(w), False, [])
    if ex is None: u.prove('the run ends', z3.BoolVal(w.left and u.I.read(w.vm.f('m_bounce')).null is True))
UNITS += [dict(name='vm.' + n, src=SRC, want=WANT, body=b) for n, b in (('JUMP', u_jump), ('JUMPI', u_jumpi), ('SSTORE', u_sstore), ('STOP', u_stop))]
# ---- memory
def words(n): return (n + 31) / 32
MG = z3.Function('price of memory words', INT, INT)       # 3 s + s * s / 512, see vm.gasForMem
def memgas(s): return 3 * s + s * s / 512
def memlemma(u, q, r):
    """what the units below need to know of the price (proved from its definition in vm.memory price)"""
    u.assume(And(Imp(q >= 0, MG(q) >= 3 * q), Imp(r >= 0, MG(r) >= 3 * r), Imp(And(0 <= r, r <= q), MG(r) <= MG(q)), Imp(q >= 1 << 58, MG(q) >= 1 << 100), Imp(And(0 <= r, r <= 1 << 35), MG(r) < 1 << 62), Imp(q >= 1 << 37, MG(q) >= 1 << 65)))
def u_memlemma(u):
    q, r = u.I.fresh_int('words', 512, False).t, u.I.fresh_int('fewer words', 512, False).t; f = memgas
    u.cover('any'); u.prove('at least three per word', Imp(q >= 0, f(q) >= 3 * q)); d = u.I.fresh_int('difference', 512, False).t; u.prove('more words never cost less', Imp(And(r >= 0, d >= 0), And((r + d) * (r + d) == r * r + 2 * (r * d) + d * d, Imp(And(r * d >= 0, d * d >= 0, (r + d) * (r + d) == r * r + 2 * (r * d) + d * d), f(r) <= f(r + d)), r * d >= 0, d * d >= 0)))
    u.prove('a huge memory has a huge price', Imp(q >= 1 << 58, f(q) >= 1 << 100)); u.prove('a large memory has a large price', Imp(q >= 1 << 37, f(q) >= 1 << 65)); u.prove('a moderate memory has a moderate price', Imp(And(r >= 0, r <= 1 << 35), f(r) < 1 << 62))
def u_gasformem(u):
    w = world(u, 'STOP'); s = int_in(u, 'size', 512); ex, r = u.throws(u.call, VM + '::gasForMem', [w.vm, u.I.new(s)]); c = memgas(s.t / 32); u.cover('returns or throws')
    if ex: u.prove('out of gas only for a price no gas can pay', c >= 1 << 63)
    else: u.prove('three per word plus a 512th of the square', r.t == c)
def grow(u, w, *areas):
    """size of the memory after the areas (offset, size) have been made available, and what it costs (unbounded integers)"""
    need = Z0; n = w.mem.n
    for o, s in areas: e = z3.If(s == 0, Z0, o + s); need = z3.If(e > need, e, need)
    q = words(need); old = n / 32; memlemma(u, q, old)
    def price(I, e, fr, a):
        v = MG(I.val(a[1]).t / 32)
        if I.p.branch(v >= 1 << 63): raise CxxThrow('dev::eth::OutOfGas')
        u.assume(v >= 0); return IntV(v, 64, False)
    w.con[VM + '::gasForMem'] = price
    w.newlen = z3.If(q > old, 32 * q, n); return z3.If(q > old, MG(q) - MG(old), Z0)
def oldbyte(w, i): return z3.If(i < w.mem.n, w.mem.get(i).t, Z0)
def memory(u, w, byte):
    """after success: the memory has the defined size and every byte of it the defined value"""
    m = u.I.read(w.vm.f('m_mem')); u.prove('the memory grows to the defined size', m.n == w.newlen); i = u.I.fresh_int('any memory byte', 64, False).t; u.assume(And(i >= 0, i < w.newlen)); u.p.inputs['memory byte'] = lambda mm: str(mm.eval(i, True))
    u.prove('every byte of the memory is the defined one', m.get(i).t == byte(i))
def u_mload(u):
    w = world(u, 'MLOAD', mem=anymem); o = w.a[0]; g = grow(u, w, (o, z3.IntVal(32))); r = 0
    for j in range(32): r = r * 256 + oldbyte(w, o + j)
    if judge(u, w, TIER(w) + g, False, [r], w.pc.t + 1) is None: memory(u, w, lambda i: oldbyte(w, i))
def u_mstore(u):
    w = world(u, 'MSTORE', mem=anymem); o, v = w.a; g = grow(u, w, (o, z3.IntVal(32)))
    def byte(i):
        r = oldbyte(w, i)
        for j in range(32): r = z3.If(i == o + j, (v / 256 ** (31 - j)) % 256, r)
        return r
    if judge(u, w, TIER(w) + g, False, [], w.pc.t + 1) is None: memory(u, w, byte)
def u_mstore8(u):
    w = world(u, 'MSTORE8', mem=anymem); o, v = w.a; g = grow(u, w, (o, z3.IntVal(1)))
    if judge(u, w, TIER(w) + g, False, [], w.pc.t + 1) is None: memory(u, w, lambda i: z3.If(i == o, v % 256, oldbyte(w, i)))
def copyop(op, src, base=TIER, first=0, bad=lambda w: False):
    def body(u):
        w = world(u, op, mem=anymem); to, frm, n = w.a[first:first + 3]; g = grow(u, w, (to, n)); ln, get = src(w)
        ex = judge(u, w, base(w) + g + w.sch['copyGas'].t * words(n), bad(w), [], w.pc.t + 1)
        if ex is None:
            memory(u, w, lambda i: z3.If(And(i >= to, i < to + n), z3.If(i - to + frm < ln, get(i - to + frm).t, Z0), oldbyte(w, i)))
            if op == 'EXTCODECOPY': u.prove('the code of the given account is read', z3.BoolVal(len(w.calls) == 1)); u.prove('of the given account', w.calls[0] == addr(w.a[0]))
    return body
sq = lambda x: (x[1].n, x[1].get)
UNITS += [dict(name='vm.' + n, src=SRC, want=WANT, body=b) for n, b in (('gasForMem', u_gasformem), ('memory price', u_memlemma), ('MLOAD', u_mload), ('MSTORE', u_mstore), ('MSTORE8', u_mstore8), ('CALLDATACOPY', copyop('CALLDATACOPY', lambda w: sq(w.calldata))), ('CODECOPY', copyop('CODECOPY', lambda w: sq(w.extcode))), ('EXTCODECOPY', copyop('EXTCODECOPY', lambda w: sq(w.ec), S('extcodecopyGas'), 1)),
    ('RETURNDATACOPY', copyop('RETURNDATACOPY', lambda w: sq(w.rd), bad=lambda w: Or(Not(w.sch['haveReturnData']), w.a[1] + w.a[2] > w.rd[1].n))))]
# ---- powers
PW = z3.Function('power mod 2^256', INT, INT, INT)       # PW(b, 0) = 1, PW(b, n + 1) = b PW(b, n) mod 2^256
def sqlemma(u, b, n): u.assume(Imp(And(b >= 0, n >= 0), PW(b, n) == z3.If(n % 2 == 1, (b * PW((b * b) % M, n / 2)) % M, PW((b * b) % M, n / 2)))); u.assume(And(PW(b, n) >= 0, PW(b, n) < M))
def assoc(u, a, b, c): u.assume(((a * b) % M * c) % M == (a * ((b * c) % M)) % M)
def u_powlemma(u):
    I = lambda n: u.I.fresh_int(n, 512, False).t; a, b, c, q1, q2, r1, r2 = map(I, 'a b c q1 q2 r1 r2'.split()); u.cover('any')
    # (a b mod M) c = a (b c mod M) modulo M, from the definition of the remainder
    u.assume(And(a * b == M * q1 + r1, b * c == M * q2 + r2, r1 >= 0, r1 < M, r2 >= 0, r2 < M)); x, y, t = I('x'), I('y'), z3.Int('t'); u.prove('multiplication of remainders associates', And(r1 * c - a * r2 == M * (a * q2 - q1 * c), Imp(And(x - y == M * t), x % M == y % M)))
    k = I('k'); m = lambda x, y: (x * y) % M; B2 = (b * b) % M; u.assume(And(b < M, b >= 0, k >= 0, PW(b, 0) == 1, PW(B2, 0) == 1, PW(b, 2 * k + 1) == m(b, PW(b, 2 * k)), PW(b, 2 * k + 2) == m(b, PW(b, 2 * k + 1)), PW(B2, k + 1) == m(B2, PW(B2, k)), m(b, m(b, PW(b, 2 * k))) == m(m(b, b), PW(b, 2 * k))))
    u.prove('squares: base', PW(b, 0) == PW(B2, 0)); u.prove('squares: step', Imp(PW(b, 2 * k) == PW(B2, k), And(PW(b, 2 * k + 2) == PW(B2, k + 1), PW(b, 2 * k + 1) == m(b, PW(B2, k)))))
def u_exp256(u):
    I = u.I; b, n = int_in(u, 'base', 256), int_in(u, 'exponent', 256); I.contracts = {}
    def inv(I, env, k):
        r, bb, e = env.t('result'), env.t('_base'), env.t('_exponent'); assoc(u, r, bb, PW((bb * bb) % M, e / 2)); sqlemma(u, bb, e)
        return [('result times the remaining power is the power', And(r >= 0, r < M, (r * PW(bb, e)) % M == PW(b.t, n.t)))]
    u.assume(PW(b.t, n.t) >= 0); sqlemma(u, b.t, n.t); I.cfg.setdefault('loops', {})[(VM + '::exp256', None)] = LoopSpec(inv, None, name='square and multiply'); I.loops = I.cfg['loops']
    r = u.call(VM + '::exp256', [I.new(b), I.new(n)]); u.assume(z3.ForAll([z3.Int('x')], PW(z3.Int('x'), 0) == 1)); u.cover('returns'); u.prove('the power modulo 2^256', r.t == PW(b.t, n.t))
def u_optimize(u):
    """the code is copied, padded with 33 zero bytes, and its jump destinations are exactly the JUMPDESTs that are instructions (not data of a PUSH)"""
    I = u.I; cl, code = bytes_in(u, 'code', maxlen=1 << 40); n = code.n; c = lambda i: code.get(i).t; INS = z3.Function('an instruction starts here', INT, z3.BoolSort()); R = z3.Function('destinations before', INT, INT); p, q = z3.Int('p!q'), z3.Int('q!q')
    ext = I.new(RecV(EX, {'code': code}), 'ext'); e = SeqV(0, lambda i: IntV(0, 8, False), None, 'vec'); vm = I.new(RecV(VM, {'m_ext': PtrV(ext), 'm_code': e, 'm_jumpDests': SeqV(0, lambda i: IntV(0, 64, False), None, 'vec'), 'm_bounce': FnV(key='initEntry')}), 'vm'); I.contracts = {VM + '::initMetrics': lambda I, ex, fr, a: OpaqueV('void')}
    jd = lambda i: And(i >= 0, i < n, INS(i), c(i) == 0x5b); syn = lambda i: And(INS(i), c(i) >= 0xac, c(i) <= 0xae); nxt = lambda i: i + 1 + z3.If(And(c(i) >= 0x60, c(i) <= 0x7f), c(i) - 0x5f, Z0)
    u.assume(INS(0)); u.assume(R(0) == 0)
    def conds(pc):
        m, d = I.read(vm.f('m_code')), I.read(vm.f('m_jumpDests')); g = lambda i: d.get(i).t
        return [('the code keeps its length', m.n == n + 33), ('an instruction starts here', And(pc >= 0, Imp(pc < n, INS(pc)))), ('destinations counted', And(d.n == R(pc), d.n >= 0)), ('every destination is found', z3.ForAll([p], Imp(And(jd(p), p < pc), And(R(p) >= 0, R(p) < d.n, g(R(p)) == p)), patterns=[R(p)])),
                ('only destinations are listed', z3.ForAll([p], Imp(And(p >= 0, p < d.n), And(g(p) < pc, jd(g(p)))))), ('in ascending order', z3.ForAll([p, q], Imp(And(p >= 0, p < q, q < d.n), g(p) < g(q)))),
                ('the code is kept except for the optimizer\'s own instructions', z3.ForAll([p], Imp(And(p >= 0, p < n + 33), m.get(p).t == z3.If(p >= n, Z0, z3.If(And(p < pc, syn(p)), z3.IntVal(0xfe), c(p))))))]
    def inv(I, env, k):
        pc = env.t('pc'); u.assume(Imp(And(pc >= 0, pc < n, INS(pc)), And(INS(nxt(pc)), z3.ForAll([q], Imp(And(q > pc, q < nxt(pc)), Not(INS(q))), patterns=[INS(q)]), R(nxt(pc)) == R(pc) + z3.If(c(pc) == 0x5b, z3.IntVal(1), Z0)))); return conds(pc)
    I.cfg.setdefault('loops', {})[(VM + '::optimize', None)] = LoopSpec(inv, None, name='scan of the code'); I.loops = I.cfg['loops']
    u.call(VM + '::initEntry', [vm]); u.cover('returns'); m, d = I.read(vm.f('m_code')), I.read(vm.f('m_jumpDests')); u.prove('the code is padded with 33 bytes', m.n == n + 33); i = I.fresh_int('any place', 64, False).t; u.assume(And(i >= 0, i < n + 33))
    u.prove('padding is zero, code is kept except for instructions only the optimizer may use', m.get(i).t == z3.If(i >= n, Z0, z3.If(syn(i), z3.IntVal(0xfe), c(i)))); a, b = [I.fresh_int(x, 64, False).t for x in ('any entry', 'a later entry')]; u.assume(And(a >= 0, a < b, b < d.n)); u.prove('destinations are sorted', d.get(a).t < d.get(b).t)
    u.prove('every entry is a JUMPDEST instruction', jd(d.get(a).t)); u.prove('the last one too', jd(d.get(b).t)); u.prove('every JUMPDEST instruction has an entry', Imp(jd(i), And(R(i) >= 0, R(i) < d.n, d.get(R(i)).t == i))); u.prove('the interpreter comes next', z3.BoolVal('interpretCases' in repr(I.read(vm.f('m_bounce')).key)))
def u_exp(u):
    w = world(u, 'EXP'); e = w.a[1]; sig = Z0
    for j in range(32): sig = z3.If(e >= 256 ** j, z3.IntVal(j + 1), sig)
    def fbs(I, ex, fr, a):
        h = I.val(a[0]).t; t = I.fresh_int('leading zero bits', 32, False); u.assume(And(t.t >= 0, t.t <= 256, *[(t.t < 8 * j) == (h >= 2 ** (256 - 8 * j)) for j in range(1, 33)])); return t
    w.con['dev::FixedHash::firstBitSet'] = fbs; w.con[VM + '::exp256'] = lambda I, ex, fr, a: (u.assume(And(PW(I.val(a[-2]).t, I.val(a[-1]).t) >= 0, PW(I.val(a[-2]).t, I.val(a[-1]).t) < M)), IntV(PW(I.val(a[-2]).t, I.val(a[-1]).t), 256, False))[1]
    judge(u, w, w.sch['expGas'].t + w.sch['expByteGas'].t * sig, False, [PW(w.a[0], e)], w.pc.t + 1)
UNITS += [dict(name='vm.' + n, src=SRC, want=WANT, body=b) for n, b in (('power lemma', u_powlemma), ('EXP', u_exp))] + [dict(name='vm.exp256', src=os.path.join(REPO, 'libevm/LegacyVMOpt.cpp'), want=['dev::eth::LegacyVM::*'], body=u_exp256), dict(name='vm.optimize', src=os.path.join(REPO, 'libevm/LegacyVMOpt.cpp'), want=['dev::eth::LegacyVM::*'], body=u_optimize)]
# ---- memory handed to the outside: hashes, logs, output
def slice_of(I, v):
    v = I.val(v); p, n = v.f['m_data'], v.f['m_count'].t
    if p.loc is None: return (n, lambda i: IntV(0, 8, False))
    off = p.off if p.off is not None else 0; base = I.read(p.loc) if p.off is not None else None
    if not isinstance(base, SeqV): raise Unsupported('bytes of %r' % (base,))
    return (n, lambda i: base.get(off + i))
def given(u, w, what, sl, o, n):
    """the bytes handed over are n bytes of the (grown) memory from o"""
    ln, get = sl; u.prove('%s: the defined number of bytes' % what, ln == n); i = u.I.fresh_int('any byte of ' + what, 64, False).t; u.assume(And(i >= 0, i < n)); u.prove('%s: the defined bytes' % what, get(i).t == oldbyte(w, o + i))
def u_sha3(u):
    w = world(u, 'SHA3', mem=anymem); o, n = w.a; g = grow(u, w, (o, n)); seen = []; h = u.I.fresh_int('hash of the bytes', 256, False).t
    w.con['dev::sha3'] = lambda I, e, fr, a: (seen.append(slice_of(I, a[0])), TermV(h, 'hash32'))[1]
    if judge(u, w, w.sch['sha3Gas'].t + w.sch['sha3WordGas'].t * words(n) + g, False, [h], w.pc.t + 1) is None:
        u.prove('one hash', z3.BoolVal(len(seen) == 1)); memory(u, w, lambda i: oldbyte(w, i)); given(u, w, 'hashed', seen[0], o, n)
def u_log(k):
    def body(u):
        w = world(u, 'LOG%d' % k, mem=anymem); o, n = w.a[0], w.a[1]; g = grow(u, w, (o, n)); w.con[EX + '::log'] = lambda I, e, fr, a: (w.logs.append((I.val(a[1]), slice_of(I, a[2]))), OpaqueV('void'))[1]; s = lambda n: w.sch[n].t
        ex = judge(u, w, s('logGas') + k * s('logTopicGas') + s('logDataGas') * n + g, w.extv['staticCall'], [], w.pc.t + 1)
        if ex is not None: u.prove('nothing is logged when it fails', z3.BoolVal(not w.logs)); return
        u.prove('one entry', z3.BoolVal(len(w.logs) == 1)); t, d = w.logs[0]; u.prove('the defined number of topics', z3.BoolVal(isc(t.n) and t.n == k))
        for i in range(k): u.prove('topic %d' % i, t.get(i).t == w.a[2 + i])
        memory(u, w, lambda i: oldbyte(w, i)); given(u, w, 'logged', d, o, n)
    return body
OUT = lambda s: RecV('dev::eth::owning_bytes_ref', {'bytes': s})
def owned(I, e, fr, a):
    if not a: return OUT(SeqV(0, lambda i: IntV(0, 8, False), None, 'vec'))
    if len(a) == 1: return I.val(a[0])
    m = I.val(a[0]); b, n = I.val(a[1]).t, I.val(a[2]).t; return OUT(SeqV(n, lambda i: m.get(b + i), None, 'vec'))
def output(op):
    def body(u):
        w = world(u, op, mem=anymem); o, n = w.a; g = grow(u, w, (o, n)); w.con['dev::eth::owning_bytes_ref::(ctor)'] = owned; got = []
        w.con[VM + '::throwRevertInstruction'] = lambda I, e, fr, a: (got.append(I.val(a[-1])), (_ for _ in ()).throw(CxxThrow('dev::eth::RevertInstruction')))[1]
        if judge(u, w, TIER(w) + g, Not(w.sch['haveRevert']) if op == 'REVERT' else False, [], end=True, ok='dev::eth::RevertInstruction' if op == 'REVERT' else None) is None:
            out = got[0] if op == 'REVERT' else u.I.read(w.vm.f('m_output')); u.prove('the run ends', z3.BoolVal(bool(got) if op == 'REVERT' else w.left and u.I.read(w.vm.f('m_bounce')).null is True)); s = out.f['bytes']; given(u, w, 'output', (s.n, s.get), o, n)
    return body
def u_suicide(u):
    w = world(u, 'SUICIDE'); s = lambda n: w.sch[n].t; d = addr(w.a[0]); b = w.bal(w.addr['myAddress'].t); u.assume(b >= 0)
    cost = s('suicideGas') + z3.If(And(B(w.sch['eip150Mode']), Or(Not(B(w.sch['eip158Mode'])), b > 0), Not(w.there(d))), s('callNewAccountGas'), Z0)
    if judge(u, w, cost, w.extv['staticCall'], [], end=True) is None:
        u.prove('the run ends', z3.BoolVal(w.left and u.I.read(w.vm.f('m_bounce')).null is True)); u.prove('the account is destroyed once', z3.BoolVal(len(w.sui) == 1)); u.prove('its funds go to the defined account', w.sui[0] == d)
    else: u.prove('nothing is destroyed when it fails', z3.BoolVal(not w.sui))
def u_undefined(n):
    def body(u):
        w = world(u, n); ex = run(u, w); u.cover('runs'); u.prove('an undefined instruction is refused', z3.BoolVal(ex in ('dev::eth::BadInstruction', 'dev::eth::OutOfGas', 'dev::eth::StackUnderflow', 'dev::eth::OutOfStack')))
    return body
UNITS += [dict(name='vm.' + n, src=SRC, want=WANT, body=b) for n, b in (('SHA3', u_sha3), ('RETURN', output('RETURN')), ('REVERT', output('REVERT')), ('SUICIDE', u_suicide))] + [dict(name='vm.LOG%d' % k, src=SRC, want=WANT, body=u_log(k)) for k in range(5)]
UNITS += [dict(name='vm.undefined %d' % n, src=SRC, want=WANT, body=u_undefined(n)) for n in range(256) if n not in {o[0] for o in OPS.values()}]
# ---- calls and creations
def u_call(op):
    def body(u):
        w = world(u, op, mem=anymem); s = lambda n: w.sch[n].t; val = op in ('CALL', 'CALLCODE'); a = w.a; v = a[2] if val else Z0; io, n_i, oo, n_o = a[3:7] if val else a[2:6]; dest = addr(a[1]); g = grow(u, w, (io, n_i), (oo, n_o)); me = w.addr['myAddress'].t; asked = []
        base = s('callGas') + g + z3.If(v > 0, s('callValueTransferGas'), Z0)
        if op == 'CALL': base = base + z3.If(And(Or(v > 0, Not(B(w.sch['eip158Mode']))), Not(w.there(dest))), s('callNewAccountGas'), Z0)
        bad = {'DELEGATECALL': Not(w.sch['haveDelegateCall']), 'STATICCALL': Not(w.sch['haveStaticCall']), 'CALL': And(B(w.extv['staticCall']), v != 0), 'CALLCODE': z3.BoolVal(False)}[op]
        rem = w.gas.t - base; every = Not(B(w.sch['eip150Mode'])); lim = rem - rem / 64; send = z3.If(every, a[0], z3.If(a[0] < lim, a[0], lim)); full = send + z3.If(v > 0, s('callStipend'), Z0); u.assume(w.bal(me) >= 0)
        back = u.I.fresh_int('gas left by the call', 64, False).t; u.p.inputs['gas left by the call'] = lambda m: str(m.eval(back, True)); ol, out = bytes_in(u, 'what the call returns', maxlen=1 << 40); status = int_in(u, 'status of the call', 32, True)
        def call(I, e, fr, x):
            p = x[1]; r = I.read(p); asked.append((dict(r.f), slice_of(I, r.f['data']))); u.assume(And(back >= 0, back <= I.val(r.f['gas']).t)); I.write(p.f('gas'), IntV(back, 256, False)); return RecV('dev::eth::CallResult', {'status': status, 'output': OUT(out)})
        w.con[EX + '::call'] = call; w.con['dev::eth::owning_bytes_ref::(ctor)'] = owned
        def copyto(I, e, fr, x):
            src, dst = I.val(x[0]), I.val(x[1]); src = src.f['bytes']; p, n = dst.f['m_data'], dst.f['m_count'].t
            if p.loc is None or p.null is True: u.prove('no copy to nowhere', z3.BoolVal(False)); return OpaqueV('void')
            m = I.read(p.loc); o = p.off; k = z3.If(src.n < n, src.n, n); I.write(p.loc, SeqV(m.n, lambda i: IntV(z3.If(And(i >= o, i < o + k), src.get(i - o).t, m.get(i).t), 8, False), m.et, m.kind)); return OpaqueV('void')
        w.con['dev::vector_ref::copyTo'] = copyto; w.con['dev::vector_ref::toBytes'] = w.con['dev::eth::owning_bytes_ref::toBytes'] = lambda I, e, fr, x: I.val(x[0]).f['bytes']
        made = lambda: bool(asked); good = And(w.bal(me) >= v, w.extv['depth'].t < 1024)
        ex = judge(u, w, base + z3.If(every, a[0], Z0), bad, lambda: [b2i(status.t == 0) if made() else Z0], w.pc.t + 1, after=lambda: rem - send + (back if made() else full))
        if ex is not None: u.prove('no call when it fails', z3.BoolVal(not made())); return
        u.prove('the call is made exactly when the balance and the depth allow it', good if made() else Not(good)); u.prove('one call', z3.BoolVal(len(asked) <= 1)); rd = u.I.read(w.vm.f('m_returnData'))
        if not made(): memory(u, w, lambda i: oldbyte(w, i)); u.prove('the return data is empty', rd.n == 0); return
        f, d = asked[0]; t = lambda n: u.I.val(f[n]).t
        u.prove('gas of the call', t('gas') == full); u.prove('value transferred', t('valueTransfer') == v); u.prove('value shown', t('apparentValue') == (v if val else w.extv['value'].t if op == 'DELEGATECALL' else Z0)); u.prove('code', t('codeAddress') == dest)
        u.prove('account', t('receiveAddress') == (dest if op in ('CALL', 'STATICCALL') else me)); u.prove('sender', t('senderAddress') == (w.addr['caller'].t if op == 'DELEGATECALL' else me)); u.prove('static calls stay static', B(f['staticCall']) == (z3.BoolVal(True) if op == 'STATICCALL' else B(w.extv['staticCall']))); given(u, w, 'data of the call', d, io, n_i)
        memory(u, w, lambda i: z3.If(And(i >= oo, i < oo + n_o, i - oo < out.n), out.get(i - oo).t, oldbyte(w, i))); u.prove('the return data is what the call returned', rd.n == out.n); j = u.I.fresh_int('any returned byte', 64, False).t; u.assume(And(j >= 0, j < out.n)); u.prove('every byte of it', rd.get(j).t == out.get(j).t)
    return body
def u_create(op):
    def body(u):
        w = world(u, op, mem=anymem); s = lambda n: w.sch[n].t; v, o, n = w.a[:3]; g = grow(u, w, (o, n)); me = w.addr['myAddress'].t; asked = []; cost = s('createGas') + g + (words(n) * s('sha3WordGas') if op == 'CREATE2' else 0)
        bad = B(w.extv['staticCall']) if op == 'CREATE' else Or(Not(B(w.sch['haveCreate2'])), B(w.extv['staticCall'])); rem = w.gas.t - cost; send = z3.If(B(w.sch['eip150Mode']), rem - rem / 64, rem); u.assume(w.bal(me) >= 0)
        left = u.I.fresh_int('gas left by the creation', 64, False).t; ol, out = bytes_in(u, 'what the creation returns', maxlen=1 << 40); where = u.I.fresh_int('address of the creation', 160, False).t
        def create(I, e, fr, x): 
            asked.append((I.val(x[1]).t, I.val(x[2]).t, slice_of(I, x[3]), I.val(x[4]).t, I.val(x[5]).t)); u.assume(And(left >= 0, left <= I.val(x[2]).t)); I.write(x[2], IntV(left, 256, False)); return RecV('dev::eth::CreateResult', {'status': int_in(u, 'status', 32, True), 'output': OUT(out), 'address': TermV(where, 'hash20')})
        w.con[EX + '::create'] = create; w.con['dev::vector_ref::toBytes'] = w.con['dev::eth::owning_bytes_ref::toBytes'] = lambda I, e, fr, x: I.val(x[0]).f['bytes']
        made = lambda: bool(asked); good = And(w.bal(me) >= v, w.extv['depth'].t < 1024)
        ex = judge(u, w, cost, bad, lambda: [where if made() else Z0], w.pc.t + 1, after=lambda: rem - send + left if made() else rem)
        if ex is not None: u.prove('no creation when it fails', z3.BoolVal(not made())); return
        u.prove('the creation is made exactly when the balance and the depth allow it', good if made() else Not(good)); u.prove('one creation', z3.BoolVal(len(asked) <= 1)); memory(u, w, lambda i: oldbyte(w, i)); rd = u.I.read(w.vm.f('m_returnData'))
        if not made(): u.prove('the return data is empty', rd.n == 0); return
        ev, eg, d, eo, salt = asked[0]; u.prove('endowment', ev == v); u.prove('gas of the creation', eg == send); given(u, w, 'init code', d, o, n); u.prove('kind of creation', eo == w.op); u.prove('salt', salt == (w.a[3] if op == 'CREATE2' else Z0)); u.prove('the return data is what the creation returned', rd.n == out.n); j = u.I.fresh_int('any returned byte', 64, False).t; u.assume(And(j >= 0, j < out.n)); u.prove('every byte of it', rd.get(j).t == out.get(j).t)
    return body
UNITS += [dict(name='vm.' + n, src=SRC, want=WANT, body=u_call(n)) for n in ('CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL')] + [dict(name='vm.' + n, src=SRC, want=WANT, body=u_create(n)) for n in ('CREATE', 'CREATE2')]
# ---- the run as a whole
def u_run(u):
    """whatever the interpreter does, the caller learns the gas that is left, after a normal end and after an exception"""
    I = u.I; start = int_in(u, 'gas given', 64); iop = I.new(IntV(start.t, 256, False), 'io gas'); sch = I.new(OpaqueV('schedule')); ext = I.new(RecV(EX, {}), 'ext'); vm = I.new(RecV(VM, {'m_io_gas': int_in(u, 'old gas', 64), 'm_io_gas_p': NULL, 'm_ext': NULL, 'm_schedule': NULL, 'm_PC': int_in(u, 'old pc', 64), 'm_onOp': FnV(null=True), 'm_onFail': FnV(null=True), 'm_bounce': FnV(null=True), 'm_output': OUT(SeqV(0, lambda i: IntV(0, 8, False), None, 'vec'))}), 'vm')
    w = W(); w.first = True; steps = []
    def part(name):
        def f(I, *a):
            r = I.read(vm); u.prove('the machine knows its surroundings', z3.BoolVal(all(r.f[n].loc is not None and r.f[n].loc.cell is x.cell for n, x in (('m_io_gas_p', iop), ('m_ext', ext), ('m_schedule', sch)))))
            if name == 'initEntry': u.prove('it starts at the first instruction', r.f['m_PC'].t == 0); u.prove('with the gas given', r.f['m_io_gas'].t == start.t)
            for n in ('m_io_gas', 'm_PC'): I.write(vm.f(n), I.fresh_int(n, 64, False))
            I.write(iop, I.fresh_int('io gas', 256, False)); I.write(vm.f('m_bounce'), FnV(py=part('any'), null=I.fresh_bool('ends')))
            if I.p.branch(B(I.fresh_bool('throws'))): raise CxxThrow('dev::eth::SomeFailure')
            return OpaqueV('void')
        return f
    I.cfg['havoc_fn'] = lambda v: FnV(py=part('any'), null=I.fresh_bool('ends'))
    I.contracts = {VM + '::initEntry': lambda I, e, fr, a: part('initEntry')(I), EX + '::evmSchedule': lambda I, e, fr, a: sch, 'dev::eth::owning_bytes_ref::(ctor)': owned}
    I.cfg.setdefault('loops', {})[(VM + '::exec', None)] = LoopSpec(lambda I, env, k: [('there is something to run', B(lnot(I.read(vm.f('m_bounce')).null)) if not isinstance(I.read(vm.f('m_bounce')).null, bool) else z3.BoolVal(not I.read(vm.f('m_bounce')).null))], None, name='trampoline'); I.loops = I.cfg['loops']
    ex, r = u.throws(u.call, VM + '::exec', [vm, iop, ext, I.new(FnV(null=True))]); u.cover('ends' if ex is None else 'fails'); u.prove('the caller learns the gas left', I.read(iop).t == I.read(vm.f('m_io_gas')).t)
UNITS += [dict(name='vm.exec', src=SRC, want=WANT, body=u_run)]
if __name__ == '__main__': main(UNITS)
