from common import *
import econt
from econt import SegV
from rangemask import ftype
from conv import loop, seq_is
SRC = os.path.join(VERIF, 'tu/precomp.cpp')
And, Or, Not = z3.And, z3.Or, z3.Not
EMAP = {'emap': True}
S = dict(src=SRC, want=['dev::eth::*', 'dev::*', '__eth_register*', 'parseBigEndianRightPadded', 'expLengthAdjust', 'multComplexity'], mode='int')
PC = 'dev::eth::PrecompiledContract::'; CO = 'dev::eth::ChainOperationParams::'
INT = z3.IntSort()
def term(u, name): u.p.inputs[name] = None; t = z3.Int(name); u.p.inputs[name] = lambda m: str(m.eval(t, True)); return TermV(t, 'hash20')
def view(u, maxlen=1 << 40): loc, s = bytes_in(u, 'in', maxlen=maxlen); return vref(loc, 0, s.n), s
def seg(u, nm): has = z3.Function('in_' + nm, INT, z3.BoolSort()); n = z3.Int('len_' + nm); u.assume(n >= 0); return SegV(nm, n, lambda k: has(u.I.val(k).t))
def allowed(u, frm):
    """any set of allowed callers, split at the caller; returns (container, is the caller in it, is it empty)"""
    a = seg(u, 'allowed'); u.assume(Not(a.has(frm))); isin = u.p.choose(2) == 1
    m = econt.make(u.I, ftype(u, 'dev::eth::PrecompiledContract', 'm_allowed_addresses'), [a] + ([frm] if isin else [])); return m, isin, (False if isin else a.n == 0)
def contract(u, frm, cost=None, exe=None):
    m, isin, em = allowed(u, frm); st = int_in(u, 'startingBlock', 256)
    return RecV('dev::eth::PrecompiledContract', {'m_cost': cost or OpaqueV('pricer'), 'm_execute': exe or OpaqueV('executor'), 'm_startingBlock': st, 'm_allowed_addresses': m}), st, isin, em
def params(u, ents, fork=None):
    rt = next(t for t in u.T if t['k'] == 'rec' and t['qn'] == 'dev::eth::ChainOperationParams' and 'rec' in t); f = {}
    for fd in u.I.all_fields(rt):
        iv = u.I.as_bigint(u.T[fd['t']])
        f[fd['n']] = int_in(u, 'cp.' + fd['n'], *iv) if iv else OpaqueV(fd['n'])
    f['precompiled'] = econt.make(u.I, ftype(u, 'dev::eth::ChainOperationParams', 'precompiled'), ents)
    return u.I.new(RecV(rt['qn'], f), 'params')
def u_allowed(u):
    frm = term(u, 'from'); c, st, isin, em = contract(u, frm); ro = z3.Bool('readOnly'); l = u.I.new(c, 'contract'); r = u.call(PC + 'executionAllowedFrom', [l, u.I.new(frm), ro]); u.cover('returns')
    u.prove('allowed exactly without a list, or for a listed caller outside read-only mode', B(r) == Or(B(em), And(isin, Not(ro)))); u.prove('starting block reported', u.I.val(u.call(PC + 'startingBlock', [l])).t == st.t)
def u_chain(u):
    a = term(u, 'address'); frm = term(u, 'from'); block = int_in(u, 'block', 256); ro = z3.Bool('readOnly'); pres = u.p.choose(2) == 1
    s = seg(u, 'contracts'); u.assume(Not(s.has(a))); calls = []
    def mk(tag):
        def h(I, args): calls.append((tag, args)); return IntV(z3.Int('price'), 0, True) if tag == 'cost' else RecV('std::pair', {'first': z3.Bool('ok'), 'second': I.bytes_const([7])})
        return h
    c, st, isin, em = contract(u, frm); l = params(u, [s] + ([econt.pair(a, c)] if pres else [])); u.cover('returns')
    r = u.call(CO + 'isPrecompiled', [l, u.I.new(a), u.I.new(block)]); u.prove('precompiled exactly when present and its starting block has been reached', B(r) == (block.t >= st.t if pres else z3.BoolVal(False)))
    ex, r = u.throws(u.call, CO + 'precompiledExecutionAllowedFrom', [l, u.I.new(a), u.I.new(frm), ro])
    if pres: u.prove('the caller rule is that of the contract', ex is None); u.prove('permission of exactly that contract', B(r) == Or(B(em), And(isin, Not(ro))))
    else: u.prove('no permission for an address without a contract', ex is not None)
def u_pass(u):
    """price and result are asked of the contract at that address, with the arguments given"""
    a, frm = term(u, 'address'), term(u, 'from'); blk = int_in(u, 'block', 256); v, s = view(u); seen = []
    def cost(I, args): seen.append(('cost', args)); return IntV(z3.Int('price'), 0, True)
    def exe(I, args): seen.append(('exe', args)); return RecV('std::pair', {'first': z3.Bool('ok'), 'second': I.bytes_const([7])})
    c, st, isin, em = contract(u, frm, FnV(py=cost), RecV('dev::eth::PrecompiledExecutor', {'proxy': FnV(py=exe)})); sg = seg(u, 'contracts'); u.assume(Not(sg.has(a))); l = params(u, [sg, econt.pair(a, c)]); fs = PtrV(u.I.new(OpaqueV('overlay')), 0)
    r = u.I.val(u.call(CO + 'costOfPrecompiled', [l, u.I.new(a), v, u.I.new(blk)])); u.cover('returns')
    same = lambda x: And(u.I.val(x).f['m_count'].t == s.n, u.I.val(x).f['m_data'].off == 0)
    ok = len(seen) == 1 and seen[0][0] == 'cost'; u.prove('asks the pricer of that contract once', ok)
    if ok: u.prove('whole input, block number and its own price', And(r.t == z3.Int('price'), same(seen[0][1][0]), u.I.val(seen[0][1][2]).t == blk.t))
    del seen[:]; r = u.I.val(u.call(CO + 'executePrecompiled', [l, u.I.new(a), v, u.I.new(blk), fs])); ok = len(seen) == 1 and seen[0][0] == 'exe'; u.prove('runs the executor of that contract once', ok)
    if ok: u.prove('its own result on the whole input', And(B(r.f['first']) == z3.Bool('ok'), same(seen[0][1][0]), B(u.I.veq(r.f['second'], u.I.bytes_const([7]))))); u.prove('file system handed on', u.I.val(seen[0][1][1]).loc is not None and u.I.sameloc(u.I.val(seen[0][1][1]).loc, fs.loc))
def u_linear(u):
    b, w = int_in(u, 'base', 32), int_in(u, 'word', 32); st = int_in(u, 'startingBlock', 256); frm = term(u, 'from'); m, isin, em = allowed(u, frm); v, s = view(u)
    c = u.construct(PC + '(ctor)', [b, w, u.I.new(RecV('dev::eth::PrecompiledExecutor', {'proxy': OpaqueV('executor')})), u.I.new(st), u.I.new(m)], lambda I, f: len(f['params']) == 5); l = u.I.new(u.I.val(c), 'contract'); u.cover('returns')
    blk = int_in(u, 'block', 256); p = params(u, []); r = u.call(PC + 'cost', [l, v, p, u.I.new(blk)])
    u.prove('base price plus a price per started word of 32 bytes', u.I.val(r).t == b.t + (s.n + 31) / 32 * w.t); u.prove('starting block kept', u.I.val(u.call(PC + 'startingBlock', [l])).t == st.t)
    u.prove('allowed callers kept', B(u.call(PC + 'executionAllowedFrom', [l, u.I.new(frm), False])) == Or(B(em), isin))
def u_bn(name, before, after):
    def f(u):
        v, s = view(u); blk = int_in(u, 'block', 256); p = params(u, []); r = u.I.val(u.call('__eth_registerPricerFunction' + name, [v, p, u.I.new(blk)])); u.cover('returns')
        k = s.n / 192; fk = u.I.read(p).f['istanbulForkBlock'].t
        u.prove('price before and since the Istanbul fork', r.t == If(blk.t < fk, before(k), after(k)))
    return f
H = z3.Function('bigEndianValue', INT, INT, INT)       # value of the bytes [a, a+n) of the input as a big-endian number
P2 = z3.Function('pow256', INT, INT)
def rp(n, b, c): return If(b > n, 0, If(b + c <= n, H(b, c), H(b, n - b) * P2(c - (n - b))))
def c_frombe(I, e, fr, a):
    v = I.val(a[0]); return IntV(H(v.f['m_data'].off if v.f['m_data'].loc is not None else z3.IntVal(0), v.f['m_count'].t), 0, True, 0, None)
def u_parse(u):
    v, s = view(u); b, c = int_in(u, 'begin', 0, True), int_in(u, 'count', 0, True); u.assume(And(b.t >= 0, b.t < 1 << 70, c.t >= 0, c.t <= (1 << 61) - 1)); n = s.n
    u.assume(H(0, 0) == 0); q = z3.Int('q!p'); u.assume(z3.ForAll([q], H(q, 0) == 0))
    def sh(I, op, a, k, iv):
        if op != '<<': raise Unsupported('right shift')
        I.p.prove('shifts by whole bytes', k.t % 8 == 0); return IntV(a.t * P2(k.t / 8), 0, True, 0, None)
    u.I.cfg['bigshift'] = sh
    r = u.I.val(u.call('parseBigEndianRightPadded', [v, u.I.new(b), u.I.new(c)])); u.cover('returns'); u.assume(P2(0) == 1)
    u.prove('the bytes asked for as a big-endian number, missing ones counting as zero', r.t == If(b.t > n, 0, If(b.t + c.t <= n, H(b.t, c.t), H(b.t, n - b.t) * P2(c.t - (n - b.t)))))
R = z3.Function('rightPadded', INT, INT, INT)
MSB = z3.Function('highestBit', INT, INT)
CON = {'parseBigEndianRightPadded': lambda I, e, fr, a: IntV(R(I.val(a[1]).t, I.val(a[2]).t), 0, True, 0, None), 'boost::multiprecision::msb': lambda I, e, fr, a: (I.p.prove('msb of a positive number', I.val(a[0]).t > 0), IntV(MSB(I.val(a[0]).t), 64, False))[1]}
def mc(x): return If(x <= 64, x * x, If(x <= 1024, x * x / 4 + 96 * x - 3072, x * x / 16 + 480 * x - 199680))
def u_modprice(u):
    q, w = z3.Ints('q!r w!r'); v, s = view(u); u.p.assume(z3.ForAll([q, w], R(q, w) >= 0)); u.p.assume(z3.ForAll([q, w], Imp(And(w >= 0, w <= 32), R(q, w) < 1 << 256))); u.p.assume(z3.ForAll([q], And(MSB(q) >= 0, MSB(q) < 256)))
    blk = int_in(u, 'block', 256); p = params(u, []); r = u.I.val(u.call('__eth_registerPricerFunctionmodexp', [v, p, u.I.new(blk)])); u.cover('returns')
    bl, el, ml = R(0, 32), R(32, 32), R(64, 32); x1 = R(96 + bl, el); x2 = R(96 + bl, 32)
    adj = If(el <= 32, If(x1 > 0, MSB(x1), 0), 8 * (el - 32) + If(x2 > 0, MSB(x2), 0)); mx = If(ml > bl, ml, bl)
    M_ = z3.Function('mulc', INT, INT)
    u.prove('price of modular exponentiation (EIP-198)', r.t == mc(mx) * If(adj > 1, adj, 1) / 20)
POWM = z3.Function('powm', INT, INT, INT, INT)
BE = z3.Function('beDigit', INT, INT, INT, INT)
def c_tobe(I, e, fr, a):
    l = a[1]; v = I.read(l); x = I.val(a[0]).t; I.write(l, SeqV(v.n, lambda i, n=v.n: IntV(BE(x, n if not isc(n) else z3.IntVal(n), i if not isc(i) else z3.IntVal(i)), 8, False), v.et, v.kind)); return None
def u_modexec(u):
    q, w = z3.Ints('q!r w!r'); v, s = view(u); u.p.assume(z3.ForAll([q, w], And(R(q, w) >= 0)))
    lim = (1 << 61) - 1; bl, el, ml = R(0, 32), R(32, 32), R(64, 32); u.p.assume(And(bl <= lim, ml <= lim, el <= lim)); u.p.assume(ml < 1 << 40)
    r = u.I.val(u.call('__eth_registerPrecompiledFunctionmodexp', [v])); u.cover('returns'); out = u.I.val(r.f['second']); u.prove('succeeds', B(r.f['first']))
    b, e, m = R(96, bl), R(96 + bl, el), R(96 + bl + el, ml); res = If(m > 0, POWM(b, e, m), 0)
    seq_is(u, 'base to the exponent modulo the modulus, in as many bytes as the modulus', out, SeqV(If(And(ml == 0, bl == 0), 0, ml), lambda i: IntV(BE(res, ml, i), 8, False)))
def u_ident(u):
    v, s = view(u); r = u.I.val(u.call('__eth_registerPrecompiledFunctionidentity', [v])); u.cover('returns'); u.prove('succeeds', B(r.f['first'])); seq_is(u, 'the input itself', u.I.val(r.f['second']), s)
CM = dict(CON, **{'boost::multiprecision::powm': lambda I, e, fr, a: (I.p.prove('modulus not zero', I.val(a[2]).t != 0), IntV(POWM(I.val(a[0]).t, I.val(a[1]).t, I.val(a[2]).t), 0, True, 0, None))[1], 'dev::toBigEndian': c_tobe})
UNITS = [dict(S, name='precomp.allowed', body=u_allowed, cfg=EMAP), dict(S, name='precomp.chain', body=u_chain, cfg=EMAP), dict(S, name='precomp.pass', body=u_pass, cfg=EMAP), dict(S, name='precomp.linear', body=u_linear, cfg=EMAP),
         dict(S, name='precomp.price.add', body=u_bn('alt_bn128_G1_add', lambda k: 500, lambda k: 150), cfg=EMAP), dict(S, name='precomp.price.mul', body=u_bn('alt_bn128_G1_mul', lambda k: 40000, lambda k: 6000), cfg=EMAP), dict(S, name='precomp.price.pairing', body=u_bn('alt_bn128_pairing_product', lambda k: 100000 + k * 80000, lambda k: 45000 + k * 34000), cfg=EMAP),
         dict(S, name='precomp.parse', body=u_parse, cfg={'contracts': {'dev::fromBigEndian': c_frombe}}), dict(S, name='precomp.price.modexp', body=u_modprice, cfg=dict(EMAP, contracts=CON)), dict(S, name='precomp.modexp', body=u_modexec, cfg=dict(EMAP, contracts=CM)), dict(S, name='precomp.identity', body=u_ident)]
if __name__ == '__main__': main(UNITS)
