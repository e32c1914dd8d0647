"""transactions from bytes and back (C14)"""
from common import *
from rangemask import ftype
from exec import filled, term
import econt
SRC = os.path.join(VERIF, 'tu/txn.cpp'); TB = 'dev::eth::TransactionBase'; WANT = [TB + '::*', 'dev::SignatureStruct::*', 'dev::eth::validateAccessListRLP', 'validateAccessListRLP', 'accessListToRLPs', 'dev::eth::bytesRefFromTransactionRlp', 'dev::vector_ref::*']
And, Or, Not = z3.And, z3.Or, z3.Not; INT = z3.IntSort()
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
EL, EI, EH, ES, EA = [z3.Function(n, INT, INT) for n in ('list of', 'number', 'address', 'string', 'access list')]
def zi(t): return z3.IntVal(int(t)) if isc(t) else t
def rd(I, x): return I.val(I.read(x) if isinstance(x, Loc) else x)
class Item:
    """one item of the list that encodes a transaction; i may be any position"""
    def __init__(s, u, i, n):
        s.i = i; s.there = n > i; s.list = z3.Bool('item%d is a list' % i); s.len = z3.Int('item%d.length' % i); s.num = z3.Bool('item%d is a canonical number' % i); s.val = z3.Int('item%d.value' % i); s.adr = z3.Int('item%d.address' % i)
        u.assume(And(s.len >= 0, s.len < 1 << 40, s.val >= 0, s.adr >= 0, s.adr < 1 << 160)); u.assume(z3.Implies(s.num, And(*[(s.len <= k) == (s.val < 1 << (8 * k)) for k in (0, 1, 8, 32)])))
        for nm in ('there', 'list', 'len', 'num', 'val'): u.p.inputs['item%d.%s' % (i, nm)] = lambda m, nm=nm: str(m.eval(getattr(s, nm), True))
        f = z3.Function('item%d.bytes' % i, INT, INT); s.seq = SeqV(s.len, lambda k: IntV(f(k), 8, False), None, 'vec', ES(z3.IntVal(i)))
    def isnum(s, width): return And(s.there, Not(s.list), s.num, s.len <= width)
    def isdata(s): return And(s.there, Not(s.list))
    def isadr(s): return And(s.isdata(), Or(s.len == 0, s.len == 20))
class W: pass
def node(x): return RecV('dev::RLP', {'node': OpaqueV('rlpnode', x)})
def world(u, typed):
    I = u.I; w = W(); w.n = z3.Int('items'); u.assume(And(w.n >= 0, w.n < 1 << 30)); u.p.inputs['items'] = lambda m: str(m.eval(w.n, True)); w.items = {}; w.wf = z3.Bool('well-formed RLP'); w.top = z3.Bool('is a list'); w.accok = z3.Bool('well-formed access list'); w.recovers = z3.Bool('signature recovers to an address')
    for nm in ('wf', 'top', 'accok', 'recovers'): u.p.inputs[nm] = lambda m, nm=nm: str(m.eval(getattr(w, nm), True))
    w.raw = bytes_in(u, 'input'); u.assume(w.raw[1].n >= (1 if typed else 0)); w.parsed = []
    def it(i): 
        if i not in w.items: w.items[i] = Item(u, i, w.n)
        return w.items[i]
    w.it = it
    def nd(x):
        v = rd(I, x)
        if isinstance(v, RecV) and 'node' in v.f: return v.f['node'].data
        raise Unsupported('not an RLP item: %r' % (v,))
    def ctor(I, e, fr, a):
        v = rd(I, a[0])
        if isinstance(v, RecV) and v.qn == 'dev::RLP': return v
        fl = rd(I, a[1]).t if len(a) > 1 else 0; off = 1 if typed else 0; k = z3.Int('byte of the input'); n0 = w.raw[1].n
        if isinstance(v, SeqV): n, get = v.n, lambda i: v.get(i).t
        else: n = v.f['m_count'].t; p = v.f['m_data']; get = lambda i: I.val(I.read(Loc(p.loc.cell, p.loc.path + (('i', I.tadd(p.off, i)),)))).t
        w.parsed.append(1); I.p.prove_all([('all bytes after the type are decoded, strictly', And(zi(n) == n0 - off, z3.BoolVal(isc(fl) and fl & 28 == 28))), ('the bytes decoded are those given', z3.Implies(And(k >= 0, k < n0 - off), zi(get(k)) == w.raw[1].get(k + off).t))])
        if not I.p.branch(w.wf): raise CxxThrow('dev::BadRLP')
        return node('top')
    def at(I, e, fr, a):
        x = nd(a[0]); i = rd(I, a[1]).t
        if x != 'top' or not isc(i): raise Unsupported('item of an item')
        return node(it(i))
    def isnode(f): 
        def g(I, e, fr, a):
            x = nd(a[0]); return f(x)
        return g
    def toint(I, e, fr, a):
        x = nd(a[0]); t = I._strip(e['t']); iv = I.as_bigint(t); wd = iv[0] if iv else t['w']; fl = rd(I, a[1]).t if len(a) > 1 else 12
        I.p.prove('numbers are read strictly', z3.BoolVal(isc(fl) and fl & 13 == 12))
        if not I.p.branch(x.isnum(wd // 8)): raise CxxThrow('dev::BadCast')
        return IntV(x.val, wd, False)
    def tohash(I, e, fr, a):
        x = nd(a[0])
        if not I.p.branch(And(x.isdata(), x.len == 20)): raise CxxThrow('dev::BadCast')
        return TermV(x.adr, 'hash20')
    def tobytes(I, e, fr, a):
        x = nd(a[0])
        if not I.p.branch(x.isdata()): return SeqV(0, None, None, 'vec')
        return x.seq
    def valacc(I, e, fr, a):
        x = nd(a[0])
        if not I.p.branch(And(x.there, x.list, w.accok)): raise CxxThrow('dev::eth::InvalidTransactionFormat')
        f = z3.Function('access list', INT, INT); n = z3.Int('access lists'); u.assume(And(n >= 0, n <= 16)); w.acc = (n, f, x.i); return SeqV(n, lambda k: TermV(f(k), 'bytes'), None, 'vec', EA(z3.IntVal(x.i)))
    def item(v):
        v = rd(I, v)
        if isinstance(v, IntV): return EI(zi(v.t))
        if isinstance(v, TermV): return EH(v.t)
        if isinstance(v, SeqV): 
            if v.tag is not None: return z3.If(zi(v.n) == 0, ES(z3.IntVal(-1)), v.tag) if v.tag.decl().eq(ES) else v.tag
            if isc(v.n) and v.n == 0: return ES(z3.IntVal(-1))
            if getattr(w, 'acc', None) is not None and z3.is_expr(v.n) and v.n.eq(w.acc[0]): I.p.prove('the access list is that of its item', sameacc(v)); return EA(z3.IntVal(w.acc[2]))
            for q in w.items.values():
                if z3.is_expr(v.n) and v.n.eq(q.len): k = z3.Int('byte of the string'); I.p.prove('the string is that of its item', z3.Implies(And(k >= 0, k < q.len), zi(v.get(k).t) == q.seq.get(k).t)); return item(q.seq)
        if isinstance(v, PtrV): return ES(z3.IntVal(-1))
        raise Unsupported('item appended to an RLP stream: %r' % (v,))
    def sameacc(v): k = z3.Int('some access list'); return And(zi(v.n) == w.acc[0], z3.Implies(And(k >= 0, k < w.acc[0]), v.get(k).t == w.acc[1](k)))
    w.sameacc = sameacc; w.streams = {}
    def ev(l): return w.streams.setdefault(l.cell.serial, [])
    def append(I, e, fr, a): ev(a[0]).append(item(a[1])); return a[0]
    def alist(I, e, fr, a): ev(a[0]).append(EL(zi(rd(I, a[1]).t))); return a[0]
    def braw(I, e, fr, a): ev(a[0]).append(('raw', rd(I, a[1]))); return a[0]
    def tag2(I, e, fr, a): v = rd(I, a[0]); return SeqV(v.n, v.get, None, 'vec', v.tag)
    u.I.contracts = hashcon({'dev::RLP::(ctor)': ctor, 'dev::RLP::isList': isnode(lambda x: w.top if x == 'top' else And(x.there, x.list)), 'dev::RLP::isData': isnode(lambda x: x.isdata()), 'dev::RLP::isEmpty': isnode(lambda x: And(x.there, x.len == 0)), 'dev::RLP::operator[]': at, 'dev::RLP::toInt': toint, 'dev::RLP::toHash': tohash, 'dev::RLP::toBytes': tobytes,
        'dev::RLP::itemCount': lambda I, e, fr, a: IntV(w.n, 64, False), 'dev::RLP::data': lambda I, e, fr, a: OpaqueV('bytes'), 'dev::toHex': lambda I, e, fr, a: OpaqueV('string'), 'dev::toString': lambda I, e, fr, a: OpaqueV('string'), 'validateAccessListRLP': valacc, 'accessListToRLPs': tag2, 
        'dev::RLPStream::(ctor)': lambda I, e, fr, a: RecV('dev::RLPStream', {}), 'dev::RLPStream::operator<<': append, 'dev::RLPStream::append': append, 'dev::RLPStream::appendList': alist, 'dev::RLPStream::appendRaw': braw,
        'dev::SignatureStruct::isValid': lambda I, e, fr, a: valid(rd(I, a[0]))})
    return w
def valid(s): r, q, v = s.f['r'].t, s.f['s'].t, s.f['v'].t; return And(zi(v) <= 1, r > 0, r < N, q > 0, q < N)
def fresh(u): 
    return u.I.new(filled(u, TB, {'m_chainId': OptV(False, IntV(0, 64, False)), 'm_vrs': OptV(False, None), 'm_type': IntV(0, 32, False), 'm_txType': IntV(0, 32, False), 'm_data': SeqV(0, None, None, 'vec'), 'm_rawData': SeqV(0, None, None, 'vec'), 'm_accessList': SeqV(0, None, None, 'vec'), 'm_sender': OptV(False, None)}), 'tx')
def u_fill(kind):
    name = ('Legacy', 'Type1', 'Type2')[kind]; count = (9, 11, 12)[kind]
    def body(u):
        w = world(u, kind > 0); I = u.I; it = w.it; t = fresh(u); mode = int_in(u, 'signature check', 32); u.assume(And(mode.t >= 0, mode.t <= 2)); allow = z3.Bool('invalid ones allowed'); u.p.inputs['allow'] = lambda m: str(m.eval(allow, True))
        def sender(I, e, fr, a):
            if not I.p.branch(w.recovers): raise CxxThrow('dev::eth::InvalidSignature')
            return I.new(TermV(z3.Int('recovered'), 'hash20'))
        u.I.contracts[TB + '::sender'] = sender
        x, _ = u.throws(u.call, TB + '::fillFromBytes' + name, [t, vref(w.raw[0], 0, w.raw[1].n), mode, allow])
        o = 1 if kind else 0; nonce = it(o); price = it(o + 1) if kind < 2 else it(o + 2); prio = it(o + 1); k = o + (3 if kind == 2 else 2); gas, to, val, data = it(k), it(k + 1), it(k + 2), it(k + 3); acc = it(k + 4); k += 5 if kind else 4; v, r, s = it(k), it(k + 1), it(k + 2)
        nums = [nonce, price, gas, val, r, s] + ([prio] if kind == 2 else []); zero = And(r.val == 0, s.val == 0); M64 = 1 << 64
        ok = [w.wf, w.top, w.n == count, to.isadr(), data.isdata()] + [q.isnum(32) for q in nums]
        if kind: 
            ok += [it(0).isnum(8), acc.there, acc.list, w.accok, v.isnum(1)]; rec = v.val; hasid = z3.BoolVal(True); cid = it(0).val
            if kind == 2: ok.append(prio.val <= price.val)
            sigok = Or(mode.t == 0, And(v.val <= 1, r.val > 0, r.val < N, s.val > 0, s.val < N)); ok.append(sigok)
        else:
            ok.append(v.isnum(32)); old = Or(v.val == 27, v.val == 28); cid = z3.If(zero, v.val, (v.val - 35) / 2); hasid = Or(zero, Not(old)); rec = z3.If(zero, 0, z3.If(old, v.val - 27, (v.val - 35) % 2))
            ok.append(z3.If(zero, v.val < M64, Or(old, And(v.val > 36, cid < M64)))); ok.append(Or(zero, mode.t == 0, And(r.val > 0, r.val < N, s.val > 0, s.val < N)))
        ok.append(Or(mode.t != 2, w.recovers)); ok = And(*ok); f = rd(I, t).f; good = x is None and isc(f['m_type'].t) and f['m_type'].t != 3; u.cover('decoded' if good else 'refused')
        if not good:
            u.prove('only malformed transactions are refused', Not(ok)); u.prove('invalid ones are reported when they are not allowed', B(x is not None) if x is not None else allow); return
        T = lambda q: zi(q.t)
        u.prove('only well-formed transactions are accepted', ok)
        u.p.prove_all([('nonce', T(f['m_nonce']) == nonce.val), ('gas price', T(f['m_gasPrice']) == price.val), ('gas', T(f['m_gas']) == gas.val), ('value', T(f['m_value']) == val.val), ('data', I.veq(f['m_data'], data.seq, True)), ('creation exactly without a receiver', T(f['m_type']) == z3.If(to.len == 0, 1, 2)), ('receiver', T(f['m_receiveAddress']) == z3.If(to.len == 0, 0, to.adr)),
            ('type', T(f['m_txType']) == kind), ('has a chain id exactly when one is given', B(f['m_chainId'].has) == hasid), ('chain id', z3.Implies(hasid, T(f['m_chainId'].v) == cid)), ('signed', B(f['m_vrs'].has))])
        sg = f['m_vrs'].v.f; u.p.prove_all([('r', T(sg['r']) == r.val), ('s', T(sg['s']) == s.val), ('v', T(sg['v']) == rec)])
        if kind == 2: u.p.prove_all([('maximal priority fee', T(f['m_maxPriorityFeePerGas']) == prio.val), ('maximal fee', T(f['m_maxFeePerGas']) == price.val)])
        if kind: u.prove('access list', And(B(w.acc[2] == acc.i), w.sameacc(f['m_accessList'])))
        # back to bytes
        def strm(withsig, forhash):
            l = I.new(RecV('dev::RLPStream', {}), 'stream'); u.call(TB + '::streamRLP', [t, l, IntV(1 if withsig else 0, 32, False), forhash]); return w.streams.get(l.cell.serial, [])
        toks = []
        if kind: toks.append(EI(it(0).val))
        toks += [EI(nonce.val)] + ([EI(prio.val)] if kind == 2 else []) + [EI(price.val), EI(gas.val), z3.If(to.len == 0, ES(z3.IntVal(-1)), EH(to.adr)), EI(val.val), z3.If(data.len == 0, ES(z3.IntVal(-1)), data.seq.tag)] + ([EA(z3.IntVal(acc.i))] if kind else [])
        def same(g, want): return And(B(len(g) == len(want)), *[a == b for a, b in zip(g, want)] if len(g) == len(want) else [])
        u.prove('encoding it again gives the same items', same(strm(True, False), [EL(z3.IntVal(count))] + toks + [EI(v.val), EI(r.val), EI(s.val)]))
        if kind: u.prove('the signature is made for all other fields', same(strm(False, False), [EL(z3.IntVal(count - 3))] + toks))
        else:
            if I.p.branch(hasid): u.prove('the signature is made for all other fields and the chain id', same(strm(False, True), [EL(z3.IntVal(9))] + toks + [EI(cid), EI(z3.IntVal(0)), EI(z3.IntVal(0))]))
            else: u.prove('without chain id the signature is made for all other fields', same(strm(False, False), [EL(z3.IntVal(6))] + toks))
    return body
def u_valid(u):
    u.I.contracts = hashcon({}); c0 = u.I.contracts['dev::FixedHash::(ctor)']
    def ctor(I, e, fr, a):
        if a and not isinstance(rd(I, a[0]), (TermV, IntV)):
            q = rd(I, a[0]); q = I.read(Loc(q.loc.cell, q.loc.path)) if isinstance(q, PtrV) else q; txt = ''.join(chr(q.get(i).t) for i in range(q.n)).rstrip('\0'); return TermV(z3.IntVal(int(txt, 16)), 'hash32')
        return c0(I, e, fr, a)
    u.I.contracts['dev::FixedHash::(ctor)'] = ctor; r, s = term(u, 'r', 'hash32'), term(u, 's', 'hash32'); v = int_in(u, 'v', 8)
    g = RecV('dev::SignatureStruct', {'r': r, 's': s, 'v': v}); x = u.call('dev::SignatureStruct::isValid', [u.I.new(g)]); u.cover('tells'); u.prove('valid exactly with parity 0 or 1 and both numbers between 0 and the group order', B(x) == valid(g))
def u_access(u):
    I = u.I; good = u.p.choose(2); n = z3.Int('entries'); u.assume(And(n >= 0, n < 1 << 30)); u.p.inputs['entries'] = lambda m: str(m.eval(n, True)); top = z3.Bool('is a list'); BO = z3.BoolSort()
    P = {k: z3.Function(k, INT, BO) for k in ('entry is a list', 'address is data', 'keys are a list')}; M = z3.Function('fields of entry', INT, INT); K = z3.Function('keys of entry', INT, INT); KD = z3.Function('key is data', INT, INT, BO); RAW = z3.Function('bytes of entry', INT, INT)
    if good: u.assume(n <= 16)
    def p(nm, k): return z3.BoolVal(True) if good else P[nm](k)
    def fields(k): return z3.IntVal(2) if good else M(k)
    cur = [None]
    def nd(x):
        v = rd(I, x)
        if isinstance(v, RecV) and 'node' in v.f: return v.f['node'].data
        raise Unsupported('not an RLP item: %r' % (v,))
    def islist(I, e, fr, a):
        x = nd(a[0]); return top if x[0] == 'top' else p('entry is a list', x[1]) if x[0] == 'entry' else p('keys are a list', x[1]) if x[0] == 'field' and isc(x[2]) and x[2] == 1 else unk(x)
    def isdata(I, e, fr, a):
        x = nd(a[0]); return p('address is data', x[1]) if x[0] == 'field' and isc(x[2]) and x[2] == 0 else (z3.BoolVal(True) if good else KD(x[1], zi(x[2]))) if x[0] == 'key' else unk(x)
    def unk(x): raise Unsupported('question about item %r' % (x,))
    def tolist(I, e, fr, a):
        x = nd(a[0])
        if x[0] == 'entry': cur[0] = x[1]
        if x[0] == 'top': return SeqV(n, lambda k: node(('entry', zi(k))), None, 'vec')
        if x[0] == 'entry': c = fields(x[1]); I.p.assume(c >= 0); return SeqV(c if not good else 2, lambda j: node(('field', x[1], j)), None, 'vec')
        if x[0] == 'field' and isc(x[2]) and x[2] == 1: I.p.assume(And(K(x[1]) >= 0, K(x[1]) < 1 << 30)); return SeqV(K(x[1]), lambda j: node(('key', x[1], j)), None, 'vec')
        unk(x)
    def data(I, e, fr, a): x = nd(a[0]); return RecV('dev::vector_ref', {'raw': TermV(RAW(x[1]), 'bytes')})
    def vctor(I, e, fr, a):
        if len(a) and isinstance(rd(I, a[0]), SeqV): return rd(I, a[0])
        if not a: return SeqV(0, lambda i: TermV(z3.IntVal(-1), 'bytes'), None, 'vec')
        return SeqV(rd(I, a[0]).t, lambda i: TermV(z3.IntVal(-1), 'bytes'), None, 'vec')
    I.contracts = hashcon({'dev::RLP::isList': islist, 'dev::RLP::isData': isdata, 'dev::RLP::toList': tolist, 'dev::RLP::data': data, 'dev::vector_ref::toBytes': lambda I, e, fr, a: rd(I, a[0]).f['raw'], 'std::vector::(ctor)': vctor, 'dev::RLP::(ctor)': lambda I, e, fr, a: rd(I, a[0])})
    k0, j0 = z3.Int('some entry'), z3.Int('some key'); u.assume(And(k0 >= 0, j0 >= 0))
    def keyok(k): return z3.Implies(j0 < K(k), KD(k, j0))
    def okay(k): return And(P['entry is a list'](k), M(k) == 2, P['address is data'](k), P['keys are a list'](k), keyok(k))
    def outer(I, env, k): return [] if good else [('entries seen are well-formed', z3.Implies(zi(k) > k0, okay(k0)))]
    def inner(I, env, j):
        if good: return []
        x = cur[0]; return [('keys seen are data', z3.Implies(And(zi(j) > j0, j0 < K(x)), KD(x, j0)))]
    def st(I, env, k): return [(env('accessList'), SeqV(n, lambda j: TermV(z3.If(zi(j) < zi(k), RAW(zi(j)), -1), 'bytes'), None, 'vec'))]
    specs = [LoopSpec(inv=outer, name='entries'), LoopSpec(inv=inner, name='keys'), LoopSpec(state=st, name='copy')]; depth = [0]
    def pick(I, s, fr):
        sp = specs[2] if 'range' not in s else specs[min(depth[0], 1)]
        class D:
            def run(self, *a):
                depth[0] += 1
                try: return sp.run(*a)
                finally: depth[0] -= 1
        return D()
    loop(u, 'validateAccessListRLP', pick)
    x, r = u.throws(u.call, 'validateAccessListRLP', [I.new(node(('top',)))]); u.cover('accepted' if x is None else 'refused')
    if x is not None: u.prove('a well-formed access list of at most 16 entries is accepted', z3.BoolVal(False) if good else z3.BoolVal(True)) if not good else u.prove('only what is no list is refused among well-formed ones', Not(top)); return
    r = I.val(r); u.prove('it is a list', top); u.prove('at most 16 entries', Or(n <= 16, n == 0)); u.prove('as many entries', zi(r.n) == n)
    if not good: u.prove('every entry is a pair of data and a list of data', z3.Implies(k0 < n, okay(k0)))
    u.prove('every entry is kept as it was encoded', z3.Implies(k0 < n, r.get(k0).t == RAW(k0)))
def loop(u, qn, spec, n=None): u.I.cfg.setdefault('loops', {})[(qn, n)] = spec; u.I.loops = u.I.cfg['loops']
def tx(u, **k):
    d = dict(m_chainId=OptV(z3.Bool('has chain id'), int_in(u, 'chain id', 64)), m_data=SeqV(0, None, None, 'vec'), m_rawData=SeqV(0, None, None, 'vec'), m_accessList=SeqV(0, None, None, 'vec'), m_sender=OptV(z3.Bool('sender known'), term(u, 'known sender')), m_vrs=OptV(z3.Bool('signed'), RecV('dev::SignatureStruct', {'r': term(u, 'r', 'hash32'), 's': term(u, 's', 'hash32'), 'v': int_in(u, 'v', 8)})), m_hashWith=term(u, 'known hash', 'hash32')); d.update(k)
    r = filled(u, TB, d); f = r.f; u.assume(And(f['m_type'].t >= 0, f['m_type'].t <= 3, f['m_txType'].t >= 0, f['m_txType'].t <= 2)); g = f['m_vrs'].v.f; u.assume(And(g['r'].t >= 0, g['r'].t < 1 << 256, g['s'].t >= 0, g['s'].t < 1 << 256)); return u.I.new(r, 'tx'), f
def u_dispatch(u):
    I = u.I; raw = bytes_in(u, 'input'); n = raw[1].n; got = []; fails = z3.Bool('decoding throws'); u.p.inputs['fails'] = lambda m: str(m.eval(fails, True)); mode = int_in(u, 'signature check', 32); u.assume(And(mode.t >= 0, mode.t <= 2)); allow, typed = z3.Bool('allow'), z3.Bool('typed'); k = z3.Int('some byte')
    for b in (allow, typed): u.p.inputs[b.decl().name()] = lambda m, b=b: str(m.eval(b, True))
    def fill(kind):
        def h(I, e, fr, a):
            v = rd(I, a[1]); got.append((kind, v.f['m_count'].t, v.f['m_data'], rd(I, a[2]).t, rd(I, a[3])))
            if I.p.branch(fails): raise CxxThrow('dev::BadRLP')
            return OpaqueV('void')
        return h
    I.contracts = hashcon({TB + '::fillFromBytes' + nm: fill(k) for k, nm in enumerate(('Legacy', 'Type1', 'Type2'))}); I.contracts.update({'dev::RLPStream::(ctor)': lambda I, e, fr, a: RecV('dev::RLPStream', {}), 'dev::RLPStream::append': lambda I, e, fr, a: a[0], 'dev::RLPStream::out': lambda I, e, fr, a: I.new(SeqV(0, None, None, 'vec')), 'dev::RLP::(ctor)': lambda I, e, fr, a: OpaqueV('rlp')})
    x, t = u.throws(u.construct, TB + '::(ctor)', [vref(raw[0], 0, n), mode, allow, typed], lambda I, f: len(f['params']) == 4 and 'vector_ref' in I.T[f['params'][0]['t']].get('s', '')); u.cover('decodes')
    b0 = z3.If(n > 0, raw[1].get(0).t, 255); want = z3.If(And(typed, b0 == 1), 1, z3.If(And(typed, b0 == 2), 2, 0)); u.prove('decoded exactly once', z3.BoolVal(len(got) == 1))
    for kd, cnt, ptr, md, al in got: u.p.prove_all([('by the format of its first byte', want == kd), ('all bytes are decoded', And(zi(cnt) == n, B(ptr.off == 0 if isc(ptr.off) else False), B(ptr.loc.cell is raw[0].cell))), ('with the signature check asked for', zi(md) == mode.t), ('invalid ones are passed on exactly when allowed', B(al) == allow)])
    if x is not None: u.prove('throws only when decoding fails and invalid ones are not allowed', And(fails, Not(allow)))
    else: u.prove('a failed decoding is reported', Or(Not(fails), And(allow, rd(I, t).f['m_type'].t == 3)))
def u_bytes(u):
    I = u.I; t, f = tx(u); enc = bytes_in(u, 'encoded'); sig = u.p.choose(2); seen = []; pay = bytes_in(u, 'payload of the stored bytes'); hashed = []; ty = f['m_txType'].t; inv = f['m_type'].t == 3
    def stream(I, e, fr, a): seen.append((rd(I, a[2]).t, rd(I, a[3]))); return OpaqueV('void')
    def sha(I, e, fr, a):
        v = rd(I, a[0])
        if isinstance(v, RecV) and 'm_count' in v.f: p = v.f['m_data']; v = SeqV(v.f['m_count'].t, lambda i: I.val(I.read(Loc(p.loc.cell, p.loc.path + (('i', I.tadd(p.off, i)),)))), None, 'vec')
        hashed.append(v); return TermV(z3.Int('hash of it'), 'hash32')
    I.contracts = hashcon({TB + '::streamRLP': stream, 'dev::RLPStream::(ctor)': lambda I, e, fr, a: RecV('dev::RLPStream', {}), 'dev::RLPStream::out': lambda I, e, fr, a: enc[0], 'dev::RLP::(ctor)': lambda I, e, fr, a: OpaqueV('rlp'), 'dev::RLP::payload': lambda I, e, fr, a: vref(pay[0], 0, pay[1].n), 'dev::sha3': sha})
    k = z3.Int('some byte'); n = enc[1].n
    def typed(v): return And(zi(v.n) == n + z3.If(ty != 0, 1, 0), z3.Implies(And(k >= 0, k < n), zi(v.get(k + z3.If(ty != 0, 1, 0)).t) == enc[1].get(k).t), z3.Implies(ty != 0, zi(v.get(0).t) == ty))
    if u.p.choose(2):
        r = I.val(u.call(TB + '::toBytes', [t, IntV(sig, 32, False), False])); u.cover('bytes'); u.prove('the bytes are the encoding, after the type if it has one', typed(r)); u.prove('with the signature exactly when asked', z3.BoolVal(len(seen) == 1 and isc(seen[0][0]) and seen[0][0] == sig)); return
    r = I.val(u.call(TB + '::sha3', [t, IntV(sig, 32, False)])); u.cover('hash'); known = f['m_hashWith'].t
    if not hashed: u.prove('a known hash of the signed transaction is kept', And(B(sig == 1), known != 0, r.t == known)); return
    u.prove('otherwise hashed once', And(B(len(hashed) == 1), Or(B(sig == 0), known == 0), r.t == z3.Int('hash of it'))); v = hashed[0]; u.prove('only the hash with signature is remembered', rd(I, t).f['m_hashWith'].t == (r.t if sig else known))
    if seen: u.p.prove_all([('what is hashed is the encoding, after the type if it has one', typed(v)), ('with the signature exactly when asked', z3.BoolVal(len(seen) == 1 and isc(seen[0][0]) and seen[0][0] == sig)), ('for signing, the chain id is part of it exactly when there is one', B(seen[0][1]) == And(B(sig == 0), f['m_chainId'].has)), ('a valid transaction', Not(inv))])
    else: u.prove('of an invalid transaction the stored bytes are hashed', And(inv, zi(v.n) == pay[1].n, z3.Implies(And(k >= 0, k < pay[1].n), zi(v.get(k).t) == pay[1].get(k).t)))
def u_sender(u):
    I = u.I; t, f = tx(u); rec = z3.Int('recovered key'); MAXA = (1 << 160) - 1; H, R160 = z3.Function('sha3', INT, INT), z3.Function('right160', INT, INT); how = []
    def recover(I, e, fr, a): how.append((rd(I, a[0]), rd(I, a[1]))); return TermV(rec, 'hash64')
    I.contracts = hashcon({'dev::recover': recover, TB + '::sha3': lambda I, e, fr, a: TermV(z3.Int('signing hash') if rd(I, a[1]).t == 0 else z3.Int('other hash'), 'hash32'), 'dev::SignatureStruct::operator Signature': lambda I, e, fr, a: rd(I, a[0]), 'dev::SignatureStruct::(conv)': lambda I, e, fr, a: rd(I, a[0]), 'dev::FixedHash::data': lambda I, e, fr, a: PtrV(I.new(TermV(rd(I, a[0]).t, 'bytes of hash'))), 'dev::vector_ref::(ctor)': lambda I, e, fr, a: RecV('dev::vector_ref', {'of': rd(I, I.val(a[0]).loc), 'n': rd(I, a[1])}), 'dev::sha3': lambda I, e, fr, a: TermV(H(rd(I, a[0]).f['of'].t), 'hash32'), 'dev::right160': lambda I, e, fr, a: TermV(R160(rd(I, a[0]).t), 'hash20')})
    I.cfg['globals'] = {'dev::MaxAddress': lambda I, gd: TermV(z3.IntVal(MAXA), 'hash20'), 'dev::ZeroAddress': lambda I, gd: TermV(z3.IntVal(0), 'hash20')}; g = f['m_vrs'].v.f; zero = And(f['m_vrs'].has, g['r'].t == 0, g['s'].t == 0); known = f['m_sender'].has; nosend = Or(f['m_type'].t == 3, zero); safe = u.p.choose(2)
    x, r = u.throws(u.call, TB + ('::safeSender' if safe else '::sender'), [t]); u.cover('sender'); r = rd(I, r) if r is not None else None
    bad = And(Not(known), Not(nosend), Or(Not(f['m_vrs'].has), rec == 0)); want = z3.If(known, f['m_sender'].v.t, z3.If(nosend, MAXA, R160(H(rec))))
    if safe: u.prove('never throws', z3.BoolVal(x is None)); u.prove('the sender, or the zero address when there is none', r.t == z3.If(bad, 0, want))
    elif x is not None: u.prove('only an unsigned transaction or a wrong signature has no sender', bad)
    else: u.prove('known, nobody (invalid or zero signature), or recovered from the signature', And(Not(bad), r.t == want))
    for sg, hh in how: u.prove('recovered from the signature and the hash made for signing', And(hh.t == z3.Int('signing hash'), *[sg.f[k].t == g[k].t for k in ('r', 's', 'v')]))
def u_checks(u):
    I = u.I; t, f = tx(u); I.contracts = hashcon({}); I.cfg['globals'] = {'dev::eth::c_secp256k1n': lambda I, gd: IntV(N, 256, False), 'c_secp256k1n': lambda I, gd: IntV(N, 256, False)}; g = f['m_vrs'].v.f
    if u.p.choose(2): x, _ = u.throws(u.call, TB + '::checkLowS', [t]); u.cover('checks s'); u.prove('refused exactly without signature or with a high s', z3.BoolVal(x is not None) == Or(Not(f['m_vrs'].has), g['s'].t > N // 2)); return
    c = int_in(u, 'chain id of the chain', 64); off = z3.Bool('check disabled'); x, _ = u.throws(u.call, TB + '::checkChainId', [t, c, off]); u.cover('checks chain id'); has = f['m_chainId'].has
    u.prove('refused exactly with another chain id, or without one unless allowed', z3.BoolVal(x is not None) == Or(And(has, f['m_chainId'].v.t != c.t), And(Not(has), Not(off))))
B_ = dict(src=SRC, want=WANT, mode='int', cfg={'emap': True})
def un(name, fn, **kw):
    d = dict(B_, name=name, body=fn); d.update(kw); return d
UNITS = [un('txn.dispatch', u_dispatch), un('txn.bytes', u_bytes), un('txn.sender', u_sender), un('txn.checks', u_checks), un('txn.valid', u_valid), un('txn.access', u_access), un('txn.legacy', u_fill(0)), un('txn.type1', u_fill(1)), un('txn.type2', u_fill(2))]
if __name__ == '__main__': main(UNITS)
