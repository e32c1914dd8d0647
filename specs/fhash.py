from common import *
SRC = os.path.join(VERIF, 'tu/hash.cpp')
WANT = ['dev::*']
And, Or, Not = z3.And, z3.Or, z3.Not
S = dict(src=SRC, want=WANT, mode='bv')
HB = {'hash_bytes': True, 'unroll': 300}
FH = 'dev::FixedHash::'
def cls(N, q='dev::FixedHash', *ps):
    def f(I, fn):
        t = I.T[fn['cls']]
        if t['qn'] != q or int(t['args'][0]['v']) != N: return False
        if ps:
            if len(fn['params']) < len(ps): return False
            return all(p == I._strip(x['t']).get('qn', I._strip(x['t']).get('s')) or p in I._strip(x['t']).get('s', '') for p, x in zip(ps, fn['params']))
        return True
    return f
def hin(u, name, N):
    loc, s = bytes_in(u, name, n=N, kind='arr'); return u.I.new(RecV('dev::FixedHash', {'m_data': s}), name), s
def big(u, s, N):
    if u.I.mode == 'bv': return z3.Concat(*[u.I.bvt(s.get(i)) for i in range(N)]) if N > 1 else u.I.bvt(s.get(0))
    return be(lambda i: s.get(i).t, 0, N)
def data(u, v): return u.I.val(v).f['m_data']
def u_cmp(N):
    def f(u):
        la, a = hin(u, 'a', N); lb, b = hin(u, 'b', N); A = big(u, a, N); Bb = big(u, b, N)
        for op, want in (('<', z3.ULT(A, Bb)), ('>', z3.UGT(A, Bb)), ('<=', z3.ULE(A, Bb)), ('>=', z3.UGE(A, Bb)), ('==', A == Bb), ('!=', A != Bb)):
            pass
        op = ['<', '>', '<=', '>=', '==', '!='][u.p.choose(6)]
        want = {'<': z3.ULT(A, Bb), '>': z3.UGT(A, Bb), '<=': z3.ULE(A, Bb), '>=': z3.UGE(A, Bb), '==': A == Bb, '!=': A != Bb}[op]
        r = u.call(FH + 'operator' + op, [la, lb], cls(N)); u.cover('returns ' + op)
        u.prove('operator%s is the comparison of the big-endian numbers' % op, beq(r, want) if isinstance(r, bool) else B(r) == want)
    return f
def u_bits(N, q='dev::FixedHash', other=None):
    def f(u):
        la, a = hin(u, 'a', N); lb, b = hin(u, 'b', N)
        op = ['^', '|', '&', '^=', '|=', '&='][u.p.choose(6)]
        o = {'^': lambda x, y: x ^ y, '|': lambda x, y: x | y, '&': lambda x, y: x & y}[op[0]]
        pr = cls(N, q) if other is None else cls(N, q, other)
        r = u.call(q + '::operator' + op, [la, lb], pr); u.cover('returns ' + op)
        for i in range(N): u.prove('operator%s byte %d' % (op, i), u.I.bvt(data(u, r).get(i)) == o(u.I.bvt(a.get(i)), u.I.bvt(b.get(i))))
        if op[-1] != '=':
            for i in range(N): u.prove('operator%s leaves its operand alone' % op, u.I.bvt(data(u, la).get(i)) == u.I.bvt(a.get(i)))
        else: u.prove('compound assignment changes the object itself', u.I.veq(data(u, la), data(u, r)))
    return f
def u_not(N):
    def f(u):
        la, a = hin(u, 'a', N); r = u.call(FH + 'operator~', [la], cls(N)); u.cover('returns')
        for i in range(N): u.prove('byte %d complemented' % i, u.I.bvt(data(u, r).get(i)) == ~u.I.bvt(a.get(i)))
    return f
def u_inc(N):
    def f(u):
        la, a = hin(u, 'a', N); A = big(u, a, N); r = u.call(FH + 'operator++', [la], cls(N)); u.cover('returns')
        u.prove('big-endian number plus one, modulo the width', big(u, data(u, la), N) == A + 1)
    return f
def u_bool(N):
    def f(u):
        la, a = hin(u, 'a', N)
        r = u.call(FH + '(conv)', [la], lambda I, fn: cls(N)(I, fn) and I.T[fn['ret']]['k'] == 'bool'); u.cover('returns')
        u.prove('true exactly for a non-zero hash', B(r) == (big(u, a, N) != 0))
    return f
def u_fbs(N):
    def f(u):
        la, a = hin(u, 'a', N); r = u.call(FH + 'firstBitSet', [la], cls(N)); A = big(u, a, N); u.cover('returns')
        rt = u.I.bvt(r); u.prove('at most the width', z3.ULE(rt, 8 * N)); k = r.t
        if not isc(k):
            u.prove('index concrete on every path', False); return
        u.prove('all more significant bits are zero', True if k == 0 else z3.Extract(8 * N - 1, 8 * N - k, A) == 0)
        if k < 8 * N: u.prove('bit itself is one', z3.Extract(8 * N - 1 - k, 8 * N - 1 - k, A) == 1)
    return f
def u_bloom(u):
    """bloomPart: bit number (low 11 bits of the two-byte groups 0,1,2), counted from the end"""
    la, a = hin(u, 'h', 32)
    r = u.call(FH + 'bloomPart', [la], cls(32)); d = data(u, r); u.cover('returns')
    idx = [z3.Concat(z3.Extract(2, 0, u.I.bvt(a.get(2 * i))), u.I.bvt(a.get(2 * i + 1))) for i in range(3)]
    for i in range(256):
        w = z3.BitVecVal(0, 8)
        for x in idx: w = w | z3.If(z3.Extract(10, 3, x) == 255 - i, z3.BitVecVal(1, 8) << z3.ZeroExt(5, z3.Extract(2, 0, x)), z3.BitVecVal(0, 8))
        u.prove('byte %d holds exactly the bits of the three groups' % i, u.I.bvt(d.get(i)) == w)
def bloom_contract(I, e, fr, args):
    b = SeqV(256, I.cfg['bloomf'], None, 'arr'); return RecV('dev::FixedHash', {'m_data': b})
def u_shift(u):
    lb, b = hin(u, 'bloom', 256); lh, h = hin(u, 'h', 32); _, part = bytes_in(u, 'part', n=256, kind='arr'); u.I.cfg['bloomf'] = part.get
    u.call(FH + 'shiftBloom', [lb, lh], cls(256)); n = data(u, lb); u.cover('returns')
    for i in range(256): u.prove('byte %d is old or part' % i, u.I.bvt(n.get(i)) == u.I.bvt(b.get(i)) | u.I.bvt(part.get(i)))
    for i in range(256): u.prove('no bit removed in byte %d' % i, u.I.bvt(n.get(i)) & u.I.bvt(b.get(i)) == u.I.bvt(b.get(i)))
    r = u.call(FH + 'containsBloom', [lb, lh], cls(256)); u.prove('the added value is reported as contained', B(r))
def u_contains(N):
    def f(u):
        la, a = hin(u, 'a', N); lb, b = hin(u, 'b', N); r = u.call(FH + 'contains', [la, lb], cls(N)); u.cover('returns')
        u.prove('true exactly when every one-bit of the argument is set', B(r) == (big(u, a, N) & big(u, b, N) == big(u, b, N)))
    return f
# ---------------- construction
def u_ctorarith(N):
    def f(u):
        x = int_in(u, 'x', 8 * N); v = u.construct(FH + '(ctor)', [u.I.new(x)], lambda I, fn: cls(N)(I, fn) and len(fn['params']) == 1 and I.as_bigint(I._strip(fn['params'][0]['t'])) is not None); u.cover('returns')
        for i in range(N): u.prove('byte %d' % i, data(u, v).get(i).t == idiv(x.t, 256 ** (N - 1 - i)) % 256)
    return f
def u_convarith(N):
    def f(u):
        la, a = hin(u, 'a', N); v = u.call(FH + '(conv)', [la], lambda I, fn: cls(N)(I, fn) and I.as_bigint(I.T[fn['ret']]) is not None); u.cover('returns')
        u.prove('value is the big-endian number', v.t == be(lambda i: a.get(i).t, 0, N))
    return f
def u_ctorunsigned(N):
    def f(u):
        x = int_in(u, 'x', 32); v = u.construct(FH + '(ctor)', [x], lambda I, fn: cls(N)(I, fn) and len(fn['params']) == 1 and I._strip(fn['params'][0]['t'])['k'] == 'int'); u.cover('returns')
        for i in range(N): u.prove('byte %d' % i, data(u, v).get(i).t == (idiv(x.t, 256 ** (N - 1 - i)) % 256 if N - 1 - i < 4 else 0))
    return f
def u_ctorbytes(N, how):
    def f(u):
        loc, s = bytes_in(u, 's', maxlen=(1 << 32) - 1); t = ['left', 'right', 'exact'][u.p.choose(3)]
        al = IntV({'left': 0, 'right': 1, 'exact': 2}[t], 32, False)
        arg = loc if how == 'std::vector' else vref(loc, 0, s.n)
        v = u.construct(FH + '(ctor)', [arg, al], lambda I, fn: cls(N)(I, fn) and len(fn['params']) == 2 and I._strip(fn['params'][0]['t']).get('qn') == how and I.T[fn['params'][1]['t']]['k'] == 'enum'); u.cover('returns ' + t)
        d = data(u, v); i = u.I.fresh_idx('i')
        spec = {'left': ite(i < s.n, s.get(i).t, z3.IntVal(0)), 'right': ite(i + s.n - N >= 0, s.get(i + s.n - N).t, z3.IntVal(0)), 'exact': ite(s.n == N, s.get(i).t, z3.IntVal(0))}[t]
        u.prove('width', d.n == N); u.prove('%s aligned bytes, zero elsewhere' % t, Imp(And(i >= 0, i < N), d.get(i).t == spec))
    return f
def u_ctorhash(N, M):
    def f(u):
        lh, h = hin(u, 'h', M); t = ['left', 'right'][u.p.choose(2)]
        v = u.construct(FH + '(ctor)', [lh, IntV(0 if t == 'left' else 1, 32, False)], lambda I, fn: cls(N)(I, fn) and len(fn['params']) == 2 and I._strip(fn['params'][0]['t']).get('qn') == 'dev::FixedHash' and int(I._strip(fn['params'][0]['t'])['args'][0]['v']) == M); u.cover('returns ' + t)
        for i in range(N):
            j = i if t == 'left' else i + M - N
            w = h.get(j).t if 0 <= j < M else 0
            u.prove('%s aligned byte %d' % (t, i), data(u, v).get(i).t == w)
    return f
def u_right160(u):
    lh, h = hin(u, 'h', 32); v = u.call('dev::right160', [lh]); u.cover('returns')
    for i in range(20): u.prove('byte %d is byte %d' % (i, i + 12), data(u, v).get(i).t == h.get(i + 12).t)
SI = dict(S, mode='int')
UNITS = [dict(name='hash%d.compare' % n, body=u_cmp(n), cfg=HB, **S) for n in (8, 20, 32)] + \
    [dict(name='hash%d.bitwise' % n, body=u_bits(n), cfg=HB, **S) for n in (8, 20, 32, 256)] + \
    [dict(name='hash32.secure.bitwise', body=u_bits(32, 'dev::SecureFixedHash', 'SecureFixedHash'), cfg=HB, **S), dict(name='hash32.secure.bitwise.plain', body=u_bits(32, 'dev::SecureFixedHash', 'dev::FixedHash'), cfg=HB, **S)] + \
    [dict(name='hash%d.complement' % n, body=u_not(n), cfg=HB, **S) for n in (8, 20, 32, 256)] + \
    [dict(name='hash%d.increment' % n, body=u_inc(n), cfg=HB, **S) for n in (8, 20, 32)] + \
    [dict(name='hash%d.bool' % n, body=u_bool(n), cfg=HB, **S) for n in (20, 32)] + \
    [dict(name='hash%d.contains' % n, body=u_contains(n), cfg=HB, **S) for n in (32, 256)] + \
    [dict(name='hash%d.firstBitSet' % n, body=u_fbs(n), cfg=HB, **S) for n in (8, 32)] + \
    [dict(name='hash.bloomPart', body=u_bloom, cfg=HB, **S), dict(name='hash.shiftBloom', body=u_shift, cfg={**HB, 'contracts': {FH + 'bloomPart': bloom_contract}}, **S)] + \
    [dict(name='hash%d.fromInteger' % n, body=u_ctorarith(n), cfg=HB, **SI) for n in (8, 20, 32)] + \
    [dict(name='hash%d.toInteger' % n, body=u_convarith(n), cfg=HB, **SI) for n in (8, 20, 32)] + \
    [dict(name='hash%d.fromUnsigned' % n, body=u_ctorunsigned(n), cfg=HB, **SI) for n in (8, 32)] + \
    [dict(name='hash%d.fromBytes' % n, body=u_ctorbytes(n, 'std::vector'), cfg=HB, **SI) for n in (20, 32)] + \
    [dict(name='hash%d.fromView' % n, body=u_ctorbytes(n, 'dev::vector_ref'), cfg=HB, **SI) for n in (20, 32)] + \
    [dict(name='hash32.fromHash20', body=u_ctorhash(32, 20), cfg=HB, **SI), dict(name='hash20.fromHash32', body=u_ctorhash(20, 32), cfg=HB, **SI), dict(name='hash.right160', body=u_right160, cfg=HB, **SI)]
if __name__ == '__main__': main(UNITS)
