from common import *
SRC = os.path.join(VERIF, 'tu/conv.cpp')
WANT = ['dev::*']
And, Or, Not = z3.And, z3.Or, z3.Not
S = dict(src=SRC, want=WANT)
def hexval(c):
    """specification: value of an ASCII hex digit, -1 otherwise (c as unsigned or signed char)"""
    return If(And(c >= 48, c <= 57), c - 48, If(And(c >= 97, c <= 102), c - 87, If(And(c >= 65, c <= 70), c - 55, -1)))
def hexdig(v): return If(v < 10, v + 48, v + 87)
CON = {'fromHexChar': lambda I, e, fr, a: IntV(hexval(I.val(a[0]).t), 32, True, -1, 15)}
def seq_is(u, name, got, want):
    u.prove(name + ' (length)', u.I.teq(got.n, want.n))
    i = u.I.fresh_idx('i')
    u.prove(name + ' (content)', Imp(u.I.inrange(i, want.n), u.I.veq(got.get(i), want.get(i))))
def u_hexchar(u):
    c = int_in(u, 'c', 8, True)
    r = u.call('fromHexChar', [c]); u.cover('returns')
    u.prove('value of every hex digit, -1 for every other character', r.t == hexval(c.t))
# ---- fromHex: strings shorter than 2^32 - 2 (loop index is 32 bits)
def hexspec(s):
    """(prefix length, odd, number of output bytes, output byte i, valid)"""
    g = lambda i: s.get(i).t
    pre = If(And(s.n >= 2, g(z3.IntVal(0)) == 48, g(z3.IntVal(1)) == 120), 2, 0)
    odd = s.n % 2
    first = pre + odd
    nb = (s.n - pre + 1) / 2
    byte = lambda i: If(And(odd == 1, i == 0), hexval(g(pre)), hexval(g(first + 2 * (i - odd))) * 16 + hexval(g(first + 2 * (i - odd) + 1)))
    return pre, odd, nb, byte
def u_fromhex(thr):
    def f(u):
        loc, s = bytes_in(u, 's', maxlen=(1 << 32) - 4, signed=True, kind='str')
        pre, odd, nb, byte = hexspec(s); first = pre + odd; q = z3.Int('q!h')
        def st(I, env, k):
            l = env.modseq(); v = env.entry(l)
            return [(l, SeqV(odd + k, lambda i: IntV(byte(i), 8, False), v.et, v.kind))]
        def inv(I, env, k): return [('all characters so far are hex digits', z3.ForAll([q], Imp(And(q >= pre, q < first + 2 * k), hexval(s.get(q).t) != -1))), ('inside', first + 2 * k <= s.n)]
        u.I.cfg.setdefault('loops', {})[('dev::fromHex', None)] = LoopSpec(inv, st, name='fromHex loop')
        u.I.loops = u.I.cfg['loops']
        exc, v = u.throws(lambda: u.call('dev::fromHex', [loc, IntV(1 if thr else 0, 32, True)]))
        valid = z3.ForAll([q], Imp(And(q >= pre, q < s.n), hexval(s.get(q).t) != -1))
        if exc is not None:
            u.cover('rejects'); u.prove('throws BadHexCharacter', exc == 'dev::BadHexCharacter'); u.prove('throws only in throwing mode', thr); u.prove('throws only on a non-hex character', Not(valid)); return
        u.cover('returns')
        if not thr and not u.p.branch(valid): u.prove('invalid text gives the empty result', v.n == 0 if not isc(v.n) else v.n == 0); return
        u.prove('accepts only hex text', valid)
        seq_is(u, 'decoded bytes', v, SeqV(nb, lambda i: IntV(byte(i), 8, False)))
    return f
# ---- toHex(bytes)
def u_tohex(fn, prefix):
    def f(u):
        loc, s = bytes_in(u, 'x'); I = u.I
        def st(I, env, k):
            l = env.modseq(); v = env.entry(l); off = len(prefix); sb = lambda j: s.get(j).t
            def get(i):
                j = z3.Int(u.p.fresh('dv')) if False else (i - off) / 2
                b = sb(j)
                return IntV(ite(z3.And(i >= off, i < off + 2 * k), hexdig(ite((i - off) % 2 == 0, b / 16, b % 16)), v.get(i).t), 8, True)
            return [(l, SeqV(v.n, get, v.et, v.kind))]
        I.cfg.setdefault('loops', {})[('dev::toHex', None)] = LoopSpec(None, st, name='toHex loop'); I.loops = I.cfg['loops']
        exc, v = u.throws(lambda: u.call(fn, [loc], lambda I, fn: len(fn['params']) == 1 and I._strip(fn['params'][0]['t']).get('qn') == 'std::vector'))
        u.prove('does not throw', exc is None); u.cover('returns')
        want = SeqV(s.n * 2 + len(prefix), lambda i: IntV(ite(i < len(prefix), (z3.IntVal(ord(prefix[0])) if len(prefix) == 0 else If(i == 0, ord(prefix[0]), ord(prefix[1]))) if prefix else z3.IntVal(0), hexdig(ite((i - len(prefix)) % 2 == 0, s.get((i - len(prefix)) / 2).t / 16, s.get((i - len(prefix)) / 2).t % 16))), 8, True))
        seq_is(u, 'lower-case hex text', v, want)
    return f
def loop(u, qn, spec, n=None): u.I.cfg.setdefault('loops', {})[(qn, n)] = spec; u.I.loops = u.I.cfg['loops']
P1 = lambda qn: (lambda I, fn: len(fn['params']) == 1 and I._strip(fn['params'][0]['t']).get('qn') == qn)
def u_ishex(u):
    loc, s = bytes_in(u, 's', signed=True, kind='str'); q = z3.Int('q!v')
    r = u.call('dev::isHex', [loc]); u.cover('returns')
    p = If(And(s.n >= 2, s.get(0).t == 48, s.get(1).t == 120), 2, 0)
    u.prove('true exactly for hex digits after an optional 0x', B(r) == z3.ForAll([q], Imp(And(q >= p, q < s.n), hexval(s.get(q).t) != -1)))
def u_nibbles(u):
    loc, s = bytes_in(u, 's')
    nib = lambda i: ite(i % 2 == 0, s.get(i / 2).t / 16, s.get(i / 2).t % 16)
    loop(u, 'dev::asNibbles', LoopSpec(None, lambda I, env, k: [(env.modseq(), SeqV(2 * k, lambda i: IntV(nib(i if not isc(i) else z3.IntVal(i)), 8, False)))], name='asNibbles loop'))
    v = u.call('dev::asNibbles', [u.I.new(vref(loc, 0, s.n))]); u.cover('returns')
    seq_is(u, 'high nibble, then low nibble of each byte', v, SeqV(s.n * 2, lambda i: IntV(nib(i), 8, False)))
def u_tobe(w, fn, kind):
    def f(u):
        x = int_in(u, 'x', w); n = w // 8
        v = u.call(fn, [x], lambda I, f: len(f['params']) == 1 and (I.as_bigint(I.T[f['params'][0]['t']]) or [I.T[f['params'][0]['t']].get('w')])[0] == w); u.cover('returns')
        u.prove('width', u.I.teq(v.n, n))
        for i in range(n):
            b = v.get(i); t = b.t; t = ite(t < 0, t + 256, t) if b.s else t
            u.prove('byte %d' % i, t == idiv(x.t, 256 ** (n - 1 - i)) % 256)
    return f
def u_frombe(w):
    def f(u):
        loc, s = bytes_in(u, 's'); F = z3.Function('horner', z3.IntSort(), z3.IntSort())
        u.assume(F(0) == 0)
        def st(I, env, k):
            if not isc(k) and not z3.is_int_value(k):
                kk = z3.simplify(k)
                u.p.assume(Imp(k >= 0, F(k + 1) == (F(k) * 256 + s.get(k).t) % 2 ** w)); u.p.assume(And(F(k) >= 0, F(k) < 2 ** w))
                u.p.assume(Imp(k >= 1, F(k) == (F(k - 1) * 256 + s.get(k - 1).t) % 2 ** w))
            return [(env.modint(w), IntV(F(k), w, False))]
        loop(u, 'dev::fromBigEndian', LoopSpec(None, st, name='fromBigEndian loop'))
        v = u.call('dev::fromBigEndian', [loc], lambda I, fn: (I.as_bigint(I.T[fn['ret']]) or [I.T[fn['ret']].get('w')])[0] == w); u.cover('returns')
        u.prove('value is the big-endian number modulo the word size', v.t == F(s.n))
    return f
def u_frombe_fixed(w):
    """exactly full-width input: value equals the sum, and toBigEndian inverts it"""
    def f(u):
        loc, s = bytes_in(u, 's', n=w // 8)
        v = u.call('dev::fromBigEndian', [loc], lambda I, fn: (I.as_bigint(I.T[fn['ret']]) or [I.T[fn['ret']].get('w')])[0] == w); u.cover('returns')
        u.prove('value of the bytes', v.t == be(lambda i: s.get(i).t, 0, w // 8))
    return f
def u_compact(w, mn=None):
    def f(u):
        x = int_in(u, 'x', w)
        if mn is None: m = int_in(u, 'min', 32); u.assume(m.t <= 10)
        else: m = IntV(z3.IntVal(mn), 32, False)
        v = u.call('dev::toCompactBigEndian', [x, m], lambda I, fn: (I.as_bigint(I.T[fn['params'][0]['t']]) or [I.T[fn['params'][0]['t']].get('w')])[0] == w); u.cover('returns')
        k = 0
        while k < w // 8 and not u.p.branch(x.t < 256 ** k): k += 1
        L = ite(m.t > k, m.t, z3.IntVal(k))
        u.prove('length is the larger of the minimum and the minimal width', v.n == L if not isc(v.n) else L == v.n)
        i = u.I.fresh_idx('i')
        for j in range(k): u.prove('low byte %d' % j, v.get(z3.simplify(L - 1 - j)).t == idiv(x.t, 256 ** j) % 256)
        u.prove('leading bytes are zero', Imp(And(i >= 0, i < L - k), v.get(i).t == 0))
    return f
def u_bytesreq(u):
    x = int_in(u, 'x', 64); v = u.call('dev::bytesRequired', [x]); u.cover('returns')
    for k in range(9): u.prove('minimal width %d' % k, Imp(v.t == k, And(x.t < 256 ** k, True if k == 0 else x.t >= 256 ** (k - 1))))
    u.prove('at most eight', And(v.t >= 0, v.t <= 8))
def u_padded(u):
    loc, s = bytes_in(u, 's'); l = int_in(u, 'l', 32); b = u.I.val(loc)
    def st(I, env, k): return [(env.modseq(), SeqV(s.n + k, lambda i: IntV(ite(i < k, z3.IntVal(0), s.get(i - k).t), 8, False)))]
    loop(u, 'dev::padded', LoopSpec(None, st, name='padded loop'))
    exc, v = u.throws(lambda: u.call('dev::padded', [b, l])); u.prove('does not throw', exc is None); u.cover('returns')
    seq_is(u, 'front padded with zeros or cut at the front', v, SeqV(l.t, lambda i: IntV(ite(i + s.n - l.t < 0, z3.IntVal(0), s.get(i + s.n - l.t).t), 8, False)))
def u_paddedright(u):
    loc, s = bytes_in(u, 's'); l = int_in(u, 'l', 32)
    v = u.call('dev::paddedRight', [u.I.val(loc), l]); u.cover('returns')
    seq_is(u, 'back padded with zeros or cut at the back', v, SeqV(l.t, lambda i: IntV(ite(i < s.n, s.get(i).t, z3.IntVal(0)), 8, False)))
def u_unpadleft(u):
    loc, s = bytes_in(u, 's', maxlen=1 << 31); q = z3.Int('q!z')
    def inv(I, env, k): return [('zeros so far', z3.ForAll([q], Imp(And(q >= 0, q < k), s.get(q).t == 0))), ('inside', k <= s.n)]
    loop(u, 'dev::unpadLeft', LoopSpec(inv, None, name='unpadLeft loop'))
    v = u.call('dev::unpadLeft', [u.I.val(loc)]); u.cover('returns')
    d = s.n - v.n
    u.prove('not longer', And(d >= 0, d <= s.n)); u.prove('only zeros removed', z3.ForAll([q], Imp(And(q >= 0, q < d), s.get(q).t == 0)))
    u.prove('first remaining byte is not zero', Or(v.n == 0, s.get(d).t != 0)); seq_is(u, 'rest kept', v, SeqV(s.n - d, lambda i: s.get(d + i)))
def u_commonprefix(u):
    la, a = bytes_in(u, 'a', maxlen=(1 << 32) - 1); lb, b = bytes_in(u, 'b', maxlen=(1 << 32) - 1); q = z3.Int('q!c')
    def inv(I, env, k): return [('equal so far', z3.ForAll([q], Imp(And(q >= 0, q < k), a.get(q).t == b.get(q).t))), ('inside', And(k <= a.n, k <= b.n))]
    loop(u, 'dev::commonPrefix', LoopSpec(inv, None, name='commonPrefix loop'))
    v = u.call('dev::commonPrefix', [la, lb]); u.cover('returns')
    u.prove('inside both', And(v.t <= a.n, v.t <= b.n)); u.prove('all equal before', z3.ForAll([q], Imp(And(q >= 0, q < v.t), a.get(q).t == b.get(q).t)))
    u.prove('stops only at a difference or an end', Or(v.t == a.n, v.t == b.n, a.get(v.t).t != b.get(v.t).t))
# ---- contract of fromHex, used by its callers
def fromhex_contract(I, e, fr, args):
    s = I.val(args[0]); pre, odd, nb, byte = hexspec(s); thr = I.val(args[1]).t
    if s.kind != 'str': raise Unsupported('fromHex argument')
    q = z3.Int('q!h'); valid = z3.ForAll([q], Imp(And(q >= pre, q < s.n), hexval(s.get(q).t) != -1))
    if I.p.branch(valid): return SeqV(nb, lambda i: IntV(byte(i), 8, False))
    if not isc(thr): raise Unsupported('symbolic mode')
    if thr == 1: raise CxxThrow('dev::BadHexCharacter')
    return SeqV(0, lambda i: IntV(0, 8, False))
def u_jstobytes(u):
    loc, s = bytes_in(u, 's', maxlen=(1 << 32) - 4, signed=True, kind='str'); pre, odd, nb, byte = hexspec(s); q = z3.Int('q!h')
    f = int_in(u, 'onFailed', 32, True); u.assume(And(f.t >= 0, f.t <= 2))
    valid = z3.ForAll([q], Imp(And(q >= pre, q < s.n), hexval(s.get(q).t) != -1))
    exc, v = u.throws(lambda: u.call('dev::jsToBytes', [loc, f]))
    if exc is not None: u.cover('rejects'); u.prove('rejects only invalid text, in Throw mode', And(Not(valid), f.t == 2)); u.prove('throws invalid_argument', exc == 'std::invalid_argument'); return
    if u.p.branch(valid): u.cover('decodes'); seq_is(u, 'decoded bytes', v, SeqV(nb, lambda i: IntV(byte(i), 8, False)))
    elif u.p.branch(f.t == 0): u.cover('raw'); seq_is(u, 'raw bytes', v, SeqV(s.n, lambda i: IntV(s.get(i).t % 256, 8, False)))
    else: u.prove('Throw mode never returns on invalid text', f.t == 1); u.prove('empty result', v.n == 0)
def tohex_contract(I, e, fr, args):
    if len(args) != 1: raise Unsupported('toHex form')
    s = I.val(args[0])
    if not isinstance(s, SeqV): raise Unsupported('toHex argument')
    if isc(s.n): return I.seq_of([IntV(hexdig(idiv(s.get(i).t, 16) if j == 0 else s.get(i).t % 16), 8, True) for i in range(s.n) for j in range(2)], None, 'str')
    return SeqV(s.n * 2, lambda i: IntV(hexdig(ite(i % 2 == 0, s.get(i / 2).t / 16, s.get(i / 2).t % 16)), 8, True), None, 'str')
def u_jstoint(u):
    loc, s = bytes_in(u, 's', maxlen=66, signed=True, kind='str'); g = lambda i: s.get(i).t; F = z3.Function('horner', z3.IntSort(), z3.IntSort()); q = z3.Int('q!d')
    u.assume(And(s.n >= 2, g(0) == 48, g(1) == 120, Not(And(s.n >= 4, g(2) == 48, g(3) == 120)), z3.ForAll([q], Imp(And(q >= 2, q < s.n), hexval(s.get(q).t) != -1)), F(0) == 0))
    odd = s.n % 2
    byte = lambda k: ite(And(odd == 1, k == 0), hexval(g(z3.IntVal(2))), hexval(g(2 + odd + 2 * (k - odd))) * 16 + hexval(g(3 + odd + 2 * (k - odd))))
    def st(I, env, k):
        if not isc(k):
            u.p.assume(And(F(k) >= 0, F(k) < 2 ** 256)); u.p.assume(Imp(k >= 0, F(k + 1) == (F(k) * 256 + byte(k)) % 2 ** 256)); u.p.assume(Imp(k >= 1, F(k) == (F(k - 1) * 256 + byte(k - 1)) % 2 ** 256))
        return [(env.modint(256), IntV(F(k), 256, False))]
    loop(u, 'dev::fromBigEndian', LoopSpec(None, st, name='fromBigEndian loop'))
    exc, v = u.throws(lambda: u.call('dev::jsToInt', [loc], lambda I, fn: I.as_bigint(I.T[fn['ret']]) is not None))
    u.prove('accepts every 0x-prefixed hex number', exc is None); u.cover('returns')
    u.prove('value is the number written', v.t == F((s.n - 2 + odd) / 2))
def u_tojs(u):
    x = int_in(u, 'x', 256)
    exc, v = u.throws(lambda: u.call('dev::toJS', [u.I.new(x)], lambda I, fn: I.as_bigint(I._strip(fn['params'][0]['t'])) is not None and I.as_bigint(I._strip(fn['params'][0]['t']))[0] == 256))
    u.prove('does not throw', exc is None); u.cover('returns')
    k = 1
    while k < 64 and not u.p.branch(x.t < 16 ** k): k += 1
    u.prove('0x and no leading zeros', v.n == k + 2); u.prove('prefix', And(v.get(0).t == 48, v.get(1).t == 120))
    for j in range(k): u.prove('digit %d' % j, v.get(k + 1 - j).t == hexdig(idiv(idiv(x.t, 256 ** (j // 2)) % 256, 16) if j % 2 else (idiv(x.t, 256 ** (j // 2)) % 256) % 16))
UNITS = [
    dict(name='conv.fromHexChar', body=u_hexchar, **S),
    dict(name='conv.toHex', body=u_tohex('dev::toHex', ''), **S),
    dict(name='conv.toHexPrefixed', body=u_tohex('dev::toHexPrefixed', '0x'), **S),
    dict(name='conv.fromHex.throw', body=u_fromhex(True), cfg={'contracts': CON}, **S),
    dict(name='conv.fromHex.lenient', body=u_fromhex(False), cfg={'contracts': CON}, **S),
    dict(name='conv.isHex', body=u_ishex, cfg={'contracts': CON}, **S),
    dict(name='conv.asNibbles', body=u_nibbles, **S),
    dict(name='conv.toBigEndian.u256', body=u_tobe(256, 'dev::toBigEndian', 'vec'), **S),
    dict(name='conv.toBigEndian.u160', body=u_tobe(160, 'dev::toBigEndian', 'vec'), **S),
    dict(name='conv.toBigEndianString.u256', body=u_tobe(256, 'dev::toBigEndianString', 'str'), **S),
    dict(name='conv.fromBigEndian.u256', unroll=0, body=u_frombe(256), **S),
    dict(name='conv.fromBigEndian.u64', unroll=0, body=u_frombe(64), **S),
    dict(name='conv.fromBigEndian.u256.full', body=u_frombe_fixed(256), **S),
    dict(name='conv.fromBigEndian.u64.full', body=u_frombe_fixed(64), **S),
    dict(name='conv.toCompactBigEndian.u256.min0', body=u_compact(256, 0), **S),
    dict(name='conv.toCompactBigEndian.u256.min1', body=u_compact(256, 1), **S),
    dict(name='conv.jsToInt.hex', unroll=0, body=u_jstoint, cfg={'contracts': {**CON, 'dev::fromHex': fromhex_contract}}, **S),
    dict(name='conv.toJS.u256', body=u_tojs, cfg={'contracts': {'dev::toHex': tohex_contract}}, **S),
    dict(name='conv.toCompactBigEndian.u64', body=u_compact(64), **S),
    dict(name='conv.bytesRequired', body=u_bytesreq, **S),
    dict(name='conv.padded', body=u_padded, **S),
    dict(name='conv.paddedRight', body=u_paddedright, **S),
    dict(name='conv.unpadLeft', body=u_unpadleft, **S),
    dict(name='conv.commonPrefix', body=u_commonprefix, **S),
    dict(name='conv.jsToBytes', body=u_jstobytes, cfg={'contracts': {**CON, 'dev::fromHex': fromhex_contract}}, **S),
]
if __name__ == '__main__': main(UNITS)
