from common import *
from conv import loop
SRC = os.path.join(VERIF, 'tu/trie.cpp')
WANT = ['dev::*']
And, Or, Not = z3.And, z3.Or, z3.Not
S = dict(src=SRC, want=WANT, mode='int')
ML = (1 << 29) - 1
def nib(s): return lambda i: ite(i % 2 == 0, s.get(i / 2 if not isc(i) else i // 2).t / 16, s.get(i / 2 if not isc(i) else i // 2).t % 16)
def seq_is(u, name, v, want):
    v = u.I.val(v); i = u.I.fresh_idx('i'); u.prove(name + ': length', v.n == want.n); u.prove(name + ': content', Imp(And(i >= 0, i < want.n), v.get(i).t == want.get(i).t))
def sc(t): return ite(t >= 128, t - 256, t)           # as a plain char
def slice_in(u, name):
    loc, s = bytes_in(u, name, maxlen=ML); o = int_in(u, name + '.offset', 32); u.assume(o.t <= 2 * s.n)
    return RecV('dev::NibbleSlice', {'data': vref(loc, 0, s.n), 'offset': o}), s, o.t
def hpspec(leaf, n, path):
    """nibbles of the hex-prefix form of a path of n nibbles; returns (parity, nibble function)"""
    odd = n % 2; fl = ite(leaf, z3.IntVal(2), z3.IntVal(0)) + odd
    return odd, lambda j: ite(j == 0, fl, ite(odd == 1, path(j - 1), ite(j == 1, z3.IntVal(0), path(j - 2))))
def partial(N, d):
    """byte string holding the first d nibbles"""
    return SeqV((d + 1) // 2 if isc(d) else (d + 1) / 2, lambda i: IntV(sc(N(2 * i) * 16 + ite(2 * i + 1 < d, N(2 * i + 1), z3.IntVal(0))), 8, True), None, 'str')
def nibloop(u, qn, N, base, n=None):
    """loop contract: after k nibbles the text holds the first base+k nibbles"""
    def st(I, env, k): l = env.modseq(); v = env.entry(l); r = partial(N, base() + k if callable(base) else base + k); return [(l, SeqV(r.n, r.get, v.et, 'str'))]
    loop(u, qn, LoopSpec(None, st, name='nibble loop'), n)
def u_enc_view(u):
    ns, s, off = slice_in(u, 'data'); leaf = u.I.fresh_bool('leaf'); b, e = int_in(u, 'begin', 32, True), int_in(u, 'end', 32, True)
    total = 2 * s.n - off; end = z3.If(e.t < 0, total + 1 + e.t, e.t); u.assume(And(b.t >= 0, b.t <= end, end <= total)); n = end - b.t
    g = nib(s); odd, N = hpspec(leaf, n, lambda j: g(off + b.t + j)); nibloop(u, 'dev::hexPrefixEncode', N, ite(odd == 1, z3.IntVal(1), z3.IntVal(2)))
    v = u.call('dev::hexPrefixEncode', [ns.f['data'], leaf, b, e, IntV(off, 32, False)], lambda I, fn: len(fn['params']) == 5 and I.T[fn['params'][1]['t']]['k'] == 'bool'); u.cover('even', odd == 0); u.cover('odd', odd == 1)
    seq_is(u, 'flag nibble, padding and path', v, partial(N, ite(odd == 1, z3.IntVal(1), z3.IntVal(2)) + n))
def u_enc_bytes(u):
    loc, s = bytes_in(u, 'hex', maxlen=ML); leaf = u.I.fresh_bool('leaf'); b, e = int_in(u, 'begin', 32, True), int_in(u, 'end', 32, True); q = z3.Int('q!n')
    u.assume(z3.ForAll([q], Imp(And(q >= 0, q < s.n), s.get(q).t < 16)))
    end = z3.If(e.t < 0, s.n + 1 + e.t, e.t); u.assume(And(b.t >= 0, b.t <= end, end <= s.n)); n = end - b.t; odd, N = hpspec(leaf, n, lambda j: s.get(b.t + j).t)
    def st(I, env, k): l = env.modseq(); v = env.entry(l); r = partial(N, 2 + 2 * k); return [(l, SeqV(r.n, r.get, v.et, 'str'))]
    loop(u, 'dev::hexPrefixEncode', LoopSpec(None, st, name='nibble pair loop'))
    v = u.call('dev::hexPrefixEncode', [loc, leaf, b, e], lambda I, fn: len(fn['params']) == 4 and I._strip(fn['params'][0]['t']).get('qn') == 'std::vector'); u.cover('even', odd == 0); u.cover('odd', odd == 1)
    seq_is(u, 'flag nibble, padding and path', v, partial(N, ite(odd == 1, z3.IntVal(1), z3.IntVal(2)) + n))
def u_enc_two(u):
    a, s, oa = slice_in(u, 'a'); c, t, oc = slice_in(u, 'b'); leaf = u.I.fresh_bool('leaf'); na, nb = 2 * s.n - oa, 2 * t.n - oc; n = na + nb; g, h = nib(s), nib(t)
    odd, N = hpspec(leaf, n, lambda j: ite(j < na, g(oa + j), h(oc + j - na))); base = ite(odd == 1, z3.IntVal(1), z3.IntVal(2)); nibloop(u, 'dev::hexPrefixEncode', N, base, 0); nibloop(u, 'dev::hexPrefixEncode', N, base + na, 1)
    v = u.call('dev::hexPrefixEncode', [a.f['data'], IntV(oa, 32, False), c.f['data'], IntV(oc, 32, False), leaf], lambda I, fn: len(fn['params']) == 5 and I.T[fn['params'][1]['t']]['k'] == 'int'); u.cover('returns')
    seq_is(u, 'flag nibble, padding and both paths', v, partial(N, base + n))
def hpe(u):
    """a hex-prefix string of a symbolic path"""
    n = u.I.fresh_int('len', 32, False); u.assume(n.t < 2 * ML); u.p.inputs['len'] = lambda m: str(m.eval(n.t, True)); leaf = u.I.fresh_bool('leaf'); P = z3.Function('path', z3.IntSort(), z3.IntSort())
    j = z3.Int('q!p'); u.assume(z3.ForAll([j], And(P(j) >= 0, P(j) < 16))); odd, N = hpspec(leaf, n.t, P); s = partial(N, ite(odd == 1, z3.IntVal(1), z3.IntVal(2)) + n.t)
    s = SeqV(s.n, lambda i, s=s: IntV(N(2 * i) * 16 + N(2 * i + 1), 8, False), None, 'vec'); return u.I.new(s, 'hpe'), s, n.t, leaf, P
def u_keyof(u):
    loc, s, n, leaf, P = hpe(u); r = u.I.val(u.call('dev::keyOf', [vref(loc, 0, s.n)], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::vector_ref')); u.cover('returns'); l = u.I.new(r)
    u.prove('as many nibbles as the path', u.call('dev::NibbleSlice::size', [l]).t == n); j = int_in(u, 'j', 32); u.assume(j.t < n); u.prove('the nibbles of the path', u.call('dev::NibbleSlice::operator[]', [l, j]).t == P(j.t))
    e = u.call('dev::NibbleSlice::empty', [l]); u.prove('empty exactly for the empty path', B(e) == (n == 0))
def u_keyof_empty(u):
    loc, s = bytes_in(u, 's', n=0); r = u.I.val(u.call('dev::keyOf', [vref(loc, 0, 0)], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::vector_ref')); u.cover('returns'); u.prove('empty key', B(u.call('dev::NibbleSlice::empty', [u.I.new(r)])))
def rlpitem(u, view): u.I.contracts.update({'dev::RLP::operator[]': lambda I, e, fr, a: RecV('dev::RLP', {'item': a[1]}), 'dev::RLP::payload': lambda I, e, fr, a: view(I.val(a[0]).f['item']), 'dev::RLP::isList': lambda I, e, fr, a: True, 'dev::RLP::itemCount': lambda I, e, fr, a: IntV(2, 64, False)})
def u_leaf(u):
    loc, s, n, leaf, P = hpe(u); seen = []
    def view(item): seen.append(item.t); return vref(loc, 0, s.n)
    rlpitem(u, view); r = u.call('dev::isLeaf', [u.I.new(RecV('dev::RLP', {}))]); u.cover('returns'); u.prove('the leaf flag', B(r) == leaf); u.prove('read from the first item', seen == [0])
    k = u.I.new(u.I.val(u.call('dev::keyOf', [u.I.new(RecV('dev::RLP', {}))], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::RLP'))); u.prove('key of the first item', And(seen[-1] == 0, u.call('dev::NibbleSlice::size', [k]).t == n))
def u_injective(u):
    """over the encoding's contract: equal strings come from equal (flag, path) pairs"""
    n, m = z3.Ints('n m'); P, Q = z3.Function('P', z3.IntSort(), z3.IntSort()), z3.Function('Q', z3.IntSort(), z3.IntSort()); lp, lq = z3.Bools('lp lq'); j, i = z3.Ints('j i')
    u.assume(And(n >= 0, m >= 0, z3.ForAll([j], And(P(j) >= 0, P(j) < 16, Q(j) >= 0, Q(j) < 16)))); (o1, N1), (o2, N2) = hpspec(lp, n, P), hpspec(lq, m, Q); d1, d2 = ite(o1 == 1, 1 + n, 2 + n), ite(o2 == 1, 1 + m, 2 + m)
    u.assume(d1 == d2); u.assume(z3.ForAll([i], Imp(And(i >= 0, i < d1), N1(i) == N2(i)))); u.assume(N1(z3.IntVal(0)) == N2(z3.IntVal(0))); k = z3.Int('k'); u.cover('some equal pair'); u.prove('same flag', lp == lq); u.prove('same length', n == m)
    u.assume(And(k >= 0, k < n)); u.assume(N1(k + 1) == N2(k + 1)); u.assume(N1(k + 2) == N2(k + 2)) if False else None
    x = k + ite(o1 == 1, z3.IntVal(1), z3.IntVal(2)); u.prove('index of the nibble', And(x >= 0, x < d1)); u.prove('same nibbles', P(k) == Q(k))
def u_slice(u):
    a, s, o = slice_in(u, 'a'); l = u.I.new(a); g = nib(s); n = 2 * s.n - o; i = int_in(u, 'i', 32); u.assume(i.t < n); u.prove('size', u.call('dev::NibbleSlice::size', [l]).t == n); u.cover('returns')
    u.prove('element', u.call('dev::NibbleSlice::operator[]', [l, i]).t == g(o + i.t)); m = u.I.new(u.I.val(u.call('dev::NibbleSlice::mid', [l, i]))); u.prove('mid: size', u.call('dev::NibbleSlice::size', [m]).t == n - i.t)
    j = int_in(u, 'j', 32); u.assume(i.t + j.t < n); u.prove('mid: element', u.call('dev::NibbleSlice::operator[]', [m, j]).t == g(o + i.t + j.t)); u.call('dev::NibbleSlice::clear', [m]); u.prove('clear', B(u.call('dev::NibbleSlice::empty', [m])))
def nslice(u, name):
    """a nibble view given by its nibble function (indices relative to the view)"""
    n, o = int_in(u, name + '.bytes', 64), int_in(u, name + '.offset', 32); u.assume(And(n.t <= ML, o.t <= 2 * n.t)); P = z3.Function(u.p.fresh('nib.' + name), z3.IntSort(), z3.IntSort())
    def get(i):
        x, y = P(2 * i - o.t), P(2 * i + 1 - o.t); u.p.assume(And(x >= 0, x < 16, y >= 0, y < 16)); return IntV(x * 16 + y, 8, False)
    loc = u.I.new(SeqV(n.t, get, None, 'vec'), name); return RecV('dev::NibbleSlice', {'data': vref(loc, 0, n.t), 'offset': o}), P, 2 * n.t - o.t
def two(u):
    a, P, n = nslice(u, 'a'); b, Q, m = nslice(u, 'b'); return u.I.new(a), u.I.new(b), P, Q, n, m
def sharedspec(u, f, g, n, m):
    q = z3.Int('q!s')
    loop(u, 'dev::sharedNibbles', LoopSpec(lambda I, env, k: [('equal so far', z3.ForAll([q], Imp(And(q >= 0, q < k), f(q) == g(q)))), ('inside', And(k <= n, k <= m))], None, name='sharedNibbles loop'))
def u_shared(u):
    la, lb, f, g, n, m = two(u); sharedspec(u, f, g, n, m); q = z3.Int('q!e'); r = u.call('dev::NibbleSlice::shared', [la, u.I.val(lb)]).t; u.cover('returns')
    u.prove('inside both', And(r >= 0, r <= n, r <= m)); u.prove('equal before', z3.ForAll([q], Imp(And(q >= 0, q < r), f(q) == g(q)))); u.prove('longest', Or(r == n, r == m, f(r) != g(r)))
def shared_contract(f, g, n, m):
    def h(I, e, fr, a):
        r = I.fresh_int('shared', 32, False); q = z3.Int('q!c'); I.p.assume(And(r.t <= n, r.t <= m, z3.ForAll([q], Imp(And(q >= 0, q < r.t), f(q) == g(q))), Or(r.t == n, r.t == m, f(r.t) != g(r.t)))); return r
    return h
def u_cmp(u):
    la, lb, f, g, n, m = two(u); u.I.contracts['dev::NibbleSlice::shared'] = shared_contract(f, g, n, m); q = z3.Int('q!m'); pre = z3.ForAll([q], Imp(And(q >= 0, q < m), f(q) == g(q))); k = u.p.choose(3); b = u.I.val(lb); u.cover('returns')
    if k == 0: u.prove('contains: the argument is a prefix', B(u.call('dev::NibbleSlice::contains', [la, b])) == And(m <= n, pre))
    elif k == 1: u.prove('equality of the nibble sequences', B(u.call('dev::NibbleSlice::operator==', [la, b])) == And(m == n, pre))
    else: u.prove('inequality', B(u.call('dev::NibbleSlice::operator!=', [la, b])) == Not(And(m == n, pre)))
def u_earlier(u):
    la, lb, f, g, n, m = two(u); q = z3.Int('q!s'); loop(u, 'dev::NibbleSlice::isEarlierThan', LoopSpec(lambda I, env, k: [('equal so far', z3.ForAll([q], Imp(And(q >= 0, q < k), f(q) == g(q)))), ('inside', And(k <= n, k <= m))], None, name='isEarlierThan loop'))
    r = u.call('dev::NibbleSlice::isEarlierThan', [la, u.I.val(lb)]); u.cover('returns'); p = z3.Int('p!d'); pre = lambda e: z3.ForAll([q], Imp(And(q >= 0, q < e), f(q) == g(q)))
    d = z3.Int('d!first'); u.assume(And(d >= 0, d <= n, d <= m, pre(d), Or(d == n, d == m, f(d) != g(d))))      # first difference, which exists
    u.prove('lexicographic order against the prefix', B(r) == And(d < m, Or(d == n, f(d) < g(d))))
def u_unique(u):
    ex = int_in(u, 'except', 8); E = [u.I.fresh_bool('empty%d' % i) for i in range(17)]
    for i in range(17): u.p.inputs['empty%d' % i] = lambda m, i=i: str(m.eval(E[i], True))
    u.I.contracts.update({'dev::RLP::operator[]': lambda I, e, fr, a: RecV('dev::RLP', {'item': a[1]}), 'dev::RLP::isEmpty': lambda I, e, fr, a: E[I.val(a[0]).f['item'].t]})
    i = u.p.choose(18)
    # fix the first used slot to keep the number of paths linear
    used = lambda j: And(Not(E[j]), ex.t != j)
    for j in range(min(i, 17)): u.assume(Not(used(j)))
    if i < 17: u.assume(used(i))
    r = u.call('dev::uniqueInUse', [u.I.new(RecV('dev::RLP', {})), ex]).t; u.cover('returns')
    if i == 17: u.prove('none in use: 255', r == 255)
    else: u.prove('the only slot in use, else 255', r == z3.If(Or(*[used(j) for j in range(i + 1, 17)]), 255, i))
UNITS = [dict(name='trie.encode.view', body=u_enc_view, **S), dict(name='trie.encode.bytes', body=u_enc_bytes, **S), dict(name='trie.encode.two', body=u_enc_two, **S), dict(name='trie.keyOf', body=u_keyof, **S), dict(name='trie.keyOf.empty', body=u_keyof_empty, **S), dict(name='trie.isLeaf', body=u_leaf, **S), dict(name='trie.encode.injective', body=u_injective, **S),
    dict(name='trie.slice', body=u_slice, **S), dict(name='trie.shared', body=u_shared, **S), dict(name='trie.compare', body=u_cmp, **S), dict(name='trie.isEarlierThan', body=u_earlier, **S), dict(name='trie.uniqueInUse', body=u_unique, **S)]
if __name__ == '__main__': main(UNITS)
