from common import *
from conv import loop
SRC = os.path.join(VERIF, 'tu/logfilter.cpp')
And, Or, Not, Ex, All = z3.And, z3.Or, z3.Not, z3.Exists, z3.ForAll
INT = z3.IntSort()
H = z3.Function('sha3', INT, INT); C = z3.Function('bloomContains', INT, INT, z3.BoolSort())
LF = 'dev::eth::LogFilter::'
S = dict(src=SRC, want=['dev::eth::LogFilter::*', 'dev::eth::LogEntry::*', 'dev::eth::bloom'], mode='int')
def tv(I, x): return I.val(I.read(x) if isinstance(x, Loc) else x).t
CON = {'dev::sha3': lambda I, e, fr, a: TermV(H(tv(I, a[0])), 'hash20'), 'dev::FixedHash::containsBloom': lambda I, e, fr, a: C(tv(I, a[0]), tv(I, a[1]))}
def vec(u, nm):
    n = z3.Int('len_' + nm); u.assume(n >= 0); u.assume(n < 1 << 40); f = z3.Function(nm, INT, INT); u.p.inputs[nm + '.size'] = lambda m: str(m.eval(n, True))
    return SeqV(n, lambda i: TermV(f(i), 'hash20'), None, 'vec'), n, f
def flt(u):
    a = vec(u, 'addresses'); t = [vec(u, 'topics%d' % i) for i in range(4)]
    l = u.I.new(RecV('dev::eth::LogFilter', {'m_addresses': a[0], 'm_topics': SeqV(4, lambda i: t[i][0], None, 'arr'), 'm_earliest': int_in(u, 'earliest', 32), 'm_latest': int_in(u, 'latest', 32)}), 'filter')
    return l, a, t
def ex(n, p): i = z3.Int('i!x'); return Ex([i], And(0 <= i, i < n, p(i)))
def bloomf(b, a, t): return And(*[Or(n == 0, ex(n, lambda i: C(b, H(f(i))))) for _, n, f in [a] + t])
def term(u, nm): t = z3.Int(nm); u.p.inputs[nm] = lambda m: str(m.eval(t, True)); return t
def is1(s): return lambda I, f: len(f['params']) == 1 and s in I.T[f['params'][0]['t']].get('s', '')
def symbolic_range(spec):
    """loops over a container of unknown length get the contract, the loop over the four positions is unrolled"""
    def f(I, s, fr):
        r = s.get('range')
        if r:
            v = I.read(fr.env[r['c'][0]['id']])
            if isinstance(v, SeqV) and isc(v.n): return None
        elif s.get('k') == 'For': return None
        return spec
    return f
def u_range(u):
    l, a, t = flt(u); r = u.call(LF + 'isRangeFilter', [l]); u.cover('returns'); u.prove('range filter exactly when neither addresses nor topics are given', B(r) == And(a[1] == 0, *[x[1] == 0 for x in t]))
def u_bloom(u):
    l, a, t = flt(u); b = term(u, 'bloom')
    def rng(env, I):
        fr = env.fr; c = [I.read(fr.env[i]) for n, i in fr.names.items() if n.startswith('__range') and i in fr.env]
        return c
    def inv(I, env, k):
        s = env.seq; j = z3.Int('j!inv')
        return [('no alternative seen so far is in the bloom', All([j], Imp(And(0 <= j, j < k), Not(C(b, H(s.get(j).t))))))] if not isc(k) or k else []
    def spec(I, s, fr):
        r = s.get('range')
        if not r: return None
        q = I.read(fr.env[r['c'][0]['id']])
        if isc(q.n): return None
        def inv2(I, env, k): env.seq = q; return inv(I, env, k)
        return LoopSpec(inv2, name='alternatives')
    loop(u, LF + 'matches', spec)
    r = u.call(LF + 'matches', [l, TermV(b, 'hash20')], is1('FixedHash')); u.cover('returns'); u.prove('accepted exactly when every dimension with alternatives has one in the bloom', B(r) == bloomf(b, a, t))
def receipt(u):
    n = z3.Int('len_log'); u.assume(n >= 0); u.assume(n < 1 << 40); A = z3.Function('log.address', INT, INT); N = z3.Function('log.ntopics', INT, INT); T = z3.Function('log.topic', INT, INT, INT); b = term(u, 'bloom')
    k = z3.Int('k!l'); i = z3.Int('i!l'); u.assume(All([k], And(N(k) >= 0, N(k) <= 4)))
    def ent(k): return RecV('dev::eth::LogEntry', {'address': TermV(A(k), 'hash20'), 'topics': SeqV(N(k), lambda i: TermV(T(k, i), 'hash20'), None, 'vec'), 'data': TermV(z3.Function('log.data', INT, INT)(k), 'hash20'), 'c': OpaqueV('counter')})
    u.assume(All([k], Imp(And(0 <= k, k < n), C(b, H(A(k)))))); u.assume(All([k, i], Imp(And(0 <= k, k < n, 0 <= i, i < N(k)), C(b, H(T(k, i))))))
    log = SeqV(n, ent, None, 'vec')
    return u.I.new(RecV('dev::eth::TransactionReceipt', {'m_statusCodeOrStateRoot': OpaqueV('status'), 'm_gasUsed': int_in(u, 'gasUsed', 256), 'm_bloom': TermV(b, 'hash20'), 'm_log': log, 'm_strRevertReason': OpaqueV('s'), 'c': OpaqueV('counter')}), 'receipt'), n, A, N, T, b, ent
def u_match(u):
    l, a, t = flt(u); rc, n, A, N, T, b, ent = receipt(u)
    def match(k): return And(Or(a[1] == 0, ex(a[1], lambda i: a[2](i) == A(k))), *[Or(x[1] == 0, And(N(k) > p, ex(x[1], lambda i: x[2](i) == T(k, p)))) for p, x in enumerate(t)])
    acc = z3.Bool('bloomAccepts'); u.assume(acc == bloomf(b, a, t))
    M = z3.Function('matches', INT, z3.BoolSort()); cnt = z3.Function('matchesBefore', INT, INT); sel = z3.Function('indexOfMatch', INT, INT); k = z3.Int('k!m')
    def axiom(k): u.assume(M(k) == match(k)); u.assume(cnt(k + 1) == cnt(k) + z3.If(M(k), 1, 0)); u.assume(Imp(M(k), sel(cnt(k)) == k)); u.assume(cnt(k) >= 0)
    u.assume(cnt(0) == 0)
    def state(I, env, k):
        kk = z3.IntVal(k) if isc(k) else k
        axiom(kk)
        if not isc(k): axiom(kk - 1)
        return [(env('ret'), SeqV(cnt(kk), lambda i: ent(sel(i)), None, 'vec'))]
    loop(u, LF + 'matches', symbolic_range(LoopSpec(state=state, name='filtering')))
    con = dict(CON); u.I.contracts = con
    con[LF + 'matches'] = (lambda I, e, fr, a: acc)
    r = u.I.val(u.call(LF + 'matches', [l, rc], is1('TransactionReceipt'))); u.cover('returns')
    isr = And(a[1] == 0, *[x[1] == 0 for x in t]); j = z3.Int('someLog'); u.p.inputs['log position'] = lambda m: str(m.eval(j, True))
    # r is the whole log, the empty list, or the subsequence selected
    if r.n is n or (not isc(r.n) and r.n.eq(n)): u.prove('the whole log is returned only when every entry matches', Imp(And(0 <= j, j < n), match(j))); u.prove('entries unchanged', u.I.veq(r, SeqV(n, ent, None, 'vec'), True))
    elif u.p.holds(Not(acc)): u.prove('nothing returned', r.n == 0); u.prove('rejection by the bloom loses no matching entry', Imp(And(0 <= j, j < n), Not(match(j))))
    else:
        if u.I.cfg.get('unroll_bound'): [axiom(z3.IntVal(q)) for q in range(7)]
        u.prove('exactly the matching entries, in order', u.I.veq(r, SeqV(cnt(n), lambda i: ent(sel(i)), None, 'vec'), True))
def u_build(u):
    l, a, t = flt(u); w = u.p.choose(2); x = term(u, 'added'); lx = u.I.new(TermV(x, 'hash20'))
    if w == 0: r = u.I.val(u.call(LF + 'address', [l, lx])); s0 = a; g = u.I.val(l).f['m_addresses']; pr = 'address'
    else:
        p = u.p.choose(5); r = u.I.val(u.call(LF + 'topic', [l, IntV(p if p < 4 else z3.Int('position'), 32, False), lx])) if p < 4 else None
        if p == 4: i = int_in(u, 'position', 32); u.assume(i.t >= 4); u.call(LF + 'topic', [l, i, lx]); v = u.I.val(l); u.prove('a topic position beyond the fourth changes nothing', And(*[u.I.veq(v.f['m_topics'].get(q), t[q][0], True) for q in range(4)])); u.cover('position out of range'); return
        s0 = t[p]; g = u.I.val(l).f['m_topics'].get(p)
        for q in range(4):
            if q != p: u.prove('other positions unchanged', u.I.veq(u.I.val(l).f['m_topics'].get(q), t[q][0], True))
        u.prove('addresses unchanged', u.I.veq(u.I.val(l).f['m_addresses'], a[0], True))
    u.cover('returns'); n, f = s0[1], s0[2]; ing = ex(n, lambda i: f(i) == x); z = z3.Int('z')
    u.prove('added unless it is already an alternative', (g.n if not isc(g.n) else z3.IntVal(g.n)) == z3.If(ing, n, n + 1)); u.prove('earlier alternatives stay', Imp(And(0 <= z, z < n), g.get(z).t == f(z))); u.prove('the new alternative comes last', Imp(Not(ing), g.get(n).t == x))
def assign(I, l, t): I.write(l, TermV(t, 'hash20')); return l
def c_shift(I, e, fr, a):
    l = a[0]; b = tv(I, l); h = tv(I, a[1]); nb = z3.Int(I.p.fresh('bloom')); x = z3.Int('x!b'); I.p.assume(C(nb, h)); I.p.assume(All([x], Imp(C(b, x), C(nb, x)), patterns=[C(nb, x)])); return assign(I, l, nb)
def c_or(I, e, fr, a):
    l = a[0]; b = tv(I, l); c = tv(I, a[1]); nb = z3.Int(I.p.fresh('bloom')); x = z3.Int('x!b'); I.p.assume(All([x], Imp(Or(C(b, x), C(c, x)), C(nb, x)), patterns=[C(nb, x)])); return assign(I, l, nb)
def c_lbloom(I, e, fr, a):
    v = I.val(I.read(a[0]) if isinstance(a[0], Loc) else a[0]); nb = z3.Int(I.p.fresh('logbloom')); i = z3.Int('i!b'); t = v.f['topics']; I.p.assume(C(nb, H(v.f['address'].t))); I.p.assume(All([i], Imp(And(0 <= i, i < t.n), C(nb, H(t.get(i).t))))); return TermV(nb, 'hash20')
BC = dict(CON, **{'dev::vector_ref::(conv)': lambda I, e, fr, a: TermV(tv(I, a[0]), 'hash20'), 'dev::FixedHash::(ctor)': lambda I, e, fr, a: TermV(tv(I, a[0]) if a else z3.Int('emptyHash'), 'hash20'), 'dev::FixedHash::shiftBloom': c_shift, 'dev::FixedHash::operator|=': c_or, 'dev::FixedHash::ref': lambda I, e, fr, a: TermV(tv(I, a[0]), 'hash20')})
def u_lbloom(u):
    t, n, f = vec(u, 'topics'); A = term(u, 'address'); l = u.I.new(RecV('dev::eth::LogEntry', {'address': TermV(A, 'hash20'), 'topics': t, 'data': OpaqueV('data'), 'c': OpaqueV('counter')}), 'entry')
    def inv(I, env, k): j = z3.Int('j!inv'); r = env.v('ret').t; return [('address in the bloom', C(r, H(A)))] + ([('topics so far in the bloom', All([j], Imp(And(0 <= j, j < k), C(r, H(f(j))))))] if not isc(k) or k else [])
    loop(u, 'dev::eth::LogEntry::bloom', LoopSpec(inv, name='topics')); r = u.I.val(u.call('dev::eth::LogEntry::bloom', [l])); u.cover('returns'); i = z3.Int('someTopic'); u.prove('the bloom of an entry contains its address', C(r.t, H(A))); u.prove('the bloom of an entry contains each topic', Imp(And(0 <= i, i < n), C(r.t, H(f(i)))))
def u_ebloom(u):
    rc, n, A, N, T, b, ent = receipt(u); log = u.I.val(rc).f['m_log']; l = u.I.new(log, 'logs')
    def inv(I, env, k):
        j = z3.Int('j!inv'); i = z3.Int('i!inv'); r = env.v('ret').t
        return [('addresses so far in the bloom', All([j], Imp(And(0 <= j, j < k), C(r, H(A(j)))))), ('topics so far in the bloom', All([j, i], Imp(And(0 <= j, j < k, 0 <= i, i < N(j)), C(r, H(T(j, i))))))] if not isc(k) or k else []
    loop(u, 'dev::eth::bloom', LoopSpec(inv, name='entries')); r = u.I.val(u.call('dev::eth::bloom', [l])); u.cover('returns'); j = z3.Int('someLog'); i = z3.Int('someTopic')
    u.prove('the joint bloom contains every address', Imp(And(0 <= j, j < n), C(r.t, H(A(j))))); u.prove('the joint bloom contains every topic', Imp(And(0 <= j, j < n, 0 <= i, i < N(j)), C(r.t, H(T(j, i)))))
UNITS = [dict(S, name='logfilter.entryBloom', body=u_lbloom, cfg={'contracts': BC}), dict(S, name='logfilter.logsBloom', body=u_ebloom, cfg={'contracts': dict(BC, **{'dev::eth::LogEntry::bloom': c_lbloom})})] + [dict(S, name='logfilter.' + n, body=f, cfg={'contracts': dict(CON)}) for n, f in [('isRange', u_range), ('bloom', u_bloom), ('match', u_match), ('build', u_build)]]
if __name__ == '__main__': main(UNITS)
