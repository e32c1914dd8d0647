from common import *
import econt
SRC = os.path.join(VERIF, 'tu/rangemask.cpp')
WANT = ['dev::*']
And, Or, Not = z3.And, z3.Or, z3.Not
S = dict(src=SRC, want=WANT, mode='int')
Q = 'dev::RangeMask::'
U32 = (1 << 32) - 1
def ui(u, name): return int_in(u, name, 32)
def ftype(u, qn, field):
    for r in u.I.tu.records.values():
        if r['qn'] == qn:
            for f in r.get('fields', []):
                if f['n'] == field: return u.T[f['t']]
    raise Unsupported('field type %s::%s' % (qn, field))
def mask(u, name, n):
    """a well-formed mask with n ranges: sorted, disjoint, non-touching, non-empty, inside the ground range"""
    a, b = ui(u, name + '.all.first'), ui(u, name + '.all.second'); u.assume(a.t <= b.t)
    ents = []; last = None
    for i in range(n):
        x, y = ui(u, '%s.%d.first' % (name, i)), ui(u, '%s.%d.second' % (name, i))
        u.assume(x.t < y.t); u.assume(x.t >= a.t if last is None else x.t > last.t); u.assume(y.t <= b.t); last = y
        ents.append(econt.pair(x, y))
    m = econt.make(u.I, ftype(u, 'dev::RangeMask', 'm_ranges'), ents)
    loc = u.I.new(RecV('dev::RangeMask', {'m_all': econt.pair(a, b), 'm_ranges': m}), name)
    return loc, u.I.read(loc)
def rs(v): return [(p.f['first'].t, p.f['second'].t) for _, p in v.f['m_ranges'].ents]
def ground(v): p = v.f['m_all']; return p.f['first'].t, p.f['second'].t
def inn(v, x): return z3.BoolVal(False) if not rs(v) else Or(*[And(a <= x, x < b) for a, b in rs(v)])
def wf(u, v, tag):
    a, b = ground(v); last = None
    for i, (x, y) in enumerate(rs(v)):
        u.prove(tag + ': ranges non-empty', x < y); u.prove(tag + ': ranges sorted and separated, inside the ground range', x >= a if last is None else x > last); u.prove(tag + ': ranges inside the ground range', y <= b); last = y
def elem(u): 
    x = ui(u, 'y'); return x.t
def u_contains(n):
    def f(u):
        l, v = mask(u, 'm', n); x = ui(u, 'x'); r = u.call(Q + 'contains', [l, x]); u.cover('returns'); u.prove('contains exactly the denoted set', B(r) == inn(v, x.t))
        r = u.call(Q + 'empty', [l]); u.prove('empty', B(r) == z3.BoolVal(n == 0)); y = elem(u)
        r = u.call(Q + 'full', [l]); a, b = ground(v)
        u.prove('full: every element of the ground range is in', Imp(And(B(r), a <= y, y < b), inn(v, y))); 
        u.prove('not full: some element of the ground range is missing', Imp(Not(B(r)), And(a < b, Or(Not(inn(v, a)), *[And(Not(inn(v, q)), q < b) for _, q in rs(v)]))))
        u.prove('size', u.call(Q + 'size', [l]).t == sum([q - p for p, q in rs(v)], z3.IntVal(0)))
        u.prove('unchanged', u.I.veq(u.I.read(l), v))
    return f
def u_next(n):
    def f(u):
        l, v = mask(u, 'm', n); x = ui(u, 'x'); r = u.call(Q + 'next', [l, x]).t; u.cover('returns'); a, b = ground(v); y = elem(u)
        u.prove('result is a larger element or the end of the ground range', Or(r == b, And(r > x.t, inn(v, r)))); u.prove('nothing between is in the set', Imp(And(y > x.t, inn(v, y)), y >= r)); u.prove('the end is reported only when no larger element exists', Imp(And(r == b, y > x.t), Not(inn(v, y))))
    return f
def u_bounds(n):
    def f(u):
        l, v = mask(u, 'm', n); a, b = ground(v); y = elem(u); u.cover('returns')
        r = u.call(Q + 'firstOut', [l]).t; u.prove('firstOut is the first missing element, or the end', And(Not(inn(v, r)), Imp(And(a <= y, y < r), inn(v, y)), r >= a, r <= b))
        r = u.call(Q + 'lastIn', [l]).t; u.prove('lastIn is the greatest element, or the start of the ground range', And(Imp(inn(v, y), y <= r), inn(v, r) if n else r == a))
    return f
def u_inv(n):
    def f(u):
        l, v = mask(u, 'm', n); a, b = ground(v); y = elem(u); w = u.call(Q + 'inverted', [l]); w = u.I.val(w); u.cover('returns')
        wf(u, w, 'complement'); u.prove('ground range kept', And(*[p == q for p, q in zip(ground(w), ground(v))])); u.prove('complement relative to the ground range', inn(w, y) == And(a <= y, y < b, Not(inn(v, y)))); u.prove('operand unchanged', u.I.veq(u.I.read(l), v))
        u.call(Q + 'invert', [l]); u.prove('in place', inn(u.I.read(l), y) == inn(w, y))
    return f
def u_union(n):
    def f(u):
        l, v = mask(u, 'm', n); a, b = ground(v); p, q = ui(u, 'p'), ui(u, 'q'); y = elem(u); u.assume(Or(p.t >= q.t, And(a <= p.t, q.t <= b)))
        r = u.call(Q + 'unionWith', [l, u.I.new(econt.pair(p, q))], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'std::pair'); u.cover('returns'); w = u.I.read(l)
        wf(u, w, 'union'); u.prove('ground range kept', And(*[s == t for s, t in zip(ground(w), ground(v))])); u.prove('exactly the union', inn(w, y) == Or(inn(v, y), And(p.t <= y, y < q.t)))
    return f
def u_union1(n):
    def f(u):
        l, v = mask(u, 'm', n); a, b = ground(v); p = ui(u, 'p'); y = elem(u); u.assume(And(a <= p.t, p.t < b))
        op = ['unionWith', 'operator+='][u.p.choose(2)]
        u.call(Q + op, [l, p], lambda I, fn: I._strip(fn['params'][0]['t'])['k'] == 'int'); u.cover('returns'); w = u.I.read(l); wf(u, w, 'union'); u.prove('exactly the element added', inn(w, y) == Or(inn(v, y), y == p.t))
    return f
def u_unionm(n, m):
    def f(u):
        l, v = mask(u, 'm', n); l2, v2 = mask(u, 'k', m); y = elem(u); (a, b), (c, d) = ground(v), ground(v2)
        u.call(Q + 'unionWith', [l, l2], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::RangeMask'); u.cover('returns'); w = u.I.read(l); wf(u, w, 'union'); g, h = ground(w)
        u.prove('union of the ground ranges', And(g == z3.If(a < c, a, c), h == z3.If(b > d, b, d))); u.prove('exactly the union', inn(w, y) == Or(inn(v, y), inn(v2, y))); u.prove('argument unchanged', u.I.veq(u.I.read(l2), v2))
    return f
def u_minus(n, what, m=0):
    def f(u):
        l, v = mask(u, 'm', n); a, b = ground(v); y = elem(u)
        if what == 'int': p = ui(u, 'p'); u.assume(And(a <= p.t, p.t < b)); arg = p; hit = y == p.t; pr = lambda I, fn: I._strip(fn['params'][0]['t'])['k'] == 'int'
        elif what == 'range': p, q = ui(u, 'p'), ui(u, 'q'); u.assume(And(a <= p.t, q.t <= b)); arg = u.I.new(econt.pair(p, q)); hit = And(p.t <= y, y < q.t); pr = lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'std::pair'
        else: arg, v2 = mask(u, 'k', m); hit = inn(v2, y); pr = lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::RangeMask'
        w = u.I.val(u.call(Q + 'operator-', [l, arg], pr)); u.cover('returns'); wf(u, w, 'difference'); u.prove('exactly the difference', inn(w, y) == And(inn(v, y), Not(hit))); u.prove('operand unchanged', u.I.veq(u.I.read(l), v))
    return f
def u_minusself(u):
    l, v = mask(u, 'm', 1); u.call(Q + 'operator-=', [l, l], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::RangeMask'); u.cover('returns'); y = elem(u); u.prove('nothing left', Not(inn(u.I.read(l), y)))
def u_lowest(n):
    def f(u):
        l, v = mask(u, 'm', n); k = ui(u, 'k'); w = u.I.val(u.call(Q + 'lowest', [l, k])); u.cover('returns'); y = elem(u); wf(u, w, 'lowest')
        rank = sum([z3.If(y >= q, q - p, z3.If(y > p, y - p, 0)) for p, q in rs(v)], z3.IntVal(0))
        u.prove('exactly the elements with fewer than k smaller ones', inn(w, y) == And(inn(v, y), rank < k.t))
    return f
EM = {'emap': True, 'unroll': 12}
N = (0, 1, 2, 3)
UNITS = [dict(name='mask.query.%d' % n, body=u_contains(n), cfg=EM, **S) for n in N] + [dict(name='mask.next.%d' % n, body=u_next(n), cfg=EM, **S) for n in N] + [dict(name='mask.bounds.%d' % n, body=u_bounds(n), cfg=EM, **S) for n in N] + \
    [dict(name='mask.inverted.%d' % n, body=u_inv(n), cfg=EM, **S) for n in N] + [dict(name='mask.union.%d' % n, body=u_union(n), cfg=EM, **S) for n in N] + [dict(name='mask.add.%d' % n, body=u_union1(n), cfg=EM, **S) for n in N] + \
    [dict(name='mask.unionMask.%d.%d' % (n, m), body=u_unionm(n, m), cfg=EM, **S) for n, m in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2))] + \
    [dict(name='mask.minus.%s.%d' % (w, n), body=u_minus(n, w), cfg=EM, **S) for w in ('int', 'range') for n in (0, 1, 2)] + [dict(name='mask.minusMask.%d.%d' % (n, m), body=u_minus(n, 'mask', m), cfg=EM, **S) for n, m in ((0, 1), (1, 0), (1, 1), (2, 1))] + \
    [dict(name='mask.minusSelf', body=u_minusself, cfg=EM, **S)] + [dict(name='mask.lowest.%d' % n, body=u_lowest(n), cfg=EM, **S) for n in N]
if __name__ == '__main__': main(UNITS)
