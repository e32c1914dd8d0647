from common import *
import econt
from econt import EIterV, SegV
from rangemask import ftype
SRC = os.path.join(VERIF, 'tu/lru.cpp')
And, Or, Not = z3.And, z3.Or, z3.Not
S = dict(src=SRC, want=['dev::*'], mode='int', cfg={'emap': True})
Q = 'dev::LruCache::'
def ui(u, n): return int_in(u, n, 64)
def seg(u, nm):
    has = z3.Function('in_' + nm, z3.IntSort(), z3.BoolSort()); n = z3.Int('len_' + nm); u.assume(n >= 0)
    return SegV(nm, n, lambda k: has(k.t))
def cache(u, items):
    """a well-formed cache of any size: items are opaque runs (SegV) and named entries (key, value), most recent first"""
    cap = ui(u, 'capacity'); u.assume(cap.t >= 1); rq = 'dev::LruCache'
    loc = u.I.new(RecV(rq, {'m_data': None, 'm_index': None, 'm_capacity': cap}), 'cache'); ld = Loc(loc.cell, loc.path + (('f', 'm_data'),))
    d = econt.make(u.I, ftype(u, rq, 'm_data'), [x if isinstance(x, SegV) else econt.pair(*x) for x in items])
    idx = [SegV(p.nm, p.n, p.has) if isinstance(p, SegV) else econt.pair(p.f['first'], EIterV(ld, eid)) for eid, p in d.ents]
    m = econt.make(u.I, ftype(u, rq, 'm_index'), idx)
    u.I.write(loc, RecV(rq, {'m_data': d, 'm_index': m, 'm_capacity': cap}))
    for x in items:
        for y in items:
            if isinstance(x, SegV) and not isinstance(y, SegV): u.assume(Not(x.has(y[0])))
            if not isinstance(x, SegV) and not isinstance(y, SegV) and x is not y: u.assume(x[0].t != y[0].t)
    u.assume(econt.count(d) <= cap.t); return loc
def cases(u, k, want=None):
    """every well-formed cache seen from key k: k absent (cache empty, or a run followed by the oldest entry), or k present"""
    c = u.p.choose(3) if want is None else want
    if c == 0: return [], None
    if c == 1:
        s = seg(u, 'S'); b = (ui(u, 'oldest.key'), ui(u, 'oldest.value')); u.assume(b[0].t != k.t); u.assume(Not(s.has(k))); return [s, b], None
    a, b = seg(u, 'A'), seg(u, 'B'); v = ui(u, 'stored'); u.assume(Not(a.has(k))); u.assume(Not(b.has(k))); return [a, (k, v), b], v
def state(u, loc): v = u.I.read(loc); return v.f['m_data'], v.f['m_index'], v.f['m_capacity'].t
def same(u, ents, want):
    """the entries in order are exactly `want` (runs by name, entries by key and value)"""
    if len(ents) != len(want): return z3.BoolVal(False)
    cs = []
    for (_, p), w in zip(ents, want):
        if isinstance(p, SegV) != isinstance(w, SegV): return z3.BoolVal(False)
        if isinstance(p, SegV): cs.append(z3.BoolVal(p.nm == w.nm))
        else: cs += [p.f['first'].t == w[0].t, p.f['second'].t == w[1].t]
    return And(*cs) if cs else z3.BoolVal(True)
def wf(u, loc, cap0=None):
    d, m, cap = state(u, loc)
    u.prove('never more entries than the capacity', econt.count(d) <= cap)
    u.prove('the index has the same runs as the list', sorted(p.nm for _, p in d.ents if isinstance(p, SegV)) == sorted(p.nm for _, p in m.ents if isinstance(p, SegV)))
    de = {eid: p for eid, p in d.ents if not isinstance(p, SegV)}; me = [p for _, p in m.ents if not isinstance(p, SegV)]
    u.prove('the index has one entry per list entry, referring to it', len(de) == len(me) and sorted(p.f['second'].eid or 0 for p in me) == sorted(de))
    for p in me:
        q = de.get(p.f['second'].eid)
        if q is not None: u.prove('the index entry has the key of its list entry', p.f['first'].t == q.f['first'].t)
    if cap0 is not None: u.prove('capacity unchanged', cap == cap0)
def u_insert(u):
    k, v = ui(u, 'key'), ui(u, 'value'); items, old = cases(u, k); loc = cache(u, items); cap = state(u, loc)[2]
    n0 = econt.count(state(u, loc)[0]); r = u.call(Q + 'insert', [u.I.new(k), u.I.new(v)] if 0 else [loc, u.I.new(k), u.I.new(v)]); u.cover('returns'); wf(u, loc, cap)
    d = state(u, loc)[0].ents
    if old is not None: u.prove('inserting a key that is present makes it the most recent one and moves nothing else', same(u, d, [items[1], items[0], items[2]])); u.prove('size unchanged', r.t == n0)
    else:
        full = n0 == cap; u.prove('not full: the new entry comes first, all others stay in order', Imp(Not(B(full)), same(u, d, [(k, v)] + items))); u.prove('full: only the entry used longest ago is dropped', Imp(B(full), same(u, d, [(k, v)] + items[:-1])))
        u.prove('returns the number of entries', r.t == econt.count(state(u, loc)[0]))
def u_remove(u):
    k = ui(u, 'key'); items, old = cases(u, k); loc = cache(u, items); cap = state(u, loc)[2]; r = u.call(Q + 'remove', [loc, u.I.new(k)]); u.cover('returns'); wf(u, loc, cap)
    d = state(u, loc)[0]; u.prove('exactly the entry of that key is removed', same(u, d.ents, items if old is None else [items[0], items[2]])); u.prove('returns the number of entries', r.t == econt.count(d))
def u_touch(u):
    k = ui(u, 'key'); items, old = cases(u, k); loc = cache(u, items); cap = state(u, loc)[2]; r = u.call(Q + 'touch', [loc, u.I.new(k)]); u.cover('returns'); wf(u, loc, cap)
    u.prove('tells whether the key is present', B(r) == z3.BoolVal(old is not None)); u.prove('a present key becomes the most recent one, nothing else moves', same(u, state(u, loc)[0].ents, items if old is None else [items[1], items[0], items[2]]))
def u_query(u):
    k, w = ui(u, 'key'), ui(u, 'value'); items, old = cases(u, k); loc = cache(u, items); v0 = u.I.read(loc); u.cover('returns')
    u.prove('contains exactly the keys stored', B(u.call(Q + 'contains', [loc, u.I.new(k)], lambda I, f: len(f['params']) == 1)) == z3.BoolVal(old is not None))
    u.prove('contains exactly the pairs stored', B(u.call(Q + 'contains', [loc, u.I.new(k), u.I.new(w)], lambda I, f: len(f['params']) == 2)) == (z3.BoolVal(False) if old is None else old.t == w.t))
    n = econt.count(v0.f['m_data']); u.prove('size', u.call(Q + 'size', [loc]).t == n); u.prove('empty', B(u.call(Q + 'empty', [loc])) == B(n == 0)); u.prove('capacity', u.call(Q + 'capacity', [loc]).t == v0.f['m_capacity'].t)
    u.prove('unchanged', same(u, state(u, loc)[0].ents, items)); wf(u, loc)
    for f in ('cbegin', 'begin'):
        i = u.I.val(u.call(Q + f, [loc])); u.prove(f + ' is the most recent entry', i.eid == (state(u, loc)[0].ents[0][0] if items else None))
    for f in ('cend', 'end'): u.prove(f + ' is the end', u.I.val(u.call(Q + f, [loc])).eid is None)
def u_clear(u):
    k = ui(u, 'key'); items, old = cases(u, k); loc = cache(u, items); cap = state(u, loc)[2]; u.call(Q + 'clear', [loc]); u.cover('returns'); wf(u, loc, cap); u.prove('nothing left', len(state(u, loc)[0].ents) == 0 and len(state(u, loc)[1].ents) == 0)
def u_ctor(u):
    c = ui(u, 'capacity'); o = u.construct(Q + '(ctor)', [c], lambda I, f: len(f['params']) == 1 and u.T[f['params'][0]['t']]['k'] == 'int'); l = u.I.new(u.I.val(o)); u.cover('returns'); d, m, cap = state(u, l); u.prove('starts empty with the capacity given', And(cap == c.t, z3.BoolVal(not d.ents and not m.ents)))
UNITS = [dict(S, name='lru.' + n, body=f) for n, f in [('insert', u_insert), ('remove', u_remove), ('touch', u_touch), ('query', u_query), ('clear', u_clear), ('ctor', u_ctor)]]
if __name__ == '__main__': main(UNITS)
