"""explicit containers: std::map/set/unordered_*/multi*/list with a concrete number of entries and symbolic keys and values.
Used by units that state the number of entries they cover (and by functions that build containers from empty)."""
import z3
from core import *
from interp import Interp
from evalx import _RefV
import evalx, models, loops
from models import M, V, L, size, idx, RevV, mapm
class EV:
    __slots__ = ('kind', 'ents', 't', 'cmp')
    def __init__(s, kind, ents, t, cmp=None): s.kind = kind; s.ents = tuple(ents); s.t = t; s.cmp = cmp     # ents: (eid, payload)
    def __repr__(s): return 'EV<%s,%d>' % (s.kind, len(s.ents))
    def w(s, ents): return EV(s.kind, ents, s.t, s.cmp)
    @property
    def ismap(s): return 'map' in s.kind
    @property
    def ordered(s): return not s.kind.startswith('unordered') and s.kind not in ('list', 'vector')
    @property
    def multi(s): return s.kind.startswith('multi')
class SegV:
    """an opaque run of any number of entries: nm identifies it, n is its length, has(key) tells whether a key occurs in it.
    Lookups need to know that the key is not in the run; the entries themselves cannot be reached"""
    __slots__ = ('nm', 'n', 'has', 'mk', 'mkat')
    def __init__(s, nm, n, has, mk=None, mkat=None): s.nm = nm; s.n = n; s.has = has; s.mk = mk; s.mkat = mkat      # mk(I): an arbitrary entry of the run; mkat(I, k): the entry with key k
    def __repr__(s): return 'Seg<%s>' % s.nm
def count(c):
    r = 0
    for _, p in c.ents: r = r + (p.n if isinstance(p, SegV) else 1)
    return r
class EIterV:
    __slots__ = ('loc', 'eid')
    def __init__(s, loc, eid): s.loc = loc; s.eid = eid
evalx.PTRLIKE = evalx.PTRLIKE + (EIterV,)
KINDS = ['map', 'set', 'unordered_map', 'unordered_set', 'multimap', 'multiset', 'list', 'unordered_multimap']
def neweid(I):
    I.p.eid = getattr(I.p, 'eid', 0) + 1; return I.p.eid
def make(I, t, ents=()):
    """t: type record of the container"""
    return EV(t['qn'].split('::')[-1], [(neweid(I), p) for p in ents], t)
def pair(k, v): return RecV('std::pair', {'first': k, 'second': v})
def key(c, p):
    if isinstance(p, SegV): raise Unsupported('key of an opaque run of entries')
    return p.f['first'] if c.ismap else p
def less(I, c, a, b):
    a = V(I, a); b = V(I, b); ar = c.t.get('args', []); ci = 2 if c.ismap else 1
    ct = I.T[ar[ci]['t']] if len(ar) > ci and 't' in ar[ci] else None
    q = ct.get('qn', '') if ct else ''
    if q in ('', 'std::less'): return lt(I, a, b)
    if q == 'std::greater': return lt(I, b, a)
    if q == 'std::function' : return I.call_value(c.cmp, [I.new(a), I.new(b)])
    ks = [k for k in I.tu.byqn.get(q + '::operator()', []) if 'body' in I.tu.funcs[k]]
    if len(ks) != 1: raise Unsupported('comparator ' + q)
    ob = c.cmp if c.cmp is not None else RecV(q, {})
    return I.val(I.call_fn({'key': ks[0], 'qn': q + '::operator()'}, [I.new(ob), I.new(a), I.new(b)]))
def lt(I, a, b):
    if isinstance(a, RecV) and a.qn not in ('std::pair', 'std::tuple'):
        ks = [k for k in I.tu.byqn.get(a.qn + '::operator<', []) if 'body' in I.tu.funcs[k]]
        if len(ks) >= 1: return I.val(I.call_fn({'key': ks[0], 'qn': a.qn + '::operator<'}, [I.new(a), I.new(b)]))
    return I.generic_lt(a, b)
def keq(I, c, a, b):
    a = V(I, a); b = V(I, b)
    simple = True
    if c.ordered:
        ar = c.t.get('args', []); ci = 2 if c.ismap else 1
        ct = I.T[ar[ci]['t']] if len(ar) > ci and 't' in ar[ci] else None
        simple = not ct or ct.get('qn') in ('std::less', 'std::greater')
    if simple: return I.generic_eq(a, b)
    return land(lnot(less(I, c, a, b)), lnot(less(I, c, b, a)))
def ev(I, x):
    v = V(I, x)
    return v if isinstance(v, EV) else None
def find(I, c, k):
    for n, (eid, p) in enumerate(c.ents):
        if isinstance(p, SegV): continue
        if I.p.branch(keq(I, c, key(c, p), k)): return n
    for n, (eid, p) in enumerate(c.ents):
        if isinstance(p, SegV) and not I.p.holds(lnot(p.has(V(I, k)))):
            if p.mkat is None or c.ordered or c.multi: raise Unsupported('lookup may hit an opaque run of entries')
            if I.p.branch(B(p.has(V(I, k)))): return Hit(n, p, V(I, k))
    return None
class Hit:
    """a lookup hit inside an opaque run: the entry is brought to light (the caller splits the run)"""
    __slots__ = ('n', 'p', 'k')
    def __init__(s, n, p, k): s.n = n; s.p = p; s.k = k
def split(I, l, c, h):
    """bring an entry of a run to light: run' entry run''"""
    p = h.p; k = h.k; el = p.mkat(I, k); has = lambda q: land(p.has(q), lnot(I.generic_eq(q, k)))
    a, b = I.fresh_int('run', 64, False).t, I.fresh_int('run', 64, False).t; I.p.assume(a + b + 1 == p.n)
    new = [(neweid(I), SegV(p.nm + "'", a, has, p.mk, p.mkat)), (neweid(I), el), (neweid(I), SegV(p.nm + "''", b, lambda q: False, p.mk, p.mkat))]
    I.write(l, c.w(c.ents[:h.n] + tuple(new) + c.ents[h.n + 1:])); return h.n + 1
def lfind(I, l, c, k):
    """find, bringing entries of opaque runs to light; returns (container, index or None)"""
    n = find(I, c, k)
    if isinstance(n, Hit): n = split(I, L(I, l), c, n); c = I.read(L(I, l))
    return c, n
def lower(I, c, k):
    """index of the first entry not less than k"""
    for n, (eid, p) in enumerate(c.ents):
        if not I.p.branch(less(I, c, key(c, p), k)): return n
    return len(c.ents)
def upper(I, c, k):
    for n, (eid, p) in enumerate(c.ents):
        if I.p.branch(less(I, c, k, key(c, p))): return n
    return len(c.ents)
def it(l, c, n): return EIterV(l, c.ents[n][0] if n is not None and n < len(c.ents) else None)
def pos(I, c, i):
    if i.eid is None: return len(c.ents)
    for n, (eid, p) in enumerate(c.ents):
        if eid == i.eid: return n
    I.p.prove('iterator-still-valid', False); raise PathEnd()
def insert(I, l, c, payload):
    """returns (index, inserted)"""
    k = key(c, payload)
    if c.ordered:
        if c.multi: n = upper(I, c, k)
        else:
            n = lower(I, c, k)
            if n < len(c.ents) and not I.p.branch(less(I, c, k, key(c, c.ents[n][1]))): return n, False
    else:
        if not c.multi and 'multi' not in c.kind:
            c, n = lfind(I, l, c, k)
            if n is not None: return n, False
        n = len(c.ents)
    c2 = c.w(c.ents[:n] + ((neweid(I), payload),) + c.ents[n:]); I.write(l, c2); return n, True
def coerce(I, c, i, v):
    ar = c.t.get('args', [])
    v = V(I, v)
    if isinstance(v, _RefV): v = I.read(v.loc)
    return I.val(I.coerce(v, ar[i]['t'])) if len(ar) > i and 't' in ar[i] else v
def mkpayload(I, c, vs):
    if not c.ismap: return coerce(I, c, 0, vs[0])
    if len(vs) == 1:
        p = V(I, vs[0]); return pair(coerce(I, c, 0, p.f['first']), coerce(I, c, 1, p.f['second']))
    if len(vs) == 3 and isinstance(V(I, vs[0]), OpaqueV): vs = [V(I, vs[1]).f['_0'], V(I, vs[2]).f['_0']]    # piecewise
    return pair(coerce(I, c, 0, vs[0]), coerce(I, c, 1, vs[1]))
def erase_n(I, l, c, n): I.write(l, c.w(c.ents[:n] + c.ents[n + 1:]))
def method(I, name, e, l, c, a):
    l = L(I, l); vs = [V(I, x) for x in a]
    if name in ('size',): return IntV(count(c), 64, False)
    if name == 'empty': n = count(c); return n == 0
    if name == 'clear': I.write(l, c.w(())); return None
    if name in ('begin', 'cbegin'): return it(l, c, 0)
    if name in ('end', 'cend'): return EIterV(l, None)
    if name in ('rbegin', 'crbegin'): return RevV(EIterV(l, None))
    if name in ('rend', 'crend'): return RevV(it(l, c, 0))
    if name == 'swap': models.m_swap(I, e, None, [l, a[0]]); return None
    if name == 'operator=':
        v = vs[0]
        if isinstance(v, EV): I.write(l, EV(c.kind, v.ents, c.t, v.cmp)); return l
        if isinstance(v, SeqV): I.write(l, c.w(())); [insert(I, l, I.read(l), v.get(i)) for i in range(v.n)]; return l
        raise Unsupported('container assignment')
    if name in ('reserve', 'rehash', 'max_load_factor'): return None
    if c.kind in ('list', 'vector'): return listmethod(I, name, e, l, c, a, vs)
    if any(isinstance(p, SegV) for _, p in c.ents) and name in ('count', 'contains', 'find', 'at'):
        c, n = lfind(I, l, c, vs[0])
        if name == 'at':
            if n is None: raise CxxThrow('std::out_of_range')
            return Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second')))
        return it(l, c, n) if name == 'find' else (n is not None) if name == 'contains' else IntV(int(n is not None), 64, False)
    if name in ('count', 'contains'):
        if c.multi:
            lo, hi = lower(I, c, vs[0]), upper(I, c, vs[0]); return IntV(hi - lo, 64, False)
        n = find(I, c, vs[0]); return (n is not None) if name == 'contains' else IntV(int(n is not None), 64, False)
    if name == 'find': return it(l, c, find(I, c, vs[0]))
    if name == 'lower_bound': return it(l, c, lower(I, c, vs[0]))
    if name == 'upper_bound': return it(l, c, upper(I, c, vs[0]))
    if name == 'equal_range': return pair(it(l, c, lower(I, c, vs[0])), it(l, c, upper(I, c, vs[0])))
    if name == 'operator[]':
        n = None
        if not c.ordered: c, n = lfind(I, l, c, vs[0])
        if c.ordered or n is None:
            k = coerce(I, c, 0, vs[0])
            if c.ordered:
                n = lower(I, c, k)
                if not (n < len(c.ents) and not I.p.branch(less(I, c, k, key(c, c.ents[n][1])))): 
                    c = c.w(c.ents[:n] + ((neweid(I), pair(k, I.default(c.t['args'][1]['t']))),) + c.ents[n:]); I.write(l, c)
            else: n, _ = insert(I, l, c, pair(k, I.default(c.t['args'][1]['t']))); c = I.read(l)
        return Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second')))
    if name == 'at':
        n = find(I, c, vs[0])
        if n is None: raise CxxThrow('std::out_of_range')
        return Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second')))
    if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if len(vs) == 2 and isinstance(vs[0], (EIterV, PtrV)) and isinstance(vs[1], (EIterV, PtrV)) and name == 'insert':
            if isinstance(vs[0], EIterV):
                src = I.read(vs[0].loc); ps = [p for _, p in src.ents[pos(I, src, vs[0]):pos(I, src, vs[1])]]
            else:
                s = I.read(vs[0].loc); 
                if not (isc(vs[0].off) and isc(vs[1].off)): raise Unsupported('symbolic range insert')
                ps = [s.get(i) for i in range(vs[0].off, vs[1].off)]
            for p in ps: insert(I, l, I.read(l), p)
            return None
        hint = (name == 'emplace_hint' or name == 'insert') and len(vs) >= 2 and isinstance(vs[0], EIterV)
        if hint: a = a[1:]
        if name == 'insert' and len(a) == 1 and isinstance(vs[-1], SeqV) and vs[-1].kind == 'initlist':
            for i in range(vs[-1].n): insert(I, l, I.read(l), vs[-1].get(i))
            return None
        p = mkpayload(I, c, a); n, new = insert(I, l, c, p); c2 = I.read(l)
        if not new and name == 'insert_or_assign': I.write(Loc(l.cell, l.path + (('e', c2.ents[n][0]), ('f', 'second'))), p.f['second'])
        i = it(l, I.read(l), n)
        return i if c.multi or hint else pair(i, new)
    if name == 'erase':
        v = vs[0]
        if isinstance(v, EIterV):
            n = pos(I, c, v)
            if len(vs) == 2:
                m = pos(I, c, vs[1]); I.p.prove('iterator-range-valid', n <= m); I.write(l, c.w(c.ents[:n] + c.ents[m:])); return it(l, I.read(l), n)
            if n >= len(c.ents): I.p.prove('erase-valid-iterator', False)
            erase_n(I, l, c, n); return it(l, I.read(l), n)
        if c.multi:
            lo, hi = lower(I, c, v), upper(I, c, v); I.write(l, c.w(c.ents[:lo] + c.ents[hi:])); return IntV(hi - lo, 64, False)
        c, n = lfind(I, l, c, v)
        if n is not None: erase_n(I, l, c, n)
        return IntV(int(n is not None), 64, False)
    raise Unsupported('container method %s::%s' % (c.kind, name))
def listmethod(I, name, e, l, c, a, vs):
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        if c.kind == 'vector' and name == 'emplace_back': p = models.construct_by_args(I, c.t['args'][0]['t'], e, a)
        elif len(a) == 2: p = pair(vs[0], vs[1])
        else: p = coerce(I, c, 0, a[0])
        n = (neweid(I), p); I.write(l, c.w(c.ents + (n,) if 'back' in name else (n,) + c.ents)); return Loc(l.cell, l.path + (('e', n[0]),)) if name.startswith('emplace') else None
    if name in ('pop_back', 'pop_front', 'front', 'back'):
        if c.ents and isinstance(c.ents[-1 if 'back' in name else 0][1], SegV): raise Unsupported('end of the list lies in an opaque run')
        if not c.ents: I.p.prove('list-not-empty', False); raise PathEnd()
        if name == 'pop_back': I.write(l, c.w(c.ents[:-1])); return None
        if name == 'pop_front': I.write(l, c.w(c.ents[1:])); return None
        return Loc(l.cell, l.path + (('e', c.ents[0 if name == 'front' else -1][0]),))
    if name == 'erase':
        n = pos(I, c, vs[0])
        if len(vs) == 2: m = pos(I, c, vs[1]); I.write(l, c.w(c.ents[:n] + c.ents[m:])); return it(l, I.read(l), n)
        if n >= len(c.ents): I.p.prove('erase-valid-iterator', False)
        erase_n(I, l, c, n); return it(l, I.read(l), n)
    if name in ('insert', 'emplace'):
        n = pos(I, c, vs[0]); ne = (neweid(I), coerce(I, c, 0, a[1])); I.write(l, c.w(c.ents[:n] + (ne,) + c.ents[n:])); return EIterV(l, ne[0])
    if name == 'splice':
        src = L(I, a[1]); s = I.read(src)
        if len(vs) == 3:
            i = vs[2]; m = pos(I, s, i)
            if m >= len(s.ents): I.p.prove('splice-valid-iterator', False)
            ent = s.ents[m]; same_ = I.sameloc(src, l)
            if same_:
                if vs[0].eid == i.eid: return None
                rest = c.ents[:m] + c.ents[m + 1:]; c2 = c.w(rest); n = pos(I, c2, vs[0]); I.write(l, c.w(rest[:n] + (ent,) + rest[n:]))
            else: I.write(src, s.w(s.ents[:m] + s.ents[m + 1:])); n = pos(I, c, vs[0]); I.write(l, c.w(c.ents[:n] + (ent,) + c.ents[n:]))
            return None
        n = pos(I, c, vs[0]); I.write(src, s.w(())); I.write(l, c.w(c.ents[:n] + s.ents + c.ents[n:])); return None
    raise Unsupported('list method ' + name)
NAMES = ['size', 'empty', 'clear', 'begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend', 'swap', 'operator=', 'reserve', 'rehash', 'count', 'contains', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'operator[]', 'at', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint', 'erase',
         'push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_back', 'pop_front', 'front', 'back', 'splice']
def wrap(qn, name):
    old = M.get(qn)
    def h(I, e, fr, a):
        c = ev(I, a[0])
        if c is not None: return method(I, name, e, a[0], c, a[1:])
        if old is None: raise Unsupported('no model for %s on %r' % (qn, V(I, a[0])))
        return old(I, e, fr, a)
    M[qn] = h
for _n in NAMES: wrap('std::vector::' + _n, _n)      # vectors are explicit only where a unit makes them so
for _k in KINDS:
    for _n in NAMES: wrap('std::%s::%s' % (_k, _n), _n)
    def _mkctor(k, old):
        def h(I, e, fr, a):
            if not I.cfg.get('emap'): 
                if old is None: raise Unsupported('ctor of std::' + k)
                return old(I, e, fr, a)
            t = I.T[e['f']['cls']]; l = I.new(make(I, t)); c = I.read(l)
            vs = [V(I, x) for x in a]
            for v in vs:
                if isinstance(v, EV): return EV(c.kind, v.ents, t, v.cmp)
            if len(vs) == 2 and isinstance(vs[0], (EIterV, PtrV)) and isinstance(vs[1], (EIterV, PtrV)):
                if k == 'list': raise Unsupported('list range ctor')
                method(I, 'insert', e, l, c, a[:2])
            elif vs and isinstance(vs[0], SeqV):
                for i in range(vs[0].n):
                    if k == 'list': I.write(l, I.read(l).w(I.read(l).ents + ((neweid(I), vs[0].get(i)),)))
                    else: insert(I, l, I.read(l), vs[0].get(i))
            elif vs and isinstance(vs[0], RecV) and k != 'list': I.write(l, EV(c.kind, (), t, vs[0]))
            elif vs and isinstance(vs[0], FnV): I.write(l, EV(c.kind, (), t, vs[0]))
            elif vs and not isinstance(vs[0], OpaqueV): raise Unsupported('container ctor %r' % (vs,))
            return I.read(l)
        return h
    M['std::%s::(ctor)' % _k] = _mkctor(_k, M.get('std::%s::(ctor)' % _k))
for _k in ('_Rb_tree_iterator', '_Rb_tree_const_iterator', '_List_iterator', '_List_const_iterator'):
    M['std::%s::(ctor)' % _k] = lambda I, e, fr, a: V(I, a[0]) if a else EIterV(None, None)
for _k in ('_Node_iterator', '_Node_const_iterator'):
    M['std::__detail::%s::(ctor)' % _k] = lambda I, e, fr, a: V(I, a[0]) if a else EIterV(None, None)
# ---- engine hooks
def e_deref(I, i):
    c = I.read(i.loc)
    if i.eid is None: I.p.prove('iterator-not-end', False); raise PathEnd()
    n = pos(I, c, i)
    if n < len(c.ents) and isinstance(c.ents[n][1], SegV): raise Unsupported('access to an opaque run of entries')
    return Loc(i.loc.cell, i.loc.path + (('e', i.eid),))
def e_step(I, i, d):
    c = I.read(i.loc); n = pos(I, c, i) + d
    if not (0 <= n <= len(c.ents)): I.p.prove('iterator-in-range', False); raise PathEnd()
    if isinstance(c.ents[min(n, n - d)][1], SegV): raise Unsupported('step over an opaque run of entries')
    return it(i.loc, c, n)
def e_eq(I, x, y):
    if x.loc is None or y.loc is None: return x.loc is None and y.loc is None
    return x.eid == y.eid
_deref, _incr, _ptradd, _geq, _step, _upd, _defrec = Interp.deref, Interp.incr, Interp.ptradd, Interp.generic_eq, Interp.step, Interp.upd, Interp.default_rec
def deref(I, p):
    if isinstance(p, Loc): p = I.read(p)
    if isinstance(p, EIterV): return e_deref(I, p)
    if isinstance(p, RevV): return I.deref(I.ptradd(p.p, -1))
    return _deref(I, p)
def incr(I, old, d, t=None):
    if isinstance(old, EIterV): return e_step(I, old, d)
    return _incr(I, old, d, t)
def ptradd(I, p, d):
    if isinstance(p, EIterV):
        if not isc(d): raise Unsupported('symbolic iterator step')
        return e_step(I, p, d)
    return _ptradd(I, p, d)
def geq(I, x, y):
    if isinstance(x, EIterV) and isinstance(y, EIterV): return e_eq(I, x, y)
    if isinstance(x, RevV) and isinstance(x.p, EIterV): return e_eq(I, x.p, y.p)
    if isinstance(x, EV) and isinstance(y, EV):
        if len(x.ents) != len(y.ents): return False
        return land(*[_geq(I, a[1], b[1]) for a, b in zip(x.ents, y.ents)])
    return _geq(I, x, y)
def step(I, v, st, x=None):
    if st[0] == 'e':
        for eid, p in v.ents:
            if eid == st[1]: return p
        I.p.prove('element-still-in-container', False); raise PathEnd()
    return _step(I, v, st, x)
def upd(I, v, path, nv):
    if path and path[0][0] == 'e':
        out = [(eid, I.upd(p, path[1:], nv) if eid == path[0][1] else p) for eid, p in v.ents]
        if not any(eid == path[0][1] for eid, _ in v.ents): I.p.prove('element-still-in-container', False); raise PathEnd()
        return v.w(out)
    return _upd(I, v, path, nv)
def default_rec(I, t, ti):
    if I.cfg.get('emap') and t['qn'].startswith('std::') and t['qn'][5:] in KINDS: return make(I, t)
    return _defrec(I, t, ti)
Interp.deref = deref; Interp.incr = incr; Interp.ptradd = ptradd; Interp.generic_eq = geq; Interp.step = step; Interp.upd = upd; Interp.default_rec = default_rec
models.generic_eq = lambda I, x, y: I.generic_eq(x, y)
_dist = M['std::distance']
def m_distance(I, e, fr, a):
    x, y = V(I, a[0]), V(I, a[1])
    if isinstance(x, EIterV): c = I.read(x.loc); return IntV(pos(I, c, y) - pos(I, c, x), 64, True)
    return _dist(I, e, fr, a)
M['std::distance'] = m_distance
M['std::advance'] = lambda I, e, fr, a: I.write(a[0], I.ptradd(V(I, a[0]), idx(I, a[1])))
_vite = Interp.vite
def vite(I, c, a, b):
    if isinstance(c, bool): return _vite(I, c, a, b)
    a = a() if callable(a) else a; b = b() if callable(b) else b
    if isinstance(a, (EV, EIterV)) or isinstance(b, (EV, EIterV)): return a if (a is b) else (a if I.p.branch(c) else b)
    return _vite(I, c, a, b)
Interp.vite = vite
_veq = Interp.veq
def veq(I, a, b, skolem=False):
    if isinstance(a, Loc): a = I.read(a)
    if isinstance(b, Loc): b = I.read(b)
    if isinstance(a, EV) and isinstance(b, EV):
        if len(a.ents) != len(b.ents): return False
        return land(*[I.veq(x[1], y[1], skolem) for x, y in zip(a.ents, b.ents)])
    if isinstance(a, EIterV) and isinstance(b, EIterV): return e_eq(I, a, b)
    return _veq(I, a, b, skolem)
Interp.veq = veq

# ---- range-for over a container with opaque runs: the body, executed for one arbitrary entry of a run, must leave every location
# as it was before the loop (then the whole run does, by induction); entries named by the unit are executed one by one
def rangefor_runs(I, s, fr, rl):
    start = [eid for eid, _ in I.read(rl).ents]; ents = I.read(rl).ents
    I.st(s['begin'], fr); bl = fr.env[s['begin']['c'][0]['id']]
    for eid, p in ents:
        if [x for x, _ in I.read(rl).ents] != start: raise Unsupported('the container changes while it is iterated')
        if not isinstance(p, SegV):
            bl.cell.v = EIterV(rl, eid); I.st(s['var'], fr)
            try: I.body_once(s['body'], fr)
            except BreakE: return
            continue
        if p.mk is None: raise Unsupported('no generator for entries of an opaque run')
        if I.p.choose(2): continue
        I.p.assume(p.n > 0); el = p.mk(I); ne = neweid(I)
        c = I.read(rl); nc = c.w([y for x in c.ents for y in ([(neweid(I), SegV(p.nm + "'", I.fresh_int('run', 64, False).t, p.has)), (ne, el), (neweid(I), SegV(p.nm + "''", I.fresh_int('run', 64, False).t, p.has))] if x[0] == eid else [x])])
        rl.cell.v = I.upd(rl.cell.v, rl.path, nc)
        cells = I.p.cells; cells = dict(cells) if isinstance(cells, dict) else dict(enumerate(cells)); snap = {k: x.v for k, x in cells.items()}; last = I.p.serial
        bl.cell.v = EIterV(rl, ne); tr = loops.Tracker(last); I.p.trackers.append(tr); I.st(s['var'], fr)
        try: I.body_once(s['body'], fr)
        except BreakE: return
        finally: I.p.trackers.remove(tr)
        for (ser, path), _ in tr.found.items():
            c = cells.get(ser)
            if c is None: continue
            now = c.v; new = I.read(Loc(c, path)); c.v = snap[ser]; old = I.read(Loc(c, path)); c.v = now
            if new is old: continue
            eq = I.veq(new, old, True)
            if ser in getattr(I.p, 'ghosts', ()): I.p.prove('entries of other keys leave %s alone' % c.name, eq)
            elif not I.p.holds(eq): raise Unsupported('the loop over a container changes %s' % c.name)
        raise PathEnd()
Interp.rangefor_runs = lambda I, s, fr, rl: rangefor_runs(I, s, fr, rl)

# ---- explicit vectors of records (cfg['evec']: the element types), and boost's node-based multiset
def _evec(I, e):
    t = I.T[e['f']['cls']] if e and 'f' in e and 'cls' in e['f'] else None
    if not t or not I.cfg.get('evec'): return None
    ar = t.get('args', []); at = I._strip(ar[0]['t']) if ar and 't' in ar[0] else {}
    return t if at.get('qn') in I.cfg['evec'] else None
_vctor = M.get('std::vector::(ctor)')
def _vec_ctor(I, e, fr, a):
    t = _evec(I, e)
    if t is None: return _vctor(I, e, fr, a)
    vs = [V(I, x) for x in a]
    if not vs or isinstance(vs[0], OpaqueV): return EV('vector', (), t)
    if isinstance(vs[0], EV): return EV('vector', vs[0].ents, t)
    raise Unsupported('explicit vector from %r' % (vs,))
M['std::vector::(ctor)'] = _vec_ctor
_vidx = M['std::vector::operator[]']
def _vec_index(I, e, fr, a):
    c = ev(I, a[0])
    if c is None: return _vidx(I, e, fr, a)
    i = V(I, a[1]).t
    if not isc(i):
        for n in range(len(c.ents)):
            if I.p.branch(i == n): i = n; break
        else: I.p.prove('index-in-bounds', False); raise PathEnd()
    I.p.prove('index-in-bounds', 0 <= i < len(c.ents))
    if not 0 <= i < len(c.ents): raise PathEnd()
    l = L(I, a[0]); return Loc(l.cell, l.path + (('e', c.ents[i][0]),))
M['std::vector::operator[]'] = _vec_index
def stable_sort(I, l, less_):
    """the result of a stable sort by a strict weak order: each element goes behind the last one it does not precede"""
    c = I.read(l); out = []
    for x in c.ents:
        n = len(out)
        while n and I.p.branch(B(less_(x[1], out[n - 1][1]))): n -= 1
        out.insert(n, x)
    I.write(l, c.w(out))
def node(eid, p): return RecV('Node', {'eid': OpaqueV('node', eid), 'p': p})      # a node taken out of a multiset: the element keeps its identity, so that iterators to it are valid again once it is inserted
M['boost::container::node_handle::value'] = lambda I, e, fr, a: (lambda l: Loc(l.cell, l.path + (('f', 'p'),)))(L(I, a[0]))
M['boost::container::node_handle::(ctor)'] = lambda I, e, fr, a: V(I, a[0])
def ms_place(I, c, k, upper_):
    """where a search ends. The tree may not be ordered at the moment, so only what the search has compared is known: the neighbours"""
    n = I.p.choose(len(c.ents) + 1) if c.ents else 0
    if upper_:
        if n > 0: I.p.assume(lnot(less(I, c, k, c.ents[n - 1][1])))
        if n < len(c.ents): I.p.assume(less(I, c, k, c.ents[n][1]))
    else:
        if n > 0: I.p.assume(less(I, c, c.ents[n - 1][1], k))
        if n < len(c.ents): I.p.assume(lnot(less(I, c, c.ents[n][1], k)))
    return n
def ms(name):
    def h(I, e, fr, a):
        c = ev(I, a[0]); l = L(I, a[0])
        if c is None: raise Unsupported('multiset ' + name)
        vs = [V(I, x) for x in a[1:]]
        if name in ('emplace', 'insert'):
            if isinstance(vs[0], RecV) and vs[0].qn == 'Node': eid, p = vs[0].f['eid'].data, vs[0].f['p']
            else: eid, p = neweid(I), vs[0]
            n = ms_place(I, c, p, True); I.write(l, c.w(c.ents[:n] + ((eid, p),) + c.ents[n:])); return EIterV(l, eid)
        if name == 'extract':
            n = pos(I, c, vs[0])
            if n >= len(c.ents): I.p.prove('extract-valid-iterator', False); raise PathEnd()
            x = c.ents[n]; I.write(l, c.w(c.ents[:n] + c.ents[n + 1:])); return node(*x)
        if name in ('lower_bound', 'upper_bound'): return it(l, c, ms_place(I, c, vs[0], name[0] == 'u'))
        if name == 'erase':
            n = pos(I, c, vs[0])
            if n >= len(c.ents): I.p.prove('erase-valid-iterator', False); raise PathEnd()
            erase_n(I, l, c, n); return it(l, I.read(l), n)
        return method(I, name, e, a[0], c, a[1:])
    return h
for _k in ('boost::container::multiset', 'boost::container::dtl::tree'):
    for _n in ('emplace', 'insert', 'extract', 'lower_bound', 'upper_bound', 'erase', 'size', 'empty', 'clear', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend'): M[_k + '::' + _n] = ms(_n)
_bi = 'boost::container::dtl::iterator_from_iiterator::'
M[_bi + '(ctor)'] = lambda I, e, fr, a: V(I, a[0]) if a else EIterV(None, None)
M[_bi + 'operator*'] = lambda I, e, fr, a: I.deref(V(I, a[0]))
M[_bi + 'operator->'] = lambda I, e, fr, a: V(I, a[0])
M['boost::movelib::reverse_iterator::operator->'] = lambda I, e, fr, a: I.ptradd(V(I, a[0]).p, -1)
M['boost::movelib::reverse_iterator::operator*'] = lambda I, e, fr, a: I.deref(V(I, a[0]))
def _bincr(I, e, fr, a):
    old = V(I, a[0]); I.write(a[0], I.incr(old, 1)); return old if len(a) > 1 else a[0]
def _bdecr(I, e, fr, a):
    old = V(I, a[0]); I.write(a[0], I.incr(old, -1)); return old if len(a) > 1 else a[0]
M[_bi + 'operator++'] = _bincr; M[_bi + 'operator--'] = _bdecr
def _bassign(I, e, fr, a): I.write(a[0], V(I, a[1])); return a[0]
M[_bi + 'operator='] = _bassign
M['boost::container::dtl::operator=='] = lambda I, e, fr, a: e_eq(I, V(I, a[0]), V(I, a[1]))
M['boost::container::dtl::operator!='] = lambda I, e, fr, a: lnot(e_eq(I, V(I, a[0]), V(I, a[1])))
