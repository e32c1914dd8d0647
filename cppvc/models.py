"""Trusted models of the standard library, boost and libc pieces used by the verified code."""
import z3
from core import *
from interp import Interp, _MK
from evalx import _RefV, STD_EXC

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def V(I, x): return I.val(x)
def L(I, x): return x if isinstance(x, Loc) else I.new(x)
def size(I, n): return IntV(n, 64, False) if isc(n) or I.mode == 'bv' else IntV(n, 64, False, 0, (1 << 62))
def idx(I, v):
    v = I.val(v)
    return I.ix(v)

# ---------------------------------------------------------------- sequences
def concat(I, a, b):
    if isc(b.n) and b.n == 0: return a
    if isc(a.n) and a.n == 0: return SeqV(b.n, b.get, a.et if a.et is not None else b.et, a.kind)
    n = I.tadd(a.n, b.n)
    def get(i):
        c = I.tlt(i, a.n) if not (isc(i) and isc(a.n)) else i < a.n
        return I.vite(c, lambda: a.get(i), lambda: b.get(I.tsub(i, a.n)))
    return SeqV(n, get, a.et if a.et is not None else b.et, a.kind)
def slice_(I, a, off, n, kind=None):
    if isc(off) and off == 0: return SeqV(n, a.get, a.et, kind or a.kind)
    return SeqV(n, lambda i: a.get(I.tadd(off, i)), a.et, kind or a.kind)
def fill(I, n, v, et=None, kind='vec'): return SeqV(n, lambda i: v, et, kind)
def single(v, et=None, kind='vec'): return SeqV(1, lambda i: v, et, kind)
def splice(I, dst, off, src, soff, n):
    """dst with n elements from off replaced by src[soff..]"""
    if isc(n) and n == 0: return dst
    def get(i):
        c = land(I.tle(off, i), I.tlt(i, I.tadd(off, n)))
        return I.vite(c, lambda: src.get(I.tadd(soff, I.tsub(i, off))), lambda: dst.get(i))
    return SeqV(dst.n, get, dst.et, dst.kind)
def seq_of_range(I, a, b, kind='vec'):
    """elements between two pointers/iterators"""
    a = V(I, a); b = V(I, b)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): raise Unsupported('range over opaque')
    if isinstance(a, tuple): raise Unsupported('rev range')
    if a.loc is None and b.loc is None: return SeqV(0, lambda i: IntV(0, 8, False), None, kind)
    if a.loc is None or b.loc is None: 
        I.p.prove('iterator-range-valid', land(a.null, b.null) if False else (beq(a.null, b.null))); a = a if a.loc is not None else PtrV(b.loc, 0, a.null); b = b if b.loc is not None else PtrV(a.loc, 0, b.null)
    if a.off is None and b.off is None and I.sameloc(a.loc, b.loc): return SeqV(0, lambda i: None, None, kind)
    if a.off is None: a = PtrV(a.loc, 0, a.null)
    if not I.sameloc(a.loc, b.loc): raise Unsupported('range across objects')
    s = I.read(a.loc)
    if not isinstance(s, SeqV):
        if isc(a.off) and isc(b.off) and a.off == 0 and b.off == 1: return single(s)
        raise Unsupported('range over %r' % (s,))
    I.p.prove('iterator-range-valid', I.tle(a.off, b.off))
    n = I.tsub(b.off, a.off)
    nn = a.null
    if nn is not False:
        n = I.tite(nn, 0, n)
    I.p.prove('iterator-range-in-bounds', land(I.tle(I.tadd(a.off, n), s.n)))
    return slice_(I, s, a.off, n, kind)
def elem_conv(I, s, et):
    """convert element integer type on copy"""
    if et is None: return s
    t = I.T[et]
    if t['k'] in ('int',) :
        old = s
        def get(i):
            v = old.get(i)
            return I.conv(v, t['w'], t['sg']) if isinstance(v, IntV) else v
        return SeqV(s.n, get, et, s.kind)
    return SeqV(s.n, s.get, et, s.kind)
def et_of(I, e):
    t = I._strip(e['f']['cls']) if 'cls' in e.get('f', {}) else I._strip(e['t'])
    a = t.get('args') or []
    return a[0]['t'] if a and 't' in a[0] else None
SEQ = ['std::vector', 'std::basic_string', 'std::array', 'std::deque', 'std::list', 'std::basic_string_view', 'std::initializer_list', 'boost::container::vector']
def seqm(*names):
    return model(*[c + '::' + n for c in SEQ for n in names])
def cstr(I, p):
    """SeqV of a C string pointed to by PtrV (string literal or c_str())"""
    p = V(I, p)
    if isinstance(p, SeqV): return p
    if isinstance(p, OpaqueV): raise Unsupported('c string of opaque')
    s = I.read(p.loc)
    if isc(s.n) and isc(p.off):
        out = []
        for j in range(p.off, s.n):
            v = s.get(j)
            if isc(v.t) and v.t == 0: return I.seq_of(out, s.et, 'str')
            if not isc(v.t): raise Unsupported('symbolic c string')
            out.append(v)
        return I.seq_of(out, s.et, 'str')
    # c_str() of a whole string object: assume no embedded NUL handled by tag
    if s.tag == 'cstr' and isc(p.off) and p.off == 0: return SeqV(s.n, s.get, s.et, 'str')
    if s.kind == 'str' and isc(p.off) and p.off == 0: return SeqV(s.n, s.get, s.et, 'str')
    raise Unsupported('c string')
def strargs(I, args):
    return [a for a in args if not (isinstance(V(I, a), OpaqueV) and V(I, a).name in ('std::allocator', 'noop'))]

@model('std::allocator::(ctor)')
def m_alloc(I, e, fr, a): return OpaqueV('std::allocator')
@seqm('(ctor)')
def m_seq_ctor(I, e, fr, args):
    args = strargs(I, args); et = et_of(I, e); kind = 'str' if 'string' in e['f']['qn'] else ('list' if 'list' in e['f']['qn'] else 'vec')
    zero = lambda: I.default(et) if et is not None else IntV(0, 8, False)
    if not args:
        t = I._strip(e['f']['cls'])
        return I.default(e['f']['cls'])
    vs = [V(I, a) for a in args]
    if kind == 'str' or 'string_view' in e['f']['qn']:
        kind = 'str'
        if len(vs) == 1 and isinstance(vs[0], SeqV): return SeqV(vs[0].n, vs[0].get, et, 'str')
        if len(vs) == 1 and isinstance(vs[0], PtrV):
            s = cstr(I, vs[0]); return SeqV(s.n, s.get, et, 'str')
        if len(vs) == 2 and isinstance(vs[0], IntV): 
            c = I.conv(vs[1], 8, True); return fill(I, I.ix(vs[0]), c, et, 'str')
        if len(vs) == 2 and isinstance(vs[0], PtrV) and isinstance(vs[1], IntV):
            n = I.ix(vs[1]); p = vs[0]
            if p.loc is None: 
                I.p.prove('no-null-dereference', n == 0); return SeqV(0, lambda i: IntV(0, 8, True), et, 'str')
            s = I.read(p.loc); off = p.off or 0 if isc(p.off or 0) else p.off
            I.p.prove('read-in-bounds', I.tle(I.tadd(off, n), s.n))
            return elem_conv(I, slice_(I, s, off, n, 'str'), et)
        if len(vs) == 2 and isinstance(vs[0], PtrV) and isinstance(vs[1], PtrV):
            return elem_conv(I, seq_of_range(I, vs[0], vs[1], 'str'), et)
        if len(vs) in (2, 3) and isinstance(vs[0], SeqV):
            return substr(I, vs[0], vs[1], vs[2] if len(vs) == 3 else None)
        if isinstance(vs[0], OpaqueV): 
            return I.fresh_seq('str', 8, True, et=et, kind='str')
        raise Unsupported('string ctor %r' % (vs,))
    if len(vs) == 1 and isinstance(vs[0], IntV): 
        d = zero(); return fill(I, I.ix(vs[0]), d, et)
    if len(vs) == 1 and isinstance(vs[0], SeqV): return SeqV(vs[0].n, vs[0].get, et, kind)
    if len(vs) == 2 and isinstance(vs[0], IntV): return fill(I, I.ix(vs[0]), I.coerce(vs[1], et), et)
    if len(vs) == 2 and isinstance(vs[0], PtrV): return elem_conv(I, seq_of_range(I, vs[0], vs[1], kind), et)
    if len(vs) == 2 and isinstance(vs[0], SeqV): return SeqV(vs[0].n, vs[0].get, et, kind)
    if isinstance(vs[0], RevV): return elem_conv(I, rev_range(I, vs[0], vs[1]), et)
    raise Unsupported('vector ctor %r' % (vs,))
def substr(I, s, pos, n=None):
    p = I.ix(pos) if isinstance(pos, IntV) else pos
    if I.p.branch(lnot(I.tle(p, s.n))): raise CxxThrow('std::out_of_range')
    rest = I.tsub(s.n, p)
    if n is None: m = rest
    else:
        nn = I.ix(n); m = rest if (isc(nn) and nn >= (1 << 63)) else I.tite(I.tlt(nn, rest) if not (isc(nn) and isc(rest)) else nn < rest, nn, rest)
    return slice_(I, s, p, m, s.kind)
@seqm('size', 'length')
def m_size(I, e, fr, a): return size(I, seqv(I, a[0]).n)
def seqv(I, x):
    v = V(I, x)
    if isinstance(v, SeqV): return v
    raise Unsupported('sequence expected, got %r' % (v,))
@seqm('empty')
def m_empty(I, e, fr, a): return I.teq(seqv(I, a[0]).n, 0)
@seqm('max_size', 'capacity')
def m_maxsize(I, e, fr, a): 
    v = I.fresh_int('capacity', 64, False); return v
@seqm('reserve', 'shrink_to_fit')
def m_reserve(I, e, fr, a): return None
@seqm('clear')
def m_clear(I, e, fr, a):
    v = seqv(I, a[0]); I.write(a[0], SeqV(0, v.get, v.et, v.kind)); return None
@seqm('data', 'begin', 'cbegin', 'c_str')
def m_data(I, e, fr, a):
    l = L(I, a[0])
    if e['f']['qn'].endswith('c_str') : return PtrV(l, 0)
    return PtrV(l, 0)
@seqm('end', 'cend')
def m_end(I, e, fr, a): l = L(I, a[0]); return PtrV(l, seqv(I, l).n)
@model('std::begin', 'std::cbegin')
def m_sbegin(I, e, fr, a): return PtrV(L(I, a[0]), 0)
@model('std::end', 'std::cend')
def m_send(I, e, fr, a): l = L(I, a[0]); return PtrV(l, seqv(I, l).n)
import evalx
class RevV:
    """reverse iterator: base pointer"""
    def __init__(s, p): s.p = p
evalx.PTRLIKE = evalx.PTRLIKE + (RevV,)
@seqm('rbegin', 'crbegin')
def m_rbegin(I, e, fr, a): l = L(I, a[0]); return RevV(PtrV(l, seqv(I, l).n))
@seqm('rend', 'crend')
def m_rend(I, e, fr, a): return RevV(PtrV(L(I, a[0]), 0))
@model('std::reverse_iterator::(ctor)')
def m_revctor(I, e, fr, a):
    v = V(I, a[0]); return v if isinstance(v, RevV) else RevV(v)
def rev_range(I, a, b):
    s = I.read(a.p.loc); n = I.tsub(a.p.off, b.p.off); off = a.p.off
    I.p.prove('iterator-range-valid', I.tle(b.p.off, a.p.off))
    return SeqV(n, lambda i: s.get(I.tsub(I.tsub(off, 1), i)), s.et, s.kind)
@seqm('operator[]')
def m_at(I, e, fr, a): 
    l = L(I, a[0]); i = idx(I, a[1]); s = seqv(I, l)
    if s.kind == 'str':     # operator[](size()) reads the terminating NUL
        if isc(i) and isc(s.n):
            if i == s.n: return I.new(IntV(0, 8, True))
        elif isc(i) and I.mode == 'int' and not I.p.holds(s.n > i) and I.p.branch(s.n == i): return I.new(IntV(0, 8, True))
    return I.seqat(l, i)
@seqm('at')
def m_atx(I, e, fr, a):
    l = L(I, a[0]); i = idx(I, a[1]); s = seqv(I, l)
    if not I.p.branch(I.inrange(i, s.n)): raise CxxThrow('std::out_of_range')
    return l.i(i)
@seqm('front')
def m_front(I, e, fr, a): return I.seqat(L(I, a[0]), 0)
@seqm('back')
def m_back(I, e, fr, a):
    l = L(I, a[0]); s = seqv(I, l); I.p.prove('nonempty-for-back', lnot(I.teq(s.n, 0))); return l.i(I.tsub(s.n, 1))
def construct_by_args(I, ti, e, a):
    """T(args...) as done inside emplace: overload resolution by the (reference and const stripped) types of the forwarded arguments"""
    t = I.T[ti]; strip = lambda i: (lambda x: I.T[x['to']] if x['k'] == 'ref' else x)(I.T[i])
    def nm(i):
        s = strip(i).get('s', ''); s = s.replace('&', '').strip()
        return s[6:] if s.startswith('const ') else s
    at = [nm(x['t']) for x in e['f']['ta'][0]['p']] if e and e['f'].get('ta') else None
    if at is None or len(at) != len(a): raise Unsupported('emplace: argument types')
    if len(a) == 1 and at[0] == nm(ti): return I.val(I.coerce(V(I, a[0]), ti))
    if t['k'] != 'rec' or I.as_bigint(t) or t['qn'] == 'dev::FixedHash': return I.val(I.coerce(V(I, a[0]), ti))
    def fits(p, x, v):
        q = nm(p); pt = strip(p)
        if q == x: return 2
        if I.as_bigint(pt) and isinstance(v, IntV) and x.startswith('enum ') is False: return 1
        if pt['k'] == 'int' and isinstance(v, IntV): return 1
        return 0
    best = []
    for k in I.tu.byqn.get(t['qn'] + '::(ctor)', []):
        fn = I.tu.funcs[k]
        if 'body' not in fn: continue
        ps = fn['params']
        if len(ps) < len(a) or any('def' not in p for p in ps[len(a):]): continue
        sc = [fits(p['t'], x, V(I, v)) for p, x, v in zip(ps, at, a)]
        if all(sc): best.append((sum(sc), k))
    best.sort(reverse=True)
    if not best or (len(best) > 1 and best[0][0] == best[1][0]): raise Unsupported('emplace: %d constructors of %s fit %s' % (len(best), t['qn'], at))
    fn = I.tu.funcs[best[0][1]]; ps = fn['params']; args = []
    for p, v in zip(ps, a):
        pt = strip(p['t']); b = I.as_bigint(pt); v = V(I, v)
        args.append(I.new(I.conv(v, *b) if b and isinstance(v, IntV) else I.coerce(v, p['t'])))
    for p in ps[len(a):]: args.append(I.new(I.val(I.ev(p['def'], I.callstack[-1]))))
    h = (getattr(I, 'contracts', None) or {}).get(t['qn'] + '::(ctor)')
    if h: return I.val(h(I, e, None, args))
    return I.run_ctor({'key': best[0][1], 'qn': t['qn'] + '::(ctor)'}, fn, t, ti, args)
@seqm('push_back', 'emplace_back', 'operator+=', 'append')
def m_push(I, e, fr, a):
    l = a[0]; s = seqv(I, l); name = e['f']['qn'].rsplit('::', 1)[1]
    if name in ('operator+=', 'append'):
        vs = [V(I, x) for x in a[1:]]
        if len(vs) == 1 and isinstance(vs[0], SeqV): o = vs[0]
        elif len(vs) == 1 and isinstance(vs[0], IntV): o = single(I.conv(vs[0], 8, True))
        elif len(vs) == 1 and isinstance(vs[0], PtrV): o = cstr(I, vs[0])
        elif len(vs) == 2 and isinstance(vs[0], PtrV) and isinstance(vs[1], PtrV): o = seq_of_range(I, *vs)
        elif len(vs) == 2 and isinstance(vs[0], PtrV) and isinstance(vs[1], IntV): o = seq_of_range(I, vs[0], PtrV(vs[0].loc, I.tadd(vs[0].off, I.ix(vs[1]))))
        elif len(vs) == 2 and isinstance(vs[0], IntV): o = fill(I, I.ix(vs[0]), I.conv(vs[1], 8, True))
        else: raise Unsupported('append')
        I.write(l, concat(I, s, elem_conv(I, o, s.et))); return l
    if len(a) == 2:
        v = V(I, a[1])
        if s.et is not None: v = I.coerce(v, s.et)
    elif s.et is not None and I.T[s.et].get('qn') == 'std::pair': v = RecV('std::pair', {'first': V(I, a[1]), 'second': V(I, a[2])})
    elif s.et is not None and len(a) == 3 and I.T[s.et].get('qn') in ('std::__cxx11::basic_string', 'std::basic_string', 'std::vector') and all(isinstance(V(I, x), PtrV) for x in a[1:]):
        ie = I.T[s.et]['args'][0]['t']; r = seq_of_range(I, V(I, a[1]), V(I, a[2])); r = elem_conv(I, r, ie); v = SeqV(r.n, r.get, ie, 'str' if 'string' in I.T[s.et]['qn'] else 'vec')
    else: raise Unsupported('emplace_back')
    I.write(l, concat(I, s, single(v))); 
    if name == 'emplace_back': return l.i(s.n)
    return None
@seqm('push_front', 'emplace_front')
def m_pushf(I, e, fr, a):
    l = a[0]; s = seqv(I, l); v = V(I, a[1])
    I.write(l, SeqV(I.tadd(s.n, 1), concat(I, single(v), s).get, s.et, s.kind)); return None
@seqm('pop_back')
def m_pop(I, e, fr, a):
    s = seqv(I, a[0]); I.p.prove('nonempty-for-pop_back', lnot(I.teq(s.n, 0))); I.write(a[0], SeqV(I.tsub(s.n, 1), s.get, s.et, s.kind))
@seqm('pop_front')
def m_popf(I, e, fr, a):
    s = seqv(I, a[0]); I.p.prove('nonempty-for-pop_front', lnot(I.teq(s.n, 0))); I.write(a[0], slice_(I, s, 1, I.tsub(s.n, 1)))
@seqm('resize')
def m_resize(I, e, fr, a):
    l = a[0]; s = seqv(I, l); n = idx(I, a[1])
    d = V(I, a[2]) if len(a) > 2 else (I.default(s.et) if s.et is not None else IntV(0, 8, False))
    if s.et is not None: d = I.coerce(d, s.et)
    old = s
    def get(i): return I.vite(I.tlt(i, old.n) if not (isc(i) and isc(old.n)) else i < old.n, lambda: old.get(i), lambda: d)
    I.write(l, SeqV(n, get, s.et, s.kind))
@seqm('assign')
def m_assign(I, e, fr, a):
    l = a[0]; s = seqv(I, l); vs = [V(I, x) for x in a[1:]]
    if len(vs) == 2 and isinstance(vs[0], PtrV) and isinstance(vs[1], PtrV): o = seq_of_range(I, *vs)
    elif len(vs) == 2 and isinstance(vs[0], IntV): o = fill(I, I.ix(vs[0]), vs[1])
    elif len(vs) == 1 and isinstance(vs[0], SeqV): o = vs[0]
    else: raise Unsupported('assign')
    o = elem_conv(I, o, s.et); I.write(l, SeqV(o.n, o.get, s.et, s.kind)); return l
@seqm('swap')
def m_swapm(I, e, fr, a):
    x, y = V(I, a[0]), V(I, a[1]); I.write(a[0], y); I.write(a[1], x)
@seqm('fill')
def m_fillm(I, e, fr, a):
    s = seqv(I, a[0]); v = V(I, a[1]); v = I.coerce(v, s.et) if s.et is not None else v; I.write(a[0], SeqV(s.n, lambda i: v, s.et, s.kind))
@seqm('insert')
def m_insert(I, e, fr, a):
    l = a[0]; s = seqv(I, l); pos = V(I, a[1]); vs = [V(I, x) for x in a[2:]]
    if isinstance(pos, IntV): p = I.ix(pos)
    else: p = pos.off
    if len(vs) == 1 and isinstance(vs[0], SeqV) and not (s.et is not None and I.T[s.et]['k'] == 'rec'): o = vs[0]
    elif len(vs) == 1: o = single(I.coerce(vs[0], s.et) if s.et is not None else vs[0])
    elif len(vs) == 2 and isinstance(vs[0], PtrV): o = seq_of_range(I, *vs)
    elif len(vs) == 2 and isinstance(vs[0], IntV): o = fill(I, I.ix(vs[0]), I.coerce(vs[1], s.et))
    else: raise Unsupported('insert')
    I.p.prove('insert-position-in-bounds', I.tle(p, s.n))
    o = elem_conv(I, o, s.et)
    if same(p, s.n): r = concat(I, s, o)
    else: r = concat(I, concat(I, slice_(I, s, 0, p), o), slice_(I, s, p, I.tsub(s.n, p)))
    I.write(l, SeqV(r.n, r.get, s.et, s.kind)); return PtrV(l, p)
@seqm('emplace')
def m_seqemplace(I, e, fr, a):
    if len(a) != 3: raise Unsupported('emplace with several arguments')
    return m_insert(I, e, fr, a)
@seqm('erase')
def m_erase(I, e, fr, a):
    l = a[0]; s = seqv(I, l); vs = [V(I, x) for x in a[1:]]
    if isinstance(vs[0], IntV):
        p = I.ix(vs[0]); n = I.ix(vs[1]) if len(vs) > 1 else (1 << 64) - 1
        if I.p.branch(lnot(I.tle(p, s.n))): raise CxxThrow('std::out_of_range')
        rest = I.tsub(s.n, p); n = rest if isc(n) and n >= 1 << 63 else I.tite(I.tlt(n, rest), n, rest); q = I.tadd(p, n)
    else:
        p = vs[0].off; q = vs[1].off if len(vs) > 1 else I.tadd(p, 1)
        I.p.prove('erase-range-in-bounds', land(I.tle(p, q), I.tle(q, s.n)))
    r = concat(I, slice_(I, s, 0, p), slice_(I, s, q, I.tsub(s.n, q)))
    I.write(l, SeqV(r.n, r.get, s.et, s.kind)); return PtrV(l, p) if not isinstance(vs[0], IntV) else l
@model('std::basic_string::substr', 'std::basic_string_view::substr')
def m_substr(I, e, fr, a): return substr(I, seqv(I, a[0]), V(I, a[1]) if len(a) > 1 else IntV(0, 64, False), V(I, a[2]) if len(a) > 2 else None)
@model('std::basic_string::replace')
def m_replace(I, e, fr, a):
    l = a[0]; s = seqv(I, l); vs = [V(I, x) for x in a[1:]]
    if not (len(vs) == 3 and isinstance(vs[0], IntV) and isinstance(vs[1], IntV)): raise Unsupported('string::replace form')
    p = I.ix(vs[0]); n = I.ix(vs[1]); o = vs[2] if isinstance(vs[2], SeqV) else cstr(I, vs[2])
    if I.p.branch(lnot(I.tle(p, s.n))): raise CxxThrow('std::out_of_range')
    rest = I.tsub(s.n, p); n = (n if n <= rest else rest) if isc(n) and isc(rest) else I.tite(I.tlt(n, rest), n, rest)
    if isc(p) and p == 0 and same(n, o.n): r = splice(I, s, 0, o, 0, n)
    else: r = concat(I, concat(I, slice_(I, s, 0, p), o), slice_(I, s, I.tadd(p, n), I.tsub(rest, n)))
    I.write(l, SeqV(r.n, r.get, s.et, s.kind)); return l
@model('std::basic_string::compare')
def m_compare(I, e, fr, a):
    if len(a) == 2:
        x = seqv(I, a[0]); y = V(I, a[1]); y = y if isinstance(y, SeqV) else cstr(I, y)
        c = I.fresh_int('cmp', 32, True); I.p.assume(beq(I.icmp('==', c, IntV(0, 32, True)), I.seqeq(x, y))); return c
    if len(a) == 4:
        x = substr(I, seqv(I, a[0]), V(I, a[1]), V(I, a[2])); y = V(I, a[3]); y = y if isinstance(y, SeqV) else cstr(I, y)
        c = I.fresh_int('cmp', 32, True); I.p.assume(beq(I.icmp('==', c, IntV(0, 32, True)), I.seqeq(x, y))); return c
    raise Unsupported('compare')
def seqeq(I, x, y):
    """boolean term for sequence equality usable in both polarities"""
    if isc(x.n) and isc(y.n) and x.n != y.n: return False
    n = x.n if isc(x.n) else (y.n if isc(y.n) else None)
    if n is not None and n <= 64: return land(I.teq(x.n, y.n), *[I.veq(x.get(i), y.get(i)) for i in range(n)])
    le = I.teq(x.n, y.n)
    # decide by branching: equal => quantified fact; different => witness
    eq = z3.Bool(I.p.fresh('seqeq'))
    w = I.fresh_idx('w'); j = I.fresh_idx('j')
    ex = I.veq(x.get(j), y.get(j))
    I.p.assume(z3.Implies(eq, z3.And(B(le), z3.ForAll([j], z3.Implies(B(I.inrange(j, x.n)), B(ex))))))
    I.p.assume(z3.Implies(z3.Not(eq), z3.Or(z3.Not(B(le)), B(land(I.inrange(w, x.n), lnot(I.veq(x.get(w), y.get(w))))))))
    return eq
Interp.seqeq = seqeq
Interp.concat = concat; Interp.slice_ = slice_; Interp.fill_ = fill
@model('std::basic_string::find', 'std::basic_string::find_first_of', 'std::basic_string::rfind', 'std::basic_string::find_last_of', 'std::basic_string::find_first_not_of')
def m_sfind(I, e, fr, a):
    s = seqv(I, a[0]); 
    o = V(I, a[1]); o = o if isinstance(o, (SeqV, IntV)) else cstr(I, o); name = e['f']['qn'].rsplit('::', 1)[1]
    if isc(s.n) and isinstance(o, IntV) or (isinstance(o, SeqV) and isc(o.n) and isc(s.n)):
        if isinstance(o, IntV): o = single(o)
        vals = [s.get(i) for i in range(s.n)]; pat = [o.get(i) for i in range(o.n)]
        if name == 'find':
            st = V(I, a[2]).t if len(a) > 2 else 0
            for i in range(st, s.n - o.n + 1):
                if I.p.branch(land(*[I.veq(vals[i + j], pat[j]) for j in range(o.n)])): return IntV(i, 64, False)
            return IntV((1 << 64) - 1, 64, False)
        if name == 'rfind':
            for i in range(s.n - o.n, -1, -1):
                if I.p.branch(land(*[I.veq(vals[i + j], pat[j]) for j in range(o.n)])): return IntV(i, 64, False)
            return IntV((1 << 64) - 1, 64, False)
    if name in ('find_first_not_of', 'find_first_of') and len(a) == 2 and I.mode == 'int':
        if isinstance(o, IntV): o = single(o)
        if isc(o.n) and o.n <= 64:
            hit = lambda i: lor(*[I.veq(s.get(i), o.get(j)) for j in range(o.n)])
            good = (lambda i: lnot(hit(i))) if name == 'find_first_not_of' else hit
            q = z3.Int(I.p.fresh('q')); r = I.fresh_idx('found')
            if I.p.branch(z3.Exists([q], z3.And(q >= 0, q < s.n, B(good(q))))):
                I.p.assume(z3.And(r >= 0, r < s.n, B(good(r)))); I.p.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < r), B(lnot(good(q)))))); return IntV(r, 64, False)
            return IntV((1 << 64) - 1, 64, False)
    h = I.cfg.get('sfind')
    if h: return h(I, e, fr, a)
    raise Unsupported('string::' + name)
# ------------------------------------------------ comparison operators etc. on library values
def generic_eq(I, x, y):
    if isinstance(x, PtrV) and isinstance(y, SeqV): x = cstr(I, x)
    if isinstance(y, PtrV) and isinstance(x, SeqV): y = cstr(I, y)
    if isinstance(x, SeqV) and isinstance(y, SeqV): return seqeq(I, x, y)
    if isinstance(x, (PtrV, FnV)) or isinstance(y, (PtrV, FnV)): return I.ptrcmp('==', x, y)
    if isinstance(x, MIterV): return miter_eq(I, x, y)
    if isinstance(x, RevV): return I.ptreq(x.p, y.p)
    if isinstance(x, OptV) and not isinstance(y, OptV): return land(x.has, I.veq(x.v, y)) if x.v is not None else False
    if isinstance(x, RecV) and x.qn in ('std::pair', 'std::tuple'): return land(*[generic_eq(I, x.f[k], y.f[k]) for k in x.f])
    if isinstance(x, MapV): raise Unsupported('map equality')
    if isinstance(x, IntV) and isinstance(y, IntV):
        if I.mode == 'bv' and x.w != y.w: W = max(x.w, y.w); return I.icmp('==', I.conv(x, W, x.s), I.conv(y, W, y.s))
    return I.veq(x, y)
Interp.generic_eq = generic_eq
@model('std::operator==', '__gnu_cxx::operator==')
def m_eq(I, e, fr, a): return generic_eq(I, V(I, a[0]), V(I, a[1]))
@model('std::operator!=', '__gnu_cxx::operator!=')
def m_ne(I, e, fr, a): return lnot(generic_eq(I, V(I, a[0]), V(I, a[1])))
def generic_lt(I, x, y):
    if isinstance(x, IntV): return I.icmp('<', x, y) if x.w == y.w or I.mode == 'int' else I.icmp('<', I.conv(x, max(x.w, y.w), x.s), I.conv(y, max(x.w, y.w), y.s))
    if isinstance(x, TermV): return x.t < y.t
    if isinstance(x, PtrV): return I.ptrcmp('<', x, y)
    if isinstance(x, RecV) and x.qn == 'std::pair':
        return lor(generic_lt(I, x.f['first'], y.f['first']), land(lnot(generic_lt(I, y.f['first'], x.f['first'])), generic_lt(I, x.f['second'], y.f['second'])))
    if isinstance(x, RecV) and x.qn == 'std::tuple':
        r = False
        for k in reversed(list(x.f)): r = lor(generic_lt(I, x.f[k], y.f[k]), land(generic_eq(I, x.f[k], y.f[k]), r))
        return r
    if isinstance(x, SeqV) and isinstance(y, SeqV) and isc(x.n) and isc(y.n):
        r = x.n < y.n
        for i in reversed(range(min(x.n, y.n))): r = lor(generic_lt(I, x.get(i), y.get(i)), land(generic_eq(I, x.get(i), y.get(i)), r))
        return r
    raise Unsupported('operator< on %r' % (x,))
Interp.generic_lt = generic_lt
@model('std::operator<', '__gnu_cxx::operator<')
def m_lt(I, e, fr, a): return generic_lt(I, V(I, a[0]), V(I, a[1]))
@model('std::operator>', '__gnu_cxx::operator>')
def m_gt(I, e, fr, a): return generic_lt(I, V(I, a[1]), V(I, a[0]))
@model('std::operator<=', '__gnu_cxx::operator<=')
def m_le(I, e, fr, a): return lnot(generic_lt(I, V(I, a[1]), V(I, a[0])))
@model('std::operator>=', '__gnu_cxx::operator>=')
def m_ge(I, e, fr, a): return lnot(generic_lt(I, V(I, a[0]), V(I, a[1])))
@model('std::operator-', '__gnu_cxx::operator-')
def m_itdiff(I, e, fr, a): return I.binop('-', V(I, a[0]), V(I, a[1]), {'k': 'int', 'w': 64, 'sg': True})
@model('std::operator+')
def m_splus(I, e, fr, a):
    x, y = V(I, a[0]), V(I, a[1])
    def s(v):
        if isinstance(v, IntV): return single(I.conv(v, 8, True), None, 'str')
        return v if isinstance(v, SeqV) else cstr(I, v)
    if isinstance(x, OpaqueV) or isinstance(y, OpaqueV): return I.fresh_seq('str', 8, True, kind='str')
    if isinstance(x, PtrV) and isinstance(y, IntV): return I.ptradd(x, I.ix(y))
    et = x.et if isinstance(x, SeqV) else (y.et if isinstance(y, SeqV) else None)
    r = concat(I, s(x), s(y)); return SeqV(r.n, r.get, et, 'str')
@model('std::operator&', 'std::operator|', 'std::operator^')
def m_enumop(I, e, fr, a): return OpaqueV('enum')
# ------------------------------------------------ utilities
@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof_', 'std::move_if_noexcept', 'boost::move', 'std::launder')
def m_move(I, e, fr, a): return a[0]
@model('std::addressof')
def m_addr(I, e, fr, a): l = L(I, a[0]); return PtrV(l)
@model('std::swap', 'std::iter_swap')
def m_swap(I, e, fr, a):
    x, y = V(I, a[0]), V(I, a[1]); I.write(a[0], y); I.write(a[1], x)
@model('std::exchange')
def m_exch(I, e, fr, a):
    x = V(I, a[0]); I.write(a[0], V(I, a[1])); return x
def minmax(I, a, want_min):
    x, y = V(I, a[0]), V(I, a[1])
    # std::min(a,b): b<a ? b : a ; std::max(a,b): a<b ? b : a
    c = generic_lt(I, y, x) if want_min else generic_lt(I, x, y)
    if isc(c): return a[1] if c else a[0]
    if isinstance(x, IntV) and isinstance(y, IntV):
        r = I.vite(c, y, x)
        lo = hi = None
        if want_min:
            if x.lo is not None and y.lo is not None: lo = min(x.lo, y.lo)
            hs = [h for h in (x.hi, y.hi) if h is not None]; hi = min(hs) if hs else None
        else:
            if x.hi is not None and y.hi is not None: hi = max(x.hi, y.hi)
            ls = [h for h in (x.lo, y.lo) if h is not None]; lo = max(ls) if ls else None
        return IntV(r.t, r.w, r.s, lo, hi)
    return a[1] if I.p.branch(c) else a[0]
@model('std::min')
def m_min(I, e, fr, a): return minmax(I, a, True)
@model('std::max')
def m_max(I, e, fr, a): return minmax(I, a, False)
@model('std::abs', 'abs', 'llabs')
def m_abs(I, e, fr, a):
    v = V(I, a[0])
    if I.p.branch(I.icmp('<', v, IntV(0, v.w, v.s))): return I.ibin('-', IntV(0, v.w, v.s), v, v.w, v.s)
    return v
@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def m_lim(I, e, fr, a):
    t = I._strip(e['t']); name = e['f']['qn'].rsplit('::', 1)[1]
    iv = (t['w'], t['sg']) if t['k'] == 'int' else I.as_bigint(t)
    lo, hi = trange(*iv)
    return IntV(hi if name == 'max' else lo, *iv)
@model('__builtin_expect')
def m_expect(I, e, fr, a): return a[0]
@model('__assert_fail', 'abort', 'std::abort', 'std::terminate', '__builtin_unreachable', 'exit', '_exit')
def m_abort(I, e, fr, a):
    I.p.prove('no-abort(%s)' % e['f']['qn'], False); raise PathEnd()
@model('boost::throw_exception', 'boost::throw_exception_')
def m_bthrow(I, e, fr, a):
    t = I._strip(e['c'][0]['t']); raise CxxThrow(I.excname(t), V(I, a[0]))
@model('boost::source_location::(ctor)', 'boost::error_info::(ctor)', 'boost::exception::(ctor)', 'std::exception::(ctor)', 'boost::tuples::tuple::(ctor)', 'std::basic_stringstream::(ctor)', 'std::basic_ostringstream::(ctor)', 'boost::format', 'boost::tuples::make_tuple')
def m_opq(I, e, fr, a): return OpaqueV(e['f']['qn'])
@model('boost::operator<<')
def m_errinfo(I, e, fr, a): return a[0]
@model('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def m_ssstr(I, e, fr, a):
    if len(a) == 1: return I.fresh_seq('ss.str', 8, True, kind='str')
    return None
@model('std::operator<<', 'std::basic_ostream::operator<<')
def m_out(I, e, fr, a): return a[0]
@model('std::make_pair', 'std::pair::(ctor)')
def m_pair(I, e, fr, a):
    t = I._strip(e['t']); 
    if len(a) == 0: return I.default(e['t'])
    if len(a) == 1: return V(I, a[0])
    if len(a) == 3: raise Unsupported('piecewise pair')
    return RecV('std::pair', {'first': I.coerce(V(I, a[0]), t['args'][0]['t']), 'second': I.coerce(V(I, a[1]), t['args'][1]['t'])})
@model('std::pair::operator=', 'std::tuple::operator=')
def m_pairasg(I, e, fr, a):
    v = V(I, a[1]); old = V(I, a[0])
    for k in v.f:
        x = v.f[k]; x = I.read(x.loc) if isinstance(x, _RefV) else x
        if isinstance(old, RecV) and old.qn == 'std::tuple' and v.qn == 'std::pair': k = {'first': '_0', 'second': '_1'}[k]
        if isinstance(old, RecV) and isinstance(old.f.get(k), _RefV): I.write(old.f[k].loc, x)
        else: I.write(a[0].f(k), x)
    return a[0]
@model('std::make_tuple', 'std::tuple::(ctor)')
def m_tuple(I, e, fr, a):
    if not a: return I.default(e['t'])
    if len(a) == 1 and isinstance(V(I, a[0]), RecV) and V(I, a[0]).qn == 'std::tuple': return V(I, a[0])
    return RecV('std::tuple', {'_%d' % i: V(I, x) for i, x in enumerate(a)})
@model('std::tie', 'std::forward_as_tuple')
def m_tie(I, e, fr, a): return RecV('std::tuple', {'_%d' % i: _RefV(L(I, x)) for i, x in enumerate(a)})
@model('std::get')
def m_get(I, e, fr, a):
    i = int(e['f']['targs'][0]['v']) if 'targs' in e['f'] else None
    if i is None: raise Unsupported('std::get')
    l = L(I, a[0]); v = I.read(l)
    if isinstance(v, SeqV): return I.seqat(l, i)
    return I.tuple_get(l, i)
# ------------------------------------------------ memory
def ptr_elems(I, p):
    p = V(I, p)
    return p
def bytew(I, s):
    """element width in bytes"""
    if s.et is not None and I.T[s.et]['k'] == 'int': return I.T[s.et]['w'] // 8
    return 1
def memblk(I, p, what):
    p = V(I, p)
    if isinstance(p, OpaqueV): raise Unsupported('memory op on opaque')
    if p.loc is None: return None
    if p.off is None:
        s = I.read(p.loc)
        if isinstance(s, SeqV): return PtrV(p.loc, 0, p.null)
        raise Unsupported('memory op on object')
    return p
@model('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy', '__builtin_memmove')
def m_memcpy(I, e, fr, a):
    n = idx(I, a[2]); d = memblk(I, a[0], 'dst'); s = memblk(I, a[1], 'src')
    if d is None or s is None:
        I.p.prove('memcpy-null-needs-zero-length', I.teq(n, 0)); return V(I, a[0])
    ds, ss = I.read(d.loc), I.read(s.loc)
    if bytew(I, ds) != 1 or bytew(I, ss) != 1: raise Unsupported('memcpy of multi-byte elements')
    for nm, p, q in (('dst', d, ds), ('src', s, ss)):
        if p.null is not False: I.p.prove('memcpy-%s-nonnull' % nm, lor(lnot(p.null), I.teq(n, 0)))
    I.p.prove('memcpy-dst-in-bounds', I.tle(I.tadd(d.off, n), ds.n)); I.p.prove('memcpy-src-in-bounds', I.tle(I.tadd(s.off, n), ss.n))
    if e['f']['qn'].endswith('memcpy') and I.sameloc(d.loc, s.loc):
        I.p.prove('memcpy-no-overlap', lor(I.teq(n, 0), I.tle(I.tadd(d.off, n), s.off), I.tle(I.tadd(s.off, n), d.off)))
    src = elem_conv(I, ss, ds.et)
    I.write(d.loc, splice(I, ds, d.off, src, s.off, n)); return V(I, a[0])
@model('memset', 'std::memset', '__builtin_memset')
def m_memset(I, e, fr, a):
    d = memblk(I, a[0], 'dst'); v = V(I, a[1]); n = idx(I, a[2])
    if d is None: I.p.prove('memset-null-needs-zero-length', I.teq(n, 0)); return V(I, a[0])
    ds = I.read(d.loc); I.p.prove('memset-in-bounds', I.tle(I.tadd(d.off, n), ds.n))
    b = I.conv(I.conv(v, 8, False), 8, ds.et is not None and I.T[ds.et].get('sg', False))
    I.write(d.loc, splice(I, ds, d.off, SeqV(n, lambda i: b, ds.et), 0, n)); return V(I, a[0])
@model('memcmp', 'std::memcmp', '__builtin_memcmp')
def m_memcmp(I, e, fr, a):
    x = memblk(I, a[0], ''); y = memblk(I, a[1], ''); n = idx(I, a[2])
    xs, ys = I.read(x.loc), I.read(y.loc)
    I.p.prove('memcmp-in-bounds', land(I.tle(I.tadd(x.off, n), xs.n), I.tle(I.tadd(y.off, n), ys.n)))
    eq = seqeq(I, slice_(I, xs, x.off, n), slice_(I, ys, y.off, n))
    c = I.fresh_int('memcmp', 32, True); I.p.assume(B(beq(I.icmp('==', c, IntV(0, 32, True)), eq)))
    return c
@model('strlen', 'std::strlen', '__builtin_strlen', 'std::char_traits::length')
def m_strlen(I, e, fr, a): return size(I, cstr(I, a[0]).n)
@model('std::copy', 'std::move_backward_', 'std::copy_n_')
def m_copy(I, e, fr, a):
    s = seq_of_range(I, a[0], a[1]); d = V(I, a[2])
    if isinstance(d, OpaqueV): raise Unsupported('copy to opaque')
    ds = I.read(d.loc); I.p.prove('copy-dst-in-bounds', I.tle(I.tadd(d.off, s.n), ds.n))
    I.write(d.loc, splice(I, ds, d.off, elem_conv(I, s, ds.et), 0, s.n)); return PtrV(d.loc, I.tadd(d.off, s.n))
@model('std::fill')
def m_fillalg(I, e, fr, a):
    s = seq_of_range(I, a[0], a[1]); d = V(I, a[0]); v = V(I, a[2]); ds = I.read(d.loc)
    if ds.et is not None: v = I.coerce(v, ds.et)
    I.write(d.loc, splice(I, ds, d.off, SeqV(s.n, lambda i: v, ds.et), 0, s.n))
@model('std::reverse')
def m_reverse(I, e, fr, a):
    p = V(I, a[0]); s = seq_of_range(I, a[0], a[1])
    r = SeqV(s.n, lambda i: s.get(I.tsub(I.tsub(s.n, 1), i)), s.et, s.kind)
    I.write(p.loc, splice(I, I.read(p.loc), p.off, r, 0, s.n))
@model('std::equal')
def m_equal(I, e, fr, a):
    s = seq_of_range(I, a[0], a[1]); q = V(I, a[2])
    t = seq_of_range(I, a[2], PtrV(q.loc, I.tadd(q.off, s.n)))
    return seqeq(I, s, t)
@model('std::distance')
def m_dist(I, e, fr, a): return I.binop('-', V(I, a[1]), V(I, a[0]), {'k': 'int', 'w': 64, 'sg': True})
@model('std::next', 'std::prev')
def m_next(I, e, fr, a):
    p = V(I, a[0]); d = idx(I, a[1]) if len(a) > 1 else 1
    if isinstance(p, MIterV): return I.miter_incr(p, 1 if e['f']['qn'].endswith('next') else -1)
    return I.ptradd(p, d if e['f']['qn'].endswith('next') else (-d if isc(d) else -d))
@model('std::advance')
def m_adv(I, e, fr, a): I.write(a[0], I.ptradd(V(I, a[0]), idx(I, a[1])))
def alg_quant(I, a, f):
    s = seq_of_range(I, a[0], a[1]); c = V(I, a[2])
    return s, c
def quant_pred(I, s, c, e):
    """predicate c as a term over a bound index; its obligations are proved for an arbitrary element"""
    j = I.fresh_idx('any'); 
    if I.p.branch(B(I.inrange(j, s.n))): I.call_value(c, [s.get(j)], e)
    q = z3.Int(I.p.fresh('q')) if I.mode == 'int' else z3.BitVec(I.p.fresh('q'), 64)
    I.p.pure = True
    try: t = I.tobool(I.call_value(c, [s.get(q)], e))
    except NoBranch: raise Unsupported('branching predicate over a symbolic range')
    finally: I.p.pure = False
    return q, B(t)
@model('std::any_of', 'std::all_of', 'std::none_of')
def m_anyof(I, e, fr, a):
    s, c = alg_quant(I, a, None); nm = e['f']['qn'][5:]
    if not isc(s.n):
        q, t = quant_pred(I, s, c, e); rng = B(I.inrange(q, s.n))
        if nm == 'any_of': return z3.Exists([q], z3.And(rng, t))
        return z3.ForAll([q], z3.Implies(rng, t if nm == 'all_of' else z3.Not(t)))
    for i in range(s.n):
        r = I.p.branch(I.tobool(I.call_value(c, [s.get(i)], e)))
        if nm == 'any_of' and r: return True
        if nm == 'all_of' and not r: return False
        if nm == 'none_of' and r: return False
    return nm != 'any_of'
@model('std::find')
def m_find(I, e, fr, a):
    p = V(I, a[0]); s = seq_of_range(I, a[0], a[1]); v = V(I, a[2])
    if isc(s.n):
        for i in range(s.n):
            if I.p.branch(generic_eq(I, s.get(i), v)): return PtrV(p.loc, I.tadd(p.off, i))
        return V(I, a[1])
    k = I.fresh_idx('find'); j = I.fresh_idx('j')
    I.p.assume(B(I.tle(0, k))); I.p.assume(B(I.tle(k, s.n)))
    I.p.assume(z3.ForAll([j], z3.Implies(B(I.inrange(j, k)), B(lnot(generic_eq(I, s.get(j), v))))))
    I.p.assume(B(limp(I.tlt(k, s.n), generic_eq(I, s.get(k), v))))
    return PtrV(p.loc, I.tadd(p.off, k))
# ------------------------------------------------ iterators / smart pointers / optional (generic operators)
def ptr_like(v): return isinstance(v, (PtrV, OptV, MIterV, RevV))
def opcall(I, e, fr, args):
    op = e['oper']; v = V(I, args[0])
    if op == '*' and len(args) == 1 or op == '->':
        if isinstance(v, OptV):
            I.p.prove('optional-has-value', v.has)
            if op == '->': return PtrV(args[0].o() if isinstance(args[0], Loc) else I.new(v.v))
            return args[0].o() if isinstance(args[0], Loc) else v.v
        if isinstance(v, RevV): return I.ptradd(v.p, -1) if op == '->' else I.deref(I.ptradd(v.p, -1))
        if op == '->': return v
        return I.deref(v)
    if op in ('++', '--'):
        if isinstance(v, RevV): nv = RevV(I.ptradd(v.p, -1 if op == '++' else 1))
        else: nv = I.incr(v, 1 if op == '++' else -1)
        I.write(args[0], nv); return v if len(args) == 2 else args[0]
    if op in ('+=', '-='):
        d = idx(I, args[1]); nv = I.ptradd(v, d) if op == '+=' else I.binop('-', v, V(I, args[1]), {}); I.write(args[0], nv); return args[0]
    if op == '+': return I.ptradd(v, idx(I, args[1])) if isinstance(v, PtrV) else I.ptradd(V(I, args[1]), idx(I, v))
    if op == '-': return I.binop('-', v, V(I, args[1]), {'k': 'int', 'w': 64, 'sg': True})
    if op == '[]' and isinstance(v, PtrV): return I.seqat(v.loc, I.tadd(v.off or 0, idx(I, args[1])))
    if op in ('==', '!='):
        r = generic_eq(I, v, V(I, args[1])); return r if op == '==' else lnot(r)
    if op in ('<', '>', '<=', '>='): return I.ptrcmp(op, v, V(I, args[1]))
    if op == '!': return lnot(I.tobool(v))
    if op == '=':
        r = V(I, args[1])
        if isinstance(v, OptV):
            if isinstance(r, OptV): nv = OptV(r.has, r.v if r.v is not None else v.v, v.vt)
            elif isinstance(r, OpaqueV) and ('nullopt' in r.name or 'none' in r.name): nv = OptV(False, None, v.vt)
            else: nv = OptV(True, I.coerce(r, v.vt) if v.vt is not None else r, v.vt)
        else: nv = r
        I.write(args[0], nv); return args[0]
    raise Unsupported('operator %s on %r' % (op, v))
Interp.opcall = opcall
@model('__gnu_cxx::__normal_iterator::(ctor)', 'std::_Deque_iterator::(ctor)')
def m_nit(I, e, fr, a): return V(I, a[0]) if a else NULL
@model('__gnu_cxx::__normal_iterator::base', 'std::reverse_iterator::base')
def m_base(I, e, fr, a): v = V(I, a[0]); return v.p if isinstance(v, RevV) else v
# optional
OPT = ['std::optional', 'boost::optional', 'std::_Optional_base_impl', 'boost::optional_detail::optional_base']
def optm(*names): return model(*[c + '::' + n for c in OPT for n in names])
@optm('(ctor)')
def m_optctor(I, e, fr, a):
    t = I._strip(e['t']); vt = t['args'][0]['t']
    if not a: return OptV(False, None, vt)
    v = V(I, a[0])
    if isinstance(v, OptV): return v
    if isinstance(v, OpaqueV) and ('nullopt' in v.name or 'none' in v.name): return OptV(False, None, vt)
    if len(a) == 2 and isinstance(v, (bool, z3.BoolRef)): return OptV(v, I.coerce(V(I, a[1]), vt), vt)
    return OptV(True, I.coerce(v, vt), vt)
@optm('has_value', 'is_initialized', '(conv)', '_M_is_engaged')
def m_opthas(I, e, fr, a): return V(I, a[0]).has
@optm('value')
def m_optval(I, e, fr, a):
    v = V(I, a[0])
    if not I.p.branch(v.has): raise CxxThrow('std::bad_optional_access' if 'std' in e['f']['qn'] else 'boost::bad_optional_access')
    return a[0].o() if isinstance(a[0], Loc) else v.v
@optm('get')
def m_optget(I, e, fr, a):
    v = V(I, a[0]); I.p.prove('optional-has-value', v.has); return a[0].o() if isinstance(a[0], Loc) else v.v
@optm('value_or', 'get_value_or')
def m_optor(I, e, fr, a):
    v = V(I, a[0]); d = V(I, a[1])
    if v.v is None: return I.coerce(d, v.vt)
    return I.vite(v.has, v.v, I.coerce(d, v.vt) if v.vt is not None else d)
@optm('reset')
def m_optreset(I, e, fr, a): v = V(I, a[0]); I.write(a[0], OptV(False, None, v.vt))
@optm('emplace')
def m_optempl(I, e, fr, a): v = V(I, a[0]); I.write(a[0], OptV(True, I.coerce(V(I, a[1]), v.vt), v.vt)); return a[0].o()
@model('boost::make_optional', 'std::make_optional')
def m_mkopt(I, e, fr, a):
    t = I._strip(e['t']); vt = t['args'][0]['t']
    if len(a) == 2: return OptV(V(I, a[0]), V(I, a[1]), vt)
    return OptV(True, V(I, a[0]), vt)
# smart pointers
SP = ['std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::__weak_ptr']
def spm(*names): return model(*[c + '::' + n for c in SP for n in names])
@spm('(ctor)')
def m_spctor(I, e, fr, a):
    if not a: return NULL
    v = V(I, a[0])
    if isinstance(v, PtrV) and isinstance(a[0], Loc) and e.get('f', {}).get('qn') == 'std::unique_ptr::(ctor)' and I._strip(e['c'][0]['t']).get('qn') == 'std::unique_ptr': I.write(a[0], NULL)
    return v if isinstance(v, (PtrV, OpaqueV)) else NULL
@spm('get', 'lock')
def m_spget(I, e, fr, a): return V(I, a[0])
@spm('(conv)')
def m_spbool(I, e, fr, a): return I.tobool(V(I, a[0]))
@spm('reset')
def m_spreset(I, e, fr, a): I.write(a[0], V(I, a[1]) if len(a) > 1 else NULL)
@spm('release')
def m_sprel(I, e, fr, a): v = V(I, a[0]); I.write(a[0], NULL); return v
@spm('operator=')
def m_spasg(I, e, fr, a):
    v = V(I, a[1]); I.write(a[0], v)
    if isinstance(v, PtrV) and isinstance(a[1], Loc) and I._strip(e['c'][0]['t']).get('qn') == 'std::unique_ptr' and I._strip(e['c'][1]['t']).get('qn') == 'std::unique_ptr' and not (a[1].cell is a[0].cell and a[1].path == a[0].path): I.write(a[1], NULL)
    return a[0]
@model('std::make_shared', 'std::make_unique')
def m_mksh(I, e, fr, a):
    t = I._strip(e['t'])['args'][0]['t']; tt = I.T[t]
    ks = None
    if len(a) == 0: return PtrV(I.new(I.default(t), 'heap'))
    if len(a) == 1 and isinstance(V(I, a[0]), (IntV, SeqV)) and tt['k'] != 'rec' or (len(a) == 1 and isinstance(V(I, a[0]), RecV) and V(I, a[0]).qn == tt.get('qn')): return PtrV(I.new(V(I, a[0]), 'heap'))
    if len(a) == 1 and isinstance(V(I, a[0]), SeqV): return PtrV(I.new(V(I, a[0]), 'heap'))
    ks = [k for k in I.tu.byqn.get((tt.get('qn') or '') + '::(ctor)', []) if len(I.tu.funcs[k]['params']) == len(a) and 'body' in I.tu.funcs[k] and not I.tu.funcs[k].get('copy') and I.tu.funcs[k].get('cls') == t]
    if len(ks) == 1: return PtrV(I.new(V(I, I.run_ctor({'key': ks[0], 'qn': tt['qn'] + '::(ctor)'}, I.tu.funcs[ks[0]], tt, t, list(a))), 'heap'))
    raise Unsupported('make_shared with arguments')
# std::function
@model('std::function::(ctor)')
def m_fnctor(I, e, fr, a):
    if not a: return FnV(null=True)
    v = V(I, a[0]); 
    if isinstance(v, PtrV) and v.loc is None: return FnV(null=True)
    return v
@model('std::function::(conv)')
def m_fnbool(I, e, fr, a): return I.tobool(V(I, a[0]))
@model('std::function::operator()')
def m_fncall(I, e, fr, a): return I.call_value(V(I, a[0]), a[1:], e)
@model('std::function::operator=')
def m_fnasg(I, e, fr, a): I.write(a[0], V(I, a[1])); return a[0]
# atomics, locks, threads
@model('std::atomic::operator=', 'std::__atomic_base::operator=', 'std::atomic::store', 'std::__atomic_base::store')
def m_atstore(I, e, fr, a): I.write(a[0], V(I, a[1])); return V(I, a[1])
@model('std::atomic::(conv)', 'std::__atomic_base::(conv)', 'std::atomic::load', 'std::__atomic_base::load')
def m_atload(I, e, fr, a): return V(I, a[0])
@model('std::atomic::operator++', 'std::__atomic_base::operator++', 'std::atomic::operator--', 'std::__atomic_base::operator--')
def m_atinc(I, e, fr, a):
    v = V(I, a[0]); nv = I.incr(v, 1 if e['f']['qn'].endswith('++') else -1); I.write(a[0], nv); return v if len(a) == 2 else nv
@model(*[c + '::' + o for c in ('std::atomic', 'std::__atomic_base') for o in ('operator+=', 'operator-=')])
def m_atadd(I, e, fr, a):
    v = V(I, a[0]); d = V(I, a[1]); nv = I.ibin('+' if e['f']['qn'].endswith('+=') else '-', v, d, v.w, v.s)
    I.write(a[0], nv); return nv
for _n in ['std::lock_guard', 'std::unique_lock', 'std::shared_lock', 'boost::unique_lock', 'boost::shared_lock', 'boost::lock_guard', 'boost::upgrade_lock', 'boost::upgrade_to_unique_lock', 'std::scoped_lock']:
    M[_n + '::(ctor)'] = lambda I, e, fr, a: OpaqueV('lock')
    for _m in ('lock', 'unlock', 'release', 'owns_lock'): M[_n + '::' + _m] = lambda I, e, fr, a: None
for _n in ['std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'boost::shared_mutex', 'boost::mutex', 'boost::recursive_mutex', 'std::condition_variable', 'boost::detail::shared_mutex', 'std::timed_mutex']:
    M[_n + '::(ctor)'] = lambda I, e, fr, a: OpaqueV('mutex')
    for _m in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'notify_all', 'notify_one'): M[_n + '::' + _m] = lambda I, e, fr, a: None
# ------------------------------------------------ maps and sets
MAPS = ['std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::multiset']
def mapm(*names): return model(*[c + '::' + n for c in MAPS for n in names])
def mapv(I, x):
    v = V(I, x)
    if isinstance(v, MapV): return v
    raise Unsupported('map expected, got %r' % (v,))
def one(I): return 1
def map_put(I, l, k, v, only_if_absent=True):
    m = mapv(I, l); h = m.has(k); keq = lambda q: I.generic_eq(V(I, q), k)
    sz = None
    if m.size is not None: sz = I.tadd(m.size, I.tite(h, 0, 1) if not isinstance(h, bool) else (0 if h else 1))
    hn = lambda q: lor(keq(q), m.has(q)) if not isinstance(q, _MK) else m.has(q)
    val = None
    if m.val is not None:
        val = lambda q: I.vite(keq(q), (lambda: I.vite(h, lambda: m.val(k), v)) if only_if_absent else v, lambda: m.val(q))
    I.write(l, MapV(hn, val, m.kt, m.vt, m.kind, sz))
def map_del(I, l, k):
    m = mapv(I, l); h = m.has(k)
    sz = None
    if m.size is not None: sz = I.tsub(m.size, I.tite(h, 1, 0) if not isinstance(h, bool) else (1 if h else 0))
    I.write(l, MapV(lambda q: land(lnot(I.generic_eq(V(I, q), k)), m.has(q)), m.val, m.kt, m.vt, m.kind, sz))
@mapm('(ctor)')
def m_mapctor(I, e, fr, a):
    a = [x for x in a if not isinstance(V(I, x), OpaqueV)]
    if not a: return I.default(e['f']['cls'])
    v = V(I, a[0])
    if isinstance(v, MapV): return v
    if isinstance(v, SeqV) and isc(v.n):
        l = I.new(I.default(e['f']['cls']))
        for i in range(v.n):
            x = v.get(i)
            if 'set' in e['f']['qn']: map_put(I, l, x, None)
            else: map_put(I, l, V(I, x.f['first']), V(I, x.f['second']))
        return I.read(l)
    raise Unsupported('map ctor')
@mapm('count', 'contains')
def m_mapcount(I, e, fr, a):
    h = mapv(I, a[0]).has(V(I, a[1]))
    if e['f']['qn'].endswith('contains'): return h
    return I.conv(h, 64, False)
@mapm('find')
def m_mapfind(I, e, fr, a):
    l = L(I, a[0]); k = V(I, a[1]); h = mapv(I, l).has(k); return MIterV(l, lnot(h), k)
@mapm('end', 'cend')
def m_mapend(I, e, fr, a): return MIterV(L(I, a[0]), True, None)
@mapm('begin', 'cbegin')
def m_mapbegin(I, e, fr, a):
    h = I.cfg.get('map_begin')
    if h: return h(I, e, fr, a)
    l = L(I, a[0]); m = mapv(I, l)
    if m.size is not None and I.p.branch(I.teq(m.size, 0)): return MIterV(l, True, None)
    k = I.fresh_like(m.kt, 'firstkey'); I.p.assume(B(m.has(k))); return MIterV(l, False, k)
def miter_eq(I, x, y):
    if x.end is True and y.end is True: return True
    if x.end is True: return y.end
    if y.end is True: return x.end
    return lor(land(x.end, y.end), land(lnot(x.end), lnot(y.end), I.generic_eq(x.key, y.key)))
def miter_deref(I, it):
    I.p.prove('iterator-not-end', lnot(it.end)); m = mapv(I, it.loc)
    if m.val is None: return it.key
    return RecV('std::pair', {'first': it.key, 'second': _RefV(it.loc.k(it.key))})
Interp.miter_deref = miter_deref
def miter_incr(I, it, d): raise Unsupported('map iterator step')
if not hasattr(Interp, 'miter_incr'): Interp.miter_incr = miter_incr
@mapm('operator[]')
def m_mapidx(I, e, fr, a):
    l = a[0]; k = V(I, a[1]); m = mapv(I, l); h = m.has(k)
    if h is not True: map_put(I, l, k, I.default(m.vt))
    return l.k(k)
@mapm('at')
def m_mapat(I, e, fr, a):
    l = L(I, a[0]); k = V(I, a[1])
    if not I.p.branch(mapv(I, l).has(k)): raise CxxThrow('std::out_of_range')
    return l.k(k)
@mapm('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint')
def m_mapinsert(I, e, fr, a):
    l = a[0]; m = mapv(I, l); nm = e['f']['qn'].rsplit('::', 1)[1]
    vs = [V(I, x) for x in a[1:]]
    if len(vs) == 2 and isinstance(vs[0], MIterV) and nm == 'insert' and isinstance(vs[1], MIterV): raise Unsupported('map range insert')
    if nm == 'emplace_hint': vs = vs[1:]
    if m.val is None:
        k = vs[0]; h = m.has(k); map_put(I, l, k, None)
    else:
        if len(vs) == 1: k = V(I, vs[0].f['first']); v = V(I, vs[0].f['second'])
        elif len(vs) == 2: k, v = vs
        else: raise Unsupported('map emplace')
        k = k.loc and I.read(k.loc) if isinstance(k, _RefV) else k
        v = I.read(v.loc) if isinstance(v, _RefV) else v
        h = m.has(k); map_put(I, l, k, I.coerce(v, m.vt) if m.vt is not None else v, nm != 'insert_or_assign')
    return RecV('std::pair', {'first': MIterV(l, False, k), 'second': lnot(h)})
@mapm('erase')
def m_maperase(I, e, fr, a):
    l = a[0]; v = V(I, a[1])
    if isinstance(v, MIterV):
        I.p.prove('erase-valid-iterator', lnot(v.end)); map_del(I, l, v.key); return MIterV(l, I.fresh_bool('nextend'), v.key)
    h = mapv(I, l).has(v); map_del(I, l, v); return I.conv(h, 64, False)
@mapm('clear')
def m_mapclear(I, e, fr, a):
    m = mapv(I, a[0]); I.write(a[0], MapV(lambda q: False, m.val, m.kt, m.vt, m.kind, 0))
@mapm('empty')
def m_mapempty(I, e, fr, a):
    m = mapv(I, a[0])
    if m.size is None: raise Unsupported('size of nested map')
    return I.teq(m.size, 0)
@mapm('size')
def m_mapsize(I, e, fr, a):
    m = mapv(I, a[0])
    if m.size is None: raise Unsupported('size of nested map')
    return size(I, m.size)
@mapm('swap')
def m_mapswap(I, e, fr, a): m_swap(I, e, fr, a)
@mapm('operator=')
def m_mapasg(I, e, fr, a): I.write(a[0], V(I, a[1])); return a[0]
@seqm('operator=')
def m_seqasg(I, e, fr, a):
    v = V(I, a[1]); old = V(I, a[0])
    if isinstance(v, PtrV): v = cstr(I, v)
    if isinstance(v, IntV): v = single(v, None, 'str')
    if isinstance(v, SeqV): v = SeqV(v.n, v.get, old.et if isinstance(old, SeqV) else v.et, old.kind if isinstance(old, SeqV) else v.kind)
    I.write(a[0], v); return a[0]
# ------------------------------------------------ boost::multiprecision
BN = 'boost::multiprecision::'
@model(BN + 'number::operator=')
def m_bigasg(I, e, fr, a):
    iv = I.as_bigint(I._strip(e['c'][0]['t'])); I.write(a[0], I.tobigt(V(I, a[1]), iv)); return a[0]
def big_conv(I, e, fr, a):
    """explicit conversion number -> native integer / other number"""
    v = I.tobig(V(I, a[0])); t = I._strip(e['t'])
    if t['k'] == 'bool': return I.tobool(v)
    if t['k'] in ('int', 'enum'):
        w, s = t.get('w', 32), t.get('sg', False)
        return big_to_int(I, v, w, s)
    iv = I.as_bigint(t)
    if iv: return I.conv(v, *iv)
    if t['k'] == 'float': return OpaqueV('float')
    raise Unsupported('bigint conversion to %s' % t.get('s'))
def big_to_int(I, v, w, s):
    # boost: unsigned target takes the low bits (checked only when the backend is checked);
    # signed target saturates at the type's limits when out of range
    if not s: return I.conv(v, w, s)
    lo, hi = trange(w, s)
    if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi: return IntV(v.t, w, s, v.lo, v.hi)
    if isc(v.t): return IntV(max(lo, min(hi, v.t)), w, s)
    if I.mode == 'bv':
        W = (v.w or 520) + 1; x = IntV(I.bvt(v, W), W, True)
        c = I.icmp('>', x, IntV(hi, W, True)); d = I.icmp('<', x, IntV(lo, W, True))
        return I.mkint(z3.If(c, z3.BitVecVal(hi, w), z3.If(d, z3.BitVecVal(lo & ((1 << w) - 1), w), z3.Extract(w - 1, 0, x.t))), w, s)
    return IntV(z3.If(v.t > hi, hi, z3.If(v.t < lo, lo, v.t)), w, s)
M[BN + 'number::(conv)'] = big_conv
@model(BN + 'bit_test')
def m_bittest(I, e, fr, a):
    v, k = V(I, a[0]), V(I, a[1])
    if I.mode == 'bv': return (I.bvt(I.bigshift('>>', v, k, (v.w, v.s)) if not isc(k.t) else I.shift('>>', v, k, v.w, v.s)) & z3.BitVecVal(1, v.w)) == 1
    if v.s: raise Unsupported('bit_test of a signed number')
    r = I.shift('>>', v, k, v.w, v.s); return r.t % 2 == 1
@model(BN + 'number::convert_to')
def m_convto(I, e, fr, a): return big_conv(I, e, fr, a)
@model(BN + 'number::is_zero')
def m_isz(I, e, fr, a): v = V(I, a[0]); return I.icmp('==', v, IntV(0, v.w, v.s))
@model(BN + 'number::sign')
def m_sign(I, e, fr, a):
    v = V(I, a[0]); return IntV(z3.If(v.t > 0, 1, z3.If(v.t < 0, -1, 0)), 32, True, -1, 1) if not isc(v.t) else IntV((v.t > 0) - (v.t < 0), 32, True)
@model(BN + 'number::str')
def m_bigstr(I, e, fr, a): return I.fresh_seq('bigstr', 8, True, kind='str')
@model(BN + 'numeric_limits::max')
def _x(I, e, fr, a): return m_lim(I, e, fr, a)
# ------------------------------------------------ misc
@model('std::to_string')
def m_tostr(I, e, fr, a):
    v = V(I, a[0])
    if isinstance(v, IntV) and isc(v.t): return I.bytes_const(str(v.t).encode())
    h = I.cfg.get('to_string')
    if h: return h(I, v)
    return I.fresh_seq('to_string', 8, True, kind='str')
@model('std::isfinite')
def m_isfin(I, e, fr, a): return I.fresh_bool('isfinite')
def install(cfg):
    m = dict(M); m.update(cfg.get('models', {})); cfg['models'] = m; return cfg

# ---- <cctype>, "C" locale
def _cls(*rs):
    def h(I, e, fr, a):
        x = V(I, a[0]); t = x.t
        if I.mode == 'bv': raise Unsupported('cctype in bit-vector mode')
        c = lor(*[land(t >= lo, t <= hi) if lo != hi else t == lo for lo, hi in rs])
        return IntV(ite(c, z3.IntVal(1), z3.IntVal(0)) if not isinstance(c, bool) else int(c), 32, True, 0, 1)
    return h
for _n, _r in (('isalnum', [(48, 57), (65, 90), (97, 122)]), ('isalpha', [(65, 90), (97, 122)]), ('isdigit', [(48, 57)]), ('isxdigit', [(48, 57), (65, 70), (97, 102)]), ('isupper', [(65, 90)]), ('islower', [(97, 122)]), ('isspace', [(32, 32), (9, 13)])):
    if _n not in M: M[_n] = _cls(*_r)
    if 'std::' + _n not in M: M['std::' + _n] = M[_n]

M['boost::multiprecision::max'] = M['std::max']; M['boost::multiprecision::min'] = M['std::min']
