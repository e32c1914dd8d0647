import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'cppvc'))
import z3
from unit import *
from core import *
from loops import LoopSpec
Z = z3
def Imp(a, b): return z3.Implies(B(a), B(b))
def bytes_in(u, name='data', maxlen=1 << 40, n=None, signed=False, kind='vec'):
    """fresh symbolic byte string; returns (Loc, SeqV); recorded as a counterexample input"""
    s = u.I.fresh_seq(name, 8, signed, maxlen=maxlen, n=n, kind=kind)
    def show(m):
        ln = s.n if isc(s.n) else m.eval(s.n, True).as_long()
        out = []
        for i in range(min(ln, 256)):
            t = s.get(i).t
            if u.I.mode == 'bv': t = m.eval(t, True).as_long()
            else: t = m.eval(t, True).as_long()
            out.append(t & 255)
        return {'len': ln, 'hex': bytes(out).hex()}
    u.p.inputs[name] = show
    return u.I.new(s, name), s
def int_in(u, name, w, s=False, kind=None):
    v = u.I.fresh_int(name, w, s); u.p.inputs[name] = lambda m: str(m.eval(v.t, True)); return v
def vref(loc, off, n): return RecV('dev::vector_ref', {'m_data': PtrV(loc, off), 'm_count': IntV(n, 64, False)})
def nullref(): return RecV('dev::vector_ref', {'m_data': NULL, 'm_count': IntV(0, 64, False)})
def be(get, a, n):
    """big-endian value of n (python int) bytes from a"""
    r = 0
    for i in range(n): r = r * 256 + get(a + i)
    return r
def If(c, a, b): return ite(c, z3.IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else a, z3.IntVal(b) if isinstance(b, int) and not isinstance(b, bool) else b)
def main(units):
    import sys
    sel = sys.argv[1:]
    for un in units:
        if not sel or any(x in un['name'] for x in sel):
            show(run_unit(**un), os.environ.get('V') is not None)

def hashcon(extra=None):
    """contracts for hashes and addresses seen as abstract values (their bytes are C03's business)"""
    F = 'dev::FixedHash::'; tv = lambda I, x: I.val(x).t
    def ctor(I, e, fr, a):
        w = 'hash%s' % next((x['v'] for x in I.T[e['f']['cls']].get('args', []) if 'v' in x), '0') if e and 'f' in e and 'cls' in e['f'] else 'hash'
        if not a: return TermV(z3.IntVal(0), w)
        v = I.val(a[0])
        if isinstance(v, TermV): return TermV(v.t, w)
        if isinstance(v, IntV): return TermV(I.zi(v.t) if hasattr(I, 'zi') else v.t, w)
        raise Unsupported('hash from %r' % (v,))
    d = {F + 'operator==': lambda I, e, fr, a: tv(I, a[0]) == tv(I, a[1]), F + 'operator!=': lambda I, e, fr, a: tv(I, a[0]) != tv(I, a[1]), F + 'operator<': lambda I, e, fr, a: tv(I, a[0]) < tv(I, a[1]), F + 'operator bool': lambda I, e, fr, a: tv(I, a[0]) != 0, F + 'operator!': lambda I, e, fr, a: tv(I, a[0]) == 0,
         F + '(ctor)': ctor, F + 'hex': lambda I, e, fr, a: OpaqueV('string'), F + 'abridged': lambda I, e, fr, a: OpaqueV('string'), F + 'operator Arith': lambda I, e, fr, a: IntV(tv(I, a[0]), 256, False), F + '(conv)': lambda I, e, fr, a: (tv(I, a[0]) != 0) if I.T[e['t']]['k'] == 'bool' else IntV(tv(I, a[0]), 256, False)}
    d.update(extra or {}); return d
