"""cppvc interpreter: symbolic execution of extracted clang ASTs."""
import json, subprocess, os, re, hashlib, sys
import z3
from core import *

NOOP_PREFIX = ('MicroProfile', 'microprofile', 'dev::LogOverride', 'boost::log', 'dev::createLogger', 'std::ios', 'std::cerr', 'std::cout')

class Program:
    """merged extraction of one or more translation units"""
    def __init__(self):
        self.tus = []
    def add(self, path):
        d = json.load(open(path)); self.tus.append(TU(d)); return self.tus[-1]
class TU:
    def __init__(self, d):
        self.funcs = d['funcs']; self.types = d['types']; self.records = d['records']; self.globals = d['globals']; self.roots = d['roots']
        self.byqn = {}
        for k, f in self.funcs.items(): self.byqn.setdefault(f['qn'], []).append(k)

def match(pat, qn): return pat == qn

class Interp:
    def __init__(self, path, tu, mode='int', cfg=None):
        self.p = path; self.tu = tu; self.mode = mode; self.cfg = cfg or {}
        self.T = tu.types; self.models = self.cfg.get('models', {}); self.contracts = self.cfg.get('contracts', {})
        self.globals = {}; self.statics = {}; self.callstack = []; self.noop = NOOP_PREFIX + tuple(self.cfg.get('noop', ()))
        self.max_unroll = self.cfg.get('unroll', 70); self.max_depth = self.cfg.get('depth', 60)
        self.loops = self.cfg.get('loops', {}); self.ghost = {}
    # ------------------------------------------------------------------ cells
    def cell(self, v, name='tmp'):
        self.p.serial += 1
        c = Cell(v, name, self.p.serial); self.p.cells[self.p.serial] = c
        return c
    def new(self, v, name='tmp'): return Loc(self.cell(v, name))
    def read(self, x):
        if not isinstance(x, Loc): return x
        v = x.cell.v
        for st in x.path: v = self.step(v, st, x)
        return v
    def step(self, v, st, x=None):
        k = st[0]
        if k == 'f':
            if isinstance(v, RecV):
                if st[1] not in v.f: raise Unsupported('field %s of %s' % (st[1], v.qn))
                return v.f[st[1]]
            if isinstance(v, OpaqueV): return OpaqueV(v.name + '.' + st[1])
            raise Unsupported('field %s of %r (%r)' % (st[1], v, x))
        if k == 'i':
            if isinstance(v, SeqV): return v.get(st[1])
            raise Unsupported('index into %r' % (v,))
        if k == 'k':
            return v.val(st[1])
        if k == 'o':
            return v.v
        raise Unsupported('step %s' % (st,))
    def write(self, x, nv):
        if hasattr(x, 'store') and not isinstance(x, Loc): return x.store(self, nv)
        if not isinstance(x, Loc): raise Unsupported('write to non-lvalue %r' % (x,))
        for tr in self.p.trackers: tr.note(x)
        x.cell.v = self.upd(x.cell.v, x.path, nv)
    def upd(self, v, path, nv):
        if not path: return nv
        st, rest = path[0], path[1:]
        if st[0] == 'f':
            if isinstance(v, OpaqueV): return v
            if not isinstance(v, RecV): raise Unsupported('write field %s of %r' % (st[1], v))
            f = dict(v.f); f[st[1]] = self.upd(f[st[1]], rest, nv) if rest else nv
            return RecV(v.qn, f)
        if st[0] == 'i':
            i = st[1]; e = self.upd(v.get(i), rest, nv) if rest else nv
            old = v
            return SeqV(v.n, lambda j, old=old, i=i, e=e: self.vite(self.teq(j, i), e, lambda: old.get(j)), v.et, v.kind)
        if st[0] == 'k':
            key = st[1]; e = self.upd(v.val(key), rest, nv) if rest else nv
            return MapV(v.has, lambda q, v=v, key=key, e=e: self.vite(self.veq(q, key), e, lambda: v.val(q)), v.kt, v.vt, v.kind, v.size)
        if st[0] == 'o':
            return OptV(v.has, self.upd(v.v, rest, nv) if rest else nv, v.vt)
        raise Unsupported('upd %s' % (st,))
    # ------------------------------------------------------------------ generic value operations
    def teq(self, a, b):
        if isc(a) and isc(b): return a == b
        if same(a, b): return True
        a, b = self.lift2(a, b)
        return a == b
    def lift2(self, a, b):
        if self.mode == 'bv':
            if isc(a) and not isc(b): a = z3.BitVecVal(a, b.size())
            elif isc(b) and not isc(a): b = z3.BitVecVal(b, a.size())
        return a, b
    def vite(self, c, a, b):
        """if-then-else on values; a, b values or thunks"""
        if c is True: return a() if callable(a) else a
        if c is False: return b() if callable(b) else b
        a = a() if callable(a) else a; b = b() if callable(b) else b
        if a is b: return a
        if isinstance(a, IntV) and isinstance(b, IntV):
            if same(a.t, b.t): return a
            lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo); hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
            x, y = a.t, b.t
            if self.mode == 'bv':
                x = self.bvt(a); y = self.bvt(b)
            return IntV(z3.If(c, x, y), a.w, a.s, lo, hi)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return ite(c, a, b)
        if isinstance(a, RecV) and isinstance(b, RecV):
            return RecV(a.qn, {k: self.vite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return SeqV(self.tite(c, a.n, b.n), lambda i: self.vite(c, lambda: a.get(i), lambda: b.get(i)), a.et, a.kind)
        if isinstance(a, OptV) and isinstance(b, OptV): 
            if a.v is None: return OptV(ite(c, a.has, b.has), b.v, b.vt)
            if b.v is None: return OptV(ite(c, a.has, b.has), a.v, a.vt)
            return OptV(ite(c, a.has, b.has), self.vite(c, a.v, b.v), a.vt)
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(lambda k: ite(c, a.has(k), b.has(k)), (lambda k: self.vite(c, lambda: a.val(k), lambda: b.val(k))) if a.val else None, a.kt, a.vt, a.kind, None if a.size is None or b.size is None else self.tite(c, a.size, b.size))
        if isinstance(a, TermV) and isinstance(b, TermV): return TermV(ite(c, a.t, b.t), a.kind)
        if isinstance(a, OpaqueV): return a
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.loc is None: return PtrV(b.loc, b.off, lor(c, b.null)) if b.loc is not None else a
            if b.loc is None: return PtrV(a.loc, a.off, lor(lnot(c), a.null))
            if a.loc.cell is b.loc.cell and len(a.loc.path) == len(b.loc.path) and all(x[0] == y[0] and (x[0] != 'f' or x[1] == y[1]) for x, y in zip(a.loc.path, b.loc.path)) and all(x[0] == 'f' or same(x[1], y[1]) for x, y in zip(a.loc.path, b.loc.path)):
                return PtrV(a.loc, None if a.off is None else self.tite(c, a.off, b.off), ite(c, a.null, b.null))
        # cannot merge: fork
        return a if self.p.branch(c) else b
    def tite(self, c, x, y):
        if c is True: return x
        if c is False: return y
        if same(x, y): return x
        if self.mode == 'bv':
            if isc(x) and not isc(y): x = z3.BitVecVal(x, y.size())
            elif isc(y) and not isc(x): y = z3.BitVecVal(y, x.size())
            elif isc(x) and isc(y): x = z3.BitVecVal(x, 64); y = z3.BitVecVal(y, 64)
        return z3.If(c, x, y)
    def veq(self, a, b, skolem=False):
        """equality formula of two values. Sequences/maps: only usable positively in a proof goal (skolemised) or when small & concrete"""
        if isinstance(a, Loc): a = self.read(a)
        if isinstance(b, Loc): b = self.read(b)
        if isinstance(a, IntV) and isinstance(b, IntV):
            if self.mode == 'bv': return self.icmp('==', a, b)
            if isc(a.t) and isc(b.t): return a.t == b.t
            return a.t == b.t if not same(a.t, b.t) else True
        if isinstance(a, (bool, z3.BoolRef)): return beq(a, b)
        if isinstance(a, RecV) and isinstance(b, RecV): return land(*[self.veq(a.f[k], b.f[k], skolem) for k in a.f])
        if isinstance(a, TermV): 
            return True if same(a.t, b.t) else a.t == b.t
        if isinstance(a, OptV): return land(beq(a.has, b.has), True if a.has is False or b.has is False else limp(a.has, self.veq(a.v, b.v, skolem)))
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            if (isc(a.n) and a.n == 0) or (isc(b.n) and b.n == 0): return self.teq(a.n, b.n)
            if isc(a.n) and isc(b.n):
                if a.n != b.n: return False
                if a.n <= 4200: return land(*[self.veq(a.get(i), b.get(i), skolem) for i in range(a.n)])
            if skolem:
                i = self.fresh_idx('sk'); le = self.teq(a.n, b.n)
                return land(le, limp(self.inrange(i, a.n), self.veq(a.get(i), b.get(i), True)))
            if isc(a.n) or isc(b.n):
                n = a.n if isc(a.n) else b.n
                return land(self.teq(a.n, b.n), *[self.veq(a.get(i), b.get(i)) for i in range(n)])
            raise Unsupported('sequence equality in a hypothesis')
        if isinstance(a, PtrV) and isinstance(b, PtrV): return self.ptreq(a, b)
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV) and a.name == b.name and 'ounter' in a.name: return True
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV): raise Unsupported('compare opaque %s' % a.name)
        if isinstance(a, MapV) and skolem:
            k = self.fresh_like(a.kt, 'skk'); h = beq(a.has(k), b.has(k))
            return land(h, limp(a.has(k), self.veq(a.val(k), b.val(k), True)) if a.val else True)
        if any(isinstance(x, OpaqueV) and x.name == 'oob' for x in (a, b)): return z3.Bool(self.p.fresh('oob'))
        raise Unsupported('veq %r %r' % (a, b))
    def inrange(self, i, n):
        if self.mode == 'bv': 
            if isc(i) and isc(n): return 0 <= i < n
            i, n = self.lift2(i, n); return z3.ULT(i, n)
        if isc(i) and isc(n): return 0 <= i < n
        return land(0 <= i if isc(i) else i >= 0, i < n)
    def fresh_idx(self, name='ix'):
        nm = self.p.fresh(name)
        return z3.BitVec(nm, 64) if self.mode == 'bv' else z3.Int(nm)
    def ptreq(self, a, b):
        if a.loc is None and b.loc is None: return True
        if a.loc is None: return b.null
        if b.loc is None: return a.null
        if self.sameloc(a.loc, b.loc):
            if a.off is None and b.off is None: return beq(a.null, b.null) if not (a.null is False and b.null is False) else True
            return lor(land(a.null, b.null), land(lnot(a.null), lnot(b.null), self.teq(a.off if a.off is not None else 0, b.off if b.off is not None else 0)))
        return land(a.null, b.null)
    def sameloc(self, a, b):
        return a.cell is b.cell and len(a.path) == len(b.path) and all(x[0] == y[0] and (x[0] in ('o',) or (x[1] == y[1] if x[0] == 'f' else self._samek(x[1], y[1]))) for x, y in zip(a.path, b.path))
    def _samek(self, x, y):
        if isinstance(x, IntV): x = x.t
        if isinstance(y, IntV): y = y.t
        try: return same(x, y)
        except Exception: return x is y
    # ------------------------------------------------------------------ integers
    def bvt(self, v, w=None):
        """z3 BitVec term of IntV at width w (default its own)"""
        w = w or v.w or self.cfg.get('bigw', 520); t = v.t
        if isc(t): return z3.BitVecVal(int(t), w)
        k = t.size()
        if k == w: return t
        if k < w: return z3.SignExt(w - k, t) if v.s else z3.ZeroExt(w - k, t)
        return z3.Extract(w - 1, 0, t)
    def mkint(self, t, w, s, lo=None, hi=None):
        if self.mode == 'bv' and not isc(t):
            t2 = z3.simplify(t)
            if z3.is_bv_value(t2):
                v = t2.as_signed_long() if s else t2.as_long()
                return IntV(v, w, s)
            return IntV(t2, w, s)
        return IntV(t, w, s, lo, hi)
    def const(self, v, w=32, s=True): return IntV(v, w, s)
    def conv(self, v, w, s):
        """integral conversion"""
        if isinstance(v, (bool, z3.BoolRef)):
            if isinstance(v, bool): return IntV(int(v), w, s)
            if self.mode == 'bv': return IntV(z3.If(v, z3.BitVecVal(1, w or 520), z3.BitVecVal(0, w or 520)), w, s)
            return IntV(z3.If(v, z3.IntVal(1), z3.IntVal(0)), w, s, 0, 1)
        if isinstance(v, TermV): return v
        if not isinstance(v, IntV): raise Unsupported('conv %r' % (v,))
        if v.w == w and v.s == s: return v
        if isc(v.t): return IntV(self.wrapc(v.t, w, s), w, s)
        if self.mode == 'bv': return self.mkint(self.bvt(v, w or self.cfg.get('bigw', 520)), w, s)
        return self.wrap(v.t, v.lo, v.hi, w, s)
    def wrapc(self, x, w, s):
        if w == 0: return x
        x &= (1 << w) - 1
        if s and x >> (w - 1): x -= 1 << w
        return x
    def wrap(self, t, lo, hi, w, s):
        """reduce exact integer term t (bounds lo..hi) into type (w,s)"""
        if isc(t): return IntV(self.wrapc(t, w, s), w, s)
        tl, th = trange(w, s)
        if w == 0: return IntV(t, 0, s, lo, hi)
        if lo is not None and hi is not None and lo >= tl and hi <= th: return IntV(t, w, s, lo, hi)
        if self.p.holds(land(t >= tl, t <= th)): return IntV(t, w, s, lo, hi)
        if s:
            return IntV(z3.If(t % (1 << w) >= (1 << (w - 1)), t % (1 << w) - (1 << w), t % (1 << w)), w, s)
        if lo is not None and hi is not None and lo >= -(1 << w) and hi < (1 << (w + 1)):
            r = t
            if hi >= (1 << w): r = z3.If(t >= (1 << w), t - (1 << w), r)
            if lo < 0: r = z3.If(t < 0, t + (1 << w), r)
            return IntV(r, w, s)
        return IntV(t % (1 << w), w, s)
    def ibin(self, op, a, b, w, s, ub=True):
        """binary arithmetic on IntV already converted to (w,s)"""
        if op in ('<<', '>>'): return self.shift(op, a, b, w, s)
        if isc(a.t) and isc(b.t):
            x, y = a.t, b.t
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op in '/%':
                if y == 0: self.p.prove('no-division-by-zero', False)
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                r = q if op == '/' else x - q * y
            elif op == '&': r = (x & y)
            elif op == '|': r = (x | y)
            elif op == '^': r = (x ^ y)
            return IntV(self.wrapc(r, w, s), w, s)
        if self.mode == 'bv':
            W = w or self.cfg.get('bigw', 520)
            x, y = self.bvt(a, W), self.bvt(b, W)
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op == '/':
                self.p.prove('no-division-by-zero', y != 0); r = x / y if s else z3.UDiv(x, y)
            elif op == '%':
                self.p.prove('no-division-by-zero', y != 0); r = z3.SRem(x, y) if s else z3.URem(x, y)
            elif op == '&': r = x & y
            elif op == '|': r = x | y
            elif op == '^': r = x ^ y
            return self.mkint(r, w, s)
        x, y = a.t, b.t; al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi; N = None
        def chk(t, lo, hi):
            if s and w and ub:
                tl, th = trange(w, s)
                if not (lo is not None and hi is not None and lo >= tl and hi <= th): self.p.prove('no-signed-overflow', land(t >= tl, t <= th))
                return IntV(t, w, s, lo, hi)
            if w == 0 and not s: 
                if lo is None or lo < 0: self.p.prove('unsigned-bigint-nonnegative', t >= 0)
                return IntV(t, 0, s, lo, hi)
            return self.wrap(t, lo, hi, w, s)
        if op == '+': return chk(x + y, None if None in (al, bl) else al + bl, None if None in (ah, bh) else ah + bh)
        if op == '-': return chk(x - y, None if None in (al, bh) else al - bh, None if None in (ah, bl) else ah - bl)
        if op == '*':
            lo = hi = None
            if None not in (al, ah, bl, bh): c = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(c), max(c)
            elif al is not None and bl is not None and al >= 0 and bl >= 0: lo = al * bl
            return chk(x * y, lo, hi)
        if op in '/%':
            if not (bl is not None and bl > 0): self.p.prove('no-division-by-zero', y != 0)
            if al is not None and al >= 0 and bl is not None and bl >= 0:
                if op == '/': return IntV(idiv(x, y) if isc(y) and y > 0 and not isc(x) else self.zi(x) / y, w, s, 0, ah if ah is None or not (isc(y) and y > 0) else ah // y)
                return IntV(self.zi(x) % y, w, s, 0, (bh - 1) if bh else None)
            X, Y = self.zi(x), self.zi(y)
            q = z3.If(X >= 0, z3.If(Y > 0, X / Y, -(X / (-Y))), z3.If(Y > 0, -((-X) / Y), (-X) / (-Y)))
            if op == '/': return chk(q, None, None)
            return IntV(X - q * Y, w, s)
        if op in '&|^': return self.bitint(op, a, b, w, s)
        raise Unsupported('binop ' + op)
    def zi(self, t): return z3.IntVal(t) if isc(t) else t
    def bitint(self, op, a, b, w, s):
        if isc(a.t): a, b = b, a
        nonneg = a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0
        if isc(b.t):
            c = b.t
            if c < 0 and w: c = c & ((1 << w) - 1)
            if not (a.lo is not None and a.lo >= 0):
                x = a.t % (1 << w) if w else None
                if x is None: raise Unsupported('bit op on negative bigint')
            else: x = a.t
            hi = a.hi
            an = self.andconst(x, c, hi)
            if op == '&': r = an; rl, rh = 0, c if hi is None else min(c, hi)
            elif op == '|': r = x + c - an; rl, rh = c, None if hi is None else (1 << max(hi.bit_length(), c.bit_length())) - 1
            else: r = x + c - 2 * an; rl, rh = 0, None if hi is None else (1 << max(hi.bit_length(), c.bit_length())) - 1
            if s and w: return self.wrap(r, None, None, w, s) if (rh is None or rh >= 1 << (w - 1)) else IntV(r, w, s, rl, rh)
            return IntV(r, w, s, rl, rh)
        if op in '|^':
            # disjoint bits: one is a multiple of 2^k, the other in [0, 2^k)  (two's complement: also for negative multiples)
            for x, y in ((a, b), (b, a)):
                ks = [y.hi.bit_length()] if y.hi is not None and y.lo is not None and y.lo >= 0 else []
                if not ks or ks[0] > 4: ks.append(4)
                if not ((x.lo is not None and x.lo >= 0) or (w and x.w and x.w <= w and s)): continue
                for k in ks:
                    inb = y.lo is not None and y.lo >= 0 and y.hi is not None and y.hi < 1 << k
                    if self.p.holds(land(self.zi(x.t) % (1 << k) == 0, True if inb else z3.And(y.t >= 0, y.t < 1 << k))):
                        yh = y.hi if inb else (1 << k) - 1
                        return self.wrap(x.t + y.t, None if x.lo is None else x.lo, None if x.hi is None else x.hi + yh, w, s)
        if nonneg and a.hi is not None and b.hi is not None:
            k = max(a.hi, b.hi).bit_length()
            if k <= 64:
                x, y = z3.Int2BV(a.t, k), z3.Int2BV(b.t, k)
                r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
                return IntV(z3.BV2Int(r), w, s, 0, (1 << k) - 1)
        f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op] + str(w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.p.abstract = True
        return IntV(f(a.t, b.t), w, s)
    def andconst(self, x, c, hi):
        """x & c for x >= 0, constant c >= 0"""
        if hi is not None: c &= (1 << hi.bit_length()) - 1
        if c == 0: return z3.IntVal(0)
        res = None; i = 0
        while c >> i:
            if not (c >> i) & 1: i += 1; continue
            j = i
            while (c >> j) & 1: j += 1
            t = x
            if i: t = t / (1 << i)
            if hi is None or hi >> j: t = t % (1 << (j - i))
            if i: t = t * (1 << i)
            res = t if res is None else res + t
            i = j
        return res
    def shift(self, op, a, b, w, s):
        if isc(b.t):
            k = b.t
            if k < 0 or (w and k >= w and w <= 64): self.p.prove('shift-in-range', False)
            if isc(a.t): return IntV(self.wrapc(a.t << k if op == '<<' else a.t >> k, w, s), w, s)
            if self.mode == 'bv':
                W = w or 520
                x = self.bvt(a, W)
                if k >= W: return IntV(0, w, s)
                return self.mkint(x << k if op == '<<' else (x >> k if s else z3.LShR(x, k)), w, s)
            if op == '<<': return self.wrap(a.t * (1 << k), None if a.lo is None else a.lo << k, None if a.hi is None else a.hi << k, w, s)
            return IntV(idiv(a.t, 1 << k) if a.lo is not None and a.lo >= 0 else a.t / (1 << k), w, s, None if a.lo is None else a.lo >> k, None if a.hi is None else a.hi >> k)
        if self.mode == 'bv':
            W = w or 520
            x = self.bvt(a, W); y = self.bvt(b, W) if b.w <= W else self.bvt(b, W)
            if w and w <= 64: self.p.prove('shift-in-range', z3.ULT(self.bvt(b), w))
            return self.mkint(x << y if op == '<<' else (x >> y if s else z3.LShR(x, y)), w, s)
        # symbolic shift amount with small range: case split on value
        if b.lo is not None and b.hi is not None and b.hi - b.lo <= 256:
            r = None
            for k in range(b.hi, b.lo - 1, -1):
                if w and w <= 64 and k >= w: 
                    self.p.prove('shift-in-range', b.t != k); continue
                e = self.shift(op, a, IntV(k, b.w, b.s), w, s)
                r = e if r is None else self.vite(b.t == k, e, r)
            return r
        raise Unsupported('symbolic shift')
    def icmp(self, op, a, b):
        """a,b IntV of the same type"""
        if isc(a.t) and isc(b.t):
            x, y = a.t, b.t
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if self.mode == 'bv':
            w = max(a.w or 520, b.w or 520); s = a.s
            x, y = self.bvt(a, w), self.bvt(b, w)
            if op == '==': return x == y
            if op == '!=': return x != y
            if s: return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            return {'<': z3.ULT(x, y), '<=': z3.ULE(x, y), '>': z3.UGT(x, y), '>=': z3.UGE(x, y)}[op]
        al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
        def iv(lt, le):  # interval decisions
            return None
        if op in ('<', '>='):
            if ah is not None and bl is not None and ah < bl: return op == '<'
            if al is not None and bh is not None and al >= bh: return op == '>='
        if op in ('<=', '>'):
            if ah is not None and bl is not None and ah <= bl: return op == '<='
            if al is not None and bh is not None and al > bh: return op == '>'
        if op in ('==', '!='):
            if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh): return op == '!='
        x, y = a.t, b.t
        if same(x, y): return op in ('==', '<=', '>=')
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    # index-domain helpers (64-bit): raw terms
    def ix(self, v):
        """IntV -> raw index term"""
        if isc(v.t): return v.t
        return self.bvt(v, 64) if self.mode == 'bv' else v.t
    def size_t(self, n): return n if isinstance(n, IntV) else (IntV(n, 64, False) if isc(n) or self.mode == 'bv' else IntV(n, 64, False, 0, (1 << 63) - 1))
    def tadd(self, a, b):
        if isc(a) and isc(b): return a + b
        a, b = self.lift2(a, b); 
        if isc(b) and b == 0: return a
        if isc(a) and a == 0: return b
        return a + b
    def tsub(self, a, b):
        if isc(a) and isc(b): return a - b
        if isc(b) and b == 0: return a
        if same(a, b): return 0
        a, b = self.lift2(a, b); return a - b
    def tle(self, a, b):
        if isc(a) and isc(b): return a <= b
        if same(a, b): return True
        a, b = self.lift2(a, b); return z3.ULE(a, b) if self.mode == 'bv' else a <= b
    def tlt(self, a, b):
        if isc(a) and isc(b): return a < b
        if same(a, b): return False
        a, b = self.lift2(a, b); return z3.ULT(a, b) if self.mode == 'bv' else a < b
    # ------------------------------------------------------------------ fresh values
    def fresh_int(self, name, w, s):
        nm = self.p.fresh(name)
        if self.mode == 'bv': return IntV(z3.BitVec(nm, w or self.cfg.get('bigw', 520)), w, s)
        t = z3.Int(nm); lo, hi = trange(w, s)
        if lo is not None: self.p.assume(t >= lo)
        if hi is not None: self.p.assume(t <= hi)
        return IntV(t, w, s)
    def fresh_bool(self, name): return z3.Bool(self.p.fresh(name))
    def fresh_seq(self, name, w=8, s=False, maxlen=None, et=None, n=None, kind='vec'):
        """fresh sequence of integers"""
        nm = self.p.fresh(name)
        if self.mode == 'bv':
            arr = z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(w)); 
            if n is None: n = z3.BitVec(nm + '.n', 64); self.p.assume(z3.ULE(n, maxlen if maxlen is not None else (1 << 62)))
            def get(i): return IntV(z3.Select(arr, z3.BitVecVal(i, 64) if isc(i) else i), w, s)
        else:
            f = z3.Function(nm, z3.IntSort(), z3.IntSort()); lo, hi = trange(w, s)
            if n is None: n = z3.Int(nm + '.n'); self.p.assume(land(n >= 0, n <= (maxlen if maxlen is not None else (1 << 62))))
            cache = {}
            def get(i):
                t = f(z3.IntVal(i) if isc(i) else i); k = t.sexpr() if False else t.get_id()
                if (k, len(self.p.pc) and id(self.p)) not in cache:
                    cache[(k, len(self.p.pc) and id(self.p))] = 1
                    if lo is not None: self.p.assume(t >= lo)
                    if hi is not None: self.p.assume(t <= hi)
                return IntV(t, w, s)
        return SeqV(n, get, et, kind)
    def fresh_like(self, v, name='h'):
        if isinstance(v, dict): return self.fresh_type(v, name)
        if isinstance(v, int) and not isinstance(v, bool): return self.fresh_type(self.T[v], name)
        if isinstance(v, IntV): return self.fresh_int(name, v.w, v.s)
        if isinstance(v, (bool, z3.BoolRef)): return self.fresh_bool(name)
        if isinstance(v, RecV): return RecV(v.qn, {k: self.fresh_like(x, name + '.' + k) for k, x in v.f.items()})
        if isinstance(v, SeqV):
            sample = None
            if v.et is not None:
                t = self.T[v.et]
                if t['k'] == 'int': return self.fresh_seq(name, t['w'], t['sg'], et=v.et, kind=v.kind)
                iv = self.as_bigint(t)
                if iv: return self.fresh_seq(name, iv[0], iv[1], et=v.et, kind=v.kind)
            else:
                try: sample = v.get(z3.BitVecVal(0, 64) if self.mode == 'bv' else z3.IntVal(0))
                except Exception: pass
                if isinstance(sample, IntV): return self.fresh_seq(name, sample.w, sample.s, kind=v.kind)
            raise Unsupported('havoc of sequence with unknown element type')
        if isinstance(v, FnV) and self.cfg.get('havoc_fn'): return self.cfg['havoc_fn'](v)
        if isinstance(v, TermV): return TermV(z3.Const(self.p.fresh(name), v.t.sort()), v.kind)
        if isinstance(v, OptV): return OptV(self.fresh_bool(name), self.fresh_like(v.v if v.v is not None else v.vt, name), v.vt)
        if isinstance(v, PtrV):
            if v.loc is None: raise Unsupported('havoc null pointer')
            if v.off is None: raise Unsupported('havoc object pointer')
            return PtrV(v.loc, self.fresh_idx(name), v.null)
        if isinstance(v, OpaqueV): return v
        raise Unsupported('havoc %r' % (v,))
    def fresh_type(self, t, name):
        k = t['k']
        if k == 'int': return self.fresh_int(name, t['w'], t['sg'])
        if k == 'bool': return self.fresh_bool(name)
        if k == 'enum': return self.fresh_int(name, t.get('w', 32), t.get('sg', False))
        iv = self.as_bigint(t)
        if iv: return self.fresh_int(name, *iv)
        if k == 'rec':
            h = self.cfg.get('fresh', {}).get(t['qn'])
            if h: return h(self, t, name)
            if t['qn'] in ('std::vector', 'std::__cxx11::basic_string', 'std::basic_string'): 
                et = t['args'][0]['t']; e = self.T[et]
                iv = (e['w'], e['sg']) if e['k'] == 'int' else self.as_bigint(e)
                if iv: return self.fresh_seq(name, iv[0], iv[1], et=et, kind='str' if 'string' in t['qn'] else 'vec')
                return self.fresh_objseq(name, et)
            if t['qn'] == 'dev::FixedHash': return self.fresh_hash(t, name)
            if t['qn'] == 'std::array':
                et = t['args'][0]['t']; e = self.T[et]; n = int(t['args'][1]['v'])
                return self.fresh_seq(name, e['w'], e['sg'], et=et, n=n, kind='arr')
            if t['qn'] == 'std::pair':
                return RecV('std::pair', {'first': self.fresh_type(self.T[t['args'][0]['t']], name + '.first'), 'second': self.fresh_type(self.T[t['args'][1]['t']], name + '.second')})
            if t['qn'] in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
                return self.fresh_map(t, name)
            if t['qn'] in ('std::optional', 'boost::optional'): return OptV(self.fresh_bool(name + '.has'), self.fresh_type(self.T[t['args'][0]['t']], name), t['args'][0]['t'])
            if 'rec' in t:
                r = self.tu.records[str(t['rec'])]
                if r.get('repo') and 'fields' in r:
                    f = {}
                    for b in r['bases']:
                        bt = self.T[b]
                        if bt['k'] == 'rec':
                            bv = self.fresh_type(bt, name)
                            if isinstance(bv, RecV): f.update(bv.f)
                    for fd in r['fields']: f[fd['n']] = self.fresh_type(self.T[fd['t']], name + '.' + fd['n'])
                    return RecV(t['qn'], f)
            return OpaqueV(t['qn'])
        if k in ('ptr', 'ref', 'float', 'other', 'void', 'nullptr', 'fn'): return OpaqueV(t.get('s', k))
        if k == 'arr':
            e = self.T[t['of']]
            if e['k'] == 'int': return self.fresh_seq(name, e['w'], e['sg'], et=t['of'], n=t['n'], kind='arr')
            vs = [self.fresh_type(e, name + '[%d]' % i) for i in range(t['n'])]
            return self.seq_of(vs, t['of'], 'arr')
        raise Unsupported('fresh of %s' % t.get('s'))
    # hash-like opaque sorts ------------------------------------------------------------
    def fresh_hash(self, t, name):
        """dev::FixedHash<N>: by default one unsigned N*8-bit integer-like term in RecV-free form"""
        n = int(t['args'][0]['v'])
        if self.cfg.get('hash_bytes'):
            return RecV('dev::FixedHash', {'m_data': self.fresh_seq(name, 8, False, n=n, kind='arr', et=None)})
        return TermV(z3.Const(self.p.fresh(name), self.hash_sort(n)), 'hash%d' % n)
    def hash_sort(self, n): return z3.IntSort()
    def key_sorts(self, t):
        """z3 sorts encoding a key type"""
        k = t['k']
        if k == 'int' or k == 'enum': return [z3.BitVecSort(t['w']) if self.mode == 'bv' else z3.IntSort()]
        if k == 'bool': return [z3.BoolSort()]
        iv = self.as_bigint(t)
        if iv: return [z3.BitVecSort(iv[0] or 520) if self.mode == 'bv' else z3.IntSort()]
        if k == 'rec':
            if t['qn'] == 'dev::FixedHash' and not self.cfg.get('hash_bytes'): return [self.hash_sort(int(t['args'][0]['v']))]
            h = self.cfg.get('keysort', {}).get(t['qn'])
            if h: return [h]
            if t['qn'] == 'std::pair': return self.key_sorts(self.T[t['args'][0]['t']]) + self.key_sorts(self.T[t['args'][1]['t']])
        raise Unsupported('map key type %s' % t.get('s'))
    def key_terms(self, v):
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, IntV): return [self.bvt(v) if self.mode == 'bv' else self.zi(v.t)]
        if isinstance(v, (bool, z3.BoolRef)): return [B(v)]
        if isinstance(v, TermV): return [v.t]
        if isinstance(v, RecV) and v.qn == 'std::pair': return self.key_terms(v.f['first']) + self.key_terms(v.f['second'])
        raise Unsupported('map key %r' % (v,))
    def fresh_map(self, t, name):
        kt = t['args'][0]['t']; isset = t['qn'].endswith('set')
        vt = None if isset else t['args'][1]['t']
        ks = self.key_sorts(self.T[kt]); nm = self.p.fresh(name)
        H = z3.Function(nm + '.has', *ks, z3.BoolSort())
        sz = z3.Int(nm + '.size') if self.mode == 'int' else z3.BitVec(nm + '.size', 64)
        if self.mode == 'int': self.p.assume(sz >= 0); self.p.assume(sz < 1 << 62)
        val = None
        if vt is not None: val = self.fresh_fn(nm + '.val', ks, self.T[vt])
        def has(k):
            c = H(*self.key_terms(k))
            return c
        return MapV(has, val, kt, vt, 'set' if isset else 'map', sz)
    def fresh_fn(self, nm, ks, t):
        """fresh total function from keys to values of type t: returns python closure key->Value"""
        k = t['k']
        iv = (t['w'], t['sg']) if k in ('int', 'enum') else self.as_bigint(t)
        if iv:
            w, s = iv; so = z3.IntSort() if self.mode == 'int' else z3.BitVecSort(w or 520)
            f = z3.Function(nm, *ks, so); lo, hi = trange(w, s)
            def g(key):
                x = f(*self.key_terms(key))
                if self.mode == 'int':
                    if lo is not None: self.p.assume(x >= lo)
                    if hi is not None: self.p.assume(x <= hi)
                return IntV(x, w, s)
            return g
        if k == 'bool':
            f = z3.Function(nm, *ks, z3.BoolSort()); return lambda key: f(*self.key_terms(key))
        if k == 'rec':
            if t['qn'] == 'dev::FixedHash' and not self.cfg.get('hash_bytes'):
                f = z3.Function(nm, *ks, self.hash_sort(0)); n = int(t['args'][0]['v']); return lambda key: TermV(f(*self.key_terms(key)), 'hash%d' % n)
            h = self.cfg.get('fresh_fn', {}).get(t['qn'])
            if h: return h(self, nm, ks, t)
            h = self.cfg.get('keysort', {}).get(t['qn'])
            if h:
                f = z3.Function(nm, *ks, h); return lambda key: TermV(f(*self.key_terms(key)), t['qn'])
            if t['qn'] == 'std::pair':
                a = self.fresh_fn(nm + '.first', ks, self.T[t['args'][0]['t']]); b = self.fresh_fn(nm + '.second', ks, self.T[t['args'][1]['t']])
                return lambda key: RecV('std::pair', {'first': a(key), 'second': b(key)})
            if t['qn'] in ('std::optional', 'boost::optional'):
                H = z3.Function(nm + '.oh', *ks, z3.BoolSort()); a = self.fresh_fn(nm + '.ov', ks, self.T[t['args'][0]['t']])
                return lambda key: OptV(H(*self.key_terms(key)), a(key), t['args'][0]['t'])
            if t['qn'] in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
                isset = t['qn'].endswith('set'); kt = t['args'][0]['t']; ks2 = self.key_sorts(self.T[kt])
                H = z3.Function(nm + '.has', *ks, *ks2, z3.BoolSort()); vf = None if isset else self.fresh_fn(nm + '.v', ks + ks2, self.T[t['args'][1]['t']])
                def g(key):
                    kk = self.key_terms(key)
                    return MapV(lambda q: H(*kk, *self.key_terms(q)), None if isset else (lambda q: vf(_MK(kk + self.key_terms(q)))), kt, None if isset else t['args'][1]['t'], 'set' if isset else 'map', None)
                return g
            if t['qn'] in ('std::vector', 'std::__cxx11::basic_string', 'std::basic_string'):
                et = t['args'][0]['t']; e = self.T[et]
                N = z3.Function(nm + '.n', *ks, z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64)); ef = self.fresh_fn(nm + '.e', ks + [z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64)], e)
                def g(key):
                    kk = self.key_terms(key); n = N(*kk)
                    if self.mode == 'int': self.p.assume(n >= 0); self.p.assume(n < 1 << 62)
                    return SeqV(n, lambda i: ef(_MK(kk + [z3.IntVal(i) if isc(i) and self.mode == 'int' else (z3.BitVecVal(i, 64) if isc(i) else i)])), et, 'str' if 'string' in t['qn'] else 'vec')
                return g
            if 'rec' in t:
                r = self.tu.records[str(t['rec'])]
                if 'fields' in r and r.get('repo'):
                    fs = {fd['n']: self.fresh_fn(nm + '.' + fd['n'], ks, self.T[fd['t']]) for fd in self.all_fields(t)}
                    return lambda key: RecV(t['qn'], {n: g(key) for n, g in fs.items()})
        return lambda key: OpaqueV(t.get('s', 'opaque'))
    def all_fields(self, t):
        r = self.tu.records[str(t['rec'])]; out = []
        for b in r['bases']:
            bt = self.T[b]
            if bt['k'] == 'rec' and 'rec' in bt: out += self.all_fields(bt)
        return out + list(r.get('fields', []))
    def fresh_objseq(self, name, et):
        nm = self.p.fresh(name); isrt = z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64)
        n = z3.Int(nm + '.n') if self.mode == 'int' else z3.BitVec(nm + '.n', 64)
        if self.mode == 'int': self.p.assume(n >= 0); self.p.assume(n < 1 << 62)
        ef = self.fresh_fn(nm + '.e', [isrt], self.T[et])
        return SeqV(n, lambda i: ef(_MK([(z3.IntVal(i) if self.mode == 'int' else z3.BitVecVal(i, 64)) if isc(i) else i])), et, 'vec')
    def seq_of(self, vs, et=None, kind='vec'):
        vs = list(vs)
        def get(i):
            if isc(i):
                if 0 <= i < len(vs): return vs[i]
                return vs[-1] if vs else OpaqueV('oob')
            r = vs[-1] if vs else OpaqueV('oob')
            for j in range(len(vs) - 2, -1, -1): r = self.vite(self.teq(i, j), vs[j], r)
            return r
        return SeqV(len(vs), get, et, kind)
    def bytes_const(self, bs, kind='str', w=8, s=None):
        s = (kind == 'str') if s is None else s
        return self.seq_of([IntV(b - 256 if s and b > 127 else b, w, s) for b in bs], None, kind)
    def as_bigint(self, t):
        """(w, signed) for boost multiprecision integers"""
        if t['k'] != 'rec': return None
        q = t['qn']
        if q == 'boost::multiprecision::number':
            b = self.T[t['args'][0]['t']]
            if b['qn'].endswith('cpp_int_backend'):
                a = b['args']; mn, mx = int(a[0]['v']), int(a[1]['v']); un = int(a[2]['v']) == 0 if 'v' in a[2] else True
                # enum cpp_integer_type: signed_magnitude=1, unsigned_magnitude=0
                return (mx, not un)
        if q.startswith('boost::multiprecision::detail::expression'):
            best = None
            def walk(a):
                nonlocal best
                for x in a:
                    if 't' in x:
                        tt = self.T[x['t']]
                        r = self.as_bigint(tt) if tt['k'] == 'rec' else None
                        if r: best = r if best is None or r[0] == 0 else best
                    if 'p' in x: walk(x['p'])
            walk(t.get('args', []))
            return best or (0, True)
        return None
    # ------------------------------------------------------------------ defaults
    def default(self, ti, zero=True):
        t = self.T[ti]; k = t['k']
        if k in ('int', 'enum'): return IntV(0, t.get('w', 32), t.get('sg', False)) if zero else self.fresh_int('undef', t.get('w', 32), t.get('sg', False))
        if k == 'bool': return False if zero else self.fresh_bool('undef')
        if k in ('ptr', 'nullptr'): return NULL
        if k == 'arr': 
            d = self.default(t['of'], zero) if zero else None
            if not zero:
                e = self.T[t['of']]
                if e['k'] == 'int': return self.fresh_seq('undef', e['w'], e['sg'], et=t['of'], n=t['n'], kind='arr')
            d = self.default(t['of'])
            return SeqV(t['n'], lambda i: d, t['of'], 'arr')
        if k == 'float': return OpaqueV('float')
        if k == 'rec':
            iv = self.as_bigint(t)
            if iv: return IntV(0, *iv)
            m = self.cfg.get('defaults', {}).get(t['qn'])
            if m: return m(self, t)
            return self.default_rec(t, ti)
        return OpaqueV(t.get('s', k))
    def default_rec(self, t, ti):
        q = t['qn']
        if q in ('std::vector', 'std::deque', 'std::list'): return SeqV(0, lambda i: OpaqueV('oob'), t['args'][0]['t'], 'vec')
        if q in ('std::__cxx11::basic_string', 'std::basic_string'):
            return SeqV(0, lambda i: IntV(0, 8, True), t['args'][0]['t'], 'str')
        if q == 'std::array':
            n = int(t['args'][1]['v']); d = self.default(t['args'][0]['t']); return SeqV(n, lambda i: d, t['args'][0]['t'], 'arr')
        if q in ('std::map', 'std::unordered_map', 'std::multimap'): return MapV(lambda k: False, self.const_default(t['args'][1]['t']), t['args'][0]['t'], t['args'][1]['t'], 'map', 0)
        if q in ('std::set', 'std::unordered_set'): return MapV(lambda k: False, None, t['args'][0]['t'], None, 'set', 0)
        if q == 'std::pair': return RecV('std::pair', {'first': self.default(t['args'][0]['t']), 'second': self.default(t['args'][1]['t'])})
        if q in ('boost::optional', 'std::optional'): return OptV(False, None, t['args'][0]['t'])
        if q in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'): return NULL
        if q == 'std::function': return FnV(null=True)
        if q == 'std::atomic' and t.get('args'): return self.default(t['args'][0]['t'])
        if 'rec' in t:
            r = self.tu.records[str(t['rec'])]
            if r.get('repo') and 'fields' in r:
                # default-initialise by fields (constructor is run separately when user-provided)
                f = {}
                for b in r['bases']:
                    bt = self.T[b]
                    if bt['k'] == 'rec':
                        bv = self.default(b)
                        if isinstance(bv, RecV): f.update(bv.f)
                for fd in r['fields']:
                    f[fd['n']] = self.default(fd['t'], True)
                rv = RecV(q, f)
                for fd in r['fields']:
                    if 'init' in fd: rv.f[fd['n']] = self.val(self.coerce(self.ev(fd['init'], __import__('evalx').Frame({'qn': '(init)', 'params': []}, None)), fd['t']))
                return rv
        return OpaqueV(q)
    def const_default(self, ti):
        d = []
        def f(k):
            if not d: d.append(self.default(ti))
            return d[0]
        return f
    def val(self, x): return self.read(x) if isinstance(x, Loc) else x.load(self) if hasattr(x, 'load') else x
    def coerce(self, v, ti):
        t = self.T[ti]
        if t['k'] in ('int', 'enum'):
            v = self.val(v)
            if isinstance(v, (bool, z3.BoolRef, IntV)): return self.conv(v, t.get('w', 32), t.get('sg', False))
        return v
class _MK:
    """ready-made key terms"""
    def __init__(self, ts): self.ts = ts
_old_key_terms = Interp.key_terms
def _kt(self, v):
    if isinstance(v, _MK): return v.ts
    return _old_key_terms(self, v)
Interp.key_terms = _kt
