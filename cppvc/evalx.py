"""expression / statement evaluation (mixed into Interp)"""
import z3
from core import *
from interp import Interp, NOOP_PREFIX

class Frame:
    __slots__ = ('env', 'this', 'fn', 'key', 'lambda_caps', 'loopn', 'ret', 'names')
    def __init__(s, fn, key): s.env = {}; s.this = None; s.fn = fn; s.key = key; s.lambda_caps = None; s.loopn = {}; s.ret = None; s.names = {}

def unparen(e): return e
class Eval:
    # ------------------------------------------------------------ expression dispatch
    def ev(self, e, fr):
        cv = e.get('cv')
        if cv is not None and not e.get('lv'):
            t = self.T[e['t']]
            v = int(cv)
            if t['k'] == 'bool': return bool(v)
            if t['k'] in ('int', 'enum'): return IntV(v, t.get('w', 32), t.get('sg', False))
        m = getattr(self, 'x_' + e['k'], None)
        if m is None: raise Unsupported('expr %s %s line %s' % (e['k'], e.get('cls', ''), e.get('l')))
        return m(e, fr)
    def rv(self, e, fr): return self.val(self.ev(e, fr))
    def lval(self, e, fr):
        v = self.ev(e, fr)
        return v if isinstance(v, Loc) else self.new(v)
    def x_Const(self, e, fr): raise Unsupported('non-constant literal')
    def x_Float(self, e, fr): return OpaqueV('float', e['fv'])
    def x_Str(self, e, fr):
        s = self.bytes_const(list(e['bytes']) + [0], 'arr', 8, True); return self.new(s, 'strlit')
    def x_Null(self, e, fr): return NULL
    def x_Predef(self, e, fr): return self.new(self.bytes_const([0], 'arr', 8, True), 'predef')
    def x_SrcLoc(self, e, fr): return OpaqueV('srcloc')
    def x_This(self, e, fr):
        f = fr
        return PtrV(f.this)
    def x_Mat(self, e, fr):
        v = self.ev(e['c'][0], fr)
        return v if isinstance(v, Loc) else self.new(v, 'mat')
    def x_Ref(self, e, fr):
        i = e['id']
        if i in fr.env: return fr.env[i]
        if fr.lambda_caps and i in fr.lambda_caps: return fr.lambda_caps[i]
        if i in self.statics: return self.statics[i]
        if 'g' in e: return self.global_loc(e['g'], e['qn'])
        raise Unsupported('unbound %s' % e['n'])
    def global_loc(self, g, qn):
        if g in self.globals: return self.globals[g]
        h = self.cfg.get('globals', {}).get(qn)
        gd = self.tu.globals.get(str(g), {})
        if h is not None:
            v = h(self, gd)
            if isinstance(v, Loc): self.globals[g] = v; return v
        elif 'init' in gd and gd.get('const', False) or qn in self.cfg.get('global_init', ()):
            fr = Frame({'qn': 'global ' + qn}, 'global'); v = self.construct_init(gd['init'], gd['t'], fr)
            if isinstance(v, Loc): self.globals[g] = v; return v
        elif self.T[gd['t']]['k'] in ('int', 'bool', 'enum') or (gd.get('repo') and qn not in self.cfg.get('opaque_globals', ())):
            v = self.fresh_type(self.T[gd['t']], 'g.' + qn)     # unknown initial global state
        else: v = OpaqueV('global ' + qn)
        self.globals[g] = self.new(v, 'g.' + qn); return self.globals[g]
    def x_FnRef(self, e, fr): return FnV(key=e['f']['key'], caps=None)
    def x_Member(self, e, fr):
        b = self.ev(e['c'][0], fr)
        if e['arrow']: b = self.deref(self.val(b))
        if isinstance(b, Loc): 
            v = None
            loc = b.f(e['n'])
            # reference-typed field: follow
            v = self.read(loc)
            if isinstance(v, _RefV): return v.loc
            return loc
        if isinstance(b, RecV):
            v = b.f[e['n']]; return v.loc if isinstance(v, _RefV) else v
        if isinstance(b, OpaqueV): return OpaqueV(b.name + '.' + e['n'])
        raise Unsupported('member %s of %r' % (e['n'], b))
    def deref(self, p):
        if isinstance(p, Loc): p = self.read(p)
        if isinstance(p, PtrV):
            if p.loc is None: self.p.prove('no-null-dereference', False); raise PathEnd()
            if p.null is not False: self.p.prove('no-null-dereference', lnot(p.null))
            if p.off is None: return p.loc
            return self.seqat(p.loc, p.off)
        if isinstance(p, OpaqueV): return OpaqueV(p.name + '*')
        if isinstance(p, MIterV): return self.miter_deref(p)
        if isinstance(p, WideV): return self.wide_read(p, IntV(0, 64, False))
        if isinstance(p, HashPtrV): return HashRef(p.p, p.n)
        if isinstance(p, OptV): raise Unsupported('deref opt value')
        raise Unsupported('deref %r' % (p,))
    def seqat(self, loc, off, what='index-in-bounds'):
        s = self.read(loc)
        if not isinstance(s, SeqV): 
            if isc(off) and off == 0: return loc
            raise Unsupported('element of %r' % (s,))
        self.p.prove(what, self.inrange(off, s.n))
        return loc.i(off)
    def x_Index(self, e, fr):
        a = self.ev(e['c'][0], fr); i = self.rv(e['c'][1], fr)
        if isinstance(i, PtrV): a, i = i, a
        a = self.val(a)
        if isinstance(a, PtrV):
            if a.null is not False: self.p.prove('no-null-dereference', lnot(a.null))
            return self.seqat(a.loc, self.tadd(a.off if a.off is not None else 0, self.ix(i)))
        if isinstance(a, SeqV): 
            self.p.prove('index-in-bounds', self.inrange(self.ix(i), a.n)); return a.get(self.ix(i))
        if isinstance(a, WideV): return self.wide_read(a, i)
        raise Unsupported('subscript %r' % (a,))
    def x_Cast(self, e, fr):
        ck = e['ck']; sub = e['c'][0]
        if ck == 'ToVoid': self.ev(sub, fr); return None
        if ck == 'NullToPointer': return NULL
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.ev(sub, fr)
        v = self.ev(sub, fr)
        if ck in ('LValueToRValue', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            v = self.val(v)
            if isinstance(v, IntV):
                t = self.T[e['t']]
                if t['k'] == 'int' and (t['w'] != v.w or t['sg'] != v.s): return self.conv(v, t['w'], t['sg'])
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
            if ck == 'LValueBitCast': return self.lvbitcast(v, e)
            return v
        if ck == 'ArrayToPointerDecay': return PtrV(v if isinstance(v, Loc) else self.new(v), 0)
        v = self.val(v)
        t = self.T[e['t']]
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'): return self.conv(v, t.get('w', 32), t.get('sg', False)) if t['k'] != 'bool' else self.tobool(v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return self.tobool(v)
        if ck == 'NullToMemberPointer': return FnV(null=True)
        if ck == 'BitCast':
            if isinstance(v, PtrV): return self.ptrcast(v, e)
            return v
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
            if ck == 'FloatingToIntegral':
                if isinstance(v, OpaqueV) and v.name == 'float' and v.data is not None and not hasattr(v.data, 'sort'): return IntV(int(v.data), t['w'], t['sg'])
                self.p.abstract = True; return self.fresh_int('ftoi', t['w'], t['sg'])
            if ck == 'IntegralToFloating' and isc(v.t): return OpaqueV('float', float(v.t))
            return OpaqueV('float')
        if ck in ('PointerToIntegral', 'IntegralToPointer'): raise Unsupported('pointer/int cast')
        raise Unsupported('cast ' + ck)
    def lvbitcast(self, v, e): return v
    def ptrcast(self, v, e):
        """reinterpretation of a byte pointer as a wider little-endian integer pointer (read-only view)"""
        st, tt = self.T[e['c'][0]['t']], self.T[e['t']]
        try: a, b = self.T[st['to']], self.T[tt['to']]
        except KeyError: return v
        if a.get('k') == 'int' and b.get('k') == 'int' and a['w'] == 8 and b['w'] > 8 and v.loc is not None and v.off is not None:
            return WideV(v, b['w'], b['sg'])
        if a.get('k') == 'int' and a['w'] == 8 and b.get('k') == 'rec' and b['qn'] == 'dev::FixedHash' and v.loc is not None and v.off is not None:
            return HashPtrV(v, int(next(x['v'] for x in b['args'] if 'v' in x)))
        return v
    def wide_read(self, p, i):
        k = p.w // 8; i = self.ix(i); base = self.tadd(p.p.off, self.tmulc(i, k)); s = self.read(p.p.loc)
        self.p.prove('index-in-bounds', self.tle(self.tadd(base, k), s.n))
        bs = [s.get(self.tadd(base, j)) for j in range(k)]
        if self.mode == 'bv': return self.mkint(z3.Concat(*[self.bvt(b) for b in reversed(bs)]), p.w, p.s)
        t = 0
        for j, b in enumerate(bs): t = t + (b.t if not b.s else ite(b.t < 0, b.t + 256, b.t)) * 256 ** j
        return IntV(t, p.w, False) if not p.s else self.wrap(t, 0, 2 ** p.w - 1, p.w, True)
    def tmulc(self, i, k): return i * k
    def tobool(self, v):
        v = self.val(v)
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, IntV):
            r = self.icmp('!=', v, IntV(0, v.w, v.s)); return r
        if isinstance(v, PtrV): return lnot(v.null)
        if isinstance(v, OptV): return v.has
        if isinstance(v, FnV): return not v.null if isinstance(v.null, bool) else lnot(v.null)
        if isinstance(v, TermV): return v.t != 0
        if isinstance(v, OpaqueV): self.p.abstract = True; return self.fresh_bool('opq.' + v.name)
        raise Unsupported('bool of %r' % (v,))
    def cond(self, e, fr, label=''):
        return self.p.branch(self.tobool(self.rv(e, fr)), label)
    def x_Unary(self, e, fr):
        op = e['op']; s = e['c'][0]; t = self.T[e['t']]
        if op == '&':
            v = self.ev(s, fr)
            if isinstance(v, FnV): return v
            if isinstance(v, Loc):
                if v.path and v.path[-1][0] == 'i': return PtrV(Loc(v.cell, v.path[:-1]), v.path[-1][1])
                return PtrV(v)
            raise Unsupported('address of rvalue')
        if op == '*':
            v = self.val(self.ev(s, fr))
            return self.deref(v)
        if op in ('++', '--'):
            loc = self.ev(s, fr); old = self.val(loc); nv = self.incr(old, 1 if op == '++' else -1, t if t['k'] != 'ref' else self.T[t['to']])
            self.write(loc, nv)
            return old if e['post'] else loc
        v = self.rv(s, fr)
        if op == '!': return lnot(self.tobool(v))
        if op == '+': return v
        if op == '-':
            return self.ibin('-', IntV(0, t['w'], t['sg']), self.conv(v, t['w'], t['sg']), t['w'], t['sg'])
        if op == '~': return self.bitnot(self.conv(v, t['w'], t['sg']))
        if op in ('__extension__', 'L'): return v
        raise Unsupported('unary ' + op)
    def bitnot(self, v):
        if isc(v.t): return IntV(self.wrapc(~v.t, v.w, v.s), v.w, v.s)
        if self.mode == 'bv': return self.mkint(~self.bvt(v), v.w, v.s)
        if v.s: return IntV(-1 - v.t, v.w, v.s, -1 - v.hi, -1 - v.lo)
        return IntV((1 << v.w) - 1 - v.t, v.w, v.s, (1 << v.w) - 1 - v.hi, (1 << v.w) - 1 - v.lo)
    def incr(self, old, d, t=None):
        if isinstance(old, IntV): return self.ibin('+' if d > 0 else '-', old, IntV(1, old.w, old.s), old.w, old.s, ub=old.w >= 32)
        if isinstance(old, PtrV): 
            return self.ptradd(old, d)
        if isinstance(old, MIterV): return self.miter_incr(old, d)
        if isinstance(old, OpaqueV): return old
        raise Unsupported('++ on %r' % (old,))
    def ptradd(self, p, d):
        """pointer + integer term d; stays within [0,n] of its sequence"""
        if p.loc is None:
            if isc(d) and d == 0: return p
            self.p.prove('no-arithmetic-on-null-pointer', d == 0 if not isc(d) else False); return p
        if p.off is None: raise Unsupported('arith on object pointer')
        off = self.tadd(p.off, d) if not (isc(d) and d < 0 and self.mode != 'bv') else self.tsub(p.off, -d)
        if self.mode == 'bv' and isc(d) and d < 0: off = self.tsub(p.off, -d)
        s = self.read(p.loc)
        if isinstance(s, SeqV) and self.cfg.get('ptr_checks', True):
            if p.null is False: self.p.prove('pointer-arithmetic-in-bounds', land(self.tle(0, off) if self.mode != 'bv' else True, self.tle(off, s.n)))
        return PtrV(p.loc, off, p.null)
    def x_Binary(self, e, fr):
        op = e['op']
        if op == ',': self.ev(e['c'][0], fr); return self.ev(e['c'][1], fr)
        if op == '&&':
            return self.cond(e['c'][1], fr) if self.cond(e['c'][0], fr) else False
        if op == '||':
            return True if self.cond(e['c'][0], fr) else self.cond(e['c'][1], fr)
        if op == '=':
            v = self.rv(e['c'][1], fr); loc = self.ev(e['c'][0], fr); self.write(loc, v); return loc
        a = self.rv(e['c'][0], fr); b = self.rv(e['c'][1], fr)
        return self.binop(op, a, b, self.T[e['t']])
    def binop(self, op, a, b, t):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, (PtrV, OpaqueV, FnV)) or isinstance(b, (PtrV, OpaqueV, FnV)): return self.ptrcmp(op, a, b)
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                if op in ('==', '!='): r = beq(a, b); return r if op == '==' else lnot(r)
                a = self.conv(a, 32, True); b = self.conv(b, 32, True)
            return self.icmp(op, a, b)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if isinstance(b, IntV) and op == '+': return self.ptradd(a, self.ix(b))
            if isinstance(a, IntV) and op == '+': return self.ptradd(b, self.ix(a))
            if isinstance(b, IntV) and op == '-':
                i = self.ix(b)
                if a.off is None: raise Unsupported('ptr -')
                off = self.tsub(a.off, i); s = self.read(a.loc)
                if isinstance(s, SeqV) and self.cfg.get('ptr_checks', True): self.p.prove('pointer-arithmetic-in-bounds', land(self.tle(0, off) if self.mode != 'bv' else self.tle(i, a.off)))
                return PtrV(a.loc, off, a.null)
            if op == '-':
                if a.loc is None and b.loc is None: return IntV(0, 64, True)
                if a.loc is None or b.loc is None or not self.sameloc(a.loc, b.loc): raise Unsupported('difference of unrelated pointers')
                d = self.tsub(a.off, b.off)
                return IntV(d, 64, True) 
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            if t['k'] in ('float',): return OpaqueV('float')
            raise Unsupported('arith on opaque')
        w, s = t.get('w', 32), t.get('sg', False)
        if op in ('<<', '>>'): return self.shift(op, self.conv(a, w, s), b, w, s)
        return self.ibin(op, self.conv(a, w, s), self.conv(b, w, s), w, s)
    def ptrcmp(self, op, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if op in ('==', '!='):
                r = self.ptreq(a, b); return r if op == '==' else lnot(r)
            if a.loc is not None and b.loc is not None and self.sameloc(a.loc, b.loc):
                x, y = a.off, b.off
                return {'<': self.tlt(x, y), '<=': self.tle(x, y), '>': self.tlt(y, x), '>=': self.tle(y, x)}[op]
            if a.loc is None and b.loc is None: return op in ('<=', '>=')
            # unrelated objects: unspecified order
            self.p.assumed_note = True
            return self.fresh_bool('ptrord')
        if isinstance(a, FnV) or isinstance(b, FnV):
            f = a if isinstance(a, FnV) else b
            r = f.null; return r if op == '==' else lnot(r)
        if (isinstance(a, OpaqueV) and a.name == 'float') or (isinstance(b, OpaqueV) and b.name == 'float'):
            self.p.abstract = True; return self.fresh_bool('fcmp')
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): self.p.abstract = True; return self.fresh_bool('opqcmp')
        raise Unsupported('compare %r %r' % (a, b))
    def x_CompAssign(self, e, fr):
        rhs = self.rv(e['c'][1], fr); loc = self.ev(e['c'][0], fr); old = self.val(loc); op = e['op'][:-1]
        t = self.T[self._tix(e['c'][0])]
        if isinstance(old, PtrV): nv = self.binop(op, old, rhs, t)
        elif isinstance(old, OpaqueV): nv = old
        else:
            ct = self.T[e['clt']] if op in ('<<', '>>') else self.T[e['ct']]
            if isinstance(old, (bool, z3.BoolRef)) or t['k'] == 'bool':
                r = self.binop(op, self.conv(old, 32, True), self.conv(rhs, 32, True), {'k': 'int', 'w': 32, 'sg': True}); nv = self.tobool(r)
            elif ct['k'] == 'float' or isinstance(rhs, OpaqueV): nv = self.fresh_int('fl', t['w'], t['sg']) if t['k'] == 'int' else OpaqueV('float')
            else:
                r = self.binop(op, self.conv(old, ct['w'], ct['sg']), rhs, ct); nv = self.conv(r, t['w'], t['sg'])
        self.write(loc, nv); return loc
    def _tix(self, e): return e['t']
    def x_Cond(self, e, fr):
        return self.ev(e['c'][1], fr) if self.cond(e['c'][0], fr) else self.ev(e['c'][2], fr)
    def x_Elvis(self, e, fr):
        v = self.ev(e['c'][0], fr)
        return v if self.p.branch(self.tobool(v)) else self.ev(e['c'][1], fr)
    def x_ValueInit(self, e, fr): return self.default(e['t'])
    def x_InitList(self, e, fr):
        t = self.T[e['t']]
        if t['k'] == 'arr':
            vs = [self.rv(c, fr) for c in e['c']]; n = t['n']
            if len(vs) < n:
                d = self.default(t['of']); vs += [d] * (n - len(vs))
            return self.seq_of(vs, t['of'], 'arr')
        if t['k'] in ('int', 'bool', 'enum', 'ptr', 'float'):
            return self.rv(e['c'][0], fr) if e['c'] else self.default(e['t'])
        if t['k'] == 'ref': return self.ev(e['c'][0], fr)
        if t['k'] == 'rec':
            if t['qn'] == 'std::array':
                inner = e['c'][0] if e['c'] else None
                if inner is None: return self.default(e['t'])
                v = self.rv(inner, fr); return SeqV(v.n, v.get, t['args'][0]['t'], 'arr') if isinstance(v, SeqV) else self.default(e['t'])
            if len(e['c']) == 1 and e['c'][0]['t'] == e['t']: return self.rv(e['c'][0], fr)
            if 'rec' in t:
                v = self.default(e['t']); r = self.tu.records[str(t['rec'])]; fs = r.get('fields', [])
                if isinstance(v, RecV):
                    f = dict(v.f); cs = list(e['c']); nb = len(r['bases'])
                    for c in cs[:nb] if len(cs) > len(fs) else []: self.ev(c, fr)
                    if len(cs) > len(fs): cs = cs[nb:]
                    for fd, c in zip(fs, cs): f[fd['n']] = self.bindfield(fd, c, fr)
                    return RecV(v.qn, f)
            return OpaqueV(t['qn'])
        raise Unsupported('init list of %s' % t.get('s'))
    def bindfield(self, fd, c, fr):
        t = self.T[fd['t']]
        if t['k'] == 'ref':
            l = self.ev(c, fr); l = l if isinstance(l, Loc) else self.new(l); return _RefV(l)
        return self.val(self.coerce(self.construct_init(c, fd['t'], fr), fd['t']))
    def x_StdInitList(self, e, fr):
        v = self.ev(e['c'][0], fr); v = self.val(v)
        return v if not isinstance(v, SeqV) else SeqV(v.n, v.get, v.et, 'initlist')
    def x_ArrayInitLoop(self, e, fr): return self.rv(e['c'][0], fr)
    def x_Throw(self, e, fr):
        if not e['c'] or e['c'][0] is None:
            if self.curexc: raise self.curexc[-1]
            raise Unsupported('rethrow')
        v = self.ev(e['c'][0], fr); t = self.T[e['c'][0]['t']]
        raise CxxThrow(self.excname(t), v)
    def excname(self, t):
        while t['k'] == 'ref': t = self.T[t['to']]
        return t.get('qn', t.get('s'))
    def x_New(self, e, fr):
        if e.get('isarr'): raise Unsupported('new[]')
        v = self.construct_init(e['c'][0], e['at'], fr) if e['c'] and e['c'][0] else self.default(e['at'])
        v = self.val(v)
        if e.get('place') is not None and not (isinstance(v, PtrV) and self.T[e['at']]['k'] == 'rec'):
            pl = self.val(self.ev(e['place'], fr))
            if not isinstance(pl, PtrV) or self.as_bigint(self.T[e['at']]) is None: raise Unsupported('placement new')
            self.write(self.deref(pl), v); return pl
        if isinstance(v, PtrV) and self.T[e['at']]['k'] == 'rec': return v      # a constructor contract that places the object itself
        return PtrV(self.new(v, 'heap'))
    def x_Delete(self, e, fr): self.ev(e['c'][0], fr); return None
    def x_Lambda(self, e, fr):
        caps = {}; this = None
        for c in e['caps']:
            if c.get('this'): this = fr.this
            elif c['ref']:
                l = fr.env.get(c['id']) or (fr.lambda_caps or {}).get(c['id'])
                if l is None: l = self.ev(c['e'], fr)
                caps[c['id']] = l if isinstance(l, Loc) else self.new(l)
            else:
                v = self.rv(c['e'], fr); caps[c['id']] = self.new(v)
        return FnV(key=e['call'], caps=(caps, this, e.get('generic', [])))
    def x_InhCtor(self, e, fr): return self.default(e['t'])
    def x_Unsup(self, e, fr): raise Unsupported('expr class %s line %s' % (e.get('cls'), e.get('l')))
    def construct_init(self, e, ti, fr):
        """evaluate initialiser e for an object/variable of type ti"""
        v = self.ev(e, fr)
        return v
    # ------------------------------------------------------------ calls
    def x_Construct(self, e, fr):
        f = e['f']; t = self.T[f['cls']]
        if f.get('copy') and not t.get('lambda'):
            src = self.ev(e['c'][0], fr)
            h = self.models.get(f['qn'] + '(copy)') 
            if h: return h(self, e, fr, [src])
            v = self.val(src)
            if isinstance(v, _RefV): v = self.read(v.loc)
            if f['qn'] == 'std::unique_ptr::(ctor)' and isinstance(src, Loc): self.write(src, NULL)   # unique_ptr only moves
            fn = self.tu.funcs.get(f['key'])
            if fn and fn.get('body') and not fn.get('defaulted'):
                return self.run_ctor(f, fn, t, f['cls'], [src])
            return v
        iv = self.as_bigint(t)
        if iv is not None: return self.ctor_bigint(iv, e, fr)
        h = self.find_model(f['qn'])
        if h: return h(self, e, fr, [self.ev(a, fr) for a in e['c']])
        if t.get('lambda'): return self.val(self.ev(e['c'][0], fr))
        fn = self.tu.funcs.get(f['key'])
        if fn and ('body' in fn or fn.get('ctor')) and not fn.get('ext'):
            args = [self.ev(a, fr) for a in e['c']]
            return self.run_ctor(f, fn, t, f['cls'], args)
        h = self.cfg.get('ctor_default', {}).get(t['qn'])
        if f.get('dflt'): return self.default(f['cls'])
        if h: return h(self, e, fr, [self.ev(a, fr) for a in e['c']])
        for a in e['c']: self.ev(a, fr)
        if fn and fn.get('nobody') and t['k'] == 'rec' and 'rec' in t and self.tu.records[str(t['rec'])].get('repo'):
            raise Unsupported('constructor without body: ' + f['qn'])
        return OpaqueV(t['qn'])
    def run_ctor(self, f, fn, t, cls, args):
        self.p.ex.inlined.add(f['qn'])
        loc = self.new(self.default(cls), 'obj')
        self.init_object(loc, fn, f, args)
        return self.read(loc)
    def init_object(self, loc, fn, f, args):
        fr = Frame(fn, f['key']); fr.this = loc
        self.bind_params(fr, fn, args)
        self.enter(fr)
        try:
            for i in fn.get('inits', []):
                if 'f' in i:
                    t = self.ftype(loc, fn, i['f'])
                    v = self.ev(i['e'], fr)
                    if t is not None and self.T[t]['k'] == 'ref': v = _RefV(v if isinstance(v, Loc) else self.new(v))
                    else:
                        v = self.val(v)
                        if t is not None: v = self.coerce(v, t)
                    self.write(loc.f(i['f']), v)
                elif 'b' in i:
                    bv = self.val(self.ev(i['e'], fr))
                    if isinstance(bv, RecV):
                        cur = self.read(loc)
                        if isinstance(cur, RecV): self.write(loc, RecV(cur.qn, {**cur.f, **bv.f}))
                elif 'd' in i:
                    v = self.val(self.ev(i['e'], fr)); self.write(loc, v)
            if fn.get('body'):
                try: self.st(fn['body'], fr)
                except ReturnE: pass
        finally: self.leave(fr)
    def ftype(self, loc, fn, name):
        t = self.T[fn['cls']]
        if 'rec' in t:
            for fd in self.all_fields(t):
                if fd['n'] == name: return fd['t']
        return None
    def bind_params(self, fr, fn, args):
        ps = fn['params']
        for i, p in enumerate(ps):
            t = self.T[p['t']]; fr.names[p['n']] = p['id']
            if i >= len(args): raise Unsupported('missing argument')
            a = args[i]
            if t['k'] == 'ref':
                fr.env[p['id']] = a if isinstance(a, Loc) else self.new(a, p['n'])
            else:
                v = self.val(a)
                if isinstance(v, _RefV): v = self.read(v.loc)
                fr.env[p['id']] = self.new(self.coerce(v, p['t']), p['n'])
    def enter(self, fr):
        self.callstack.append(fr)
        if len(self.callstack) > self.max_depth: raise Undecided('call depth')
    def leave(self, fr): self.callstack.pop()
    def find_model(self, qn):
        h = self.contracts.get(qn)
        if h is not None: self.p.ex.contracted.add(qn); return h
        return self.models.get(qn)
    def is_noop(self, qn): return any(qn.startswith(x) for x in self.noop)
    def x_Call(self, e, fr):
        f = e.get('f')
        if f is None:
            c = self.val(self.ev(e['callee'], fr))
            return self.call_value(c, [self.ev(a, fr) for a in e['c']], e)
        return self.dispatch(f, e, fr, e['c'])
    def dispatch(self, f, e, fr, argexprs):
        qn = f['qn']
        if self.is_noop(qn): return OpaqueV('noop')
        h = self.find_model(qn)
        if h is not None: return h(self, e, fr, [self.ev(a, fr) for a in argexprs])
        args = [self.ev(a, fr) for a in argexprs]
        return self.call_fn(f, args, e)
    def x_MCall(self, e, fr):
        f = e.get('f')
        if f is None:
            if 'mp' not in e: raise Unsupported('member pointer call')
            ob = self.ev(e['c'][0], fr); ob = self.deref(self.val(ob)) if e.get('arrow') else ob; m = self.val(self.ev(e['mp'], fr))
            if not isinstance(m, FnV): raise Unsupported('member pointer call')
            self.p.prove('member pointer is not null', B(lnot(m.null)))
            if m.py: return m.py(self, ob, *[self.ev(a, fr) for a in e['c'][1:]])
            fn = self.tu.funcs.get(m.key); qn = fn['qn']; h = self.find_model(qn); args = [ob] + [self.ev(a, fr) for a in e['c'][1:]]
            return h(self, e, fr, args) if h is not None else self.call_fn({'key': m.key, 'qn': qn}, args, e)
        qn = f['qn']
        if self.is_noop(qn): return OpaqueV('noop')
        ob = self.ev(e['c'][0], fr)
        if e.get('arrow'):
            pv = self.val(ob)
            if isinstance(pv, PtrV): ob = self.deref(pv)
            elif isinstance(pv, OpaqueV): ob = OpaqueV(pv.name + '*')
            elif isinstance(pv, (OptV, MIterV)): ob = self.deref(pv)
        h = self.find_model(qn)
        if h is not None: return h(self, e, fr, [ob] + [self.ev(a, fr) for a in e['c'][1:]])
        args = [self.ev(a, fr) for a in e['c'][1:]]
        if f.get('static'): return self.call_fn(f, args, e)
        if f.get('virt') and not e.get('qual'):
            ov = self.val(ob) 
            if isinstance(ov, RecV) and ov.qn != self.T[f['cls']]['qn']:
                name = f['qn'].rsplit('::', 1)[-1]
                q2 = ov.qn + '::' + name
                h = self.find_model(q2)
                if h is not None: return h(self, e, fr, [ob] + args)
                ks = [k for k in self.tu.byqn.get(q2, []) if len(self.tu.funcs[k].get('params', [])) == len(args)]
                if len(ks) == 1: f = {**f, 'key': ks[0], 'qn': q2}
        return self.call_fn(f, [ob] + args, e)
    def x_OpCall(self, e, fr):
        f = e.get('f')
        if f is None: raise Unsupported('operator without callee')
        qn = f['qn']
        if self.is_noop(qn): return OpaqueV('noop')
        h = self.find_model(qn)
        ts = [self._strip(a['t']) for a in e['c']]
        if h is None and any(self.as_bigint(t) is not None for t in ts) and e['oper'] in BIGOPS and not any(t['k'] == 'rec' and self.as_bigint(t) is None and not (t['qn'] == 'dev::FixedHash' and qn.startswith('boost::')) for t in ts):
            return self.bigop(e, fr)
        if h is not None: return h(self, e, fr, [self.ev(a, fr) for a in e['c']])
        args = [self.ev(a, fr) for a in e['c']]
        if e['oper'] == '()' and isinstance(self.val(args[0]), FnV): return self.call_value(self.val(args[0]), args[1:], e)
        if f.get('asg'):
            fn = self.tu.funcs.get(f['key'])
            if not fn or fn.get('defaulted') or not fn.get('body'):
                self.write(args[0], self.val(args[1])); return args[0]
        if any(isinstance(self.val(a), OpaqueV) for a in args) and e['oper'] in ('<<', '>>') and 'body' not in self.tu.funcs.get(f['key'], {}): return args[0]
        if isinstance(self.val(args[0]), PTRLIKE) or (len(args) > 1 and isinstance(self.val(args[1]), PTRLIKE)):
            fn = self.tu.funcs.get(f['key'])
            if not fn or 'body' not in fn or fn.get('ext'): return self.opcall(e, fr, args)
        return self.call_fn(f, args, e)
    def _strip(self, ti):
        t = self.T[ti]
        while t['k'] == 'ref': t = self.T[t['to']]
        return t
    def call_value(self, c, args, e=None):
        if isinstance(c, Loc): c = self.read(c)
        if isinstance(c, FnV):
            if c.py: return c.py(self, args)
            if c.null is True: raise CxxThrow('std::bad_function_call')
            fn = self.tu.funcs.get(c.key)
            if c.caps is None: return self.call_fn({'key': c.key, 'qn': fn['qn']}, args, e)
            caps, this, gen = c.caps
            if 'body' not in fn and gen:
                for g in gen:
                    if 'body' in self.tu.funcs.get(g, {}): fn = self.tu.funcs[g]; break
            fr = Frame(fn, c.key); fr.this = this; fr.lambda_caps = caps
            self.bind_params(fr, fn, args)
            return self.run(fr, fn)
        if isinstance(c, OpaqueV): self.p.abstract = True; return OpaqueV('call ' + c.name)
        raise Unsupported('call of %r' % (c,))
    def call_fn(self, f, args, e=None):
        """args[0] is the object for non-static methods"""
        key = f['key']; fn = self.tu.funcs.get(key)
        if fn is None or 'body' not in fn or fn.get('ext'):
            if fn and fn.get('defaulted'): 
                if f.get('asg'): self.write(args[0], self.val(args[1])); return args[0]
                return OpaqueV('defaulted')
            raise Unsupported('call to %s (no body, no model) line %s' % (f['qn'], e.get('l') if e else '?'))
        self.p.ex.inlined.add(f['qn'])
        fr = Frame(fn, key)
        if 'cls' in fn and not fn.get('static') and not fn.get('lambda'):
            ob = args[0]; args = args[1:]
            fr.this = ob if isinstance(ob, Loc) else self.new(ob, 'this')
        elif fn.get('lambda'):
            raise Unsupported('direct lambda call')
        self.bind_params(fr, fn, args)
        return self.run(fr, fn)
    def run(self, fr, fn):
        if sum(1 for x in self.callstack if x.key == fr.key) > self.cfg.get('recursion', 8): raise Undecided('recursion of ' + fn['qn'])
        self.enter(fr)
        try:
            self.st(fn['body'], fr); r = None
        except ReturnE as x: r = x.v
        finally: self.leave(fr)
        rt = self.T[fn['ret']]
        if rt['k'] == 'void': return None
        if rt['k'] == 'ref': return r
        r = self.val(r)
        return self.coerce(r, fn['ret']) if r is not None else r
    # ------------------------------------------------------------ bigint operators
    def tobig(self, v):
        v = self.val(v)
        if isinstance(v, (bool, z3.BoolRef)): return self.conv(v, 32, False)
        if isinstance(v, TermV): return IntV(v.t, int(v.kind[4:]) * 8 if v.kind.startswith('hash') else 0, False)
        return v
    def ctor_bigint(self, iv, e, fr):
        if not e['c']: return IntV(0, *iv)
        v = self.val(self.ev(e['c'][0], fr))
        if isinstance(v, (SeqV, PtrV)): return self.parse_bigint(v, iv, e, fr)
        if isinstance(v, OpaqueV): self.p.abstract = True; return self.fresh_int('big', *iv)
        return self.tobigt(v, iv)
    def parse_bigint(self, v, iv, e, fr):
        h = self.find_model('boost::multiprecision::number::(ctor string)')
        if h: return h(self, e, fr, [v, iv])
        raise Unsupported('bigint from string')
    def tobigt(self, v, iv):
        v = self.tobig(v)
        if not isinstance(v, IntV): raise Unsupported('to bigint %r' % (v,))
        return self.conv(v, *iv)
    def bigop(self, e, fr):
        op = e['oper']; t = self._strip(e['t']); rt = self.as_bigint(t)
        cs = e['c']
        if op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
            b = self.val(self.ev(cs[1], fr)); loc = self.ev(cs[0], fr); iv = self.as_bigint(self._strip(cs[0]['t']))
            if iv is None: raise Unsupported('compound assign to non-bigint')
            if op == '=':
                self.write(loc, self.tobigt(b, iv)); return loc
            a = self.val(loc); o = op[:-1]
            if o in ('<<', '>>'): r = self.bigshift(o, a, b, iv)
            else:
                b = self.tobig(b)
                if iv[0] and (b.w == 0 or b.w > iv[0]): r = self.conv(self.bigbin(o, self.conv(a, 0, True), self.conv(b, 0, True), (0, True)), *iv)
                else:
                    # negative small operand on an unsigned number: boost computes modulo
                    r = self.bigbin(o, a, self.conv(b, *iv), iv)
            self.write(loc, r); return loc
        if op in ('++', '--'):
            loc = self.ev(cs[0], fr); a = self.val(loc); r = self.bigbin('+' if op == '++' else '-', a, IntV(1, a.w, a.s), (a.w, a.s)); self.write(loc, r)
            return a if len(cs) == 2 else loc
        if len(cs) == 1:
            a = self.tobig(self.ev(cs[0], fr))
            if op == '-':
                iv = rt or (a.w, a.s); return self.bigbin('-', IntV(0, *iv), self.conv(a, *iv), iv)
            if op == '~': return self.bitnot(a)
            if op == '!': return lnot(self.tobool(a))
            if op == '+': return a
        a = self.tobig(self.ev(cs[0], fr)); b = self.tobig(self.ev(cs[1], fr))
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.bigcmp(op, a, b)
        if rt is None: raise Unsupported('bigint op %s' % op)
        if op in ('<<', '>>'): return self.bigshift(op, self.conv(a, *rt), b, rt)
        return self.bigbin(op, self.conv(a, *rt), self.conv(b, *rt), rt)
    def bigcmp(self, op, a, b):
        if self.mode == 'bv':
            # compare in a width that holds both
            W = max(a.w or 520, b.w or 520) + 1
            x = IntV(self.bvt(a, W), W, True) if not isc(a.t) else IntV(a.t, W, True)
            y = IntV(self.bvt(b, W), W, True) if not isc(b.t) else IntV(b.t, W, True)
            return self.icmp(op, x, y)
        return self.icmp(op, a, b)
    def bigbin(self, op, a, b, iv):
        w, s = iv
        if op in '/%':
            z = self.icmp('==', b, IntV(0, b.w, b.s))
            if self.p.branch(z): raise CxxThrow('std::overflow_error')
        return self.ibin(op, a, b, w, s, ub=False)
    def bigshift(self, op, a, b, iv):
        w, s = iv
        if not isc(b.t) and self.mode == 'int' and not (b.hi is not None and b.hi - (b.lo or 0) <= 256):
            sh = self.cfg.get('bigshift')
            if sh: return sh(self, op, a, b, iv)
        return self.shift(op, a, b, w, s)
    # ------------------------------------------------------------ statements
    def st(self, s, fr):
        if s is None: return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('stmt %s %s line %s' % (k, s.get('cls'), s.get('l')))
        self.line = s.get('l')
        return m(s, fr)
    def s_Expr(self, s, fr): self.ev(s['e'], fr)
    def s_Null(self, s, fr): pass
    def s_Block(self, s, fr):
        want = self.cfg.get('dtors')
        if not want: return self.block(s, fr)
        try: r = self.block(s, fr)
        except (ReturnE, CxxThrow, BreakE, ContinueE): self.leave_block(s, fr, want); raise
        self.leave_block(s, fr, want); return r
    def leave_block(self, s, fr, want):
        """destructors of the classes named in cfg['dtors'], for the variables declared directly in the block, in reverse order"""
        for c in reversed(s['c']):
            for v in reversed(c['c'] if c and c.get('k') == 'Decl' else []):
                if v.get('id') not in fr.env: continue
                x = fr.env[v['id']]
                if not isinstance(x, Loc): continue
                o = self.read(x)
                if isinstance(o, RecV) and o.qn in want:
                    h = self.contracts.get(o.qn + '::(dtor)')
                    if h: h(self, None, fr, [x])
                    else:
                        k = [k for k in self.tu.byqn.get(o.qn + '::(dtor)', []) if 'body' in self.tu.funcs[k]]
                        if len(k) != 1: raise Unsupported('destructor of ' + o.qn)
                        self.call_fn({'key': k[0], 'qn': o.qn + '::(dtor)', 'cls': self.tu.funcs[k[0]].get('cls')}, [x])
                    del fr.env[v['id']]
    def block(self, s, fr):
        cs = s['c']; i = 0; jumps = 0
        while i < len(cs):
            try: self.st(cs[i], fr); i += 1
            except GotoE as g:
                j = next((n for n, c in enumerate(cs) if self.labelled(c, g.label)), None)
                if j is None: raise
                if j <= i: jumps += 1
                if jumps > 64: raise Undecided('backward goto')
                i = j
    def labelled(self, c, name):
        while c and c.get('k') == 'Label':
            if c['label'] == name: return True
            c = c['body']
        return False
    def s_Decl(self, s, fr):
        for v in s['c']: self.declare(v, fr)
    def declare(self, v, fr):
        t = self.T[v['t']]; fr.names[v['n']] = v['id']
        if v.get('static'):
            if v['id'] in self.statics: fr.env[v['id']] = self.statics[v['id']]; return
        if t['k'] == 'ref':
            x = self.ev(v['init'], fr); loc = x if isinstance(x, Loc) else self.new(x, v['n'])
        else:
            if t['k'] == 'rec' and self.is_noop(t['qn']): x = OpaqueV(t['qn'])
            elif 'init' in v and v['init'] is not None:
                x = self.construct_init(v['init'], v['t'], fr); x = self.val(x)
                x = self.coerce(x, v['t'])
            else: x = self.default(v['t'], zero=False if t['k'] in ('int', 'bool', 'arr', 'enum') else True)
            loc = self.new(x, v['n'])
        fr.env[v['id']] = loc
        if v.get('static'): self.statics[v['id']] = loc
        for b in v.get('bind', []):
            if 'e' in b:
                x = self.ev(b['e'], fr); fr.env[b['id']] = x if isinstance(x, Loc) else self.new(x)
            else:
                # tuple-like: pair/tuple element by position
                idx = v['bind'].index(b); base = loc
                fr.env[b['id']] = self.tuple_get(base, idx); fr.env[b.get('hv', -1)] = fr.env[b['id']]
    def tuple_get(self, loc, i):
        v = self.read(loc)
        if isinstance(v, RecV):
            n = ('first', 'second')[i] if v.qn == 'std::pair' else '_%d' % i
            x = v.f[n]
            if isinstance(x, _RefV): return x.loc
            return loc.f(n)
        raise Unsupported('structured binding of %r' % (v,))
    def s_If(self, s, fr):
        self.st(s.get('init'), fr)
        if s.get('cv'): self.st(s['cv'], fr)
        if self.cond(s['cond'], fr, 'if@%s' % s.get('l')): self.st(s['then'], fr)
        elif s.get('else'): self.st(s['else'], fr)
    def s_Return(self, s, fr):
        v = None
        if s.get('e') is not None:
            v = self.ev(s['e'], fr)
            if self.T[fr.fn['ret']]['k'] != 'ref': v = self.val(v)
        raise ReturnE(v)
    def s_Break(self, s, fr): raise BreakE()
    def s_Continue(self, s, fr): raise ContinueE()
    def s_Label(self, s, fr): self.st(s['body'], fr)
    def s_Goto(self, s, fr): raise GotoE(s['label'])
    def s_Switch(self, s, fr):
        self.st(s.get('init'), fr)
        v = self.rv(s['cond'], fr)
        body = s['body']['c'] if s['body']['k'] == 'Block' else [s['body']]
        while len(body) == 1 and body[0]['k'] == 'Block': body = body[0]['c']
        # flatten case labels
        flat = []
        for c in body:
            labels = []
            while c['k'] in ('Case', 'Default'):
                labels.append(c); c = c['body']
                if c is None: break
            flat.append((labels, c))
        start = None; dflt = None
        if isinstance(v, (bool, z3.BoolRef)): v = self.conv(v, 32, True)
        for i, (labels, c) in enumerate(flat):
            for l in labels:
                if l['k'] == 'Default': dflt = i; continue
                cv = self.ev(l['v'], fr)
                if 'v2' in l:
                    hi = self.ev(l['v2'], fr); cnd = land(self.icmp('>=', v, self.conv(cv, v.w, v.s)), self.icmp('<=', v, self.conv(hi, v.w, v.s)))
                else: cnd = self.icmp('==', v, self.conv(cv, v.w, v.s))
                if self.p.branch(cnd): start = i; break
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for labels, c in flat[start:]: self.st(c, fr)
        except BreakE: pass
    def s_Try(self, s, fr):
        n = len(self.callstack)
        try: self.st(s['body'], fr)
        except CxxThrow as x:
            del self.callstack[n:]
            for h in s['h']:
                if 't' not in h or self.catches(h['t'], x.tname):
                    if 'id' in h: fr.env[h['id']] = self.new(self.val(x.val) if x.val is not None else OpaqueV(x.tname), 'exc')
                    self.curexc.append(x)
                    try: self.st(h['body'], fr)
                    finally: self.curexc.pop()
                    return
            raise
    curexc = []
    def catches(self, ti, tname):
        t = self._strip(ti); want = t.get('qn', t.get('s'))
        return self.derives(tname, want)
    def derives(self, name, base):
        if name == base: return True
        if not hasattr(self.tu, 'basemap'):
            self.tu.basemap = {}
            for r in self.tu.records.values(): self.tu.basemap.setdefault(r['qn'], set()).update(self.T[b].get('qn', '') for b in r['bases'])
        bm = self.tu.basemap
        if name in bm: return any(self.derives(b, base) for b in bm[name])
        return any(self.derives(b, base) for b in STD_EXC.get(name, ()))
    # ------------------------------------------------------------ loops
    def s_For(self, s, fr):
        if self.is_log_loop(s): return
        self.st(s.get('init'), fr)
        self.loop(s, fr, s.get('cond'), s['body'], s.get('inc'), False, s.get('cv'))
    def is_log_loop(self, s):
        i = s.get('init')
        if i and i['k'] == 'Decl' and i['c']:
            t = self.T[i['c'][0]['t']]
            if t.get('qn', '').startswith('boost::log') : return True
        return False
    def s_While(self, s, fr): self.loop(s, fr, s['cond'], s['body'], None, False, s.get('cv'))
    def s_Do(self, s, fr): self.loop(s, fr, s['cond'], s['body'], None, True, None)
    def s_RangeFor(self, s, fr):
        self.st(s['range'], fr)
        rv = s['range']['c'][0]
        rl = fr.env[rv['id']]; v = self.read(rl)
        if isinstance(v, MapV): return self.rangefor_map(s, fr, rl)
        if hasattr(v, 'ents') and any(hasattr(p, 'mk') for _, p in v.ents): return self.rangefor_runs(s, fr, rl)
        if isinstance(v, OpaqueV): 
            raise Unsupported('range-for over opaque %s' % v.name)
        self.st(s['begin'], fr); self.st(s['end'], fr)
        def pre(): self.st(s['var'], fr)
        self.loop(s, fr, s['cond'], s['body'], s['inc'], False, None, pre)
    def body_once(self, body, fr):
        try: self.st(body, fr)
        except ContinueE: pass
    def loop(self, s, fr, cond, body, inc, isdo, cv=None, pre=None):
        spec = self.loopspec(s, fr)
        bounded = False
        if spec is not None:
            self.p.ex.loop_contracts_used = True
            if not self.cfg.get('unroll_bound'): return spec.run(self, s, fr, cond, body, inc, isdo, cv, pre)
            bounded = True
        n = 0
        lim = self.cfg['unroll_bound'] if bounded else self.max_unroll
        while True:
            if not (isdo and n == 0):
                if cv: self.st(cv, fr)
                if cond is not None and not self.cond(cond, fr, 'loop'): break
            n += 1
            if n > lim and bounded: raise PathEnd()
            if n > lim: raise Undecided('loop at line %s of %s exceeds %d iterations' % (s.get('l'), fr.fn['qn'], lim))
            try:
                if pre: pre()
                self.body_once(body, fr)
            except BreakE: break
            if inc is not None: self.ev(inc, fr)
    def loopspec(self, s, fr):
        qn = fr.fn['qn']
        c = self.loops
        if not c: return None
        lid = fr.loopn
        key = id(s)
        if key not in lid: lid[key] = len(lid)
        r = c.get((qn, lid[key])) or c.get((qn, None)) or c.get(qn)
        return r(self, s, fr) if r is not None and not hasattr(r, 'run') else r
PTRLIKE = (PtrV, OptV, MIterV)
class WideV:
    __slots__ = ('p', 'w', 's')
    def __init__(s, p, w, sg): s.p = p; s.w = w; s.s = sg
class HashPtrV:
    """bytes seen as a FixedHash of n bytes"""
    __slots__ = ('p', 'n')
    def __init__(s, p, n): s.p = p; s.n = n
class HashRef(HashPtrV):
    __slots__ = ()
    def load(s, I):
        q = I.read(s.p.loc); o = s.p.off; I.p.prove('index-in-bounds', land(I.tle(0, o) if I.mode != 'bv' else True, I.tle(I.tadd(o, s.n), q.n))); r = 0
        for j in range(s.n): r = r * 256 + q.get(I.tadd(o, j)).t
        return TermV(I.zi(r), 'hash%d' % s.n)
    def store(s, I, v):
        q = I.read(s.p.loc); o = s.p.off; I.p.prove('index-in-bounds', land(I.tle(0, o) if I.mode != 'bv' else True, I.tle(I.tadd(o, s.n), q.n))); t = I.val(v).t
        def get(i):
            r = q.get(i)
            if isc(i) and isc(o): return IntV((t / 256 ** (s.n - 1 - (i - o))) % 256, 8, False) if o <= i < o + s.n else r
            for j in range(s.n): r = I.vite(I.zi(i) == o + j, IntV((t / 256 ** (s.n - 1 - j)) % 256, 8, False), r)
            return r
        I.write(s.p.loc, SeqV(q.n, get, q.et, q.kind))
class _RefV:
    """reference-typed field"""
    __slots__ = ('loc',)
    def __init__(s, loc): s.loc = loc
BIGOPS = {'+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++', '--', '~', '!'}
STD_EXC = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'], 'std::length_error': ['std::logic_error'], 'std::overflow_error': ['std::runtime_error'], 'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'], 'std::range_error': ['std::runtime_error'], 'std::bad_function_call': ['std::exception'], 'std::bad_optional_access': ['std::exception'], 'boost::bad_optional_access': ['std::logic_error']}
for _n in dir(Eval):
    if not _n.startswith('__'): setattr(Interp, _n, Eval.__dict__[_n] if _n in Eval.__dict__ else getattr(Eval, _n))
