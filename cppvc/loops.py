"""loop contracts: inductive invariants with a ghost iteration counter"""
import z3
from core import *
from interp import Interp

class NotYet(Exception):
    """the location a contract speaks about has not been seen modified yet"""
class Env:
    def __init__(s, I, fr): s.I = I; s.fr = fr; s.this = fr.this
    def __call__(s, name):
        """location of local variable / parameter"""
        f = s.fr
        if name in f.names and f.names[name] in f.env: return f.env[f.names[name]]
        raise Unsupported('loop contract refers to missing variable ' + name)
    def v(s, name): return s.I.read(s(name))
    def t(s, name):
        v = s.v(name)
        return v.t if isinstance(v, IntV) else v
    def modseq(s):
        """the one sequence-valued location the loop modifies"""
        c = [l for l, v in s.mods if isinstance(v, SeqV)]
        if not c: raise NotYet()
        if len(c) != 1: raise Unsupported('loop contract: expected one modified sequence, found %d' % len(c))
        return c[0]
    def modint(s, w=None):
        c = [l for l, v in s.mods if isinstance(v, IntV) and (w is None or v.w == w)]
        if not c: raise NotYet()
        if len(c) != 1: raise Unsupported('loop contract: expected one modified integer, found %d' % len(c))
        return c[0]
    def entry(s, loc):
        if s.key(loc) not in s.ent: raise NotYet()
        return s.ent[s.key(loc)]
    def key(s, loc): return (loc.cell.serial, tuple(st for st in loc.path if st[0] == 'f'))
class Tracker:
    def __init__(s, serial): s.serial = serial; s.found = {}
    def note(s, loc):
        if loc.cell.serial > s.serial: return
        path = []; elem = False
        for st in loc.path:
            if st[0] == 'f': path.append(st)
            else: elem = True; break
        k = (loc.cell.serial, tuple(path)); s.found[k] = s.found.get(k, True) and elem
class LoopSpec:
    def __init__(self, inv=None, state=None, name='loop', variant=None, exitassume=None, affine=True):
        self.inv = inv; self.state = state; self.name = name; self.variant = variant; self.affine = affine
    def run(self, I, s, fr, cond, body, inc, isdo, cv, pre):
        p = I.p; ex = p.ex
        key = (fr.fn['qn'], s.get('l'), tuple(map(repr, p.trace)), p.serial)
        prefix = list(p.trace[:p.pos])
        info = ex.loopinfo.setdefault(key, {'mod': {}, 'aff': {}, 'noaff': set(), 'ready': False, 'n': 0})
        p.ver[key] = info['n']
        env = Env(I, fr); entry_serial = p.serial
        def restart(): info['n'] += 1; raise RestartLoops(key, prefix)
        def cov(k, known):   # is location k covered by a known one (prefix path)
            return any(m[0] == k[0] and k[1][:len(m[1])] == m[1] for m in known)
        def absorb(tr):
            new = {k: e for k, e in tr.found.items() if not (k in info['mod'] and (not info['mod'][k] or e))}
            new = {k: e for k, e in new.items() if not any(m[0] == k[0] and m[1] != k[1] and k[1][:len(m[1])] == m[1] and not info['mod'][m] for m in info['mod'])}
            if not new: return False
            for k, e in new.items(): info['mod'][k] = info['mod'].get(k, True) and e
            for k in list(info['mod']):
                if any(m != k and m[0] == k[0] and k[1][:len(m[1])] == m[1] and not info['mod'][m] for m in info['mod']): del info['mod'][k]
            return True
        def one(tr):
            """cond+body+inc once; returns 'exit' / 'next' / 'break'"""
            if not isdo:
                if cv: I.st(cv, fr)
                if cond is not None and not I.cond(cond, fr, 'loop'): return 'exit'
            try:
                if pre: pre()
                I.body_once(body, fr)
            except BreakE: return 'break'
            if inc is not None: I.ev(inc, fr)
            if isdo and not I.cond(cond, fr, 'loop'): return 'exit'
            return 'next'
        def locof(k): return Loc(p.cells[k[0]], k[1])
        if not info['ready']:
            tr = Tracker(entry_serial); p.trackers.append(tr)
            before = {}
            try: r = one(tr)
            except (PathEnd, ReturnE, CxxThrow, ContinueE, GotoE): r = 'left'
            finally: p.trackers.remove(tr)
            absorb(tr); info['ready'] = True
            restart()
        entry = {k: I.read(locof(k)) for k in info['mod']}
        env.mods = [(locof(k), v) for k, v in entry.items()]; env.ent = dict(entry)
        # ---- first-iteration deltas give affine candidates
        if info['n'] and 'delta' not in info:
            tr = Tracker(entry_serial); p.trackers.append(tr)
            try: r = one(tr)
            except (PathEnd, ReturnE, CxxThrow, ContinueE, GotoE): r = 'left'
            finally: p.trackers.remove(tr)
            absorb(tr); info['delta'] = True
            if r in ('next', 'exit') and self.affine:
                for k in info['mod']:
                    if k in info['noaff']: continue
                    a, b = entry.get(k), I.read(locof(k))
                    d = delta(I, a, b)
                    if d is not None and d != 0: info['aff'][k] = d
            restart()
        aff = {k: d for k, d in info['aff'].items() if k not in info['noaff']}
        kterm = z3.Int(p.fresh('k')) if I.mode == 'int' else z3.BitVec(p.fresh('k'), 64)
        spec_state = {}
        def setstate(k, havoc):
            for m, v0 in entry.items():
                loc = locof(m)
                if m in aff: nv = step(I, v0, aff[m], k)
                else: nv = havoc[m]
                loc.cell.v = I.upd(loc.cell.v, loc.path, nv)
        def defs(k):
            if not self.state: return []
            try: return list(self.state(I, env, k))
            except NotYet: return []
        def dkey(loc): return (loc.cell.serial, tuple(st for st in loc.path if st[0] == 'f'))
        # entry checks
        for loc, val in defs(0):
            p.prove('%s: functional state holds on entry (%s)' % (self.name, loc.cell.name), I.veq(I.read(loc), val, True))
        if self.inv:
            for nm, f in self.inv(I, env, 0): p.prove('%s: %s holds on entry' % (self.name, nm), f)
        # havoc
        havoc = {}
        dl = {dkey(l) for l, _ in defs(0)}
        for m, v0 in entry.items():
            if m in aff or m in dl: havoc[m] = v0; continue
            v = I.fresh_like(v0, 'lp.' + p.cells[m[0]].name)
            if info['mod'][m] and isinstance(v0, SeqV): v = SeqV(v0.n, v.get, v0.et, v0.kind)
            havoc[m] = v
        if I.mode == 'int': p.assume(kterm >= 0); p.assume(kterm < (1 << 62))
        else: p.assume(z3.ULT(kterm, 1 << 62))
        functional = all(m in aff or m in dl for m in entry)
        # bound from the loop condition at k-1 when everything it reads is functional in k
        if not isdo and cond is not None and functional and not cv:
            try:
                setstate(kterm - 1, havoc)
                for loc, val in defs(kterm - 1): loc.cell.v = I.upd(loc.cell.v, loc.path, val)
                p.pure = True
                c = I.tobool(I.rv(cond, fr))
                p.pure = False
                p.assume(z3.Implies(kterm >= 1 if I.mode == 'int' else kterm != 0, B(c)))
            except (NoBranch, Unsupported): pass
            finally: p.pure = False
        bound = None
        setstate(kterm, havoc)
        for loc, val in defs(kterm): loc.cell.v = I.upd(loc.cell.v, loc.path, val)
        # x != y loops: candidate x <= y
        def neq():
            if cond is None or cond['k'] not in ('Binary', 'OpCall') or cond.get('op', cond.get('oper')) != '!=': return None
            try:
                p.pure = True
                x, y = I.rv(cond['c'][0], fr), I.rv(cond['c'][1], fr)
                if isinstance(x, IntV) and isinstance(y, IntV): return I.icmp('<=', x, y)
                if isinstance(x, PtrV) and isinstance(y, PtrV) and x.loc and y.loc and x.off is not None and y.off is not None: return I.tle(x.off, y.off)
            except (NoBranch, Unsupported): return None
            finally: p.pure = False
        ne_ok = False
        if 'ne' not in info.get('noaff'):
            setstate(0, entry); 
            for loc, val in defs(0): loc.cell.v = I.upd(loc.cell.v, loc.path, val)
            c0 = neq(); setstate(kterm, havoc)
            for loc, val in defs(kterm): loc.cell.v = I.upd(loc.cell.v, loc.path, val)
            if c0 is not None and p.holds(c0):
                ne_ok = True; p.assume(B(neq()))
        for m in aff:
            v = I.read(locof(m))
            if isinstance(v, IntV) and not isc(v.t) and I.mode == 'int':
                lo, hi = trange(v.w, v.s)
                if lo is not None: p.assume(v.t >= lo)
                if hi is not None: p.assume(v.t <= hi)
        if self.inv:
            for nm, f in self.inv(I, env, kterm): p.assume(B(f))
        v0 = self.variant(I, env, kterm) if self.variant else None
        snap = {c: p.cells[c].v for c in p.cells} if isinstance(p.cells, dict) else [c.v for c in p.cells]
        tr = Tracker(entry_serial); p.trackers.append(tr); r = 'left'
        try: r = one(tr)
        finally:
            p.trackers.remove(tr)
            for o in p.trackers: 
                for kk in tr.found: o.note(Loc(p.cells[kk[0]], kk[1] + ((('i', 0),) if tr.found[kk] else ())))
            known = set(info['mod'])
            if absorb(tr):
                if r == 'next' and self.affine:
                    for m in info['mod']:
                        if m in known or m in info['noaff']: continue
                        try:
                            cur = p.cells[m[0]]; now = cur.v; a = None; cur.v = snap[m[0]]; a = I.read(locof(m)); cur.v = now; d = delta(I, a, I.read(locof(m)))
                        except (KeyError, IndexError): continue
                        if d: info['aff'][m] = d
                restart()
        if r == 'exit' or r == 'break':
            p.cover('%s: loop exit reachable' % self.name); 
            for o in p.trackers:
                for kk, el in info['mod'].items(): o.note(Loc(p.cells[kk[0]], kk[1] + ((('i', 0),) if el else ())))
            return
        k1 = kterm + 1
        for m in aff:
            want = step(I, entry[m], aff[m], k1); got = I.read(locof(m))
            c = I.veq(got, want) if not isinstance(got, PtrV) else I.ptreq(got, want)
            if not p.holds(c): info['noaff'].add(m); restart()
        if ne_ok:
            c = neq()
            if c is None or not p.holds(c): info['noaff'].add('ne'); restart()
        for loc, val in defs(k1):
            p.prove('%s: functional state preserved (%s)' % (self.name, loc.cell.name), I.veq(I.read(loc), val, True))
        if self.inv:
            for nm, f in self.inv(I, env, k1): p.prove('%s: %s preserved' % (self.name, nm), f)
        if v0 is not None:
            v1 = self.variant(I, env, k1)
            p.prove('%s: variant decreases' % self.name, land(v0 >= 0, v1 < v0) if I.mode == 'int' else z3.ULT(v1, v0))
        p.cover('%s: iteration reachable' % self.name)
        raise PathEnd()
def delta(I, a, b):
    if isinstance(a, IntV) and isinstance(b, IntV):
        if a.w != b.w: return None
        if I.mode == 'bv': d = z3.simplify(I.bvt(b) - I.bvt(a)); return d.as_signed_long() if z3.is_bv_value(d) else None
        d = b.t - a.t
        if isc(d): return d
        d = z3.simplify(d, som=True); return d.as_long() if z3.is_int_value(d) else None
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc is not None and b.loc is not None and a.off is not None and b.off is not None and I.sameloc(a.loc, b.loc):
        d = I.tsub(b.off, a.off)
        if isc(d): return d
        d = z3.simplify(d, som=True)
        if z3.is_int_value(d): return d.as_long()
        return d.as_signed_long() if z3.is_bv_value(d) else None
    return None
def step(I, v0, d, k):
    if isinstance(v0, IntV):
        if I.mode == 'bv': 
            kk = k if not isc(k) else z3.BitVecVal(k, 64)
            w = v0.w; kw = z3.Extract(w - 1, 0, kk) if w < 64 else (kk if w == 64 else z3.ZeroExt(w - 64, kk))
            return I.mkint(I.bvt(v0) + z3.BitVecVal(d, w) * kw, v0.w, v0.s)
        return IntV(v0.t + d * k, v0.w, v0.s)
    return PtrV(v0.loc, I.tadd(v0.off, d * k if d != 1 else k), v0.null)
