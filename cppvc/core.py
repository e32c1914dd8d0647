"""cppvc core: values, solver access, path exploration."""
import z3, time, itertools

# ---------------------------------------------------------------- control flow
class PathEnd(Exception): pass            # path finished / infeasible
class Unsupported(Exception): pass        # construct outside the engine's reach
class Undecided(Exception): pass          # limit hit
class CxxThrow(Exception):
    def __init__(s, tname, val=None): s.tname = tname; s.val = val; s.args = (tname,)
class BreakE(Exception): pass
class GotoE(Exception):
    def __init__(s, label): s.label = label
class ContinueE(Exception): pass
class ReturnE(Exception):
    def __init__(s, v): s.v = v

# ---------------------------------------------------------------- term helpers
def isc(t): return isinstance(t, (int, bool))
def B(t): return z3.BoolVal(t) if isinstance(t, bool) else t
def land(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def lor(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def lnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def limp(a, b): return lor(lnot(a), b)
def same(a, b):
    if isc(a) or isc(b): return isc(a) and isc(b) and a == b
    return a is b or a.eq(b)
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (hasattr(a, 'sort') and a.sort() == z3.BoolSort()):
        return z3.If(c, B(a), B(b))
    return z3.If(c, a, b)
def beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if a is True: return b
    if b is True: return a
    if a is False: return lnot(b)
    if b is False: return lnot(a)
    return a == b

def idiv(t, c):
    """t div c for t >= 0, c > 0 constant; nested divisions are merged"""
    if isc(t): return t // c
    if c == 1: return t
    if z3.is_app_of(t, z3.Z3_OP_IDIV) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return t.arg(0) / (t.arg(1).as_long() * c)
    return t / c
# ---------------------------------------------------------------- values
class IntV:
    """integer of C type width w (0 = unbounded), signedness s; t = python int or z3 term;
    lo/hi: sound static bounds (python ints or None), int mode only."""
    __slots__ = ('t', 'w', 's', 'lo', 'hi')
    def __init__(self, t, w, s, lo=None, hi=None):
        self.t = t; self.w = w; self.s = s
        if isc(t): self.lo = self.hi = int(t)
        else:
            tl, th = trange(w, s)
            self.lo = tl if lo is None else (lo if tl is None else max(lo, tl))
            self.hi = th if hi is None else (hi if th is None else min(hi, th))
    def __repr__(self): return 'I%s%d(%s)' % ('s' if self.s else 'u', self.w, self.t)
def trange(w, s):
    if w == 0: return (None, None) if s else (0, None)
    if s: return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1

class SeqV:
    """sequence: n = length term, get(idx)->Value, et = element type index, kind in vec/str/arr/..."""
    __slots__ = ('n', 'get', 'et', 'kind', 'cap', 'tag')
    def __init__(self, n, get, et=None, kind='vec', tag=None): self.n = n; self.get = get; self.et = et; self.kind = kind; self.tag = tag
    def __repr__(self): return 'Seq<%s>' % (self.n,)
class RecV:
    __slots__ = ('qn', 'f')
    def __init__(self, qn, f): self.qn = qn; self.f = f
    def __repr__(self): return 'Rec %s%s' % (self.qn, list(self.f))
class MapV:
    """map/set: has(key)->Bool, val(key)->Value (None for sets)."""
    __slots__ = ('has', 'val', 'kt', 'vt', 'kind', 'size', 'order')
    def __init__(self, has, val, kt, vt, kind='map', size=None): self.has = has; self.val = val; self.kt = kt; self.vt = vt; self.kind = kind; self.size = size
class OptV:
    __slots__ = ('has', 'v', 'vt')
    def __init__(self, has, v, vt=None): self.has = has; self.v = v; self.vt = vt
class FnV:
    __slots__ = ('key', 'caps', 'py', 'null')
    def __init__(self, key=None, caps=None, py=None, null=False): self.key = key; self.caps = caps; self.py = py; self.null = null
class OpaqueV:
    __slots__ = ('name', 'data')
    def __init__(self, name, data=None): self.name = name; self.data = data
    def __repr__(self): return 'Opaque(%s)' % self.name
class TermV:
    """value of an uninterpreted/opaque sort represented by one z3 term"""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind): self.t = t; self.kind = kind
class Cell:
    __slots__ = ('v', 'name', 'serial')
    def __init__(self, v, name, serial): self.v = v; self.name = name; self.serial = serial
    def __repr__(self): return 'Cell#%d:%s' % (self.serial, self.name)
class Loc:
    """lvalue: cell plus path of ('f',name) ('i',term) ('k',keyvalue) ('o',) steps"""
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def f(self, n): return Loc(self.cell, self.path + (('f', n),))
    def i(self, t): return Loc(self.cell, self.path + (('i', t),))
    def k(self, key): return Loc(self.cell, self.path + (('k', key),))
    def o(self): return Loc(self.cell, self.path + (('o',),))
    def __repr__(self): return 'Loc(%s%s)' % (self.cell, self.path)
class PtrV:
    """pointer / iterator: null flag; loc = pointee object (off None) or sequence location (off = element index)"""
    __slots__ = ('loc', 'off', 'null')
    def __init__(self, loc, off=None, null=False): self.loc = loc; self.off = off; self.null = null
    def __repr__(self): return 'Ptr(%s,%s,null=%s)' % (self.loc, self.off, self.null)
NULL = PtrV(None, None, True)
class MIterV:
    """iterator into a map/set: end flag + key"""
    __slots__ = ('loc', 'end', 'key', 'ghost')
    def __init__(self, loc, end, key, ghost=None): self.loc = loc; self.end = end; self.key = key; self.ghost = ghost

# ---------------------------------------------------------------- results
class Obl:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'abstract', 'line', 'info')
    def __init__(s, name): s.name = name; s.status = None; s.backend = None; s.time = 0; s.model = None; s.abstract = False; s.line = None; s.info = None

class Explorer:
    """runs fn(ctx) over all feasible paths by re-execution with a decision list"""
    def __init__(self, max_paths=20000, timeout_ms=20000, budget_s=600):
        self.max_paths = max_paths; self.timeout_ms = timeout_ms; self.budget = budget_s
        self.records = []; self.restarts = 0; self.paths = 0; self.solver_time = 0.0; self.queries = 0; self.covers = {}
        self.unsupported = []; self.t0 = time.time(); self.assumed = set(); self.inlined = set(); self.contracted = set()
        self.loopinfo = {}; self.oblkeys = set(); self.fail_fast = False
    def explore(self, fn):
        stack = [[]]
        while stack:
            dec = stack.pop()
            if self.paths >= self.max_paths: self.unsupported.append('path limit %d' % self.max_paths); break
            if time.time() - self.t0 > self.budget: self.unsupported.append('time budget'); break
            if self.fail_fast and any(o.status == 'fail' for _, o in self.records): break
            p = Path(self, dec)
            self.paths += 1
            restart = None
            try:
                fn(p)
            except PathEnd: pass
            except RestartLoops as r: restart = r
            except CxxThrow as e:
                try: p.prove('no-uncaught-exception(%s)' % e.tname, False)
                except PathEnd: pass
            except Undecided as e: self.unsupported.append('undecided: ' + str(e))
            if restart:
                n = len(restart.prefix)
                stack = [d for d in stack if d[:n] != restart.prefix]
                for alt in p.alts:
                    if len(alt) <= n: stack.append(alt)
                stack.append(list(restart.prefix))
                self.records = [(v, o) for v, o in self.records if restart.key not in v]
                self.oblkeys = {k for k in self.oblkeys if restart.key not in k[3]}
                self.restarts += 1
                if self.restarts > 400: self.unsupported.append('loop inference limit'); break
                continue
            for alt in p.alts: stack.append(alt)
    @property
    def obls(self):
        out = {}; rank = {'ok': 0, 'unknown': 1, 'fail': 2}
        for _, o in self.records:
            prev = out.get(o.name)
            if prev is None or rank[o.status] > rank[prev.status] or (o.status == 'fail' and prev.status == 'fail' and prev.abstract and not o.abstract): out[o.name] = o
        return out
    @property
    def nobl(self): return len(self.records)
    @property
    def nok(self): return sum(o.status == 'ok' for _, o in self.records)
    @property
    def backends(self):
        d = {}
        for _, o in self.records: d[o.backend] = d.get(o.backend, 0) + 1
        return d
class NoBranch(Exception): pass
class RestartLoops(Exception):
    def __init__(s, key, prefix): s.key = key; s.prefix = prefix

class Path:
    def __init__(self, ex, dec):
        self.ex = ex; self.dec = dec; self.pos = 0; self.trace = []; self.alts = []; self.pc = []
        self.solver = z3.Solver(); self.solver.set('timeout', 3000)
        self.fresh_n = 0; self.serial = 0; self.abstract = False; self.oblcount = {}
        self.inputs = {}     # name -> term, for counterexamples
        self.trackers = []; self.loopstack = []; self.depth = 0
        self.ver = {}; self.cells = {}; self.pure = False
    # -- solver
    def _check(self, extra, timeout=None):
        t = time.time(); self.ex.queries += 1
        if timeout: self.solver.set('timeout', timeout)
        r = self.solver.check(*[B(x) for x in extra])
        if timeout: self.solver.set('timeout', 3000)
        self.ex.solver_time += time.time() - t
        return r
    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        c = z3.simplify(c) if False else c
        self.pc.append(c); self.solver.add(c)
    def replaying(self): return self.pos < len(self.dec)
    def fresh(self, name):
        self.fresh_n += 1
        return '%s!%d' % (name, self.fresh_n)
    def choose(self, n, label=''):
        """n-way nondeterministic decision (no solver pruning)"""
        if n == 1: return 0
        if self.pos < len(self.dec): d = self.dec[self.pos]
        else:
            d = 0
            for alt in range(1, n): self.alts.append(self.trace + [alt])
        self.pos += 1; self.trace.append(d); return d
    def branch(self, c, label=''):
        """decide a boolean; forks when both sides are feasible"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pure: raise NoBranch()
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            forced = isinstance(d, tuple)
            if forced: d = d[0]
        else:
            ft = self._check([c]); 
            if ft == z3.unsat: d = False; forced = True
            else:
                ff = self._check([z3.Not(c)])
                if ff == z3.unsat: d = True; forced = True
                else:
                    d = True; forced = False
                    self.alts.append(self.trace + [False])
            if forced: d = (d,)
            self.trace.append(d); self.pos += 1
            d = d[0] if isinstance(d, tuple) else d
            if not forced: self.assume(c if d else z3.Not(c))
            else: self.pc.append(c if d else z3.Not(c))
            return d
        self.pos += 1; self.trace.append((d,) if forced else d)
        if forced: self.pc.append(c if d else z3.Not(c))
        else: self.assume(c if d else z3.Not(c))
        return d
    def holds(self, c, timeout=2000):
        """is c provable here? (engine-internal simplification query; cached per path prefix)"""
        if isinstance(c, bool): return c
        if self.pure: return self._check([z3.Not(c)], timeout) == z3.unsat
        if self.pos < len(self.dec) :
            d = self.dec[self.pos]
            if isinstance(d, str): self.pos += 1; self.trace.append(d); return d == 'y'
        r = self._check([z3.Not(c)], timeout) == z3.unsat
        self.trace.append('y' if r else 'n'); self.pos += 1
        return r
    # -- obligations
    def prove_all(self, items):
        """prove several facts that hold at the same point: one query for their conjunction, single queries when that fails"""
        open_ = [c for _, c in items if not isinstance(c, bool)]
        if self.pure or any(c is False for _, c in items) or len(open_) < 2 or self.replaying():
            for n, c in items: self.prove(n, c)
            return
        t = time.time(); s = z3.Solver(); s.set('timeout', self.ex.timeout_ms)
        for x in self.pc: s.add(x)
        s.add(z3.Not(z3.And(*open_))); r = s.check(); self.ex.queries += 1; self.ex.solver_time += time.time() - t
        for n, c in items: self.prove(n, c, known='z3' if r == z3.unsat else None)
    def prove(self, name, c, info=None, known=None):
        n = self.oblcount.get(name, 0); self.oblcount[name] = n + 1
        # obligations met while replaying a prefix were discharged on the path that created the prefix
        if self.pure: return
        key = (name, n, tuple(map(repr, self.trace)), frozenset(self.ver), tuple(self.ver.values()))
        if key in self.ex.oblkeys:
            if not (c is True): self.assume(B(c)) if c is not False else None
            if c is False: raise PathEnd()
            return
        self.ex.oblkeys.add(key)
        o = Obl(name); o.abstract = self.abstract; o.info = info
        t = time.time()
        if c is True: o.status = 'ok'; o.backend = 'const'
        elif known: o.status = 'ok'; o.backend = known
        else:
            s = z3.Solver(); s.set('timeout', self.ex.timeout_ms)
            for x in self.pc: s.add(x)
            s.add(z3.Not(B(c)))
            r = s.check(); self.ex.queries += 1
            if r == z3.unsat: o.status = 'ok'; o.backend = 'z3'
            elif r == z3.sat: o.status = 'fail'; o.backend = 'z3'; o.model = self.model_of(s.model())
            else:
                r2 = cvc5_check(s, self.ex.timeout_ms)
                if r2 == 'unsat': o.status = 'ok'; o.backend = 'cvc5'
                elif r2 == 'sat': o.status = 'fail'; o.backend = 'cvc5'
                else: o.status = 'unknown'; o.backend = 'z3+cvc5'; o.info = s.reason_unknown()
            self.ex.solver_time += time.time() - t
        o.time = time.time() - t
        self.ex.records.append((frozenset(self.ver), o))
        if c is False: raise PathEnd()
        if c is not True: self.assume(B(c))
    def cover(self, name, c=True):
        if self.ex.covers.get(name): return
        if c is False: self.ex.covers.setdefault(name, False); return
        r = self._check([c] if not isinstance(c, bool) else [])
        self.ex.covers[name] = self.ex.covers.get(name, False) or (r == z3.sat) or (r == z3.unknown)
    def model_of(self, m):
        out = {}
        for k, f in self.inputs.items():
            try: out[k] = f(m)
            except Exception as e: out[k] = 'n/a (%s)' % e
        return out

def cvc5_check(s, timeout_ms):
    try:
        import cvc5
        smt = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout_ms))
        parser = cvc5.InputParser(slv); parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = parser.getSymbolManager(); res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull(): break
            out = cmd.invoke(slv, sm)
            if out and ('sat' in str(out)): res = str(out).strip()
        return res
    except Exception as e:
        return 'error: %s' % e
