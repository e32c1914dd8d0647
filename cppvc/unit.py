"""verification units: extraction, symbolic execution of one goal, result records"""
import os, sys, json, time, hashlib, subprocess, traceback
from core import *
import interp, evalx, models, loops, econt
from interp import Interp, TU
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
def flags():
    return ('-std=c++17 -w -Wno-dynamic-exception-spec -include fstream -include boost/filesystem/fstream.hpp -idirafter /usr/include/nlohmann -idirafter /usr/include/jsoncpp '
            '-DBOOST_ALL_NO_LIB -DBOOST_LOG_DYN_LINK -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_TIMER_ENABLE_DEPRECATED '
            '-I%s -I%s/libskutils/include -I%s/utils -isystem %s/stubs' % (REPO, REPO, REPO, VERIF)).split()
def astdump_bin():
    b = os.path.join(BUILD, 'astdump'); src = os.path.join(VERIF, 'astdump', 'astdump.cpp')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = b + '.%d' % os.getpid()
        subprocess.check_call(['clang++', '-std=c++17', '-O1', '-w', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                               '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, b)
    return b
class ExtractError(Exception): pass
_tus = {}
def extract(src, want, extra=()):
    """TU for source file src (relative to REPO, or absolute) with the wanted functions; re-extracted from the current tree on every run"""
    key = (src, tuple(want), tuple(extra))
    if key in _tus: return _tus[key]
    path = src if src.startswith('/') else os.path.join(REPO, src)
    out = os.path.join(BUILD, 'x%d.%s.json' % (os.getpid(), hashlib.md5(repr(key).encode()).hexdigest()[:10]))
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([astdump_bin(), '--root', REPO, '--want', ','.join(want), '--out', out, path, '--'] + flags() + list(extra), capture_output=True, text=True, timeout=300)
    if not os.path.exists(out): raise ExtractError('astdump failed: ' + (r.stderr or r.stdout)[-800:])
    d = json.load(open(out)); os.unlink(out)
    tu = TU(d); tu.errors = d.get('errors', 0); tu.src = src
    _tus[key] = tu
    return tu
class U:
    """context handed to a unit: interpreter plus call helpers"""
    def __init__(self, I): self.I = I; self.p = I.p; self.T = I.T
    def fkey(self, qn, pred=None):
        ks = self.I.tu.byqn.get(qn, [])
        ks = [k for k in ks if 'body' in self.I.tu.funcs[k] and not self.I.tu.funcs[k].get('ext')]
        if pred is not None: ks = [k for k in ks if pred(self.I, self.I.tu.funcs[k])]
        if len(ks) != 1: raise Unsupported('%d candidates for %s' % (len(ks), qn))
        return ks[0]
    def call(self, qn, args, pred=None):
        k = self.fkey(qn, pred); fn = self.I.tu.funcs[k]
        return self.I.call_fn({'key': k, 'qn': qn, 'cls': fn.get('cls')}, args)
    def construct(self, qn, args, pred=None):
        k = self.fkey(qn, pred); fn = self.I.tu.funcs[k]
        return self.I.run_ctor({'key': k, 'qn': qn}, fn, self.T[fn['cls']], fn['cls'], args)
    def fn(self, qn, pred=None): return self.I.tu.funcs[self.fkey(qn, pred)]
    def prove(self, name, c): self.p.prove(name, c)
    def assume(self, c): self.p.assume(B(c) if not isinstance(c, bool) else c)
    def cover(self, name, c=True): self.p.cover(name, c)
    def throws(self, f, *a):
        """run f; returns (exception name or None, value)"""
        n = len(self.I.callstack)
        try: return None, f(*a)
        except CxxThrow as x:
            del self.I.callstack[n:]
            return x.tname, x
def ptypes(*ss):
    """predicate: parameter type spellings contain the given substrings"""
    def f(I, fn):
        ps = fn['params']
        return len(ps) == len(ss) and all(s in I.T[p['t']].get('s', '') for s, p in zip(ss, ps))
    return f
def run_unit(name, src, want, body, mode='int', cfg=None, extra=(), timeout_ms=20000, budget=300, max_paths=20000, unroll=5):
    """run one unit.  When an obligation fails in a unit that uses loop contracts, the loop contract itself may no longer fit
    the (possibly only rewritten) loop, so the failure is confirmed by a second run that unrolls those loops up to `unroll`
    iterations; without a confirmed failure the unit is undecided (unroll=0: never confirmed this way)"""
    res, used = run_unit1(name, src, want, body, mode, cfg, extra, timeout_ms, budget, max_paths)
    if used and any(o['status'] == 'fail' and not o['abstract'] for o in res['obls']):
        r2 = None
        if unroll:
            r2, _ = run_unit1(name, src, want, body, mode, dict(cfg or {}, unroll_bound=unroll), extra, min(timeout_ms, 10000), min(budget, 120), 3000)
            conf = [o for o in r2['obls'] if o['status'] == 'fail' and not o['abstract']]
            for o in conf: o['name'] += ' [loops unrolled up to %d times]' % unroll
        if unroll and conf: res['obls'] += conf
        else:
            for o in res['obls']:
                if o['status'] == 'fail': o['status'] = 'unknown'; o['info'] = 'fails under the loop contract; no violation within %d iterations' % unroll
            res['unsupported'].append('a loop contract does not fit the loop any more' + ('; unrolling %d iterations found no violation (%d obligations)' % (unroll, r2['n']) if r2 else ''))
            res['status'] = 'undecided'
        res['time'] += r2['time'] if r2 else 0
    return res
def run_unit1(name, src, want, body, mode='int', cfg=None, extra=(), timeout_ms=20000, budget=300, max_paths=20000):
    t0 = time.time()
    res = {'unit': name, 'src': src, 'mode': mode, 'status': 'ok', 'obls': [], 'covers': {}, 'inlined': [], 'contracted': [], 'unsupported': [], 'n': 0, 'ok': 0}
    try:
        tu = extract(src, want, extra)
    except Exception as x:
        res['status'] = 'undecided'; res['unsupported'] = ['extraction: %s' % x]; res['time'] = time.time() - t0; return res, False
    ex = Explorer(timeout_ms=timeout_ms, budget_s=budget, max_paths=max_paths)
    def fn(p):
        c = models.install(dict(cfg or {}))
        I = Interp(p, tu, mode, c); I.curexc = []
        u = U(I)
        try: body(u)
        except RecursionError: raise Unsupported('python recursion')
    try:
        ex.explore(fn)
    except Unsupported as x:
        ex.unsupported.append(str(x))
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as x:
        ex.unsupported.append('engine: %s: %s' % (type(x).__name__, x))
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    obls = ex.obls
    for n, o in obls.items(): res['obls'].append({'name': n, 'status': o.status, 'backend': o.backend, 'model': o.model, 'abstract': o.abstract, 'info': str(o.info) if o.info else None, 'time': round(o.time, 3)})
    res.update(n=ex.nobl, ok=ex.nok, covers=dict(ex.covers), inlined=sorted(ex.inlined), contracted=sorted(ex.contracted), unsupported=sorted(set(ex.unsupported)), paths=ex.paths, solver_s=round(ex.solver_time, 2), queries=ex.queries, backends=ex.backends)
    if any(o.status == 'fail' for o in obls.values()): res['status'] = 'fail'
    elif res['unsupported'] or any(o.status == 'unknown' for o in obls.values()): res['status'] = 'undecided'
    elif ex.nobl == 0: res['status'] = 'undecided'; res['unsupported'].append('vacuous: no obligations')
    elif any(not v for v in ex.covers.values()): res['status'] = 'undecided'; res['unsupported'].append('vacuous: cover goals unreachable: ' + ', '.join(k for k, v in ex.covers.items() if not v))
    res['time'] = round(time.time() - t0, 2)
    return res, getattr(ex, 'loop_contracts_used', False)
def show(res, verbose=False):
    print('%-40s %-10s obl %d/%d paths %s time %.1fs solver %.1fs %s' % (res['unit'], res['status'], res['ok'], res['n'], res.get('paths'), res['time'], res.get('solver_s', 0), res.get('backends')))
    for o in res['obls']:
        if o['status'] != 'ok' or verbose: print('   ', o['status'], o['name'], o['model'] or '', o['info'] or '', 'ABSTRACT' if o['abstract'] else '')
    for x in res['unsupported']: print('    UNSUPPORTED', x)
    for k, v in res['covers'].items():
        if not v: print('    UNCOVERED', k)
