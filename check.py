#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [quick|thorough]: decides one property on the current /repo tree"""
import sys, os, json, time, subprocess, importlib, multiprocessing as mp, traceback, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__)); os.chdir(VERIF)
sys.path.insert(0, os.path.join(VERIF, 'cppvc')); sys.path.insert(0, os.path.join(VERIF, 'specs'))
sys.setrecursionlimit(20000)
import unit, hbuild
from props import PROPS
def run_one(kw):
    try: return unit.run_unit(**kw)
    except BaseException as x: return {'unit': kw['name'], 'status': 'undecided', 'obls': [], 'n': 0, 'ok': 0, 'unsupported': ['engine crash: %s' % x], 'covers': {}, 'inlined': [], 'contracted': [], 'time': 0}
def worker(q, kw):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    q.put(run_one(kw))
def run_units(units, wall):
    """each unit in its own process, 8 at a time, with a wall-clock cap"""
    t0 = time.time(); pend = list(units); live = []; out = {}
    ctx = mp.get_context('fork')
    while pend or live:
        while pend and len(live) < 8:
            kw = pend.pop(0); q = ctx.SimpleQueue(); p = ctx.Process(target=worker, args=(q, kw)); p.start(); live.append((p, q, kw, time.time()))
        nl = []
        for p, q, kw, st in live:
            if not q.empty(): out[kw['name']] = q.get(); p.join(5); p.kill() if p.is_alive() else None; continue
            cap = kw.get('budget', 300) * 1.5 + 60
            if not p.is_alive() or time.time() - st > cap or time.time() - t0 > wall:
                if not q.empty(): out[kw['name']] = q.get(); continue
                p.kill(); out[kw['name']] = {'unit': kw['name'], 'status': 'undecided', 'obls': [], 'n': 0, 'ok': 0, 'unsupported': ['unit process ended without an answer'], 'covers': {}, 'inlined': [], 'contracted': [], 'time': round(time.time() - st, 1)}
                continue
            nl.append((p, q, kw, st))
        live = nl; time.sleep(0.02)
    return [out[u['name']] for u in units]
def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    except OSError: pass
    return out
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')); P = PROPS[pid]; t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); os.makedirs(os.path.join(VERIF, 'build', 'replay'), exist_ok=True)
    units = P['units'](tier)
    harness = P.get('harness'); hb = {}
    def build_h():
        try: hb['bin'] = hbuild.build(harness['main'].rsplit('.', 1)[0], harness['main'], harness['sources'], harness.get('libs', ()), cflags=harness.get('cflags', ()))
        except Exception as x: hb['err'] = str(x)
    import threading
    th = None
    if harness: th = threading.Thread(target=build_h); th.start()
    # extraction (from the current tree), then the proof units
    seen = set()
    def pre(u):
        try: unit.extract(u['src'], u['want'], u.get('extra', ()))
        except Exception: pass
    import concurrent.futures as cf
    keys = {}
    for u in units: keys.setdefault((u['src'], tuple(u['want']), tuple(u.get('extra', ()))), u)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(pre, keys.values()))
    if th: th.join()      # no forks while threads run
    # a concrete failing input found at once makes the long proof attempts pointless: they then get one minute
    wall = 640 - (time.time() - t0) if tier == 'quick' else 6 * 3600
    if 'bin' in hb and tier == 'quick':
        sc = os.path.join(VERIF, 'build', 'scratch.%s.%d.pre' % (pid, os.getpid())); os.makedirs(sc)
        try:
            r = subprocess.run([hb['bin'], '--seed', str(seed), '--secs', '2', '--hints', '/dev/null', '--scratch', sc], capture_output=True, text=True, errors='replace', timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', LC_ALL='C'), cwd=sc)
            kf0 = [k.split(' :: ')[0] for k in known_findings(pid)]
            if r.returncode not in (0, 1) or any(l.startswith('VIOL ') and not any(l[5:].startswith(k) for k in kf0) for l in r.stdout.splitlines()): wall = 60
        except subprocess.TimeoutExpired: wall = 60
        subprocess.run(['rm', '-rf', sc])
    res = run_units(units, wall)
    failing = [(r['unit'], o) for r in res for o in r['obls'] if o['status'] == 'fail']
    undecided = [(r['unit'], r['unsupported'] + [o['name'] for o in r['obls'] if o['status'] == 'unknown']) for r in res if r['status'] == 'undecided' or (r['status'] == 'fail' and r['unsupported'])]
    # replay / bounded harness
    hres = None; viol = []; kf = known_findings(pid); kfhit = []
    if harness:
        if 'bin' in hb:
            hints = os.path.join(VERIF, 'build', 'replay', '%s.%d.hints' % (pid, os.getpid()))
            with open(hints, 'w') as f:
                for un, o in failing:
                    for k, v in (o['model'] or {}).items(): f.write('%s %s %s\n' % (un, k, v['hex'] if isinstance(v, dict) and 'hex' in v else str(v).replace(' ', '')))
            secs = harness.get('quick_s', 8) if tier == 'quick' else harness.get('thorough_s', 120)
            scratch = os.path.join(VERIF, 'build', 'scratch.%s.%d' % (pid, os.getpid())); os.makedirs(scratch)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', LC_ALL='C')
            cmd = [hb['bin'], '--seed', str(seed), '--secs', str(secs), '--hints', hints, '--scratch', scratch]
            try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs * 3 + 120, env=env, cwd=scratch)
            except subprocess.TimeoutExpired as x:
                class r: returncode = -9; stdout = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''); stderr = 'TIMEOUT: the code under test did not terminate'
            subprocess.run(['rm', '-rf', scratch]); os.unlink(hints)
            hres = {'cmd': ' '.join(cmd), 'rc': r.returncode, 'out': r.stdout[-20000:], 'err': r.stderr[-6000:], 'stats': {}}
            for l in r.stdout.splitlines():
                if l.startswith('STAT '): k, v = l[5:].split(' ', 1); hres['stats'][k] = v
                elif l.startswith('VIOL '): viol.append(l[5:])
            if r.returncode not in (0, 1) : viol.append('crash rc=%s %s' % (r.returncode, next((l for l in r.stderr.splitlines() if 'ERROR' in l or 'TIMEOUT' in l or 'Assert' in l or 'terminate' in l), r.stderr[-200:].replace('\n', ' '))))
        else: undecided.append(('harness', ['build: ' + hb.get('err', '?')[-1500:]]))
    new = []
    for v in viol:
        hit = next((k for k in kf if v.startswith(k.split(' :: ')[0])), None)
        if hit: kfhit.append(hit)
        else: new.append(v)
    for k in sorted(set(kfhit)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    kunits = [k.split(' :: ')[0] for k in kf]
    failing_new = [(un, o) for un, o in failing if 'obligation %s / %s' % (un, o['name']) not in kunits]
    nobl = sum(r['n'] for r in res); nok = sum(r['ok'] for r in res)
    bk = {}
    for r in res:
        for k, v in (r.get('backends') or {}).items(): bk[k] = bk.get(k, 0) + v
    inl = sorted(set(x for r in res for x in r['inlined'])); con = sorted(set(x for r in res for x in r['contracted']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'wall_s': 0, 'violations': 0,
          'coverage': {'obligations': nobl, 'discharged': nok, 'checker_cmd': 'cppvc (verification conditions from clang AST of /repo sources) -> z3 5.x, cvc5 fallback',
                       'trusted_base': ['clang 18 front end (parsing, overload resolution, types)', 'cppvc translation in /verif/cppvc', 'z3 / cvc5', 'library models in /verif/cppvc/models.py (std containers, boost::multiprecision, libc memory functions)'] + P.get('trusted', []),
                       'backends': bk, 'solver_s': round(sum(r.get('solver_s') or 0 for r in res), 2),
                       'functions_under_contract': con, 'functions_executed_from_source': inl,
                       'units': [{'unit': r['unit'], 'status': r['status'], 'obligations': r['n'], 'discharged': r['ok'], 'paths': r.get('paths'), 'time_s': r['time'], 'names': [o['name'] for o in r['obls']][:60], 'covers': sorted(r['covers']), 'undecided': r['unsupported']} for r in res],
                       'undecided_units': [u for u, _ in undecided],
                       'samples': [o['name'] for r in res for o in r['obls']][:8]},
          'assumptions': P.get('assumptions', [])}
    if harness:
        st = (hres or {}).get('stats', {})
        ev['coverage']['bounded_replay_harness'] = {'what': harness.get('what', ''), 'never_counted_as_proved': True, 'stats': st, 'rc': (hres or {}).get('rc')}
        try: ev['coverage']['evaluations'] = int(st.get('evaluations', 0)); ev['coverage']['distinct_nontrivial'] = int(st.get('distinct', 0)); ev['coverage']['rule'] = harness.get('rule', 'random and enumerated inputs compared with an independent oracle; distinct by input hash')
        except ValueError: pass
    rc = 0
    if new or failing_new:
        rp = os.path.join(VERIF, 'build', 'replay', '%s.json' % pid)
        json.dump({'property': pid, 'failing_inputs': new[:20], 'harness_cmd': (hres or {}).get('cmd'), 'harness_stderr': (hres or {}).get('err'),
                   'failed_obligations': [{'unit': un, 'obligation': o['name'], 'backend': o['backend'], 'counter_model': o['model'], 'abstract': o['abstract']} for un, o in failing_new]}, open(rp, 'w'), indent=1)
        concrete = bool(new); definite = [x for x in failing_new if not x[1]['abstract']]
        for un, o in failing_new: print('FAILED-OBLIGATION %s / %s (%s)%s model=%s' % (un, o['name'], o['backend'], ' abstract' if o['abstract'] else '', json.dumps(o['model'])[:400]))
        for v in new[:5]: print('FAILING-INPUT', v[:600])
        if concrete: print('VIOLATION property=%s replay=%s' % (pid, rp)); rc = 1
        elif definite: print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); rc = 1
        ev['violations'] = len(new) + len(failing_new) if rc else 0
    for u, why in undecided: print('UNDECIDED %s: %s' % (u, '; '.join(map(str, why))[:800]))
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d units, %d undecided units, harness %s, %.1fs' % (pid, tier, nobl, nok, len(res), len(undecided), (hres or {}).get('stats'), ev['wall_s']))
    sys.stdout.flush(); os._exit(rc)
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('UNDECIDED internal error'); sys.stdout.flush(); os._exit(0)
