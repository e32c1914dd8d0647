#!/usr/bin/env python3
"""developer tool: seed.py make ID  - (re)creates seeded/ID from its description in tools/seeds/ID.py;
seed.py run ID [prop...] - applies it to /repo, runs stable tests, demo and the checks, and undoes it"""
import sys, os, subprocess, json, difflib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaviour as required
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-std=gnu++17 -O1 -w %(flags)s -DBOOST_ALL_NO_LIB -DBOOST_LOG_DYN_LINK -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DMICROPROFILE_ENABLED=0 -I. -Ilibskutils/include -Iutils -I$D -include fstream -include boost/filesystem/fstream.hpp -idirafter /usr/include/nlohmann -idirafter /usr/include/jsoncpp"
O=""; n=0
for s in "$D/demo.cpp" %(sources)s; do n=$((n+1)); %(cxx)s $F -c "$s" -o "$T/$n.o" & O="$O $T/$n.o"; done; wait
%(cxx)s %(flags)s -o "$T/demo" $O %(libs)s || exit 3
cd "$T" && exec_demo() { timeout 120 ./demo; }; exec_demo
'''
def make(i):
    d = {}; exec(open('%s/tools/seeds/%s.py' % (V, i)).read(), d)
    out = '%s/seeded/%s' % (V, i); os.makedirs(out, exist_ok=True)
    patch = ''
    for path, subs in d['EDITS'].items():
        s = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + path], text=True); t = s
        for a, b in subs:
            if t.count(a) != 1: raise SystemExit('%s: %d matches in %s for %r' % (i, t.count(a), path, a))
            t = t.replace(a, b)
        patch += ''.join(difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + path, 'b/' + path))
    open(out + '/patch.diff', 'w').write(patch)
    open(out + '/demo.cpp', 'w').write(d['DEMO'])
    for n, t in d.get('EXTRA', {}).items(): os.makedirs(os.path.dirname(out + '/' + n), exist_ok=True); open(out + '/' + n, 'w').write(t)
    if d.get('STUBS'): import shutil; shutil.rmtree(out + '/stubs', ignore_errors=True); shutil.copytree(V + '/stubs', out + '/stubs')
    for n in d.get('COPY', []): open(out + '/' + os.path.basename(n), 'w').write(open(V + '/' + n).read())
    open(out + '/demo.sh', 'w').write(RUN % dict(flags=d.get('FLAGS', '') + (' -isystem $D/stubs' if d.get('STUBS') else ''), sources=' '.join(d.get('SOURCES', [])), libs=d.get('LIBS', '-lboost_system'), cxx=d.get('CXX', 'g++'))); os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
def git(*a): return subprocess.run(['git', '-C', '/repo'] + list(a), capture_output=True, text=True)
def run(i, props, tests=True):
    o = '%s/seeded/%s' % (V, i); prop = json.load(open(o + '/meta.json'))['property']
    assert not git('status', '--porcelain').stdout.strip(), 'repo dirty'
    r0 = subprocess.run(['bash', o + '/demo.sh'], cwd='/repo', capture_output=True, text=True, errors='replace')
    try:
        a = git('apply', o + '/patch.diff'); assert a.returncode == 0, a.stderr
        tr = '-'
        if tests:
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], capture_output=True)
            try: res = json.load(open('/tmp/seedtest.json')); base = json.load(open('/opt/vp/BASELINE.json')); bs = base.get('passed') or base.get('stable') or base; tr = summarize(res, base)
            except Exception as x: tr = 'tests? %s' % x
        r1 = subprocess.run(['bash', o + '/demo.sh'], cwd='/repo', capture_output=True, text=True, errors='replace')
        out = []
        for p in props or [prop]:
            c = subprocess.run([V + '/check.py', p, 'quick'], capture_output=True, text=True, errors='replace')
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s rc=%d %s' % (p, c.returncode, v[0].replace('/verif/build/replay/', '') if v else 'NOT CAUGHT'))
            out += ['      ' + l[:230] for l in c.stdout.splitlines() if l.startswith(('FAILED', 'FAILING', 'UNDEC'))][:5]
    finally: git('checkout', '--', '.')
    print('%-24s demo clean=%d patched=%d tests=%s | %s' % (i, r0.returncode, r1.returncode, tr, '\n'.join(out))); sys.stdout.flush()
    if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
    if not r1.returncode: print(r1.stdout[-300:])
def summarize(res, base):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'pass', 'stable'):
                if k in x: return set(map(str, x[k]))
            return {k for k, v in x.items() if v in ('pass', 'passed', True)}
        return set(map(str, x))
    b, r = passed(base), passed(res); m = b - r
    return 'ok(%d)' % len(r) if not m else 'LOST %s' % sorted(m)[:3]
if __name__ == '__main__':
    if sys.argv[1] == 'make': [make(i) for i in sys.argv[2:]]
    elif sys.argv[1] == 'run': run(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == 'fast': [run(i, [], False) for i in sys.argv[2:]]
    elif sys.argv[1] == 'all': [(make(i), run(i, [])) for i in sys.argv[2:]]
