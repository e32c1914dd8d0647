import os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/specs'); sys.path.insert(0, V + '/cppvc')
import unit, hbuild, props
unit.astdump_bin()
for pid, p in props.PROPS.items():
    h = p.get('harness')
    if not h: continue
    try: hbuild.build(h['main'].rsplit('.', 1)[0], h['main'], h['sources'], h.get('libs', ()), cflags=h.get('cflags', ()))
    except Exception: traceback.print_exc(limit=1)
