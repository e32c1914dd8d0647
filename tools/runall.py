import sys, os, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/cppvc'); sys.path.insert(0, V + '/specs'); sys.setrecursionlimit(20000)
import unit, importlib
from props import PROPS
# runall.py module [filter...] : developer tool, runs units 8 at a time and prints them
m = importlib.import_module(sys.argv[1]); us = [u for n in dir(m) if n.rstrip('0123456789').endswith('UNITS') for u in getattr(m, n) if not sys.argv[2:] or any(x in u['name'] for x in sys.argv[2:])]
seen = set(); us = [u for u in us if not (u['name'] in seen or seen.add(u['name']))]
for k in {(u['src'], tuple(u['want']), tuple(u.get('extra', ()))) for u in us}: unit.extract(k[0], list(k[1]), k[2])
def w(i):
    try: return unit.run_unit(**us[i])
    except BaseException as x:
        import traceback; traceback.print_exc(); return {'unit': us[i]['name'], 'status': 'crash', 'ok': 0, 'n': 0, 'time': 0, 'obls': [], 'unsupported': [str(x)], 'covers': {}}
with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
    for r in p.imap_unordered(w, range(len(us))): unit.show(r, os.environ.get('V')); sys.stdout.flush()
