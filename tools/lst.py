import sys; sys.path.insert(0,'/verif/cppvc'); sys.path.insert(0,'/verif/specs')
from unit import *
tu=extract(sys.argv[1] if sys.argv[1].startswith('/') or not os.path.exists('/verif/tu/'+sys.argv[1]) else '/verif/tu/'+sys.argv[1], sys.argv[2].split(','))
print('errors',tu.errors)
for q,ks in sorted(tu.byqn.items()):
    for k in ks:
        f=tu.funcs[k]
        if 'body' in f and not f.get('ext'): print(q, [tu.types[p['t']].get('s') for p in f['params']])
