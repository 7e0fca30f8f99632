"""slowest obligations of one proof: slow.py CID 'proof name'"""
import sys
sys.path[:0] = ['/verif/engine', '/verif/props', '/verif']
import importlib, tempfile, irgen, time, symex, models
m = importlib.import_module(sys.argv[1])
p = [x for x in m.PROOFS if x['name'] == sys.argv[2]][0]
E = symex.Engine(irgen.build(p['src'], tempfile.mkdtemp(), p.get('flags', ())), models.MODELS, time_limit=600, tier='quick')
E.prefix = ''; t = time.time()
try: p['fn'](E)
except Exception as e:
  import traceback; traceback.print_exc()
print('total %.1f' % (time.time() - t))
for o in sorted(E.obls, key=lambda o: -o.t)[:25]: print('%.1f %s %s %s %s' % (o.t, o.backend, o.status, o.name, o.loc))
