"""developer tool: run the proof units of one property and print the result"""
import sys, json, time
sys.path.insert(0, '/verif')
from pycv.unit import run_units
import importlib
p = sys.argv[1]
names = sys.argv[2:]
m = importlib.import_module('props.' + p)
t = time.time()
for r in run_units('props.' + p, names or list(m.UNITS)):
    bad = [o for o in r['obligations'] if o['status'] != 'proved']
    print('%-40s %-12s obs=%d bad=%d %.1fs' % (r['unit'], r['status'], len(r['obligations']), len(bad), r['wall_s']), r.get('message', ''))
    for o in bad:
        print('     FAIL', o['name'], o['status'], (o.get('goal', '')[:900] + o.get('detail', '')[:200]) if names else '')
    if names:
        print(r['functions'])
        for l in r['loops']:
            print(l)
        print(r['stats'])
print('total %.1f' % (time.time() - t))
