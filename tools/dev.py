"""developer loop: python3-vt tools/dev.py UNIT FN [-n iterations] : build, verify one harness, print obligations and failures"""
import json, os, sys, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from virc import driver
from virc.units import UNITS
u, f = sys.argv[1:3]
d = '/tmp/dev'
os.makedirs(d, exist_ok=True)
ll = driver.build_ir(u, UNITS[u], d)
if f == '-':
    sys.exit(0)
opts = dict(UNITS[u].get('opts', {})); opts.update(UNITS[u].get('fnopts', {}).get(f, {})); opts['budget'] = int(os.environ.get('B', '300'))
if '-v' in sys.argv:
    opts['verbose'] = True
sys.setrecursionlimit(20000)
out = '%s/%s_%s.json' % (d, u, f)
subprocess.run([driver.PY, '-m', 'virc.run1', ll, 'vfh_' + f, out, json.dumps(opts)], cwd=driver.VERIF)
r = json.load(open(out))
print(r['status'], r['detail'][-1500:], r['wall_s'], 's', r.get('stats'))
if '-o' in sys.argv:
    for o in r['obligations']:
        print('  ', o['kind'], o['name'], o['loc'], o['inst'], o['trivial'], o['failed'], o['ms'])
print(len(r['obligations']), 'obligations; covers', r['covers'])
print('imprecise', r.get('imprecisions'))
print('loops', r.get('loops_proved'))
for x in r['failures']:
    print('FAIL', x['kind'], x['name'], x['loc'], driver.short_fn(x['fn']), x['status'], x['detail'][:300])
    if x['inputs']:
        print('     ', [(a, c) for a, b, c in x['inputs']][:40])
    for t in x['trace'][:8]:
        print('       at', t)
if '-n' in sys.argv:
    exe = driver.build_native(u, UNITS[u], d)
    print(driver.native_run(exe, [f, 'random', '1', '3000'], 120))
