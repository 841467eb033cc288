"""driver: extract IR from the current /repo, discharge the obligations of one property, replay counterexamples natively,
write evidence and report."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VIRC_REPO', '/repo')
PY = shutil.which('python3-vt') or sys.executable
sys.path.insert(0, VERIF)
NCPU = min(8, os.cpu_count() or 4)


def sh(cmd, timeout=300, cwd=None, env=None):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env, errors='replace')


def incs(unit):
    i = []
    if unit.get('model'):
        i += ['-isystem', VERIF + '/model']
    i += ['-iquote', REPO + '/src', '-I', REPO + '/include', '-I', VERIF + '/rt', '-iquote', VERIF + '/harness']
    if unit.get('containers'):
        i += ['-include', VERIF + '/model/vf_containers.h']
    if unit.get('incsrc'):
        i += ['-idirafter', REPO + '/src']
    return i


def ir_flags(unit):
    return ['-std=' + unit.get('std', 'c++11'), '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-DVEIGAR_STATIC',
            '-gline-tables-only', '-fno-access-control', '-w', '-DVF_VERIFIER'] + unit.get('defs', []) + unit.get('irflags', []) + incs(unit)


def srcpath(f):
    """a source of /repo, or a file of the harness that includes one and adds accessors"""
    return VERIF + '/' + f if f.startswith('harness/') else REPO + '/src/' + f


class BuildError(Exception):
    pass


def build_ir(uname, unit, tmp):
    d = os.path.join(tmp, uname)
    os.makedirs(d, exist_ok=True)
    jobs = [(VERIF + '/' + unit['harness'], d + '/h.bc')]
    for f in unit['repo']:
        jobs.append((srcpath(f), d + '/' + f.replace('/', '_') + '.bc'))

    def one(j):
        r = sh(['clang++'] + ir_flags(unit) + ['-c', '-emit-llvm', j[0], '-o', j[1]], cwd=d)
        if r.returncode:
            raise BuildError('compile %s: %s' % (j[0], r.stderr[-3000:]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    rest = [j[1] for j in jobs[1:]]
    r = sh(['llvm-link'] + (['--override=' + jobs[0][1]] + rest if rest else [jobs[0][1]]) + ['-o', d + '/all.bc'])
    if r.returncode:
        raise BuildError('link: ' + r.stderr[-2000:])
    r = sh(['opt', '-S', '-passes=' + unit.get('passes', 'function(sroa,simplifycfg)'), d + '/all.bc', '-o', d + '/all.ll'])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-2000:])
    return d + '/all.ll'


def build_native(uname, unit, tmp):
    d = os.path.join(tmp, uname + '_native')
    os.makedirs(d, exist_ok=True)
    flags = ['-std=' + unit.get('std', 'c++11'), '-O1', '-g', '-fno-omit-frame-pointer', '-DNDEBUG', '-DVEIGAR_STATIC',
             '-fno-access-control', '-w', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined',
             '-fno-sanitize=vptr,function'] + (['-fno-inline'] if unit.get('containers') else []) + unit.get('defs', []) + incs(unit)
    hs = VERIF + '/' + unit['harness']
    jobs = [(hs, d + '/h.o'), (VERIF + '/rt/vf_rt.cpp', d + '/rt.o')]
    objs = []
    for f in unit['repo']:
        o = d + '/' + f.replace('/', '_') + '.o'
        objs.append(o)
        jobs.append((srcpath(f), o))

    def one(j):
        r = sh(['clang++'] + flags + ['-c', j[0], '-o', j[1]])
        if r.returncode:
            raise BuildError('native compile %s: %s' % (j[0], r.stderr[-2000:]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    nm = sh(['nm', '--defined-only', d + '/h.o']).stdout
    have = set(re.findall(r'\bT (vfx_\w+)', nm))
    red = []
    for x in sorted(have):
        red += ['--redefine-sym', '%s=%s' % (x[4:], x)]
    for o in objs:
        r = sh(['llvm-objcopy', '--weaken'] + red + [o])
        if r.returncode:
            raise BuildError('objcopy ' + r.stderr)
    if red:
        r = sh(['llvm-objcopy'] + red + [d + '/h.o'])
    exe = d + '/prog'
    r = sh(['clang++', '-fsanitize=address,undefined,float-cast-overflow', '-rdynamic', '-o', exe, d + '/h.o', d + '/rt.o'] + objs + ['-ldl', '-lpthread', '-lrt'] + (['-no-pie', '-Wl,--unresolved-symbols=ignore-all'] if unit.get('partial') else []))
    if r.returncode:
        raise BuildError('native link ' + r.stderr[-2000:])
    return exe


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=44:handle_abort=1:max_allocation_size_mb=4096',
            UBSAN_OPTIONS='print_stacktrace=1:exitcode=45')


def native_run(exe, args, timeout=60):
    try:
        r = sh([exe] + args, timeout=timeout, env=NENV)
        return r.returncode, (r.stdout + r.stderr)[-6000:]
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def native_search(exe, args, seed, limit):
    """draw inputs in parallel for `limit` seconds; the first failing run wins"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda k: native_run(exe, args + [str(seed + 17 * k), '3000', str(limit)], timeout=limit + 30), range(NCPU)))
    for rc, o in rs:
        if rc == 1:
            return rc, o
    return rs[0]


def prefixed(name):
    m = re.match(r'([A-Z]\d\d)/', name)
    return m.group(1) if m else None


from .sym import counts_for


def covers_of(unit, fn):
    tx = open(VERIF + '/' + unit['harness']).read()
    for inc in re.findall(r'#include "(\w+\.(?:h|inc))"', tx):
        p = VERIF + '/harness/' + inc
        if os.path.exists(p):
            tx += open(p).read()
    return sorted(set(re.findall(r'vf_cover\("(%s:[^"]*)"\)' % fn, tx)))


def load_known():
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def short_fn(f):
    return re.sub(r'\(.*', '', f)


def known_match(k, prop, uname, fn, fl):
    if k.get('property') != prop or k.get('status') == 'fixed':
        return False
    m = k['match']
    if 'harness' in m and m['harness'] != '%s/%s' % (uname, fn):
        return False
    if 'kind' in m and m['kind'] != fl['kind']:
        return False
    if 'name' in m and m['name'] != fl['name']:
        return False
    if 'fn' in m and m['fn'] != short_fn(fl['fn']):
        return False
    return True


def check(prop):
    from virc.units import UNITS, CHECKS, TRUSTED
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix='virc_%s_' % prop)
    try:
        return _check(prop, ck, UNITS, TRUSTED, tmp, tier, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(prop, ck, UNITS, TRUSTED, tmp, tier, seed, t0):
    runs = list(ck['runs']) + (list(ck.get('thorough', [])) if tier == 'thorough' else [])
    unames = sorted(set(u for u, f in runs))
    fails = []      # (uname, fn, failure)
    reports = []
    lls = {}
    berr = {}

    def b(u):
        try:
            lls[u] = build_ir(u, UNITS[u], tmp)
        except (BuildError, subprocess.TimeoutExpired) as e:
            berr[u] = str(e)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(b, unames))
    budget = 700 if tier == 'thorough' else 380

    def one(i):
        u, f = runs[i]
        if u in berr:
            return None
        opts = dict(UNITS[u].get('opts', {}))
        opts.update(UNITS[u].get('fnopts', {}).get(f, {}))
        opts['budget'] = budget
        opts['prop'] = prop
        if tier == 'thorough':
            opts['o_timeout'] = 60000
            opts['q_timeout'] = 10000
            opts['q_rlimit'] = 5000000
        out = '%s/%s_%s.json' % (tmp, u, f)
        try:
            r = sh([PY, '-m', 'virc.run1', lls[u], 'vfh_' + f, out, json.dumps(opts)], timeout=budget + 60, cwd=VERIF)
        except subprocess.TimeoutExpired:
            return {'status': 'budget', 'detail': 'time', 'obligations': [], 'failures': [], 'covers': [], 'stats': {}}
        if not os.path.exists(out):
            return {'status': 'internal-error', 'detail': (r.stderr or '')[-2000:], 'obligations': [], 'failures': [], 'covers': [], 'stats': {}}
        return json.load(open(out))
    order = list(range(len(runs)))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, order))
    for u in berr:
        fails.append((u, '*', {'kind': 'extraction', 'name': 'build', 'loc': u, 'fn': '', 'status': 'error', 'inputs': None,
                               'detail': berr[u], 'trace': []}))
    nobl = ndis = ntriv = ninst = 0
    solver_s = 0.0
    nq = 0
    oblist = []
    fns, loops, contracts, imprec = set(), set(), set(), set()
    units_rep = []
    incomplete = []
    for (u, f), rep in zip(runs, res):
        if rep is None:
            continue
        reports.append(rep)
        if rep['status'] != 'complete':
            incomplete.append((u, f, {'kind': 'verification-incomplete', 'name': rep['status'], 'loc': '', 'fn': f, 'status': 'unknown',
                                 'inputs': None, 'detail': rep.get('detail', ''), 'trace': []}))
        mine = [o for o in rep.get('obligations', []) if counts_for(o, prop)]
        nobl += len(mine)
        ndis += sum(1 for o in mine if not o['failed'])
        ninst += sum(o['inst'] for o in mine)
        solver_s += rep.get('stats', {}).get('solver_s', 0)
        nq += rep.get('stats', {}).get('queries', 0)
        fns.update(x for x in rep.get('functions', []) if 'veigar' in x or 'msgpack' in x)
        loops.update(rep.get('loops_proved', []))
        contracts.update(rep.get('contracts_used', []))
        imprec.update(rep.get('imprecisions', []))
        for fl in rep.get('failures', []):
            if counts_for(fl, prop):
                fails.append((u, f, fl))
        if rep['status'] == 'complete' and not rep.get('failures'):
            for c in covers_of(UNITS[u], f):
                if c not in rep.get('covers', []):
                    fails.append((u, f, {'kind': 'reach', 'name': c, 'loc': '', 'fn': f, 'status': 'unreachable', 'inputs': None,
                                         'detail': 'the harness point is not reachable: the proof would be vacuous', 'trace': []}))
        units_rep.append({'harness': '%s/%s' % (u, f), 'status': rep['status'], 'obligations': len(mine), 'instances': sum(o['inst'] for o in mine),
                          'failed': sum(1 for o in mine if o['failed']), 'paths': rep.get('stats', {}).get('paths', 0),
                          'solver_s': round(rep.get('stats', {}).get('solver_s', 0), 2), 'wall_s': rep.get('wall_s', 0),
                          'bounded': UNITS[u].get('bounded') or UNITS[u].get('fnbounded', {}).get(f)})
        for o in mine:
            if o['kind'] in ('contract', 'loop-invariant'):
                oblist.append('%s/%s: %s %s @ %s x%d %s' % (u, f, o['kind'], o['name'], o['loc'], o['inst'], '' if not o['failed'] else 'FAILED'))
    fails += incomplete
    known = load_known()
    for k in known:
        if k.get('property') == prop and k.get('status') != 'fixed':
            hit = [x for x in fails if known_match(k, prop, *x)]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                fails = [x for x in fails if x not in hit]
    if ndis == 0 and not fails:
        fails.append(('-', '-', {'kind': 'verification-incomplete', 'name': 'no obligations', 'loc': '', 'fn': '', 'status': 'unknown', 'inputs': None,
                                 'detail': '', 'trace': []}))
    rc = 0
    nviol = 0
    replay = None
    if fails:
        rc = 1
        nviol = len(fails)
        replay, confirmed = make_replay(prop, fails, UNITS, tmp, seed)
        fl = fails[0][2]
        for u, f, fl in fails[:12]:
            print('  failed obligation: %s %s in %s at %s [%s/%s] %s' % (fl['kind'], fl['name'], short_fn(fl['fn']), fl['loc'], u, f, fl['status']))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if confirmed else ' no-failing-input-found'))
    bounded = [u['harness'] + ': ' + u['bounded'] for u in units_rep if u.get('bounded')]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': ck.get('level', 'proof'),
          'coverage': {'obligations': nobl, 'discharged': ndis, 'obligation_instances': ninst,
                       'checker_cmd': 'python3-vt -m virc.run1 <ir> vfh_<harness> (z3 %s), via /verif/check %s' % (z3ver(), prop),
                       'trusted_base': TRUSTED['base'] + ck.get('trusted', []),
                       'backend': 'z3 (python API), quantifier-free UFLIA/NIA%s' % (' and BV' if any(UNITS[u].get('opts', {}).get('mode') == 'bv' for u in unames) else ''),
                       'solver_s': round(solver_s, 2), 'solver_queries': nq,
                       'functions_under_contract': sorted(short_fn(x) for x in fns)[:400],
                       'loops_with_inferred_and_checked_invariants': sorted(loops),
                       'externals_replaced_by_contract': sorted(contracts),
                       'overapproximated': sorted(imprec)[:50],
                       'harnesses': units_rep, 'bounded_stand_ins': bounded,
                       'contract_obligations': oblist[:400]},
          'assumptions': ck.get('assumptions', []) + TRUSTED['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as fo:
        json.dump(ev, fo, indent=1)
    print('%s: %d/%d obligations discharged (%d instances, %d harnesses), solver %.1f s, wall %.1f s' %
          (prop, ndis, nobl, ninst, len(units_rep), solver_s, time.time() - t0))
    return rc


def z3ver():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def make_replay(prop, fails, UNITS, tmp, seed):
    d = VERIF + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    path = '%s/%s.txt' % (d, prop)
    out = ['property %s: %d failed obligation(s)' % (prop, len(fails)), '']
    confirmed = False
    t0 = time.time()
    exes = {}
    tried_random = set()
    nnear = 0
    # counterexamples first
    fails2 = sorted(fails, key=lambda x: 0 if x[2].get('inputs') else 1)
    for n, (u, f, fl) in enumerate(fails2):
        out.append('--- obligation %s "%s" in %s at %s' % (fl['kind'], fl['name'], fl['fn'], fl['loc']))
        out.append('    harness %s/%s, verifier result: %s' % (u, f, fl['status']))
        if fl['detail']:
            out.append('    verifier output: ' + fl['detail'][:3000])
        for t in fl.get('trace', []):
            out.append('      at ' + t)
        if confirmed or time.time() - t0 > 150 or u not in UNITS or f == '*' or UNITS[u].get('nonative'):
            continue
        if u not in exes:
            try:
                exes[u] = build_native(u, UNITS[u], tmp)
            except (BuildError, subprocess.TimeoutExpired) as e:
                exes[u] = None
                out.append('    native build failed: ' + str(e)[:1500])
        if not exes[u]:
            continue
        if fl.get('inputs'):
            sp = '%s/stream_%d.txt' % (tmp, n)
            lines = []
            for nm, k, v in fl['inputs']:
                h = ' n' + nm.encode().hex() + ' '
                lines.append(k + h + (str(v) if k in 'is' else ' '.join(map(str, v))))
            open(sp, 'w').write('\n'.join(lines) + '\n')
            rc, o = native_run(exes[u], [f, 'file', sp], timeout=20)
            out.append('    native replay of the counterexample: exit %d' % rc)
            if rc not in (0, 42, 43, 2, 99, -14, -9):
                confirmed = True
                out.append('    CONFIRMED on the real code. inputs (in program order):')
                out += ['      %s = %s' % (nm, v) for nm, k, v in fl['inputs']]
                out.append('    native output:')
                out += ['      ' + x for x in o.split('\n')[:60]]
                continue
            if nnear < 4:
                nnear += 1
                rc, o = native_search(exes[u], [f, 'near', sp], seed, 20)
                out.append('    native search near the counterexample: exit %d' % rc)
                if rc == 1:
                    confirmed = True
                    out.append('    CONFIRMED on the real code:')
                    out += ['      ' + x for x in o.split('\n')[:80]]
                    continue
        if (u, f) not in tried_random:
            tried_random.add((u, f))
            rc, o = native_search(exes[u], [f, 'random'], seed, 30)
            out.append('    native search over drawn inputs (seed %d): exit %d' % (seed, rc))
            if rc == 1:
                confirmed = True
                out.append('    CONFIRMED on the real code:')
                out += ['      ' + x for x in o.split('\n')[:80]]
            else:
                out.append('      ' + o.strip()[-300:])
    if not confirmed:
        out.append('')
        out.append('no failing input found: the obligations above could not be discharged')
    open(path, 'w').write('\n'.join(out) + '\n')
    return path, confirmed


if __name__ == '__main__':
    sys.exit(check(sys.argv[1]))
