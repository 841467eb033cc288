"""verify one harness function; writes a JSON report"""
import json
import sys
import time
import traceback


def run(ll, fn, out, opts):
    import z3
    from .ir import Module
    from .sym import Engine, Budget
    from .dom import Unsupported
    t0 = time.time()
    rep = {'harness': fn, 'status': 'complete', 'detail': ''}
    E = None
    try:
        m = Module(ll)
        E = Engine(m, mode=opts.get('mode', 'int'), timeout=opts.get('budget', 300), opts=opts)
        E.run_main(fn)
    except Budget as e:
        rep['status'] = 'budget'
        rep['detail'] = str(e)
    except Unsupported as e:
        rep['status'] = 'unsupported'
        rep['detail'] = '%s at %s' % (e, E.site() if E is not None and E.st.frames else '?')
    except Exception as e:
        rep['status'] = 'internal-error'
        rep['detail'] = traceback.format_exc()[-3000:]
    if E is not None:
        rep['obligations'] = [{'kind': o.kind, 'name': o.name, 'loc': o.loc, 'fn': E.demangled.get(o.fn, o.fn), 'inst': o.inst,
                               'failed': o.failed, 'trivial': o.trivial, 'ms': round(o.ms, 1),
                               'backend': sorted(o.backend)} for o in E.obls.values()]
        rep['failures'] = []
        for f in E.failures.values():
            inp = None
            if f.inputs is not None:
                inp = []
                for n, v in f.inputs:
                    if isinstance(v, bytes):
                        inp.append([n, 's', v.hex()])
                    elif isinstance(v, list):
                        inp.append([n, 'w', v])
                    else:
                        inp.append([n, 'i', v])
            rep['failures'].append({'kind': f.kind, 'name': f.name, 'loc': f.loc, 'fn': E.demangled.get(f.fn, f.fn),
                                    'status': f.status, 'inputs': inp, 'detail': f.detail, 'trace': f.trace})
        rep['covers'] = sorted(E.covers)
        rep['imprecisions'] = ['%s @ %s %s (%d)' % (k[0], E.demangled.get(k[1], k[1]), k[2], v) for k, v in E.imprecisions.items()]
        rep['loops_proved'] = sorted('%s %s' % (E.demangled.get(a, a), b) for a, b in E.loops_proved)
        rep['functions'] = sorted(E.demangled.get(c, c) for c in E.callees)
        rep['contracts_used'] = sorted(E.contracts_used)
        rep['stats'] = E.stats
    rep['wall_s'] = round(time.time() - t0, 2)
    json.dump(rep, open(out, 'w'))


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    run(sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4]))
