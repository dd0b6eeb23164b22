#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on the current /repo tree
   check.py --replay FILE       re-execute and re-judge a recorded violation"""
import json, multiprocessing as mp, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import engine, props
from osldrv import ToolError


def tool_error(msg):
    sys.stdout.write('TOOL-ERROR: %s\n' % msg)
    sys.exit(2)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mult = float(os.environ.get('OSL_MULT', '1' if tier == 'quick' else '12'))
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_%s_' % prop, dir=os.path.join(HERE, 'build'))
    try:
        run(prop, tier, seed, t0, mult, work)
    except ToolError as e:
        tool_error(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, mult, work):
    exe = engine.build()
    tb = time.time() - t0
    plan = props.PLAN[prop]
    nw = engine.NW
    deadline = time.time() + (300 if tier == 'quick' else 450)
    models = [(f, props.DEPTH[f][tier != 'quick']) for f in props.MODELS.get(prop, ())]
    jobs = []
    for w in range(nw):
        pl = [(n, f, max(1, int(c * mult * (1.6 if tier == 'quick' else 1) / nw + 0.999)), kw) for n, f, c, kw in plan]
        jobs.append((prop, w, seed, exe, work, pl, models, deadline))
    with mp.Pool(nw) as pool:
        res = pool.map(engine.worker, jobs, chunksize=1)
    errs = [r['err'] for r in res if r['err']]
    rejs = [x for r in res for x in r['rej']]
    if errs and not rejs:
        raise ToolError(errs[0])
    viol, drvfail = [], []
    for x in rejs:
        (drvfail if x['obs']['o'] == 'driver' else viol).append(x)
    if drvfail and not viol:
        raise ToolError('driver precondition failed: ' + json.dumps(drvfail[0]['raw'])[:3000])
    viol.sort(key=lambda x: (x['label'], len(x['raw']), json.dumps(x['raw'])))
    confirmed = None
    seen = {}
    for x in viol:
        seen.setdefault((x['rej']['m'], x['rej']['op'], x['rej']['why']), x)
    for key, x in list(seen.items())[:6]:
        c = engine.confirm(exe, work, x['raw'])
        if c:
            confirmed = (x, c)
            break
    ops, hashes = {}, {}
    for r in res:
        for k, v in r['outcomes'].items():
            ops[k] = ops.get(k, 0) + v
        for h, nt in r['hashes']:
            hashes[h] = hashes.get(h, False) or nt
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'bounded_models': {'families': {f: {'depth': d, 'histories_replayed': sum(r['models'].get(f, 0) for r in res)} for f, d in models},
                                          'states_generated': sum(r['models'].get('generated', 0) for r in res),
                                          'distinct_states': sum(r['models'].get('distinct', 0) for r in res)},
                       'states': sum(r['dist'] for r in res), 'transitions': sum(r['events'] for r in res),
                       'traces_validated_against_impl': sum(r['episodes'] for r in res),
                       'evaluations': sum(r['episodes'] for r in res), 'distinct_nontrivial': sum(1 for v in hashes.values() if v),
                       'rule': 'an evaluation is one history of API calls executed on the library and judged step by step by TLC against spec/OslTrace.tla; '
                               'non-trivial: at least two calls changed the store or returned a result; distinct by calls and arguments',
                       'calls_by_operation_and_outcome': dict(sorted(ops.items())),
                       'episodes_skipped_by_deadline': sum(r['cut'] for r in res),
                       'samples': [s for r in res[:2] for s in r['samples']][:3]},
          'assumptions': ['the projection of harness/values.hpp is faithful', 'TLC 1.8 evaluates the specification correctly'],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if confirmed else 0}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('OSL_DEBUG'):
        for key, x in seen.items():
            n = sum(1 for y in viol if (y['rej']['m'], y['rej']['op'], y['rej']['why']) == key)
            print('REJ', key, n, x['label'], 'obs', x['obs']['o'], 'exp', json.dumps(x['rej']['exp'])[:60])
        with open(os.path.join(HERE, 'build', 'rej.json'), 'w') as f:
            json.dump(viol, f)
        print('build %.1f model %.1f drive %.1f tlc %.1f' % (tb, max(r['t_model'] for r in res), max(r['t_drive'] for r in res), max(r['t_tlc'] for r in res)))
    if errs and not confirmed:
        raise ToolError(errs[0])
    if viol and not confirmed:
        raise ToolError('rejection did not repeat: ' + json.dumps(viol[0]['rej'])[:2000])
    if confirmed:
        x, (rej, evs) = confirmed
        raw = x['raw']
        if not os.environ.get('OSL_DEBUG'):
            raw = engine.minimise(exe, work, raw)
            c = engine.confirm(exe, work, raw)
            if c:
                rej, evs = c
            else:
                raw = x['raw']
        rp = os.path.join(HERE, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'generator': x['label'], 'calls': raw, 'rejected': rej, 'observed': evs[rej['at'] - 1]}, f, indent=1)
        print('history rejected at call %d (%s.%s, %s): observed %s; specification allows %s' % (
            rej['at'], rej['m'], rej['op'], rej['why'], json.dumps({k: evs[rej['at'] - 1][k] for k in ('o', 'r', 'd')})[:1500], json.dumps(rej['exp'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    print('OK property=%s histories=%d calls=%d states=%d wall=%.0fs' % (
        prop, ev['coverage']['evaluations'], ev['coverage']['transitions'], ev['coverage']['states'], time.time() - t0))


def replay(path):
    x = json.load(open(path))
    work = tempfile.mkdtemp(prefix='w_replay_', dir=os.path.join(HERE, 'build'))
    try:
        exe = engine.build()
        c = engine.confirm(exe, work, x['calls'])
        if c:
            print(json.dumps(c[0], indent=1))
            print('observed', json.dumps(c[1][c[0]['at'] - 1]))
            print('VIOLATION property=%s replay=%s' % (x['property'], path))
            sys.exit(1)
        print('not reproduced')
    except ToolError as e:
        tool_error(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
