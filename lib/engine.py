"""Conformance engine: generate histories on the real library, judge them with TLC."""
import hashlib, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time, traceback
from osldrv import Driver, Session, EpisodeOver, ToolError, VERIF, run_script, in_lines, lex
import g_base, osltlc

NW = 8
STRETCH = float(os.environ.get('OSL_STRETCH', "0.17"))   # part of the histories that get oversized objects


def build():
    out = os.path.join(VERIF, 'build', 'drv')
    r = subprocess.run(['bash', os.path.join(VERIF, 'harness', 'build.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ToolError('driver build failed:\n' + r.stdout.decode()[-3000:])
    return os.path.join(out, 'driver')


def size_of(ev):
    return sum(len(json.dumps(e)) for e in ev) + 50


def judge(episodes, workdir):
    """episodes: list of (label, events, raw).  Validates in bounded chunks."""
    rej, gen, dist, k = [], 0, 0, 0
    while k < len(episodes):
        j, sz = k, 0
        while j < len(episodes) and (j == k or sz < 40_000_000):
            sz += size_of(episodes[j][1])
            j += 1
        r, g, d = osltlc.validate([e[1] for e in episodes[k:j]], workdir)
        for x in r:
            x['ep'] += k - 1
            rej.append(x)
        gen += g
        dist += d
        k = j
    return rej, gen, dist


def concrete(c):
    """A call of a model history -> a driver call; a text argument, given as lines of words, becomes the text itself."""
    if 'txt' not in c:
        return {'op': c['m'] + '.' + c['op'], 'a': c['a']}
    k = c['txt'] - 1
    text = ''.join(' '.join(l) + '\n' for l in c['a'][k])
    spec = in_lines(text) if c['m'] == 'rel' else lex(text)
    return {'op': c['m'] + '.' + c['op'], 'a': c['a'][:k] + [text] + c['a'][k + 1:], 'spec': c['a'][:k] + [spec] + c['a'][k + 1:]}


def worker(arg):
    prop, wid, seed, exe, workdir, plan, models, deadline = arg
    t0 = time.time()
    res = {'wid': wid, 'episodes': 0, 'events': 0, 'rej': [], 'gen': 0, 'dist': 0, 'ops': {}, 'outcomes': {}, 'hashes': [], 'samples': [], 'err': None,
           'cut': 0, 'models': {}, 't_model': 0, 't_drive': 0, 't_tlc': 0}
    try:
        scripts = []
        if models:
            hs, g, d = osltlc.explore(models, wid, NW, workdir)
            res['models'] = {'generated': g, 'distinct': d}
            for family, h in hs:
                res['models'][family] = res['models'].get(family, 0) + 1
                scripts.append(('model ' + family, h))
        res['t_model'] = time.time() - t0
        drv = Driver(exe, '%s.%d.%d' % (prop, wid, os.getpid()))
        eps = []
        for label, h in scripts:
            ev, raw = run_script(drv, [concrete(c) for c in h])
            eps.append((label, ev, raw))
        for name, fn, count, kw in plan:
            for k in range(count):
                if time.time() > deadline:
                    res['cut'] += 1
                    continue
                rng = random.Random('%s/%s/%s/%d/%d' % (seed, prop, name, wid, k))
                s = Session(drv)
                s.serial = k * NW + wid
                if k % 2 == 1:
                    s.vrng = random.Random('views/%s/%s/%s/%d/%d' % (seed, prop, name, wid, k))
                zrng = random.Random('sizes/%s/%s/%s/%d/%d' % (seed, prop, name, wid, k))
                g_base.Size.what = g_base.stretched(zrng, fn, STRETCH)
                try:
                    fn(rng, s, **kw)
                except EpisodeOver:
                    pass
                except ToolError:
                    raise
                except Exception as e:  # a state the generator did not expect: keep the recorded history
                    s.genfail = traceback.format_exc()
                s.end()
                eps.append((name, s.ev, s.raw, getattr(s, 'genfail', None)))
        drv.close()
        res['t_drive'] = time.time() - t0 - res['t_model']
        rej, res['gen'], res['dist'] = judge(eps, workdir)
        res['t_tlc'] = time.time() - t0 - res['t_drive'] - res['t_model']
        res['episodes'] = len(eps)
        badeps = {r['ep'] for r in rej}
        for k, e in enumerate(eps):
            if len(e) > 3 and e[3] and k not in badeps:
                raise ToolError('generator %s failed: %s' % (e[0], e[3]))
            res['events'] += len(e[1])
            h = hashlib.md5(json.dumps([[x['m'], x['op'], x['a']] for x in e[1]]).encode()).hexdigest()
            nontriv = sum(1 for x in e[1] if x['d'] or x['r'] not in ('', 0)) >= 2
            res['hashes'].append((h, nontriv))
            for x in e[1]:
                o = x['m'] + '.' + x['op']
                res['ops'][o] = res['ops'].get(o, 0) + 1
                oc = o + ':' + x['o']
                res['outcomes'][oc] = res['outcomes'].get(oc, 0) + 1
        for r in rej:
            e = eps[r['ep']]
            res['rej'].append({'label': e[0], 'rej': r, 'raw': e[2][:r['at']], 'obs': e[1][r['at'] - 1]})
        for k in (0, len(eps) // 2):
            if k < len(eps):
                res['samples'].append([[x['op'], x['a'], x['o'], x['r']] for x in eps[k][1][:6]])
    except ToolError as e:
        res['err'] = str(e)
    except Exception:
        res['err'] = traceback.format_exc()
    return res


def confirm(exe, workdir, raw):
    """Re-executes a rejected history in a fresh driver and judges it again."""
    drv = Driver(exe, 'confirm.%d' % os.getpid())
    try:
        ev, raw2 = run_script(drv, raw)
    finally:
        drv.close()
    rej, _, _ = judge([('confirm', ev, raw2)], workdir)
    return (rej[0], ev) if rej else None


def minimise(exe, workdir, raw, budget=25):
    """Drops calls while the last call is still rejected (a shorter replay)."""
    t0 = time.time()
    cur = raw
    n = max(1, len(cur) // 2)
    while n >= 1 and time.time() - t0 < budget:
        cands = []
        for k in range(0, len(cur) - 1, n):
            c = cur[:k] + cur[min(k + n, len(cur) - 1):]
            if len(c) < len(cur):
                cands.append(c)
        drv = Driver(exe, 'min.%d' % os.getpid())
        eps = []
        try:
            for c in cands[:40]:
                try:
                    ev, raw2 = run_script(drv, c)
                    eps.append(('m', ev, c))
                except ToolError:
                    drv.close()
                    drv = Driver(exe, 'min.%d' % os.getpid())
        finally:
            drv.close()
        try:
            rej, _, _ = judge(eps, workdir) if eps else ([], 0, 0)
        except ToolError:
            return cur
        last = raw[-1]['op']
        good = [eps[r['ep']][2][:r['at']] for r in rej
                if r['m'] + '.' + r['op'] == last and eps[r['ep']][1][r['at'] - 1]['o'] != 'driver']
        if good:
            cur = min(good, key=len)
            n = min(n, max(1, len(cur) // 2))
        else:
            n //= 2
    return cur
