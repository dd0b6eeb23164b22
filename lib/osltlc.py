"""TLC access: trace validation against spec/OslTrace.tla and model runs."""
import json, os, re, subprocess, tempfile, shutil
from osldrv import ToolError, VERIF

JARS = '/opt/veriftools/tla/tla2tools.jar'
SPEC = os.path.join(VERIF, 'spec')


def find_cp():
    tlc = shutil.which('tlc')
    if tlc:
        try:
            m = re.search(r'-cp\s+"?([^"\s]+)"?', open(tlc).read())
            if m:
                return m.group(1)
        except OSError:
            pass
    return JARS


CP = find_cp()


def tlc(module, cfg, env, workdir, workers=1, heap='3g', timeout=600, extra=(), props=()):
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta] + list(props) + ['-cp', CP, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-config', cfg, '-noGenerateSpecTE', '-lncheck', 'final'] + list(extra) + [module]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left')


def parse_prints(out, tag):
    """PrintT(<<"TAG", json>>) lines."""
    res = []
    # TLC may wrap long tuples over several lines
    flat = re.sub(r'<< *"%s",\s*' % tag, '<<"%s", ' % tag, out)
    for m in re.finditer(r'<<"%s", ("(?:[^"\\]|\\.)*")\s*>>' % tag, flat):
        s = m.group(1)
        res.append(json.loads(json.loads(s)))
    return res


def explore(models, shard, shards, workdir, timeout=800):
    """Explores bounded models of the specification (spec/MC.tla).
    models: (family, depth) pairs.  Returns ([(family, history)], generated, distinct)."""
    f = os.path.join(workdir, 'models.%d.json' % shard)
    with open(f, 'w') as o:
        json.dump([{'family': m, 'depth': d} for m, d in models], o)
    rc, out = tlc('MC', 'MC.cfg', {'FAMILIES': f, 'SHARD': str(shard), 'SHARDS': str(shards)}, workdir, timeout=timeout)
    m = STATES.search(out)
    if rc != 0 or 'No error has been found' not in out or not m:
        raise ToolError('TLC failed on the models %s\n%s' % (models, re.sub(r'<<"HIST".*', '', out)[-3000:]))
    keep = {}
    for x in parse_prints(out, 'HIST'):
        keep[json.dumps(x['h'])] = x
    for x in list(keep.values()):   # a history that another one continues is executed with it
        for k in range(1, len(x['h'])):
            keep.pop(json.dumps(x['h'][:k]), None)
    return [(keep[k]['f'], keep[k]['h']) for k in sorted(keep)], int(m.group(1)), int(m.group(2))


def validate(episodes, workdir, timeout=600):
    """episodes: list of event lists.  Returns (rejections, generated, distinct)."""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=workdir, delete=False)
    json.dump(episodes, f)
    f.close()
    try:
        rc, out = tlc('OslTrace', 'OslTrace.cfg', {'TRACE_FILE': f.name}, workdir, timeout=timeout)
    finally:
        pass
    rej = parse_prints(out, 'REJECT')
    m = STATES.search(out)
    if rc != 0 or 'No error has been found' not in out or not m:
        raise ToolError('TLC failed on %s\n%s' % (f.name, out[-3000:]))
    gen, dist = int(m.group(1)), int(m.group(2))
    want = len(episodes)
    bad = {r['ep']: r for r in rej}
    for k, ev in enumerate(episodes):
        want += bad[k + 1]['at'] if k + 1 in bad else len(ev)
    if dist != want:
        raise ToolError('TLC explored %d states, expected %d (%s)' % (dist, want, f.name))
    os.unlink(f.name)
    return rej, gen, dist
