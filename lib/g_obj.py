"""Generators for extensions, generics, lists, statements and SCoPs (structural operations)."""
import copy
from g_base import *
import g_rel
from g_rel import UND, CONTEXT, DOMAIN, SCATTERING, ACCESS, READ, WRITE, MAY_WRITE, TYPES, ACC

NULLS = '~NULL~'
KINDS = ('strings body relation textual comment null scatinfos scatnames arrays coordinates clay dependence symbols extbody '
         'loop pluto_unroll region annotation irregular').split()
REGISTRY = KINDS[:-1]
NONE = {'t': 'none', 's': [], 'c': []}


def T(t, s=(), c=()):
    return {'t': t, 's': [str(x) for x in s], 'c': list(c)}


# -------------------------------------------------------------------------- strings
WORDS = 'i j k l N M P1 c1 A B x y foo bar_2 alpha tmp[i] A[i][j] __k Zz s1 a+b for; {x} 42 -7 x=y; @0@'.split()
LINES = ('A[i] = B[i] + 1;', 'x = 0', 'for (i = 0; i < N; i++) {', 's += a[i][j] * b[j];', 'omp parallel for', '"lit %d"',
         '/* c */', 'if (a && b)', 'x=(i+j)*2 ;', 'MIN(a , b)', "c = 'x';", 'word')


def word(rng):
    if 'long' in Size.what and rng.random() < 0.15:
        return 'w' * rng.choice((1000, 2040, 2046, 2047, 2048, 2049, 2060, 4095, 4096, 5000))
    if rng.random() < 0.05:
        return 'w' * rng.randint(60, 300)
    return rng.choice(WORDS) if rng.random() < 0.8 else 'v%d' % rng.randint(0, 999)


def ident(rng):
    if 'long' in Size.what and rng.random() < 0.15:
        return 'I' * rng.choice((1000, 2040, 2046, 2047, 2048, 2049, 2060, 4095, 4096, 5000))
    return rng.choice('i j k l N M P1 c1 A B x y foo bar_2 alpha Zz s1'.split()) if rng.random() < 0.9 else 'id%d' % rng.randint(0, 99)


def line(rng):
    if 'long' in Size.what and rng.random() < 0.15:
        return 'x' * rng.choice((1000, 2040, 2046, 2047, 2048, 2049, 2060, 4095, 4096, 5000))
    if rng.random() < 0.03:
        return ' '.join(rng.choice(LINES) for _ in range(rng.randint(30, 90)))
    return rng.choice(LINES) if rng.random() < 0.8 else ' '.join(word(rng) for _ in range(rng.randint(1, 4)))


def count(rng, top=4):
    return more(rng, 'count', wchoice(rng, ((0, 2), (1, 4), (2, 3), (3, 2), (top, 1), (top * 3, 0.3))), 24)


def strings(rng, n=None):
    return T('strings', [word(rng) for _ in range(count(rng) if n is None else n)])


def reltree(r):
    return T('relation', (), [T('part', [q['t'], q['p'], q['nr'], q['nc'], q['o'], q['i'], q['l'], q['a']] + [x for y in q['m'] for x in y]) for q in r])


def text(rng, n=None):
    s = []
    for _ in range(count(rng, 3) if n is None else n):
        s += [str(rng.randint(-2, 5)), line(rng)]
    return T('text', s)


def body(rng, n=None):
    it = NONE if rng.random() < 0.1 else strings(rng, n)
    return T('body', (), [it, NONE if rng.random() < 0.1 else T('strings', [line(rng)])])


def item(rng, kind):
    return T('item', [kind], [tree(rng, kind)])


def generics(rng, n=None):
    ks = rng.sample(('strings', 'comment', 'arrays', 'scatnames', 'body', 'null', 'clay', 'scatinfos'), min(8, count(rng, 3)) if n is None else n)
    return T('generic', (), [item(rng, k) for k in ks])


def si(rng):
    return rng.choice((-1, 0, 1, 2, 3, 7, 100, 2**31 - 1, -2**31)) if rng.random() < 0.3 else rng.randint(-1, 9)


def tree(rng, k):
    if k == 'strings':
        return strings(rng)
    if k == 'body':
        return body(rng)
    if k == 'relation':
        return reltree(g_rel.relation(rng) if rng.random() < 0.9 else [])
    if k in ('textual', 'comment', 'clay'):
        return T(k, ['\n'.join(line(rng) for _ in range(rng.randint(1, 4)))])
    if k == 'null':
        return T(k)
    if k == 'scatnames':
        return T(k, (), [strings(rng)])
    if k == 'scatinfos':
        n = count(rng)
        return T(k, [n] + [si(rng) for _ in range(3 * n)])
    if k == 'arrays':
        return T(k, [y for _ in range(count(rng)) for y in (rng.randint(1 if rng.random() < 0.9 else -1, 9), ident(rng))])
    if k == 'coordinates':
        return T(k, [rng.choice(('file.c', 'my file.c', '/a/b/c.c')) if rng.random() < 0.9 else line(rng)] + [si(rng) for _ in range(5)])
    if k == 'dependence':
        return T(k, (), [T('dep', [si(rng) for _ in range(5)] + [rng.randint(-1, 5)] + [si(rng) for _ in range(8)],
                           [reltree(g_rel.relation(rng) if rng.random() < 0.9 else [])]) for _ in range(max(1, count(rng, 3)))])
    if k == 'symbols':
        return T(k, (), [T('sym', [si(rng) for _ in range(3)], [generics(rng) for _ in range(4)]) for _ in range(max(1, count(rng, 3)))])
    if k == 'extbody':
        n = rng.choice((0, 1, 2, 3, 12, 40))
        return T(k, [si(rng) for _ in range(2 * n)], [body(rng) if rng.random() < 0.95 else NONE])
    if k == 'loop':
        return T(k, (), [loop1(rng) for _ in range(max(1, count(rng, 3)))])
    if k == 'pluto_unroll':
        return T(k, (), [T('unroll1', [ident(rng), rng.randint(0, 1), rng.choice((0, 1, 4, 8, 2**31 - 1))]) for _ in range(max(1, count(rng, 3)))])
    if k == 'region':
        return T(k, (), [T('region1', [si(rng)], [text(rng) for _ in range(4)]) for _ in range(max(1, count(rng, 3)))])
    if k == 'annotation':
        return T(k, (), [text(rng), text(rng)])
    if k == 'irregular':
        return irregular(rng)
    raise AssertionError(k)


def loop1(rng):
    return T('loop1', [ident(rng), NULLS if rng.random() < 0.4 else 'i,j', rng.randint(0, 31), NULLS if rng.random() < 0.5 else line(rng)]
             + [si(rng) for _ in range(count(rng))])


def irregular(rng):
    ns, nc, ne = count(rng, 3), count(rng, 3), count(rng, 3)
    return T('irregular', [nc, ne], [T('preds', [rng.randint(0, 9) for _ in range(count(rng, 3))]) for _ in range(ns)]
             + [T('pred', [line(rng)] + [ident(rng) for _ in range(count(rng, 3))]) for _ in range(nc + ne)])


def perturb(rng, t):
    """A tree of the same kind that differs from t in one place (possibly equal again)."""
    t = copy.deepcopy(t)
    nodes = []

    def walk(x, top):
        nodes.append((x, top))
        for y in x['c']:
            walk(y, False)
    walk(t, True)
    for _ in range(20):
        x, top = rng.choice(nodes)
        f = rng.choice(('s', 's', 's', 'swap', 'cswap', 'cdup', 'cdrop', 'sadd', 'sdrop', 'shuffle'))
        k = x['t']
        if k in ('part', 'item', 'irregular', 'none'):
            continue
        if f == 's' and x['s']:
            j = rng.randrange(len(x['s']))
            if k == 'scatinfos' and j == 0 or x['s'][j] == NULLS and k not in ('loop1',):
                continue
            v = x['s'][j]
            num_ = v.lstrip('-').isdigit()
            if k == 'unroll1' and j == 1:
                x['s'][j] = str(1 - int(v))
            elif num_:
                x['s'][j] = str(int(v) + (1 if int(v) < 2**31 - 1 else -1))
            else:
                x['s'][j] = rng.choice((v + 'x', 'other', v[:-1] + '_'))
            return t
        if f == 'swap' and len(x['s']) > 1 and k in ('strings', 'preds'):
            a, b = rng.sample(range(len(x['s'])), 2)
            x['s'][a], x['s'][b] = x['s'][b], x['s'][a]
            return t
        if f == 'swap' and len(x['s']) > 3 and k in ('arrays', 'text', 'extbody'):
            a, b = [2 * y for y in rng.sample(range(len(x['s']) // 2), 2)]
            x['s'][a:a + 2], x['s'][b:b + 2] = x['s'][b:b + 2], x['s'][a:a + 2]
            return t
        if f in ('cswap', 'shuffle') and len(x['c']) > 1 and k in ('loop', 'pluto_unroll', 'region', 'dependence', 'symbols', 'annotation', 'generic', 'relation', 'region1', 'sym'):
            if f == 'shuffle':
                rng.shuffle(x['c'])
            else:
                a, b = rng.sample(range(len(x['c'])), 2)
                x['c'][a], x['c'][b] = x['c'][b], x['c'][a]
            return t
        if f == 'cdup' and x['c'] and k in ('loop', 'pluto_unroll', 'region', 'dependence', 'symbols', 'relation'):
            x['c'].insert(rng.randint(0, len(x['c'])), copy.deepcopy(rng.choice(x['c'])))
            return t
        if f == 'cdrop' and len(x['c']) > 1 and k in ('loop', 'pluto_unroll', 'region', 'dependence', 'symbols', 'relation', 'generic'):
            x['c'].pop(rng.randrange(len(x['c'])))
            return t
        if f == 'sadd' and k in ('strings', 'preds', 'loop1'):
            x['s'].append(rng.choice(x['s'][4:] or ['3']) if k != 'strings' else word(rng))
            return t
        if f == 'sadd' and k in ('text', 'arrays', 'extbody'):
            x['s'] += x['s'][:2] or ['1', 'z' if k != 'extbody' else '2']
            return t
        if f == 'sdrop' and len(x['s']) and k in ('strings', 'preds'):
            x['s'].pop(rng.randrange(len(x['s'])))
            return t
        if f == 'sdrop' and len(x['s']) > 1 and k in ('text', 'arrays', 'extbody'):
            del x['s'][-2:]
            return t
    return t


# ------------------------------------------------------------------- extension objects
def xobjs(rng, s, kinds=None, n=14, ops='malloc set clone equal equal equal free null dump self'.split()):
    """Clones, comparisons and releases of every kind of extension."""
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(kinds or KINDS)
        t = tree(rng, k)
        s.call('x.set', 1, t)
        s.call('x.set', 2, perturb(rng, t))
        s.call('x.set', 3, tree(rng, k))
        s.call('x.clone', 4, 1)
        s.call('x.equal', 1, 4)
        s.call('x.equal', 2, 1)
        for _ in range(n):
            op, a, b, d = rng.choice(ops), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
            if op == 'malloc':
                s.call('x.malloc', d, k)
            elif op == 'set':
                s.call('x.set', d, perturb(rng, s['x'][a][0]) if s['x'][a] and s['x'][a][0]['t'] != 'none' and rng.random() < 0.8 else tree(rng, k))
            elif op == 'clone' and s['x'][a]:
                s.call('x.clone', d, a)
                if k not in ('null',):
                    s.call('x.equal', d, a)
            elif op == 'equal' and s['x'][a] and s['x'][b]:
                s.call('x.equal', a, b)
            elif op == 'self' and s['x'][a]:
                s.call('x.equal', a, a)
            elif op == 'free':
                s.call('x.free', a)
            elif op == 'null':
                s.call('x.null', a, k)
            elif op == 'dump' and s['x'][a]:
                s.call('x.dump', a)
        for a in range(1, 5):
            s.call('x.free', a)


def grow(rng, s, n=18, kinds='extbody loop dependence pluto_unroll region annotation symbols irregular'.split()):
    """Contents of extensions grow entry by entry."""
    k = rng.choice(kinds)
    for a in (1, 2, 3):
        if rng.random() < 0.5 and k != 'extbody':
            s.call('x.set', a, tree(rng, k))
        else:
            s.call('x.malloc', a, k)
    if k == 'pluto_unroll':
        for _ in range(4):
            s.call('pluto_unroll.fill', rng.randint(1, 3), ident(rng), rng.randint(0, 1), rng.randint(0, 64))
        return
    big = rng.random() < 0.15
    for _ in range(n * (8 if big else 1)):
        a, b, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        if big and k in ('extbody', 'region', 'annotation', 'irregular'):
            a = b = d = 1
        A, Bx = s['x'][a], s['x'][b]
        if not A:
            s.call('x.set', a, tree(rng, k))
            continue
        if k == 'extbody':
            s.call('extbody.add', a, si(rng), si(rng))
        elif k in ('loop', 'dependence', 'symbols'):
            op = rng.choice(('add', 'add', 'count', 'clone', 'set'))
            if op == 'add' and a != b and Bx and len(A[0]['c']) + len(Bx[0]['c']) < 40:
                s.call(k + '.add', a, b)
            elif op == 'count':
                s.call({'loop': 'loop.count', 'dependence': 'dependence.nb', 'symbols': 'symbols.get_nb_symbols'}[k], a)
            elif op == 'clone':
                if k == 'loop':
                    s.call('loop.clone_one', d, a)
                    if s['x'][a] and s['x'][d]:
                        s.call('loop.equal_one', d, a)
                elif k == 'symbols':
                    s.call('symbols.nclone', d, a, rng.choice((-1, 0, 1, 2, 5)))
                else:
                    s.call('x.clone', d, a)
            elif op == 'set':
                s.call('x.set', a, tree(rng, k))
        elif k == 'region':
            op = rng.choice('append_prefix append_suffix append_prelude append_postlude append_prefix count clone_one equal_one'.split())
            if op.startswith('append'):
                s.call('region.' + op, a, rng.randint(-1, 5), line(rng))
            elif op == 'count':
                s.call('region.count', a)
            elif op == 'clone_one':
                s.call('region.clone_one', d, a)
            elif Bx:
                s.call('region.equal_one', a, b)
        elif k == 'annotation':
            s.call('annotation.' + rng.choice(('append_prefix', 'append_suffix')), a, rng.randint(-1, 5), line(rng))
        elif k == 'irregular':
            op = rng.choice(('add_control', 'add_exit', 'add_predicates'))
            if op == 'add_predicates':
                s.call('irregular.add_predicates', d, a, [rng.randint(0, 9) for _ in range(count(rng, 3))])
            else:
                s.call('irregular.' + op, d, a, [ident(rng) for _ in range(count(rng, 3))], line(rng))
        if rng.random() < 0.05 and s['x'][a]:
            s.call('x.clone', 4, a)
            s.call('x.equal', 4, a)


def tables(rng, s, n=18):
    """String tables and array tables."""
    for a in (1, 2, 3):
        s.call('x.set', a, strings(rng))
    s.call('x.set', 4, tree(rng, 'arrays'))
    s.call('x.malloc', 5, 'arrays')
    big = rng.random() < 0.1
    for _ in range(n * (8 if big else 1)):
        op = rng.choice('add add find find size encapsulate generate add_strings aadd aadd aid aname to_strings tnull clone set'.split())
        a, b, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        if op == 'add':
            s.call('strings.add', 1 if big else a, word(rng))
        elif op == 'find':
            q = s['x'][a][0]['s']
            s.call('strings.find', a, rng.choice(q) if q and rng.random() < 0.7 else word(rng))
        elif op == 'size':
            s.call('strings.size', a)
        elif op == 'encapsulate':
            s.call('strings.encapsulate', d, line(rng))
        elif op == 'generate':
            s.call('strings.generate', d, rng.choice(('P', 'i', 'x_', 'longer prefix')), rng.choice((0, 1, 2, 9, 10, 12, 101)))
        elif op == 'add_strings':
            s.call('strings.add_strings', d, a, b)
        elif op == 'clone':
            s.call('x.clone', d, a)
            s.call('x.equal', d, a)
            s.call('x.equal', a, b)
        elif op == 'aadd':
            s.call('arrays.add', rng.choice((4, 5)), rng.randint(-1, 12) if rng.random() < 0.9 else rng.randint(1, 150), ident(rng))
        elif op in ('aid', 'aname'):
            k = rng.choice((4, 5))
            q = s['x'][k][0]['s']
            j = 0 if op == 'aid' else 1
            v = rng.choice(q[j::2]) if q and rng.random() < 0.7 else ('77' if j == 0 else 'absent')
            s.call('arrays.get_index_from_' + op[1:], k, int(v) if j == 0 else v)
        elif op == 'to_strings':
            s.call('arrays.to_strings', d, rng.choice((4, 5)))
        elif op == 'tnull':
            s.call('x.null', 6, 'arrays')
            s.call('arrays.to_strings', 7, 6)
            s.call('arrays.add', 6, 3, 'a')
        elif op == 'set':
            s.call('x.set', 4, tree(rng, 'arrays'))


# ------------------------------------------------------------- interfaces and generics
def ifaces(rng, ks):
    return [{'u': k, 'k': k} for k in ks]


def git(rng, k, null=0.05):
    t = tree(rng, k)
    return {'u': k, 'k': k, 'd': [t] if rng.random() > null and (k != 'relation' or t['c']) else []}


def genlist(rng, ks=None, n=None, kinds=None):
    ks = rng.sample(kinds or KINDS, min(len(kinds or KINDS), count(rng, 4) if n is None else n)) if ks is None else ks
    return [git(rng, k) for k in ks]


def genperturb(rng, g):
    g = copy.deepcopy(g)
    f = rng.choice(('data', 'data', 'swap', 'shuffle', 'drop', 'add', 'other', 'same'))
    if f == 'data' and g:
        x = rng.choice(g)
        x['d'] = [perturb(rng, x['d'][0])] if x['d'] else git(rng, x['k'], 0)['d'] if x['k'] != 'none' else []
    elif f in ('swap', 'shuffle'):
        rng.shuffle(g)
    elif f == 'drop' and g:
        g.pop(rng.randrange(len(g)))
    elif f == 'add':
        ks = [k for k in KINDS if k not in [x['u'] for x in g]]
        if ks:
            g.append(git(rng, rng.choice(ks)))
    elif f == 'other' and g:
        j = rng.randrange(len(g))
        ks = [k for k in KINDS if k not in [x['u'] for x in g]]
        if ks:
            g[j] = git(rng, rng.choice(ks))
    return g


def registries(rng, s, n=16):
    for a in (1, 2, 3, 4):
        s.call('ifc.set', a, ifaces(rng, rng.sample(KINDS, min(19, count(rng, 5)))))
    for _ in range(n):
        op = rng.choice('set default free clone clone nclone add add number equal lookup lookup dump perturb'.split())
        a, b, d = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        A, Bf = s['f'][a], s['f'][b]
        bad = rng.random() < g_rel.BAD
        if op == 'set':
            s.call('ifc.set', a, ifaces(rng, rng.sample(KINDS, min(19, count(rng, 5)))))
        elif op == 'perturb':
            q = copy.deepcopy(A)
            if q:
                f = rng.choice(('swap', 'drop', 'uri', 'kind', 'same'))
                j = rng.randrange(len(q))
                if f == 'swap':
                    rng.shuffle(q)
                elif f == 'drop':
                    q.pop(j)
                elif f == 'uri':
                    q[j]['u'] = 'u%d' % rng.randint(0, 5)
                elif f == 'kind':
                    q[j]['k'] = rng.choice(KINDS)
                us = [x['u'] for x in q]
                if len(set(us)) == len(us):
                    s.call('ifc.set', d, q)
                    s.call('ifc.equal', a, d)
        elif op == 'default':
            s.call('ifc.default', d)
        elif op == 'free':
            s.call('ifc.free', a)
        elif op == 'clone':
            s.call('ifc.clone', d, a)
            s.call('ifc.equal', a, d)
        elif op == 'nclone':
            s.call('ifc.nclone', d, a, rng.choice((-1, 0, 1, 2, 30)))
        elif op == 'add' and a != b:
            us = {x['u'] for x in A}
            if bad and A:
                q = ifaces(rng, [k for k in rng.sample(KINDS, rng.choice((0, 0, 1, 2, 3, 12))) if k not in us])
                q.insert(rng.randint(0, len(q)), {'u': rng.choice(sorted(us) + [NULLS]), 'k': rng.choice(KINDS)})
                s.call('ifc.set', b, q)
                s.call('ifc.add', a, b)
            elif us & {x['u'] for x in Bf}:
                s.call('ifc.set', b, [x for x in Bf if x['u'] not in us])
            else:
                s.call('ifc.add', a, b)
        elif op == 'number':
            s.call('ifc.number', a)
        elif op == 'equal':
            s.call('ifc.equal', a, b)
        elif op == 'lookup':
            s.call('ifc.lookup', a, rng.choice([x['u'] for x in A] + [rng.choice(KINDS), 'nothing']))
        elif op == 'dump':
            s.call('ifc.dump', a)


def generic(rng, s, n=16, ops='set free malloc clone clone nclone equal equal add add remove remove remove_node number has_URI lookup lookup shell dump perturb'.split()):
    for a in (1, 2, 3, 4):
        s.call('gen.set', a, genlist(rng))
    for _ in range(n):
        op = rng.choice(ops)
        a, b, d = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        A, Bg = s['g'][a], s['g'][b]
        bad = rng.random() < g_rel.BAD
        if op == 'set':
            s.call('gen.set', a, genlist(rng))
        elif op == 'free':
            s.call('gen.free', a)
        elif op == 'malloc':
            s.call('gen.malloc', a)
        elif op == 'clone':
            s.call('gen.clone', d, a)
            s.call('gen.equal', d, a)
        elif op == 'nclone':
            s.call('gen.nclone', d, a, rng.choice((-1, 0, 1, 2, 30)))
        elif op == 'equal':
            s.call('gen.equal', a, b)
        elif op == 'perturb':
            s.call('gen.set', d, genperturb(rng, A))
            s.call('gen.equal', d, a)
            s.call('gen.equal', a, d)
        elif op == 'add' and a != b:
            us = {x['u'] for x in A}
            if bad and A:
                there = [u for u in us if u in KINDS]
                q = [git(rng, k) for k in rng.sample(KINDS, rng.choice((0, 0, 1, 2, 3))) if k not in us]
                q.insert(rng.randint(0, len(q)), git(rng, rng.choice(sorted(there))) if there and rng.random() < 0.9 else {'u': NULLS, 'k': 'none', 'd': []})
                s.call('gen.set', b, q)
                s.call('gen.add', a, b)
            elif us & {x['u'] for x in Bg} or NULLS in {x['u'] for x in Bg}:
                s.call('gen.set', b, [x for x in Bg if x['u'] not in us and x['u'] != NULLS])
            else:
                s.call('gen.add', a, b)
        elif op == 'remove':
            s.call('gen.remove', a, rng.choice([x['u'] for x in A if x['u'] != NULLS] + ['nothing']))
        elif op == 'remove_node' and A:
            s.call('gen.remove_node', a, rng.randint(1, len(A)))
        elif op == 'number':
            s.call('gen.number', a)
            s.call('gen.count', a)
        elif op == 'has_URI':
            s.call('gen.has_URI', a, rng.choice([x['u'] for x in A if x['u'] != NULLS] + ['nothing']))
        elif op == 'lookup':
            s.call('gen.lookup', a, rng.choice([x['u'] for x in A if x['u'] != NULLS] + ['nothing']))
        elif op == 'shell':
            k = rng.choice(KINDS)
            s.call('x.set', 1, tree(rng, k))
            s.call('ifc.set', 1, ifaces(rng, [k]))
            s.call('gen.shell', d, 1, 1)
        elif op == 'dump':
            s.call('gen.dump', a)


# -------------------------------------------------------------------------- lists
def rlist(rng, p=None, n=None, t=None, null=0.1):
    return [[] if rng.random() < null else g_rel.relation(rng, t=t, p=p) for _ in range(count(rng, 4) if n is None else n)]


def lists(rng, s, n=22):
    p = rng.choice(PRECS)
    for a in (1, 2, 3):
        s.call('list.set', a, rlist(rng, p))
    for _ in range(n):
        op = rng.choice('set malloc free node clone clone concat concat add add push push pop pop dup drop destroy equal equal set_type filter filter '
                        'count dump perturb'.split())
        a, b, d = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        A, Bl = s['l'][a], s['l'][b]
        if op == 'set':
            s.call('list.set', a, rlist(rng, p))
        elif op == 'perturb':
            q = copy.deepcopy(A)
            if q:
                f = rng.choice(('rel', 'swap', 'drop', 'null', 'dup', 'same'))
                j = rng.randrange(len(q))
                if f == 'rel':
                    q[j] = g_rel.perturb(rng, q[j])
                elif f == 'swap':
                    rng.shuffle(q)
                elif f == 'drop':
                    q.pop(j)
                elif f == 'null':
                    q[j] = []
                elif f == 'dup':
                    q.append(q[j])
                s.call('list.set', d, q)
                s.call('list.equal', d, a)
                s.call('list.equal', a, d)
        elif op == 'malloc':
            s.call('list.malloc', a)
        elif op in ('free', 'destroy', 'dump', 'count'):
            s.call('list.' + op, a)
        elif op == 'node':
            s.call('rel.set', 1, g_rel.relation(rng, p=p) if rng.random() < 0.8 else [])
            s.call('list.node', d, 1)
        elif op == 'clone':
            s.call('list.clone', d, a)
            s.call('list.equal', d, a)
        elif op == 'concat' and len(A) + len(Bl) < 25:
            s.call('list.concat', d, a, b)
        elif op == 'add' and a != b and len(A) + len(Bl) < 25:
            s.call('list.add', a, b)
        elif op == 'push' and a != b:
            if len(Bl) > 1 or (not Bl and rng.random() < 0.8):
                s.call('list.set', b, rlist(rng, p, 1))
            if len(s['l'][b]) <= 1:
                s.call('list.push', a, b)
        elif op == 'pop' and a != d:
            s.call('list.pop', d, a)
        elif op in ('dup', 'drop') and len(A) < 25:
            s.call('list.' + op, a)
        elif op == 'equal':
            s.call('list.equal', a, b)
        elif op == 'set_type':
            t = rng.choice(TYPES)
            s.call('list.set_type', a, t)
        elif op == 'filter':
            s.call('list.filter', d, a, rng.choice(TYPES + (ACCESS, ACCESS)))


def listattrs(rng, s):
    """Integrity and attributes of lists."""
    np = rng.choice((UND, 0, 1, 2))
    for _ in range(4):
        p = rng.choice(PRECS)
        o, i, l, a = rng.randint(1, 3), rng.randint(0, 3), rng.choice((0, 0, 1, 2)), rng.randint(0, 3)
        q = []
        for _ in range(count(rng, 4)):
            dims = (o if rng.random() < 0.7 else rng.randint(1, 4), i if rng.random() < 0.9 else rng.randint(0, 3), rng.randint(0, 2), a if rng.random() < 0.9 else rng.randint(0, 3))
            q.append([] if rng.random() < 0.1 else g_rel.clamp(g_rel.relation(rng, t=rng.choice((READ, WRITE, MAY_WRITE)), p=p, dims=dims), 10**6, ACC))
        s.call('list.set', 1, q)
        s.call('list.get_attributes', 1, rng.choice((UND, 0, 3)))
        t = rng.choice((ACCESS, ACCESS, READ, WRITE, UND))
        s.call('list.integrity_check', 1, t, UND, rng.choice((i, i, UND, i + 1)), rng.choice((a, a, UND, a + 1)))
        s.call('list.count', 1)


# --------------------------------------------------------------------- statements
def statement(rng, p=None, np=None, ni=None, parts=None, ext=None, strict=False, nacc=None, nulls=None):
    """A statement; strict: as the integrity checks expect it."""
    p = rng.choice(PRECS) if p is None else p
    np = more(rng, 'dims', rng.randint(0, 3), 13) if np is None else np
    ni = more(rng, 'dims', rng.choice((0, 1, 2, 2, 3, 4)), 13) if ni is None else ni
    if nulls is None:
        nulls = rng.choice((0.02, 0.06, 0.06, 0.35))

    def dims(o, i, a):
        if not strict and rng.random() < 0.06:
            i += rng.choice((1, -1)) if i else 1
        if not strict and rng.random() < 0.04:
            a = max(0, a + rng.choice((1, -1)))
        return (o, i, rng.choice((0, 0, 0, 1, 2)), a)
    dom = [] if rng.random() < nulls else g_rel.relation(rng, t=DOMAIN, p=p, dims=dims(ni, 0, np), parts=parts)
    sca = [] if rng.random() < nulls else g_rel.relation(rng, t=SCATTERING, p=p, dims=dims(rng.choice((0, 1, 2 * ni + 1, 2 * ni + 1, 3)), ni, np), parts=parts)
    acc = [[] if rng.random() < nulls and not strict else
           g_rel.clamp(g_rel.relation(rng, t=rng.choice((READ, WRITE, MAY_WRITE)), p=p, dims=dims(more(rng, 'rows', rng.choice((1, 1, 2, 3)), 13), ni, np), parts=more(rng, 'parts', rng.choice((1, 1, 1, 2)), 12)), 10**6, ACC)
           for _ in range(more(rng, 'accs', rng.choice((0, 1, 2, 2, 3, 5)), 20) if nacc is None else nacc)]
    if ext is None:
        ks = ([] if rng.random() < 0.3 else ['body']) + ([] if rng.random() < 0.8 else ['extbody']) + rng.sample(('comment', 'loop', 'null', 'irregular'), rng.choice((0, 0, 1, 2)))
        rng.shuffle(ks)
        ext = [git(rng, k, 0) for k in ks]
        for x in ext:
            b = x['d'][0] if x['k'] == 'body' else x['d'][0]['c'][0] if x['k'] == 'extbody' else NONE
            if b['t'] == 'body' and b['c'][0]['t'] == 'strings' and (strict or rng.random() < 0.85):
                b['c'][0] = strings(rng, ni)
    return {'dom': dom, 'sca': sca, 'acc': acc, 'ext': ext}


def stmtperturb(rng, q):
    q = copy.deepcopy(q)
    if not q:
        return q
    f = rng.choice(('dom', 'sca', 'acc', 'acc', 'ext', 'swap', 'drop', 'dup', 'same', 'null', 'accorder'))
    j = rng.randrange(len(q))
    if f in ('dom', 'sca'):
        q[j][f] = g_rel.perturb(rng, q[j][f])
    elif f == 'acc' and q[j]['acc']:
        k = rng.randrange(len(q[j]['acc']))
        q[j]['acc'][k] = g_rel.perturb(rng, q[j]['acc'][k])
    elif f == 'ext':
        q[j]['ext'] = genperturb(rng, q[j]['ext'])
    elif f == 'swap':
        rng.shuffle(q)
    elif f == 'drop':
        q.pop(j)
    elif f == 'dup':
        q.append(q[j])
    elif f == 'null':
        q[j][rng.choice(('dom', 'sca'))] = []
    elif f == 'accorder':
        rng.shuffle(q[j]['acc'])
    return q


def stmts(rng, p=None, n=None, **kw):
    p = rng.choice(PRECS) if p is None else p
    np = kw.pop('np', rng.randint(0, 3))
    return [statement(rng, p, np, **kw) for _ in range(count(rng, 3) if n is None else n)]


def statements(rng, s, n=16, ops='set malloc free clone clone nclone add add number equal equal perturb perturb remove_unions get_nb_iterators get_attributes get_body dump integrity'.split()):
    for a in (1, 2, 3):
        s.call('stmt.set', a, stmts(rng))
    for _ in range(n):
        op = rng.choice(ops)
        a, b, d = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        A = s['s'][a]
        if op == 'set':
            s.call('stmt.set', a, stmts(rng))
        elif op == 'perturb':
            s.call('stmt.set', d, stmtperturb(rng, A))
            s.call('stmt.equal', a, d)
            s.call('stmt.equal', d, a)
        elif op == 'malloc':
            s.call('stmt.malloc', a)
        elif op in ('free', 'number', 'dump', 'get_body'):
            s.call('stmt.' + op, a)
        elif op == 'get_nb_iterators' and A:
            s.call('stmt.get_nb_iterators', a)
        elif op == 'clone':
            s.call('stmt.clone', d, a)
            s.call('stmt.equal', d, a)
        elif op == 'nclone':
            s.call('stmt.nclone', d, a, rng.choice((-1, 0, 1, 2, 30)))
        elif op == 'add' and a != b and len(A) + len(s['s'][b]) < 20:
            s.call('stmt.add', a, b)
        elif op == 'equal':
            s.call('stmt.equal', a, b)
        elif op == 'remove_unions':
            s.call('stmt.remove_unions', d, a)
        elif op == 'get_attributes':
            s.call('stmt.get_attributes', a, rng.choice((UND, 0, 2)))
        elif op == 'integrity':
            s.call('stmt.integrity_check', a, rng.choice((UND, 0, 1, 2)))


def stmtunions(rng, s):
    p = rng.choice(PRECS)
    q = [statement(rng, p, parts=more(rng, 'parts', rng.choice((1, 2, 3, 4)), 12)) for _ in range(more(rng, 'stmts', rng.randint(1, 3), 12))]
    s.call('stmt.set', 1, q)
    s.call('stmt.remove_unions', 2, 1)
    s.call('stmt.number', 2)
    s.call('stmt.equal', 1, 2)
    s.call('scop.set', 1, scopseq(rng, p))
    s.call('scop.remove_unions', 2, 1)
    s.call('scop.free', 1)
    s.call('scop.equal', 2, 2)
    s.call('stmt.set', 3, [])
    s.call('stmt.remove_unions', 4, 3)


def stmtinteg(rng, s):
    for _ in range(3):
        np = rng.choice((0, 1, 2))
        s.call('stmt.set', 1, [statement(rng, None, np if rng.random() < 0.9 else 3, strict=rng.random() < 0.7) for _ in range(more(rng, 'stmts', rng.choice((0, 1, 1, 2, 3)), 13))])
        s.call('stmt.integrity_check', 1, rng.choice((np, np, np, UND, np + 1)))
        s.call('stmt.get_attributes', 1, rng.choice((UND, 0, 2)))
        if s['s'][1]:
            s.call('stmt.get_nb_iterators', 1)
        s.call('stmt.get_body', 1)


# -------------------------------------------------------------------------- SCoPs
SCOPEXT = [k for k in KINDS if k not in ('body', 'extbody')]


def scop(rng, p=None, strict=False, nst=None, lang=True, simple=False):
    p = rng.choice(PRECS) if p is None else p
    np = more(rng, 'dims', rng.randint(0, 3), 13)
    pn = np if strict or rng.random() < 0.9 else np + 1
    ctx = [] if (rng.random() < 0.05 and not strict) else g_rel.relation(rng, t=CONTEXT, p=p, dims=(0, 0, rng.choice((0, 0, 0, 1)), np), parts=rng.choice((1, 1, 1, 2)))
    par = [] if rng.random() < 0.4 else [{'u': 'strings', 'k': 'strings', 'd': [strings(rng, np)]}]
    st = [statement(rng, p, pn, strict=strict, parts=1 if simple and rng.random() < 0.7 else None) for _ in range(more(rng, 'stmts', rng.choice((0, 1, 1, 2, 3)), 12) if nst is None else nst)]
    ks = rng.sample(SCOPEXT, min(len(SCOPEXT), more(rng, 'exts', rng.choice((0, 0, 1, 2, 3)), 16)))
    reg = ifaces(rng, rng.choice((REGISTRY, [], rng.sample(KINDS, 3))))
    return {'ver': 1, 'lang': [rng.choice(('C', 'FORTRAN', 'JAVA'))] if lang and rng.random() < 0.95 else [], 'ctx': ctx, 'par': par, 'st': st,
            'reg': reg, 'ext': [git(rng, k, 0) for k in ks]}


def scopseq(rng, p=None, **kw):
    """A list of SCoPs; a long one is made of small ones."""
    n = more(rng, 'scops', rng.choice((0, 1, 1, 2)), 14)
    return [scop(rng, p, **kw) if n < 5 or k < 2 else scop(rng, p, nst=rng.choice((0, 0, 0, 1)), **kw) for k in range(n)]


def scopperturb(rng, q):
    q = copy.deepcopy(q)
    if not q:
        return q
    x = rng.choice(q)
    f = rng.choice(('ver', 'lang', 'ctx', 'par', 'st', 'st', 'reg', 'ext', 'ext', 'drop', 'dup', 'swap', 'same'))
    if f == 'ver':
        x['ver'] += 1
    elif f == 'lang':
        x['lang'] = rng.choice(([], ['C'], ['C99']))
    elif f == 'ctx':
        x['ctx'] = g_rel.perturb(rng, x['ctx'])
    elif f == 'par':
        x['par'] = genperturb(rng, x['par'])
    elif f == 'st':
        x['st'] = stmtperturb(rng, x['st'])
    elif f == 'reg':
        x['reg'] = ifaces(rng, rng.sample(KINDS, 3)) if rng.random() < 0.5 else x['reg'][1:]
    elif f == 'ext':
        x['ext'] = genperturb(rng, x['ext'])
    elif f == 'drop':
        q.pop()
    elif f == 'dup':
        q.append(copy.deepcopy(q[0]))
    elif f == 'swap':
        rng.shuffle(q)
    return q


def scops(rng, s, n=10, ops='set malloc free clone clone add number equal perturb perturb remove_unions integrity_check get_attributes names dump nb normalize scoplib'.split()):
    for a in (1, 2):
        s.call('scop.set', a, scopseq(rng))
    for _ in range(n):
        op = rng.choice(ops)
        a, b, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        A = s['p'][a]
        if op == 'set':
            s.call('scop.set', a, scopseq(rng))
        elif op == 'perturb':
            s.call('scop.set', d, scopperturb(rng, A))
            s.call('scop.equal', a, d)
            s.call('scop.equal', d, a)
        elif op in ('malloc', 'free', 'number', 'integrity_check', 'dump'):
            s.call('scop.' + op, a)
        elif op == 'clone':
            s.call('scop.clone', d, a)
            s.call('scop.equal', a, d)
        elif op == 'add' and a != b and len(A) + len(s['p'][b]) < 5 + 13 * ('scops' in Size.what):
            s.call('scop.add', a, b)
        elif op == 'equal':
            s.call('scop.equal', a, b)
        elif op == 'remove_unions':
            s.call('scop.remove_unions', d, a)
        elif op == 'get_attributes':
            s.call('scop.get_attributes', a, rng.choice((UND, 0, 2)))
        elif op == 'names':
            s.call('scop.names', rng.randint(1, 3), a)
        elif op == 'nb' and A:
            s.call('scop.get_nb_parameters', a)
        elif op == 'scoplib':
            s.call('scop.check_compatible_scoplib', a)
        elif op == 'normalize' and (rng.random() < 0.4):
            s.call('scop.normalize_scattering', a)


def scopinteg(rng, s):
    for _ in range(2):
        s.call('scop.set', 1, scopseq(rng, strict=rng.random() < 0.8))
        s.call('scop.integrity_check', 1)
        s.call('scop.get_attributes', 1, rng.choice((UND, 0)))
        s.call('scop.names', 1, 1)
        if s['p'][1]:
            s.call('scop.get_nb_parameters', 1)


def normalize(rng, s):
    """Scatterings of a SCoP brought to one dimension count."""
    p = rng.choice(PRECS)
    q = scop(rng, p, nst=more(rng, 'stmts', rng.choice((0, 1, 2, 3, 4)), 12))
    top = 0
    for x in q['st']:
        if x['sca'] and rng.random() < 0.9:
            x['sca'] = x['sca'][:1]
        elif x['sca']:
            o = x['sca'][0]['o']
            x['sca'] = [y for y in x['sca'] if y['o'] <= o]
    s.call('scop.set', 1, [q] if rng.random() < 0.9 else [q, scop(rng, p)])
    s.call('scop.clone', 2, 1)
    s.call('scop.normalize_scattering', 1)
    s.call('scop.equal', 1, 2)
    s.call('scop.normalize_scattering', 1)
    s.call('scop.integrity_check', 1)


def normalizesmall(rng, s, n=6):
    """Many small SCoPs: absent domains, scatterings and statements, scatterings of any width."""
    for _ in range(n):
        p = rng.choice(PRECS)
        st = []
        for _ in range(more(rng, 'stmts', rng.randint(0, 6), 14)):
            x = {'dom': [], 'sca': [], 'acc': [], 'ext': []}
            if rng.random() < 0.5:
                x['dom'] = g_rel.relation(rng, t=DOMAIN, p=p, dims=(1, 0, 0, 0), parts=1, rows=rng.choice((0, 1)))
            if rng.random() < 0.7:
                i, l, a = rng.choice((0, 1, 2)), rng.choice((0, 0, 1)), rng.choice((0, 1))
                o = more(rng, 'dims', rng.choice((0, 1, 2, 3, 4, 5)), 15)
                x['sca'] = [g_rel.relation(rng, t=SCATTERING, p=p, dims=(o if k == 0 else rng.randint(0, o), i, l, a), parts=1, rows=rng.choice((0, 1, 2, o)))[0]
                            for k in range(more(rng, 'parts', rng.choice((1, 1, 1, 2, 3)), 12))]
            st.append(x)
        q = {'ver': 1, 'lang': [], 'ctx': [], 'par': [], 'st': st, 'reg': [], 'ext': []}
        s.call('scop.set', 1, [q])
        s.call('scop.normalize_scattering', 1)


def names(rng, s, n=14):
    """Tables of names."""
    for _ in range(n):
        a, d = rng.randint(1, 4), rng.randint(1, 4)
        op = rng.choice('set malloc free clone clone generate generate dump'.split())
        if op == 'set':
            s.call('names.set', a, [{k: [] if rng.random() < 0.15 else [strings(rng)['s']] for k in ('par', 'it', 'sc', 'lo', 'ar')}])
        elif op == 'clone':
            s.call('names.clone', d, a)
        elif op == 'generate':
            x = []
            for pre in rng.sample(('P', 'i', 'c', 'l', 'A', 'param', '_'), 5):
                x += [pre, rng.choice((0, 1, 2, 3, 10, 11, 100, 130)) if rng.random() < 0.7 else rng.randint(0, 200)]
            s.call('names.generate', d, *x)
        else:
            s.call('names.' + op, a)
