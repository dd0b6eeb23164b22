"""SCoPLib export."""
import copy
from g_base import *
import g_rel, g_obj, g_text
from g_rel import CONTEXT, DOMAIN, SCATTERING, READ, WRITE, MAY_WRITE, ACC
I32 = 2**31 - 1


def anames(rng, s, rel):
    if rng.random() < 0.7:
        s.call('names.set', 1, g_rel.names(rng, rel, short=rng.random() < 0.2))
    else:
        s.call('names.free', 1)


def access(rng, p, i, a, l=0, t=None):
    o = more(rng, 'rows', rng.choice((1, 1, 2, 3)), 14)
    q = g_rel.mkpart(t or rng.choice((READ, READ, WRITE, WRITE, MAY_WRITE)), p, o, i, l, a, g_rel.access_rows(rng, p, o, i, l, a))
    if o == 1 or rng.random() < 0.1:
        q['m'] = q['m'][:1]
        q['nr'] = 1
    if rng.random() < 0.15:   # general rows
        q = g_rel.relation(rng, q['t'], p, 1, (o, i, l, a))[0]
        if not q['nr']:
            q['m'], q['nr'] = [['0'] * q['nc']], 1
    return g_rel.clamp([q], I32, ACC)


def fakedomain(p, a):
    return [g_rel.mkpart(DOMAIN, p, 0, 0, 0, a, [])]


def sclrel(rng, s, n=8):
    """Relations, and lists of accesses."""
    for _ in range(n):
        p = rng.choice(PRECS)
        op = rng.choice(('spprint_polylib_scoplib', 'spprint_scoplib', 'pprint_scoplib', 'list', 'list'))
        if op == 'list':
            i, a = more(rng, 'dims', rng.randint(0, 3), 13), more(rng, 'dims', rng.randint(0, 2), 13)
            q = [access(rng, p, i, a, rng.choice((0, 0, 0, 1))) for _ in range(more(rng, 'accs', rng.choice((0, 1, 2, 3, 4, 6)), 14))]
            if rng.random() < 0.2:
                q.insert(rng.randint(0, len(q)), [])
            s.call('list.set', 1, q)
            anames(rng, s, [x[0] for x in q if x])
            s.call('list.pprint_access_array_scoplib', 1, 1, rng.choice((0, 0, 1)))
            continue
        fake = rng.choice((0, 0, 1))
        t = rng.choice(g_rel.TYPES)
        o, i, a = [more(rng, 'dims', rng.randint(0, 4 - (k > 0)), 13) for k in range(3)]   # the format has no local dimension
        r = g_rel.relation(rng, t, p, None, (0 if t == CONTEXT else o, 0 if t in (CONTEXT, DOMAIN) else i, 0, a))
        if fake and t == DOMAIN:
            r = fakedomain(p, more(rng, 'dims', rng.randint(0, 3), 13))
        elif t in ACC or rng.random() < 0.05:
            r = access(rng, p, more(rng, 'dims', rng.randint(0, 3), 13), more(rng, 'dims', rng.randint(0, 2), 13))
        elif fake and t == CONTEXT:
            fake = 0
        elif fake and t == SCATTERING:
            r = [q for q in r if q['nr']]
        if rng.random() < 0.03 and op != 'spprint_polylib_scoplib':
            r = []
        s.call('rel.set', 1, r)
        anames(rng, s, r)
        s.call('rel.' + op, 1, 1, rng.choice((0, 1)), fake)


def functional(rng, p, o, i, a):
    """A scattering in the form the format knows."""
    rows = []
    for k in range(o):
        r = g_rel.row(rng, p, o + i + a + 2)
        r[0] = 0
        r[1:o + 1] = [-1 if j == k else 0 for j in range(o)]
        rows.append(r)
    return [g_rel.mkpart(SCATTERING, p, o, i, 0, a, rows)]


def sclstmt(rng, p, a):
    ni = more(rng, 'dims', rng.choice((0, 1, 2, 2, 3)), 12)
    if ni == 0 and rng.random() < 0.7:
        dom, o = fakedomain(p, a), rng.choice((1, 1, 2))
    else:
        dom = g_rel.relation(rng, DOMAIN, p, more(rng, 'parts', rng.choice((1, 1, 1, 2, 3)), 12), (ni, 0, 0, a), rows=None if ni == 0 else more(rng, 'rows', rng.randint(1, 4), 20))
        o = rng.choice((1, ni, 2 * ni + 1))
        if ni == 0 and dom[0]['nr'] == 0 and len(dom) > 1:
            dom = dom[:1]
    x = {'dom': dom, 'sca': functional(rng, p, o, ni, a), 'acc': [access(rng, p, ni, a) for _ in range(more(rng, 'accs', rng.choice((0, 1, 2, 3, 4)), 13))], 'ext': []}
    if rng.random() < 0.8:
        x['ext'].append({'u': 'body', 'k': 'body', 'd': [g_text.pbody(rng, ni)]})
    x['ext'] += g_text.pgen(rng, p, g_text.STEXT, rng.choice((0, 0, 1)))
    rng.shuffle(x['ext'])
    return x


def sclscop(rng, p):
    a = more(rng, 'dims', rng.randint(0, 3), 13)
    x = g_text.pscop(rng, p, strict=True, nst=0)
    x['ctx'] = g_rel.relation(rng, CONTEXT, p, 1, (0, 0, rng.choice((0, 0, 1)), a))
    x['par'] = [{'u': 'strings', 'k': 'strings', 'd': [g_obj.strings(rng, a)]}] if rng.random() < 0.6 and a else []
    x['st'] = [sclstmt(rng, p, a) for _ in range(more(rng, 'stmts', rng.choice((0, 1, 1, 2, 3)), 13))]
    return x


def breakit(rng, x):
    """Something the format cannot express (or that it still can)."""
    x = copy.deepcopy(x)
    if not x['st']:
        return [x, copy.deepcopy(x)]
    y = rng.choice(x['st'])
    f = rng.choice(('sca', 'sca', 'sca', 'swap', 'dom', 'local', 'localdom', 'two', 'acc', 'last', 'rows', 'nodom', 'part'))
    q = y['sca'][0]
    if f == 'sca' and q['nr']:
        r = rng.randrange(q['nr'])
        c = rng.randint(0, q['nc'] - 1)
        if rng.random() < 0.6:
            c = rng.randint(1, max(1, q['o']))
        q['m'][r][c] = rng.choice(('1', '-1', '0', '2', '-2'))
    elif f == 'last' and q['nr'] and q['o']:
        q['m'][-1][q['o']] = rng.choice(('1', '0', '2'))
    elif f == 'swap' and q['nr'] > 1:
        q['m'][0], q['m'][-1] = q['m'][-1], q['m'][0]
    elif f == 'rows' and q['nr']:
        q['nr'] -= 1
        q['m'].pop(rng.randrange(len(q['m'])))
    elif f == 'dom':
        y['dom'] = g_rel.relation(rng, DOMAIN, q['p'], 1, (q['i'] + 1, 0, 0, q['a']), rows=2)
    elif f == 'local':
        q['l'] += 1
        q['nc'] += 1
        for m in q['m']:
            m.insert(1 + q['o'] + q['i'], '0')
    elif f == 'localdom':
        d = rng.choice(y['dom'])
        d['l'] += 1
        d['nc'] += 1
        for m in d['m']:
            m.insert(1 + d['o'], rng.choice(('0', '1')))
    elif f == 'two':
        return [x, sclscop(rng, q['p'])]
    elif f == 'acc' and y['acc']:
        rng.choice(y['acc'])[0]['a'] += 1
    elif f == 'nodom':
        y[rng.choice(('dom', 'sca'))] = []
    elif f == 'part':
        y['sca'] = y['sca'] + copy.deepcopy(y['sca'])
    return [x]


def sclscops(rng, s, n=5):
    for _ in range(n):
        p = rng.choice(PRECS)
        r = rng.random()
        if r < 0.25:
            a = more(rng, 'dims', rng.randint(0, 2), 13)
            q = [sclstmt(rng, p, a) for _ in range(more(rng, 'stmts', rng.choice((0, 1, 2, 3)), 13))]
            s.call('stmt.set', 1, q)
            anames(rng, s, [x['sca'][0] for x in q])
            s.call('stmt.pprint_scoplib', 1, 1)
        elif r < 0.6:
            s.call('scop.set', 1, [] if rng.random() < 0.03 else [sclscop(rng, p)])
            s.call('scop.print_scoplib', 1)
            s.call('scop.check_compatible_scoplib', 1)
        else:
            for _ in range(3):
                s.call('scop.set', 2, breakit(rng, sclscop(rng, p)))
                ok = s.call('scop.check_compatible_scoplib', 2)
            if not ok and rng.random() < 0.2:
                s.call('scop.print_scoplib', 2)
