"""Texts of extensions, generics, lists, statements and SCoPs: printing, reading, round trips."""
import copy
import re
from g_base import *
import g_rel, g_obj
from g_rel import UND, CONTEXT, DOMAIN, SCATTERING, ACCESS, READ, WRITE, MAY_WRITE, TYPES, ACC
from g_obj import T, NONE, NULLS, KINDS, REGISTRY, word, ident, line, count, strings, reltree, ifaces
from osldrv import lex

TEXTKINDS = [k for k in KINDS if k != 'textual']
ENV = {SP: '32', DP: '64', MP: '0'}


# ----------------------------------------------------------- printable extensions
def fits(r, p):
    r = copy.deepcopy(r)
    for q in r:
        q['p'] = p
    if p != MP:
        g_rel.clamp(r, I64MAX)
    return g_rel.clamp(r, 2**31 - 1, ACC)   # array identifiers are ints


def prel(rng, p):
    """A relation whose text can be read back in precision p."""
    r = g_rel.relation(rng)
    if rng.random() < 0.08:
        for q in r:
            q['t'] = UND
    return fits(r, p)


def clamptree(t):
    """Array identifiers of all relations within a tree are ints."""
    if t['t'] == 'part' and int(t['s'][0]) in ACC:
        t['s'][8:] = [v if abs(int(v)) < 2**31 else '7' for v in t['s'][8:]]
    for x in t['c']:
        clamptree(x)
    return t


def ptext(rng, small):
    return g_obj.text(rng) if not small else T('text', [y for _ in range(rng.randint(0, 3)) for y in (rng.randint(-2, 5), line(rng))])


def pbody(rng, n=None):
    n = count(rng) if n is None else n
    return T('body', (), [strings(rng, n), T('strings', [line(rng)])])


def ptree(rng, k, p, small=False, depth=0):
    """A printable extension: reading its text gives it back."""
    si = (lambda: rng.randint(-1, 9)) if small else (lambda: g_obj.si(rng))
    if k == 'strings':
        return strings(rng, max(1, count(rng)))
    if k == 'body':
        return pbody(rng)
    if k == 'relation':
        return reltree(prel(rng, p))
    if k == 'scatnames':
        return T(k, (), [strings(rng, max(1, count(rng)))])
    if k == 'extbody':
        n = more(rng, 'count', rng.choice((0, 1, 2, 3, 12)), 18)
        return T(k, [si() for _ in range(2 * n)], [pbody(rng)])
    if k == 'scatinfos':
        n = count(rng)
        return T(k, [n] + [si() for _ in range(3 * n)])
    if k == 'coordinates':
        return T(k, [rng.choice(('file.c', 'my file.c', '/a/b/c.c')) if rng.random() < 0.9 else line(rng)] + [si() for _ in range(5)])
    if k == 'dependence':
        return T(k, (), [T('dep', [si() for _ in range(5)] + [rng.choice((-1, 1, 2, 3, 4, 5))] + [si() for _ in range(8)], [reltree(prel(rng, p))])
                         for _ in range(max(1, count(rng, 3)))])
    if k == 'symbols':
        ks = [x for x in (TEXTKINDS[:-1] if depth == 0 else ('strings', 'comment', 'arrays', 'scatnames', 'body', 'null', 'clay', 'scatinfos')) if x not in ('symbols', 'clay', 'comment') or depth == 0]

        def one():
            y = rng.choice([x for x in ks if x != 'symbols'])   # the tags of an entry cannot enclose the same tags
            return T('generic', (), [T('item', [y], [ptree(rng, y, p, small, depth + 1)])])
        return T(k, (), [T('sym', [rng.choice((-1, 1, 2, 3, 4)), rng.choice((0, 1, si())), si()], [one() for _ in range(4)]) for _ in range(rng.choice((1, 1, 2, 3)))])
    if k == 'loop':
        res = []
        for _ in range(max(1, count(rng, 3))):
            d = rng.choice((0, 1, 2, 4, 8, 9, 12, rng.randint(0, 31)))
            res.append(T('loop1', [ident(rng), rng.choice((NULLS, 'i', 'i,j', line(rng))), d, rng.choice((NULLS, line(rng), line(rng))) if d & 8 else NULLS]
                         + [si() for _ in range(count(rng))]))
        return T(k, (), res)
    if k == 'pluto_unroll':
        return T(k, (), [T('unroll1', [rng.choice((ident(rng), ident(rng), line(rng))), rng.randint(0, 1), rng.choice((0, 1, 4, 8, 2**31 - 1))]) for _ in range(max(1, count(rng, 3)))])
    if k == 'region':
        return T(k, (), [T('region1', [si()], [ptext(rng, small) for _ in range(4)]) for _ in range(max(1, count(rng, 3)))])
    if k == 'annotation':
        return T(k, (), [ptext(rng, small), ptext(rng, small)])
    return g_obj.tree(rng, k)


def lines_of(rng, k, t):
    """Significant lines of the text of an extension, written independently of the library."""
    s, c = t['s'], t['c']
    if t['t'] == 'none':
        return ['0'] if k in ('loop', 'pluto_unroll', 'region', 'symbols', 'dependence') else []
    if k == 'strings':
        return [' '.join(s)] if s else []
    if k == 'body':
        n = len(c[0]['s'])
        return [str(n)] + ([' '.join(c[0]['s'])] if n else []) + [' '.join(c[1]['s'])]
    if k == 'relation':
        return tree_rel_lines(t)
    if k in ('textual', 'comment', 'clay'):
        return s[0].split('\n')
    if k == 'null':
        return []
    if k == 'scatnames':
        return lines_of(rng, 'strings', c[0])
    if k == 'scatinfos':
        n = int(s[0])
        return [s[0]] + ([' '.join(s[1 + j::3]) for j in range(3)] if n else [])
    if k == 'arrays':
        return [str(len(s) // 2)] + [s[j] + ' ' + s[j + 1] for j in range(0, len(s), 2)]
    if k == 'coordinates':
        return [s[0], s[1] + ' ' + s[3], s[2] + ' ' + s[4], s[5]]
    if k == 'dependence':
        ls = [str(len(c))]
        for d in c:
            x = d['s']
            ls += [{'-1': rng.choice(('UNSET', 'other')), '1': 'RAW', '2': 'WAR', '3': 'WAW', '4': 'RAR', '5': 'RAW_SCALPRIV'}[x[5]], x[0], x[1], x[4], x[2], x[3], ' '.join(x[6:])]
            ls += tree_rel_lines(d['c'][0])
        return ls
    if k == 'symbols':
        ls = [str(len(c))]
        for y in c:
            ls += [{'1': 'Iterator', '2': 'Parameter', '3': 'Array', '4': 'Function'}.get(y['s'][0], rng.choice(('Undefined', 'Foo'))), y['s'][1], y['s'][2]]
            for g in y['c']:
                for it in g['c']:
                    ls += gen_lines(rng, [{'u': it['s'][0], 'k': it['s'][0], 'd': it['c']}])
        return ls
    if k == 'extbody':
        return [str(len(s) // 2)] + [s[j] + ' ' + s[j + 1] for j in range(0, len(s), 2)] + lines_of(rng, 'body', c[0])
    if k == 'loop':
        ls = [str(len(c))]
        for y in c:
            z = y['s']
            ls += [z[0], str(len(z) - 4)] + z[4:] + ['(null)' if z[1] == NULLS else z[1]]
            ls += [z[2] + ((' ' + ('(null)' if z[3] == NULLS else z[3])) if int(z[2]) & 8 else '')]
        return ls
    if k == 'pluto_unroll':
        ls = ['1']
        for j, y in enumerate(c):
            ls += [y['s'][0], y['s'][1], y['s'][2], '1' if j + 1 < len(c) else '0']
        return ls
    if k == 'region':
        ls = [str(len(c))]
        for y in c:
            ls += [y['s'][0]]
            for x in y['c']:
                ls += typed(x)
        return ls
    if k == 'annotation':
        return typed(c[0]) + typed(c[1])
    if k == 'irregular':
        nc, ne = int(s[0]), int(s[1])
        n = len(c) - nc - ne
        ls = [str(n)] + [' '.join([str(len(y['s']))] + y['s']) for y in c[:n]] + [s[0], s[1]]
        for y in c[n:]:
            ls += [' '.join([str(len(y['s']) - 1)] + y['s'][1:]), y['s'][0]]
        return ls
    raise AssertionError(k)


def typed(x):
    s = x['s']
    return [str(len(s) // 2)] + [s[j] + ' ' + s[j + 1] for j in range(0, len(s), 2)]


def tree_rel_lines(t):
    ls = []
    if not t['c']:
        return ls
    ls.append(g_rel.TNAME.get(int(t['c'][0]['s'][0]), 'UNDEFINED'))
    if len(t['c']) > 1:
        ls.append(str(len(t['c'])))
    for q in t['c']:
        nr, nc = int(q['s'][2]), int(q['s'][3])
        ls.append(' '.join(q['s'][2:8]))
        for r in range(nr):
            ls.append(' '.join(q['s'][8 + r * nc: 8 + (r + 1) * nc]))
    return ls


def gen_lines(rng, g, glue=True):
    ls = []
    for x in g:
        body = lines_of(rng, x['k'], x['d'][0] if x['d'] else NONE)
        if glue and rng.random() < 0.06 and x['k'] not in ('relation', 'dependence', 'symbols') and body:
            ls += ['<%s>' % x['u'] + body[0]] + body[1:]
            ls[-1] += '</%s>' % x['u']
        else:
            ls += ['<%s>' % x['u']] + body + ['</%s>' % x['u']]
    return ls


def xdamage(rng, ls):
    """One of the ways a text can be malformed."""
    ls = list(ls)
    f = rng.choice(('drop', 'drop', 'short', 'badnum', 'badnum', 'neg', 'neg', 'cut', 'cut', 'swap', 'extra', 'tagless', 'badtag'))
    heads = [k for k, l in enumerate(ls) if len(l.split()) == 1 and l.strip().lstrip('-').isdigit()]
    if not ls:
        return ls
    k = rng.randrange(len(ls))
    if f == 'drop':
        ls.pop(k)
    elif f == 'short':
        ls[k] = ' '.join(ls[k].split()[:-1])
    elif f == 'badnum':
        nums = [j for j, l in enumerate(ls) if any(x.lstrip('-').isdigit() for x in l.split())]
        if nums:
            k = rng.choice(nums)
            t = ls[k].split()
            js = [j for j, x in enumerate(t) if x.lstrip('-').isdigit()]
            t[rng.choice(js)] = rng.choice(('x', 'N', '*', '99999999999', '-4294967295'))
            ls[k] = ' '.join(t)
    elif f == 'neg' and heads:
        k = heads[0] if rng.random() < 0.6 else rng.choice(heads)
        ls[k] = str(-rng.randint(1, 3))
    elif f == 'cut':
        ls = ls[:k]
    elif f == 'swap' and len(ls) > 1:
        j = rng.randrange(len(ls))
        ls[k], ls[j] = ls[j], ls[k]
    elif f == 'extra' and heads:
        k = rng.choice(heads)
        ls[k] = str(int(ls[k]) + rng.choice((1, -1, 3)))
    elif f in ('tagless', 'badtag'):
        tags = [j for j, l in enumerate(ls) if l.startswith('<') and l.endswith('>')]
        if tags:
            k = rng.choice(tags)
            if f == 'tagless':
                ls.pop(k)
            else:
                ls[k] = rng.choice((ls[k][1:], ls[k][:-1] + '1>', '</x>' if ls[k][1] != '/' else '</y>', '<unknown>', '<tag->'))
    return ls


def sane(ls):
    """Keeps numbers of damaged texts small (they may end up as sizes)."""
    out = []
    for l in ls:
        t = l.split(' ')
        for j, x in enumerate(t):
            if x.lstrip('-').isdigit() and abs(int(x)) > 130 and abs(int(x)) < 2**31 + 5:
                t[j] = '7'
        out.append(' '.join(t))
    return out


def setenv(rng, s, p):
    s.call('env.precision', ENV[p] if p != MP or rng.random() < 0.7 else 'unset')


# ------------------------------------------------------------------------- extensions
def xprint(rng, s, kinds=None, n=8):
    """The printed form of every extension."""
    for _ in range(n):
        k = rng.choice(kinds or KINDS)
        if rng.random() < 0.06:
            s.call('x.null', 1, k)
        elif k == 'symbols' and rng.random() < 0.8:
            s.call('x.set', 1, ptree(rng, k, DP))
        elif k == 'dependence' and rng.random() < 0.9:
            s.call('x.set', 1, ptree(rng, k, rng.choice(PRECS)))
        else:
            s.call('x.set', 1, clamptree(g_obj.tree(rng, k)))
        s.call('x.sprint', 1, spec=[1, k])
        if k == 'strings':
            s.call('strings.print', 1)
        if k == 'body':
            s.call('body.print', 1)
            s.call('body.print_scoplib', 1)
        if k == 'dependence' and rng.random() < 0.5:
            s.call('dependence.print', 1)


def bigtree(rng, k, p):
    """Once in a while an extension with long and numerous items, whatever the history."""
    old = Size.what
    if rng.random() < 0.05:
        Size.what = ('count', 'long')
    t = ptree(rng, k, p)
    Size.what = old
    return t


def xround(rng, s, kinds=None, n=5):
    """Printing then reading an extension gives it back."""
    for _ in range(n):
        p = rng.choice(PRECS)
        setenv(rng, s, p)
        k = rng.choice(kinds or TEXTKINDS)
        s.call('x.set', 1, bigtree(rng, k, p))
        s.call('x.roundtrip', 2, 1, spec=[2, 1, k])
        s.call('x.equal', 1, 2)
        if rng.random() < 0.4:
            txt = s.call('x.sprint', 2, spec=[2, k])
            s.call('x.sread', 3, k, txt, spec=[3, k, lex(txt)])
            s.call('x.equal', 3, 1)


def xtext(rng, k, p, bad=False):
    t = ptree(rng, k, p, bad)
    if rng.random() < 0.04:
        t = NONE
    ls = lines_of(rng, k, t)
    if bad:
        ls = sane(xdamage(rng, sane(ls)))
    return ls


def xread(rng, s, kinds=None, n=6, bad=0.12):
    """Texts of extensions, with comments, blanks and defects."""
    for _ in range(n):
        p = rng.choice(PRECS)
        k = rng.choice(kinds or TEXTKINDS + ['textual'])
        if rng.random() < 0.7:
            setenv(rng, s, p)
        txt = g_rel.decorate(rng, xtext(rng, k, p, rng.random() < bad))
        if k == 'dependence' and rng.random() < 0.3:
            s.call('dependence.psread', 1, p, txt, spec=[1, p, lex(txt)])
        elif k == 'strings' and rng.random() < 0.3:
            s.call('strings.read', 1, txt, spec=[1, lex(txt)])
        else:
            s.call('x.sread', 1, k, txt, spec=[1, k, lex(txt)])


# --------------------------------------------------------------------------- generics
def pgen(rng, p, kinds=None, n=None, small=False):
    ks = kinds or TEXTKINDS
    ks = rng.sample(ks, min(len(ks), count(rng, 4) if n is None else n))
    return [{'u': k, 'k': k, 'd': [ptree(rng, k, p, small)]} for k in ks]


def printitem(rng, g):
    if g['k'] == 'dependence' or g['k'] == 'symbols' and rng.random() < 0.8:
        return {'u': g['k'], 'k': g['k'], 'd': [ptree(rng, g['k'], DP)]}
    for t in g['d']:
        clamptree(t)
    return g


def genprint(rng, s, n=5):
    for _ in range(n):
        s.call('gen.set', 1, [printitem(rng, g) for g in g_obj.genlist(rng)])
        if rng.random() < 0.15:
            s.call('gen.malloc', 2)
            if NULLS not in [x['u'] for x in s['g'][1]]:
                s.call('gen.add', 1, 2)
        s.call('gen.' + rng.choice(('print', 'sprint')), 1)
        if rng.random() < 0.4:
            s.call('gen.print_options_scoplib', 1)


def genround(rng, s, n=3):
    for _ in range(n):
        p = rng.choice(PRECS)
        setenv(rng, s, p)
        g = pgen(rng, p)
        if rng.random() < 0.1:
            g.append({'u': 'textual', 'k': 'textual', 'd': [g_obj.tree(rng, 'textual')]})
        s.call('gen.set', 1, g)
        s.call('ifc.set', 1, ifaces(rng, KINDS if rng.random() < 0.8 else rng.sample(KINDS, rng.randint(0, 12))))
        s.call('gen.roundtrip', 2, 1, 1)
        s.call('gen.equal', 1, 2)


def genread(rng, s, n=5, bad=0.12):
    for _ in range(n):
        p = rng.choice(PRECS)
        if rng.random() < 0.7:
            setenv(rng, s, p)
        r = rng.random()
        if r < 0.5:
            s.call('ifc.set', 1, ifaces(rng, KINDS))
        elif r < 0.7:
            s.call('ifc.default', 1)
        else:
            s.call('ifc.set', 1, ifaces(rng, rng.sample(KINDS, rng.randint(0, 14))))
        isbad = rng.random() < bad
        op = rng.choice('sread sread sread_one read read_one'.split())
        ls = gen_lines(rng, pgen(rng, p, KINDS if rng.random() < 0.3 else None, rng.choice((1, 1, 2)) if 'one' in op else None, small=isbad), glue=op.startswith('s'))
        if op in ('sread_one', 'read_one') and rng.random() < 0.1 and not isbad:
            ls.insert(0, '</%s>' % rng.choice(KINDS))
        if rng.random() < 0.1 and op != 'read_one' and not isbad:
            ls += ['<unknown>', 'anything 1', '</unknown>']
        if op == 'read':
            ls += ['</OpenScop>'] if not isbad or rng.random() < 0.8 else []
        if isbad:
            if rng.random() < 0.1 and ls:
                ls = ls + ls
            else:
                ls = sane(xdamage(rng, sane(ls)))
        txt = g_rel.decorate(rng, ls)
        s.call('gen.' + op, 1, 1, txt, spec=[1, 1, lex(txt)])


# ------------------------------------------------------------- lists, statements, SCoPs
def rel_text(rng, r):
    return g_rel.rel_lines(rng, r)


def plist(rng, p, n=None):
    q = g_obj.rlist(rng, p, n, null=0)
    return [fits(r, p) for r in q]


def lists(rng, s, n=4, bad=0.12, ops=('print', 'pprint', 'pprint_elts', 'roundtrip', 'roundtrip', 'read', 'pread', 'pread')):
    """Relation lists: printed, read, both."""
    for _ in range(n):
        p = rng.choice(PRECS)
        op = rng.choice(ops)
        if op in ('read', 'pread'):
            isbad = rng.random() < bad
            q = plist(rng, p)
            if isbad:
                for r in q:
                    g_rel.clamp(r, 130)
            ls = [str(len(q))] + [l for r in q for l in rel_text(rng, r)]
            if isbad:
                ls = g_rel.damage(rng, ls) if rng.random() < 0.5 else sane(xdamage(rng, ls))
            txt = g_rel.decorate(rng, ls)
            if op == 'read':
                setenv(rng, s, p)
                s.call('list.read', 1, txt, spec=[1, lex(txt)])
            else:
                s.call('list.pread', 1, p, txt, spec=[1, p, lex(txt)])
            continue
        q = plist(rng, p)
        if op == 'roundtrip':
            s.call('list.set', 1, q if rng.random() < 0.8 else [r for x in q for r in (x, [])])
            s.call('list.roundtrip', 2, 1, p)
            s.call('list.equal', 1, 2)
        else:
            s.call('list.set', 1, g_obj.rlist(rng, p))
            if op == 'print':
                s.call('list.print', 1)
            else:
                if rng.random() < 0.7:
                    s.call('names.set', 1, g_rel.names(rng, g_rel.relation(rng)))
                else:
                    s.call('names.free', 1)
                s.call('list.' + op, 1, 1)


STEXT = [k for k in TEXTKINDS if k not in ('body',)]


def pstmt(rng, p, strict=False, small=False, **kw):
    x = g_obj.statement(rng, p, strict=strict, ext=[], **kw)
    x['acc'] = [r for r in x['acc'] if r]
    ni = x['dom'][0]['o'] if x['dom'] else 2
    ext = [] if rng.random() < 0.3 else [{'u': 'body', 'k': 'body', 'd': [pbody(rng, ni if strict or rng.random() < 0.9 else None)]}]
    ext += pgen(rng, p, STEXT, rng.choice((0, 0, 0, 1, 2)), small)
    rng.shuffle(ext)
    x['ext'] = ext
    for f in ('dom', 'sca'):
        x[f] = fits(x[f], p)
    x['acc'] = [fits(r, p) for r in x['acc']]
    return x


def stmt_lines(rng, x):
    rels = ([x['dom']] if x['dom'] else []) + ([x['sca']] if x['sca'] else []) + x['acc']
    if rng.random() < 0.1:
        rng.shuffle(rels)
    return [str(len(rels))] + [l for r in rels for l in rel_text(rng, r)] + [str(len(x['ext']))] + gen_lines(rng, x['ext'], glue=False)


def registry(rng, s, slot=1):
    if rng.random() < 0.7:
        s.call('ifc.set', slot, ifaces(rng, KINDS))
    elif rng.random() < 0.6:
        s.call('ifc.default', slot)
    else:
        s.call('ifc.set', slot, ifaces(rng, rng.sample(KINDS, rng.randint(0, 14))))


def clampstmt(x):
    for r in [x['dom'], x['sca']] + x['acc']:
        g_rel.clamp(r, 130)


def stmts(rng, s, n=3, bad=0.12, ops=('print', 'pprint', 'roundtrip', 'roundtrip', 'read', 'pread', 'pread')):
    for _ in range(n):
        p = rng.choice(PRECS)
        op = rng.choice([o for o in ops if o != 'pprint_elts'])
        if op in ('print', 'pprint'):
            s.call('stmt.set', 1, [printable(rng, x) for x in g_obj.stmts(rng)])
            if op == 'print':
                s.call('stmt.print', 1)
            else:
                if rng.random() < 0.7:
                    s.call('names.set', 1, g_rel.names(rng, g_rel.relation(rng)))
                else:
                    s.call('names.free', 1)
                s.call('stmt.pprint', 1, 1)
            continue
        setenv(rng, s, p)
        if op == 'roundtrip':
            s.call('ifc.set', 1, ifaces(rng, KINDS))
            s.call('stmt.set', 1, [pstmt(rng, p)])
            s.call('stmt.roundtrip', 2, 1, 1, p)
            s.call('stmt.equal', 1, 2)
            continue
        isbad = rng.random() < bad
        x = pstmt(rng, p, small=isbad)
        if isbad:
            clampstmt(x)
        ls = stmt_lines(rng, x)
        if isbad:
            ls = stmtdamage(rng, ls)
        txt = g_rel.decorate(rng, ls)
        if op == 'read':
            s.call('stmt.read', 1, txt, spec=[1, lex(txt)])
        else:
            registry(rng, s)
            s.call('stmt.pread', 1, 1, p, txt, spec=[1, 1, p, lex(txt)])


def stmtdamage(rng, ls):
    f = rng.choice(('type', 'type', 'rel', 'x', 'x', 'dup'))
    ls = list(ls)
    if f == 'type':
        ks = [k for k, l in enumerate(ls) if l in g_rel.TNAME.values()]
        if ks:
            ls[rng.choice(ks)] = rng.choice(list(g_rel.TNAME.values()) + ['UNDEFINED', 'DOMAIN', 'SCATTERING'])
        return ls
    if f == 'rel':
        return [y for l in g_rel.damage(rng, ls) for y in re.sub(r'^(\s*[-+]?\d+)\s+(<)', r'\1\n\2', l).split('\n')]   # (a tag after a number is dropped)
    if f == 'dup':
        ks = [k for k, l in enumerate(ls) if l.startswith('<') and not l.startswith('</')]
        if ks:
            ls.insert(ks[0], '<body>\n0\nx = 1;\n</body>')
        return ls
    return sane(xdamage(rng, sane(ls)))


def printable(rng, x):
    """Extensions whose printing is defined; array identifiers are ints."""
    for r in [x.get('dom', []), x.get('sca', []), x.get('ctx', [])] + x.get('acc', []):
        g_rel.clamp(r, 2**31 - 1, ACC)
    x['ext'] = [printitem(rng, e) for e in x['ext']]
    return x


def pscop(rng, p, strict=False, small=False, nst=None):
    x = g_obj.scop(rng, p, strict=strict, nst=0)
    x['lang'] = [rng.choice(('C', 'FORTRAN', 'JAVA', 'C++'))]
    np = x['ctx'][0]['a'] if x['ctx'] else 2
    while not x['ctx']:
        x['ctx'] = g_rel.relation(rng, t=CONTEXT, p=p, dims=(0, 0, 0, np))
    x['ctx'] = fits(x['ctx'], p)
    if x['par'] and (not x['par'][0]['d'] or not x['par'][0]['d'][0]['s']):
        x['par'] = []
    x['st'] = [pstmt(rng, p, strict, small, np=np) for _ in range(more(rng, 'stmts', rng.choice((0, 1, 1, 2, 3)), 12) if nst is None else nst)]
    x['ext'] = pgen(rng, p, STEXT, min(len(STEXT), more(rng, 'exts', rng.choice((0, 0, 1, 2, 3)), 16)), small)
    if rng.random() < 0.4 and 'arrays' not in [e['u'] for e in x['ext']]:
        x['ext'].insert(rng.randint(0, len(x['ext'])), {'u': 'arrays', 'k': 'arrays', 'd': [ptree(rng, 'arrays', p, small)]})
    return x


def pscops(rng, p, ns, **kw):
    """Printable SCoPs; a long list is made of small ones."""
    n = more(rng, 'scops', rng.choice(ns), 14)
    return [pscop(rng, p, **kw) if n < 5 or k < 2 else pscop(rng, p, nst=rng.choice((0, 0, 0, 1)), **kw) for k in range(n)]


def scop_lines(rng, x, glue=True):
    ls = ['<OpenScop>', x['lang'][0] + (' extra words' if rng.random() < 0.05 else '')] + rel_text(rng, x['ctx'])
    ls += [str(len(x['par']))] + gen_lines(rng, x['par'], glue=False)
    ls += [str(len(x['st']))] + [l for y in x['st'] for l in stmt_lines(rng, y)]
    return ls + gen_lines(rng, x['ext'], glue) + ['</OpenScop>']


def scops(rng, s, n=2, bad=0.12, ops=('print', 'print', 'roundtrip', 'roundtrip', 'read', 'pread', 'pread')):
    for _ in range(n):
        p = rng.choice(PRECS)
        op = rng.choice([o for o in ops if o[:2] != 'pp'])
        setenv(rng, s, p)
        if op == 'print':
            q = g_obj.scopseq(rng)
            for x in q:
                if not x['lang']:
                    x['lang'] = ['C']
                printable(rng, x)
                for y in x['st']:
                    printable(rng, y)
            s.call('scop.set', 1, q)
            s.call('scop.print', 1)
            continue
        if op == 'roundtrip':
            reg = ifaces(rng, KINDS)
            q = pscops(rng, p, (1, 1, 1, 2, 3))
            for x in q:
                x['reg'] = reg
            s.call('ifc.set', 1, reg)
            s.call('scop.set', 1, q)
            s.call('scop.roundtrip', 2, 1, 1, p)
            s.call('scop.equal', 1, 2)
            continue
        isbad = rng.random() < bad
        q = pscops(rng, p, (0, 1, 1, 1, 2, 3), small=isbad)
        ls = []
        for x in q:
            if isbad:
                g_rel.clamp(x['ctx'], 130)
                for y in x['st']:
                    clampstmt(y)
            if rng.random() < 0.1:
                ls.append('some text before 1 2 3')
            ls += scop_lines(rng, x)
        if isbad and ls:
            ls = stmtdamage(rng, ls) if rng.random() < 0.5 else sane(xdamage(rng, sane(ls)))
        txt = g_rel.decorate(rng, ls)
        if op == 'read':
            s.call('scop.read', 1, txt, spec=[1, lex(txt)])
        else:
            registry(rng, s)
            s.call('scop.pread', 1, 1, p, txt, spec=[1, 1, p, lex(txt)])


def register(rng, s, n=3):
    """Late registration of extensions kept as text."""
    for _ in range(n):
        p = rng.choice(PRECS)
        setenv(rng, s, p)
        x = pscop(rng, p, nst=rng.choice((0, 1)))
        have = [e['u'] for e in x['ext']]
        ks = [k for k in STEXT if k not in have]
        late = pgen(rng, p, ks, rng.choice((0, 1, 2)))
        txt = g_rel.decorate(rng, gen_lines(rng, late) + (['<unknown>', 'a b', '</unknown>'] if rng.random() < 0.2 else []))
        if rng.random() < 0.85:
            x['ext'].insert(rng.randint(0, len(x['ext'])), {'u': 'textual', 'k': 'textual', 'd': [T('textual', [txt if rng.random() < 0.95 else NULLS])]})
        reg = [k for k in KINDS if rng.random() < 0.5 and k not in [e['u'] for e in late]]
        x['reg'] = ifaces(rng, reg)
        s.call('scop.set', 1, [x] + ([pscop(rng, p, nst=0)] if rng.random() < 0.15 else []))
        new = [e['u'] for e in late][:1] if rng.random() < 0.7 else [k for k in STEXT if k not in reg][:3]
        if rng.random() < g_rel.BAD and reg:
            new = [rng.choice(reg)]
        s.call('ifc.set', 1, ifaces(rng, new))
        s.call('scop.register_extension', 1, 1, spec=[1, 1, lex(txt)])
        if rng.random() < 0.3:
            s.call('scop.print', 1)
