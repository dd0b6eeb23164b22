"""Generators for relations: editing, unions, attributes, text."""
import re
from g_base import *

UND = -1
CONTEXT, DOMAIN, SCATTERING, ACCESS, READ, WRITE, MAY_WRITE = 2, 3, 4, 5, 6, 7, 8
TYPES = (CONTEXT, DOMAIN, SCATTERING, READ, WRITE, MAY_WRITE)


def mkpart(t, p, o, i, l, a, rows, nc=None):
    if nc is None:
        nc = o + i + l + a + 2
    return {'t': t, 'p': p, 'nr': len(rows), 'nc': nc, 'o': o, 'i': i, 'l': l, 'a': a,
            'm': [[str(x) for x in r] for r in rows] if nc else []}


def row(rng, p, nc, big=0.04, style=None):
    if nc == 0:
        return []
    style = style or rng.random()
    r = [num(rng, p, big) for _ in range(nc)]
    if rng.random() < 0.5:
        r = [x if rng.random() < 0.5 else 0 for x in r]
    r[0] = rng.choice((0, 1)) if rng.random() < 0.95 else r[0]
    return r


def out_row(rng, p, o, nc):
    """A row that defines an output dimension."""
    r = row(rng, p, nc)
    for k in range(nc):
        if k <= o:
            r[k] = 0
    if o:
        r[rng.randint(1, o)] = rng.choice((1, -1, 1, -1, 2))
    if rng.random() < 0.2 and o > 1:
        r[rng.randint(1, o)] = rng.choice((1, -1))
    return r


def access_rows(rng, p, o, i, l, a, nid=None):
    nc = o + i + l + a + 2
    rows = []
    r = [0] * nc
    c = rng.choice((1, -1, -1, 1, 2, -2))
    nid = nid or rng.choice((1, 2, 3, 5, 40))
    r[1] = c
    r[nc - 1] = -c * nid
    rows.append(r)
    for k in range(2, o + 1):
        r = [num(rng, p, 0.03) if rng.random() < 0.6 else 0 for _ in range(nc)]
        for j in range(o + 1):
            r[j] = 0
        r[k] = rng.choice((1, -1))
        rows.append(r)
    if rng.random() < 0.3:
        rng.shuffle(rows)
    return rows


def relation(rng, t=None, p=None, parts=None, dims=None, rows=None, consistent=True, nid=None):
    """A union of well-formed parts (attributes describe the columns)."""
    t = rng.choice(TYPES) if t is None else t
    p = rng.choice(PRECS) if p is None else p
    if parts is None:
        parts = more(rng, 'parts', rng.choice((1, 1, 1, 1, 2, 2, 3, 4)), 12)
    if dims is None:
        o, i, l, a = rng.randint(0, 4), rng.randint(0, 3), rng.choice((0, 0, 0, 1, 2)), rng.randint(0, 3)
        o, i, l, a = more(rng, 'dims', o, 9), more(rng, 'dims', i, 9), more(rng, 'dims', l, 9), more(rng, 'dims', a, 9)
        if 'dims' in Size.what and rng.random() < 0.4:
            z = rng.randrange(4)
            o, i, l, a = o + 16 * (z == 0), i + 16 * (z == 1), l + 16 * (z == 2), a + 16 * (z == 3)
        if t == CONTEXT:
            o = i = 0
        elif t == DOMAIN:
            i = 0
        elif t in (READ, WRITE, MAY_WRITE):
            o = max(o, 1)
    else:
        o, i, l, a = dims
    res = []
    for _ in range(parts):
        if dims is None and rng.random() < 0.1:
            l = rng.randint(0, 2)
        nc = o + i + l + a + 2
        nr = more(rng, 'rows', rng.choice((0, 1, 1, 2, 2, 3, 4)), 25) if rows is None else rows
        if t in (READ, WRITE, MAY_WRITE) and rng.random() < 0.85:
            rr = access_rows(rng, p, o, i, l, a, nid)
        elif rng.random() < 0.5:
            rr = [out_row(rng, p, o, nc) for _ in range(nr)]
        else:
            rr = [row(rng, p, nc) for _ in range(nr)]
        if t in ACC and nc > 2:   # array identifiers are ints
            for x in rr:
                for j in (1, nc - 1):
                    if int(x[1]) != 0 and abs(int(x[j])) >= 2**31:
                        x[j] = 7
        res.append(mkpart(t, p, o, i, l, a, rr))
    return res


def anyrel(rng, p, nr=None, nc=None, parts=None):
    """A union with arbitrary attributes (matrix operations do not read them)."""
    parts = more(rng, 'parts', rng.choice((1, 1, 1, 2, 3)), 12) if parts is None else parts
    res = []
    for k in range(parts):
        n = more(rng, 'rows', rng.choice((0, 1, 1, 2, 3, 4)), 25) if nr is None or k else nr
        c = more(rng, 'dims', rng.choice((0, 1, 2, 3, 4, 5)), 15) if nc is None or k else nc
        at = [rng.choice((UND, 0, 1, 2)) for _ in range(4)]
        res.append(mkpart(rng.choice(TYPES + (UND, 5)), p, *at, rows=[row(rng, p, c) for _ in range(n)], nc=c))
    return res


def shape(r):
    return (r[0]['p'], r[0]['nr'], r[0]['nc']) if r else None


def vec_of(rng, p, n):
    return [{'p': p, 'v': [str(x) for x in row(rng, p, n, 0.02)] if n else []}]


def perturb(rng, r):
    """A relation that differs from r in one place."""
    import copy
    r = copy.deepcopy(r)
    if not r:
        return r
    q = rng.choice(r)
    f = rng.choice(('cell', 'cell', 'cell', 'o', 'i', 'l', 'a', 't', 'part', 'drop', 'swap', 'p'))
    if f == 'cell' and q['m']:
        x = rng.choice(q['m'])
        j = rng.choice((0, len(x) - 1, rng.randrange(len(x))))
        v = int(x[j])
        x[j] = str(rng.choice((v + 1, -v, v - 1)) if abs(v) < 2**62 else 0)
    elif f in 'oila' and len(f) == 1:
        q[f] += 1
    elif f == 't':
        q['t'] = rng.choice(TYPES)
    elif f == 'p':
        ok = all(-2**63 <= int(v) < 2**63 for y in r for x in y['m'] for v in x)
        p = rng.choice(PRECS) if ok else MP
        for y in r:
            y['p'] = p
    elif f == 'part':
        r.append(copy.deepcopy(r[-1]))
    elif f == 'drop':
        r.pop()
    elif f == 'swap' and len(r) > 1:
        r[0], r[-1] = r[-1], r[0]
    return r


BAD = 0.025  # probability of an argument that must be refused


def edit(rng, s, n=24):
    """Histories of constraint-matrix editing."""
    p = rng.choice(PRECS)
    nc = rng.choice((1, 2, 3, 3, 4, 5))
    for k in range(1, 4):
        s.call('rel.set', k, anyrel(rng, p, None, nc))
    for k in range(1, 3):
        s.call('vec.set', k, vec_of(rng, p, nc))
    ops = ('replace_vector insert_vector concat_vector insert_blank_row insert_blank_column add_vector sub_vector from_vector replace_constraints '
           'insert_constraints swap_constraints remove_row remove_column insert_columns concat_constraints set setv fixv equal').split()
    for _ in range(n):
        op = rng.choice(ops)
        a, b, d, v = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
        A, Bq, V = s['r'][a], s['r'][b], s['v'][v]
        bad = rng.random() < BAD
        pa, nr, c = shape(A) or (p, 0, nc)

        def rowidx(hi, lo=0):
            if bad:
                return rng.choice((hi + 1, lo - 1, hi + 2, lo - 2))
            return rng.choice((lo, hi, rng.randint(lo, hi))) if hi >= lo else None
        if op == 'set':
            s.call('rel.set', a, anyrel(rng, p, None, nc) if rng.random() < 0.9 else [])
        elif op == 'setv':
            s.call('vec.set', v, vec_of(rng, p, nc))
        elif op == 'fixv':
            s.call('vec.set', v, vec_of(rng, pa, c))
        elif op in ('replace_vector', 'add_vector', 'sub_vector'):
            ok = A and V and len(V[0]['v']) == c and c > 0 and nr > 0
            if not ok and A and c > 0 and nr > 0 and not bad:
                s.call('vec.set', v, vec_of(rng, pa, c))
                ok = True
            x = rowidx(nr - 1)
            if ok and x is not None:
                s.call('rel.' + op, a, v, x)
            elif bad and c > 0:
                s.call('rel.' + op, a, v, rng.randint(-1, 2))
        elif op == 'insert_vector':
            if not A or not V or len(V[0]['v']) == c or bad:
                s.call('rel.insert_vector', a, v, rng.choice((-1, rowidx(nr))) if not bad else rng.choice((-2, nr + 1, -1, 0)))
        elif op == 'concat_vector':
            if not A or not V or len(V[0]['v']) == c or bad:
                s.call('rel.concat_vector', d, a, v)
        elif op == 'insert_blank_row':
            s.call('rel.insert_blank_row', a, rng.choice((-1, rng.randint(0, nr))) if not bad else rng.choice((-2, nr + 1)))
        elif op == 'insert_blank_column':
            if c < 9:
                s.call('rel.insert_blank_column', a, rowidx(c))
        elif op == 'from_vector':
            s.call('rel.from_vector', d, v)
        elif op == 'replace_constraints':
            if A and Bq and Bq[0]['nc'] == c and Bq[0]['nr'] <= nr and a != b:
                s.call('rel.replace_constraints', a, b, rowidx(nr - Bq[0]['nr']))
            elif bad:
                s.call('rel.replace_constraints', a, b, 0)
        elif op == 'insert_constraints':
            if not A or not Bq or Bq[0]['nc'] == c or bad:
                s.call('rel.insert_constraints', a, b, rng.choice((-1, rng.randint(0, nr))) if not bad else rng.choice((-2, nr + 1, 0)))
        elif op == 'concat_constraints':
            if not A or not Bq or Bq[0]['nc'] == c or bad:
                s.call('rel.concat_constraints', d, a, b)
        elif op == 'swap_constraints':
            if nr > 0:
                s.call('rel.swap_constraints', a, rowidx(nr - 1), rng.randint(0, nr - 1))
        elif op == 'remove_row':
            if nr > 0 or bad:
                s.call('rel.remove_row', a, rowidx(nr - 1) if nr else 0)
        elif op == 'remove_column':
            if c > 1 or bad:
                s.call('rel.remove_column', a, rowidx(c - 1) if c else 0)
        elif op == 'insert_columns':
            if A and Bq and c + Bq[0]['nc'] < 12:
                if Bq[0]['nr'] == nr or bad:
                    s.call('rel.insert_columns', a, b, rowidx(c))
                elif rng.random() < 0.5 and a != b:
                    s.call('rel.set', b, anyrel(rng, pa, nr, rng.choice((0, 1, 2)), 1))
                    s.call('rel.insert_columns', a, b, rowidx(c))
        elif op == 'equal':
            s.call('rel.equal', a, b)


def unions(rng, s, n=20):
    p = rng.choice(PRECS)
    t = rng.choice(TYPES)
    for k in range(1, 5):
        s.call('rel.set', k, relation(rng, t if rng.random() < 0.7 else None, p))
    ops = 'add union clone nclone clone_nconstraints nb_components remove_part equal part_equal perturb set set_type set_attributes set_attributes_one edit dump'.split()
    for _ in range(n):
        op = rng.choice(ops)
        a, b, d = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
        A = s['r'][a]
        bad = rng.random() < BAD
        if op == 'add':
            if a != b:
                s.call('rel.add', a, b)
        elif op == 'union':
            s.call('rel.union', d, a, b)
        elif op == 'clone':
            s.call('rel.clone', d, a)
        elif op == 'nclone':
            s.call('rel.nclone', d, a, rng.choice((-1, len(A), rng.randint(0, len(A)))) if not bad else len(A) + 1)
        elif op == 'clone_nconstraints':
            m = min([q['nr'] for q in A] or [0])
            s.call('rel.clone_nconstraints', d, a, rng.choice((-1, m, rng.randint(0, m))) if not bad else m + 1)
        elif op == 'nb_components':
            s.call('rel.nb_components', a)
        elif op == 'remove_part':
            if A:
                s.call('rel.remove_part', a, rng.randint(1, len(A)))
        elif op in ('equal', 'part_equal'):
            s.call('rel.' + op, a, b)
        elif op == 'perturb':
            s.call('rel.set', d, perturb(rng, A))
            s.call('rel.equal', d, a)
            if rng.random() < 0.5:
                s.call('rel.equal', a, d)
        elif op == 'set':
            s.call('rel.set', a, relation(rng, t, p) if rng.random() < 0.85 else [])
        elif op == 'set_type':
            s.call('rel.set_type', a, rng.choice(TYPES))
        elif op in ('set_attributes', 'set_attributes_one'):
            s.call('rel.' + op, a, *[rng.choice((UND, 0, 1, 2, 3)) for _ in range(4)])
        elif op == 'edit':
            # write into one of two relations: clones must not follow
            if A and A[0]['nr'] and A[0]['nc']:
                s.call('vec.set', 1, vec_of(rng, A[0]['p'], A[0]['nc']))
                s.call('rel.replace_vector', a, 1, rng.randrange(A[0]['nr']))
        elif op == 'dump':
            s.call('rel.dump', a)


def integrity(rng, s, n=16):
    """Well-formed relations, and relations with one defect."""
    import copy
    for _ in range(n):
        r = relation(rng)
        t = r[0]['t']
        h = r[0]
        for q in r:  # well-formed: same attributes in all parts, tags 0 or 1
            for x in q['m']:
                x[0] = str(abs(int(x[0])) % 2)
        exp = [rng.choice((UND, h['o'])), rng.choice((UND, h['i'])), rng.choice((UND, h['a']))]
        et = t
        if t in (READ, WRITE, MAY_WRITE) and rng.random() < 0.6:
            et = ACCESS
        r0 = copy.deepcopy(r)
        if rng.random() < 0.75:
            q = rng.choice(r)
            f = rng.choice(('o', 'i', 'l', 'a', 'nc', 'tag', 'id', 'id', 'id', 'type', 'exp', 'undef', 'parttype'))
            if f in ('o', 'i', 'l', 'a'):
                d = rng.choice((1, -1))
                if q[f] + d >= 0:
                    q[f] += d
            elif f == 'nc':
                q['m'] = [x + ['0'] for x in q['m']]
                q['nc'] += 1
            elif f == 'tag' and q['m']:
                rng.choice(q['m'])[0] = rng.choice(('2', '-1', '7'))
            elif f == 'id' and q['m']:
                x = rng.choice(q['m'])
                c = rng.choice((1, len(x) - 1, rng.randrange(1, len(x))))
                x[c] = rng.choice(('0', '1', '-1', '3', '-2'))
            elif f == 'type':
                et = rng.choice(TYPES + (ACCESS,))
            elif f == 'parttype':
                q['t'] = rng.choice(TYPES)
            elif f == 'exp':
                exp[rng.randrange(3)] = rng.randint(0, 4)
            elif f == 'undef':
                q[rng.choice('oila')] = UND
        clamp(r, I32MAX, ACC)
        s.call('rel.set', 1, r)
        s.call('rel.integrity_check', 1, et, *exp)
        s.call('rel.get_array_id', 1)
        if rng.random() < 0.3:
            s.call('rel.get_attributes', 1, rng.choice((UND, 0, 2)))
        if rng.random() < 0.15:
            s.call('rel.integrity_check', 2, et, *exp)


def clamp(r, lim, types=None):
    """Keeps the cells of r within -lim..lim."""
    for q in r:
        if types is None or q['t'] in types:
            q['m'] = [[v if abs(int(v)) <= lim else '7' for v in x] for x in q['m']]
    return r


ACC = (ACCESS, READ, WRITE, MAY_WRITE)


def attributes(rng, s, n=16):
    for _ in range(n):
        k = rng.randint(1, 4)
        r = relation(rng, parts=rng.choice((1, 1, 2, 3)))
        if rng.random() < 0.4:  # mixed unions
            r = r + relation(rng, p=r[0]['p'], parts=1)
        if rng.random() < 0.3:
            r[rng.randrange(len(r))]['t'] = rng.choice((UND, ACCESS) + TYPES)
        if rng.random() < 0.3:
            q = rng.choice(r)
            if q['m']:
                x = rng.choice(q['m'])
                x[rng.randrange(len(x))] = rng.choice(('0', '1', '-1', '4', '-6'))
        clamp(r, I32MAX)  # mixed unions are read as accesses too
        s.call('rel.set', k, r)
        s.call('rel.get_attributes', k, rng.choice((UND, UND, 0, 3)))
        s.call('rel.get_array_id', k)
        s.call('rel.is_access', k)
        if rng.random() < 0.3:
            s.call('rel.nb_components', k)


def extend(rng, s, n=10):
    p = rng.choice(PRECS)
    for _ in range(n):
        t = rng.choice((SCATTERING, SCATTERING, DOMAIN, READ))
        r = relation(rng, t, p, rows=rng.choice((0, 1, 2, 3, 5)))
        if rng.random() < 0.5:  # parts with different numbers of output dimensions
            i, l, a = r[0]['i'], r[0]['l'], r[0]['a']
            for _ in range(rng.choice((1, 1, 2))):
                o = rng.randint(1 if t in ACC else 0, 4)
                r.insert(rng.randint(0, len(r)), relation(rng, t, p, 1, (o, i, l, a), rng.choice((0, 1, 2, 3)))[0])
        s.call('rel.set', 1, r)
        m = max(q['o'] for q in r)
        s.call('rel.extend_output', 2, 1, m + rng.choice((0, 1, 1, 2, 3)) if rng.random() > 0.02 else m - 1)
        if rng.random() < 0.4:
            s.call('rel.extend_output', rng.choice((2, 3)), 2, max(q['o'] for q in s['r'][2]) + rng.randint(0, 2))


def precision(rng, s, n=12):
    for _ in range(n):
        p, q = rng.choice(PRECS), rng.choice(PRECS)
        big = rng.random() < 0.1
        r = relation(rng, None, p)
        if not big:
            for y in r:
                y['m'] = [[v if -2**63 <= int(v) < 2**63 else '5' for v in x] for x in y['m']]
        s.call('rel.set', 1, r)
        if rng.random() < 0.5:
            s.call('rel.set_precision', 1, q)
            if rng.random() < 0.5:
                s.call('rel.set_precision', 1, rng.choice(PRECS))
        else:
            s.call('rel.set', 2, relation(rng, None, q) if rng.random() < 0.95 else [])
            s.call('rel.set_same_precision', 1, 2)
            if rng.random() < 0.5:
                s.call('rel.set', 3, s['r'][2])
                s.call('rel.equal', 2, 3)


# -------------------------------------------------------------------------- text
NAMES = ('i', 'j', 'k', 'N', 'M', 'ii', 'alpha', 'x1', 'long_name', 'T', 'abcd', 'abcde')


def names(rng, rel, short=False):
    """Names covering (or, when short, not quite covering) the dimensions of rel."""
    mo = max([q['o'] for q in rel] + [q['i'] for q in rel] + [0])

    def strs(n, pre):
        n = max(0, n + rng.choice((0, 0, 1)) - (1 if short and rng.random() < 0.4 else 0))
        return [[pre + rng.choice(NAMES) + (str(k) if rng.random() < 0.5 else '') for k in range(n)]]
    return [{'par': strs(max([q['a'] for q in rel] + [0]), ''), 'it': strs(mo, ''), 'sc': strs(mo, 's'),
             'lo': strs(max([q['l'] for q in rel] + [0]), 'l'), 'ar': strs(rng.choice((1, 3, 45)), '')}]


def relprint(rng, s, n=8, named=True):
    p = rng.choice(PRECS)
    for _ in range(n):
        r = relation(rng, None, p if rng.random() < 0.8 else None)
        if rng.random() < 0.1:
            r[0]['t'] = rng.choice((UND, 5))
        s.call('rel.set', 1, r)
        op = rng.choice(('print', 'sprint', 'pprint', 'spprint', 'spprint_polylib', 'expression', 'pprint', 'spprint'))
        if op in ('print', 'sprint'):
            s.call('rel.' + op, 1)
        elif op == 'expression':
            if r[0]['nr']:
                s.call('rel.expression', 1, rng.randrange(r[0]['nr']), [rng.choice(NAMES) for _ in range(r[0]['nc'])])
        else:
            if rng.random() < 0.7:
                s.call('names.set', 1, names(rng, r))
            else:
                s.call('names.free', 1)
            s.call('rel.' + op, 1, 1)


def decorate(rng, lines, rowlines=()):
    """Inserts insignificant text: blanks, comments, empty lines."""
    out = []
    for l in lines:
        many = 0.95 if rng.random() < 0.003 else 0.15
        while rng.random() < many:
            out.append(rng.choice(('', '   ', '# a comment', '  # 1 2 3', '#', '\t', '# e/i | x', '\r', '\f\v', ' # a comment\r')))
        x = rng.choice(('', '', '', '', '', ' ', '\t  ', '\v', '\f ')) + l
        if rng.random() < 0.15:
            x = x.replace(' ', rng.choice(('  ', '\t', '   ') + ((' \f', '\v') if re.fullmatch(r'[-\d\s]*', l) else ())))
        if rng.random() < 0.25:
            x += rng.choice((' ', '  ', ' # trailing 4', '   ## i == 2', '\t#', '\r', '\r'))
        out.append(x)
    return '\n'.join(out) + rng.choice(('\n', '\n', '\n\n', '\n# end\n', ''))


TNAME = {CONTEXT: 'CONTEXT', DOMAIN: 'DOMAIN', SCATTERING: 'SCATTERING', READ: 'READ', WRITE: 'WRITE', MAY_WRITE: 'MAY_WRITE'}


def rel_lines(rng, r, typed=True):
    ls = []
    if typed:
        ls.append(TNAME.get(r[0]['t'], 'UNDEFINED'))
    if len(r) > 1 or rng.random() < 0.1:
        ls.append(str(len(r)))
    for q in r:
        ls.append('%d %d %d %d %d %d' % (q['nr'], q['nc'], q['o'], q['i'], q['l'], q['a']))
        for x in q['m']:
            ls.append(' '.join(x))
    return ls


def damage(rng, ls, typed=True):
    """One of the ways a relation text can be malformed."""
    ls = list(ls)
    f = rng.choice(('droptype', 'badtype', 'header', 'header0', 'droprow', 'shortrow', 'badnum', 'negsize', 'negparts', 'twocounts', 'cut', 'empty', 'lower', 'more', 'more', 'join', 'swap'))
    heads = [k for k, l in enumerate(ls) if len(l.split()) == 6]
    if f == 'droptype' and typed:
        ls.pop(0)
    elif f == 'badtype' and typed:
        ls[0] = rng.choice(('FOO', 'domain', 'READS', 'DOMAIN_', 'ACCESS'))
    elif f == 'header' and heads:
        k = rng.choice(heads)
        ls[k] = ' '.join(ls[k].split()[:rng.choice((2, 3, 4, 5))])
    elif f == 'header0' and heads:
        k = rng.choice(heads)
        ls[k] = rng.choice(('x 2 0 0 0 0', 'foo', ': 1'))
    elif f == 'droprow' and len(ls) > 3:
        ls.pop(rng.randrange(2, len(ls)))
    elif f == 'shortrow':
        k = rng.randrange(min(1, len(ls) - 1), len(ls))
        ls[k] = ' '.join(ls[k].split()[:-1]) or 'x'
    elif f == 'badnum':
        k = len(ls) - 1
        t = ls[k].split()
        t[rng.randrange(len(t))] = rng.choice(('x', 'N', '*', '_'))
        ls[k] = ' '.join(t)
    elif f == 'negsize' and heads:
        k = rng.choice(heads)
        t = ls[k].split()
        t[rng.choice((0, 1))] = '-' + str(rng.randint(1, 3))
        ls[k] = ' '.join(t)
    elif f == 'negparts':
        ls.insert(1 if typed else 0, rng.choice(('0', '-1', '-3')))
    elif f == 'twocounts':
        ls.insert(1 if typed else 0, '1')
        ls.insert(1 if typed else 0, '2')
    elif f == 'cut':
        ls = ls[:rng.randrange(0, len(ls))]
    elif f == 'empty':
        ls = []
    elif f == 'more':
        k = rng.randrange(len(ls))
        ls[k] += rng.choice((' 1', ' 0 0', ' 2 3 0 0 0 1', ' x'))
    elif f == 'join' and len(ls) > 1:
        k = rng.randrange(len(ls) - 1)
        ls[k:k + 2] = [ls[k] + ' ' + ls[k + 1]]
    elif f == 'swap':
        j, k = rng.randrange(len(ls)), rng.randrange(len(ls))
        ls[j], ls[k] = ls[k], ls[j]
    elif f == 'lower' and typed:
        ls[0] = ls[0].lower()
    return ls


def relread(rng, s, n=8, bad=0.12):
    from osldrv import in_lines
    for _ in range(n):
        p = rng.choice(PRECS)
        r = relation(rng, None, p)
        if rng.random() < 0.08:
            r[0]['t'] = UND
        op = rng.choice(('read', 'pread', 'sread', 'psread', 'sread_polylib', 'psread_polylib', 'pread', 'psread'))
        typed = 'polylib' not in op
        isbad = rng.random() < bad
        ls = rel_lines(rng, clamp(r, 130) if isbad else r, typed)
        if isbad:
            ls = damage(rng, ls, typed)
        txt = decorate(rng, ls)
        if op.startswith('s') or op.startswith('ps'):
            if rng.random() < 0.3:
                txt = (txt if txt.endswith('\n') else txt + '\n') + rng.choice(('tail 1 2\n', '</tag>\n', 'x'))
        if op in ('read', 'sread', 'sread_polylib'):
            if rng.random() < 0.5:
                s.call('env.precision', rng.choice(('32', '64', '0', 'unset')))
            s.call('rel.' + op, 1, txt, spec=[1, in_lines(txt)])
        else:
            q = p if rng.random() < 0.9 else rng.choice(PRECS)
            s.call('rel.' + op, 1, q, txt, spec=[1, q, in_lines(txt)])


def relround(rng, s, n=6):
    """Printing then reading back is the identity (on both routes, in every precision)."""
    from osldrv import in_lines
    for _ in range(n):
        p = rng.choice(PRECS)
        r = relation(rng, None, p)
        s.call('rel.set', 1, r)
        named = rng.random() < 0.4
        if named:
            s.call('names.set', 1, names(rng, r))
        txt = s.call('rel.' + rng.choice(('pprint', 'spprint')), 1, 1) if named else s.call('rel.' + rng.choice(('print', 'sprint')), 1)
        op = rng.choice(('pread', 'psread'))
        s.call('rel.' + op, 2, p, txt, spec=[2, p, in_lines(txt)])
        s.call('rel.equal', 1, 2)
        if rng.random() < 0.3:
            s.call('rel.print', 2)
