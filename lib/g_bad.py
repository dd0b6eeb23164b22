"""Calls at and just outside the limits of what is allowed."""
from g_base import *
import g_rel, g_int, g_obj
from g_rel import anyrel, vec_of, UND, shape

EXTREME = (2**31 - 1, -2**31, 1000)


def edge(rng, lo, hi):
    """An index at the limits of lo..hi, inside or outside."""
    r = rng.random()
    if r < 0.45:
        return rng.choice((lo, hi)) if hi >= lo else lo
    if r < 0.93:
        return rng.choice((lo - 1, hi + 1, hi + 1, lo - 2, hi + 2))
    return rng.choice(EXTREME)


def editlimits(rng, s, n=12):
    p = rng.choice(PRECS)
    nc = rng.choice((0, 1, 2, 3, 3))
    nr = rng.choice((0, 1, 2, 3))
    for k in (1, 2):
        s.call('rel.set', k, anyrel(rng, p, nr if rng.random() < 0.7 else None, nc) if rng.random() < 0.93 else [])
    for k in (1, 2):
        s.call('vec.set', k, vec_of(rng, p, nc) if rng.random() < 0.93 else [])
    for _ in range(n):
        f = rng.random()
        if f < 0.10:  # another precision, another size
            s.call('rel.set', 2, anyrel(rng, rng.choice(PRECS), rng.choice((nr, None)), rng.choice((nc, None))))
        elif f < 0.16:
            s.call('vec.set', 2, vec_of(rng, rng.choice(PRECS), max(0, nc + rng.choice((-1, 0, 1)))))
        a, b, v = rng.choice((1, 1, 3)), 2, rng.choice((1, 1, 2))
        A, Bq, V = s['r'][a], s['r'][b], s['v'][v]
        pa, h, c = shape(A) or (p, 0, 0)
        op = rng.choice('replace_vector insert_vector concat_vector insert_blank_row insert_blank_column add_vector sub_vector replace_constraints '
                        'insert_constraints swap_constraints remove_row remove_column insert_columns concat_constraints nclone clone_nconstraints pmalloc malloc '
                        'set_precision extend_output'.split())
        if op in ('replace_vector', 'add_vector', 'sub_vector'):
            if A and c == 0 and op != 'replace_vector':
                continue
            s.call('rel.' + op, a, v, edge(rng, 0, h - 1))
        elif op == 'insert_vector':
            s.call('rel.insert_vector', a, v, edge(rng, 0, h))
        elif op == 'concat_vector':
            s.call('rel.concat_vector', 3, a, v)
        elif op == 'insert_blank_row':
            s.call('rel.insert_blank_row', a, edge(rng, 0, h))
        elif op == 'insert_blank_column':
            s.call('rel.insert_blank_column', a, edge(rng, 0, c))
        elif op == 'replace_constraints':
            s.call('rel.replace_constraints', a, b, edge(rng, 0, h - (Bq[0]['nr'] if Bq else 0)))
        elif op == 'insert_constraints':
            s.call('rel.insert_constraints', a, b, edge(rng, 0, h))
        elif op == 'swap_constraints':
            x = [edge(rng, 0, h - 1), rng.randint(0, max(0, h - 1))]
            rng.shuffle(x)
            s.call('rel.swap_constraints', a, *x)
        elif op == 'remove_row':
            s.call('rel.remove_row', a, edge(rng, 0, h - 1))
        elif op == 'remove_column':
            s.call('rel.remove_column', a, edge(rng, 0, c - 1))
        elif op == 'insert_columns':
            s.call('rel.insert_columns', a, b, edge(rng, 0, c))
        elif op == 'concat_constraints':
            s.call('rel.concat_constraints', 3, a, b)
        elif op == 'nclone':
            s.call('rel.nclone', 3, a, rng.choice((-1, 0, len(A), len(A) + 1, max(0, len(A) - 1))))
        elif op == 'clone_nconstraints':
            m = min([q['nr'] for q in A] or [0])
            s.call('rel.clone_nconstraints', 3, a, rng.choice((-1, 0, m, m + 1, max(0, m - 1))))
        elif op == 'pmalloc':
            if rng.random() < 0.5:
                s.call('rel.pmalloc', 3, rng.choice(PRECS), rng.choice((0, 1, 2, -1)), rng.choice((0, 1, 2, -1)))
            else:
                s.call('rel.pmalloc', 3, rng.choice(PRECS + (1, 16, -1, 33)), rng.choice((1, 2)), rng.choice((1, 2)))
        elif op == 'malloc':
            s.call('rel.malloc', 3, rng.choice((0, 1, 2, -1)), rng.choice((0, 1, 2)))
        elif op == 'set_precision':
            s.call('rel.set_precision', a, rng.choice(PRECS + PRECS + (1, 16, -1) if A and all(q['nr'] and q['nc'] for q in A) else PRECS))
        elif op == 'extend_output':
            t = rng.choice((g_rel.SCATTERING, g_rel.DOMAIN, g_rel.WRITE))
            s.call('rel.set', 3, g_rel.relation(rng, t=t))
            s.call('rel.extend_output', 3, 3, s['r'][3][0]['o'] + rng.choice((0, 1, 2, -1)))


def veclimits(rng, s, n=8):
    p = rng.choice(PRECS)
    size = rng.choice((0, 1, 2, 3))
    for k in (1, 2):
        s.call('vec.set', k, g_int.vec(rng, p if rng.random() < 0.9 else rng.choice(PRECS), size if rng.random() < 0.9 else size + 1, 0.05))
    for _ in range(n):
        a, b, d = rng.choice((1, 2, 2, 3)), rng.choice((1, 1, 2)), rng.choice((1, 3))
        va, vb = s['v'][a], s['v'][b]
        op = rng.choice('add sub add sub add_scalar tag_inequality tag_equality pmalloc malloc set intmalloc intset intprec'.split())
        if op in ('add', 'sub'):
            s.call('vec.' + op, d, a, b)
        elif op == 'add_scalar':
            s.call('vec.add_scalar', d, a, rng.randint(-3, 3))
        elif op in ('tag_inequality', 'tag_equality'):
            s.call('vec.' + op, a)
        elif op == 'pmalloc':
            s.call('vec.pmalloc', 3, rng.choice(PRECS + PRECS + (1, 16, 33, -1)), rng.choice((1, 2, 3, -1)))
        elif op == 'malloc':
            s.call('vec.malloc', 3, rng.choice((0, 1, 2, 3, -1)))
        elif op == 'set':
            s.call('vec.set', a, g_int.vec(rng, p, max(0, size + rng.choice((0, 0, 0, 1, -1))), 0.05))
        elif op == 'intmalloc':
            s.call('int.' + rng.choice(('init', 'malloc')), 1, rng.choice(PRECS + PRECS + (1, 16, 33, 63, -1)))
        elif op == 'intset':
            q = rng.choice(PRECS + PRECS + (1, 16, 33, 63, -1))
            s.call(*rng.choice((('int.init_set_si', 1, q, 5), ('int.init_set_long', 1, q, '7'))))
        elif op == 'intprec' and s['i'][1]:
            s.call('int.set_precision', 1, rng.choice(PRECS + (1, 16, -1)))


def dups(rng, s, n=8):
    """Interfaces and generics that are already there."""
    f = rng.random() < 0.5
    ks = rng.sample(g_obj.KINDS, rng.randint(1, 5) if rng.random() < 0.75 else rng.randint(10, 16))
    for _ in range(n):
        new = rng.sample(g_obj.KINDS, rng.choice((1, 1, 2, 3, 4)))
        if rng.random() < 0.8:
            new = [k for k in new if k not in ks]
        elif rng.random() < 0.5:
            new.append(rng.choice(ks))
            new = list(dict.fromkeys(new))
            rng.shuffle(new)
        ks = ks + new
        if f:
            if not s['f'][1]:
                s.call('ifc.set', 1, g_obj.ifaces(rng, ks[:len(ks) - len(new)]))
            s.call('ifc.set', 2, g_obj.ifaces(rng, new))
            if rng.random() < 0.05 and s['f'][1]:
                s.call('ifc.set', 2, [{'u': g_obj.NULLS, 'k': 'comment'}])
            s.call('ifc.add', 1, 2)
            s.call('ifc.number', 1)
        else:
            if not s['g'][1]:
                s.call('gen.set', 1, [g_obj.git(rng, k) for k in ks[:len(ks) - len(new)]])
            s.call('gen.set', 2, [g_obj.git(rng, k) for k in new])
            if rng.random() < 0.05:
                s.call('gen.set', 2, [{'u': g_obj.NULLS, 'k': 'none', 'd': []}])
            s.call('gen.add', 1, 2)
            s.call('gen.number', 1)


def scatlimits(rng, s):
    """Scatterings that can or cannot be extended to the dimensions of the others."""
    p = rng.choice(PRECS)
    q = g_obj.scop(rng, p, nst=rng.choice((1, 2, 3)))
    s.call('scop.set', 1, [q])
    s.call('scop.normalize_scattering', 1)
    s.call('scop.normalize_scattering', 1)
