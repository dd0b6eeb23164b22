"""Generators for integers and vectors."""
from g_base import *


def other(rng, n=8):
    return rng.randint(1, n)


BIN = ('add', 'sub', 'mul', 'gcd', 'lcm', 'mod', 'floor_div_q', 'floor_div_r', 'div_exact')
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'divisible')
PRED = ('pos', 'neg', 'zero', 'one', 'mone')


def val(s, k):
    return int(s['i'][k][0]['v'])


def setint(rng, s, k, p, big=0.35):
    s.call('int.set', k, [{'p': p, 'v': str(num(rng, p, big))}])


def ints(rng, s, n=22, ops=None):
    """Histories of integer operations in one precision, with occasional conversions."""
    p = rng.choice(PRECS)
    if ops is None:
        r = rng.random()
        ops = 'all' if r < 0.5 else ('arith' if r < 0.8 else 'io')
    for k in range(1, 5):
        setint(rng, s, k, p)
    for _ in range(n):
        k, a, b = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        r = rng.random()
        if r < 0.22:
            setint(rng, s, k, p)
            continue
        if ops == 'io' or r > 0.92 and ops != 'arith':
            int_io(rng, s, p, k, a)
            continue
        c = rng.random()
        if c < 0.45:
            op = rng.choice(BIN)
            va, vb = val(s, a), val(s, b)
            if op in ('mod', 'floor_div_q', 'floor_div_r', 'div_exact') and vb == 0:
                continue
            if op == 'lcm' and p != MP and I64MIN in (va, vb) and va * vb == 0:
                continue
            if op == 'mul' and va.bit_length() + vb.bit_length() > 25000:
                continue
            if op not in ('add', 'sub', 'mul') and min(va.bit_length(), vb.bit_length()) > 500:
                continue
            if op == 'div_exact' and va % vb:
                # make it exact
                q = num(rng, p, 0.1, 10**6)
                prod = q * vb
                if p != MP and not (I64MIN <= prod <= I64MAX):
                    continue
                s.call('int.set', a, [{'p': p, 'v': str(prod)}])
                if a == b:
                    continue
            s.call('int.' + op, k, a, b)
        elif c < 0.5:
            if val(s, b) != 0 and min(val(s, a).bit_length(), val(s, b).bit_length()) < 500:
                q, m = rng.sample(range(1, 9), 2)
                s.call('int.floor_div_q_r', q, m, a, b)
                for x in (q, m):
                    if x > 4:
                        pass
        elif c < 0.62:
            s.call('int.' + rng.choice(('increment', 'decrement', 'oppose', 'abs')), k, a)
        elif c < 0.72:
            s.call('int.' + rng.choice(('add_si', 'mul_si')), k, a, rng.choice((0, 1, -1, 2, -7, 1000, I32MAX, I32MIN, rng.randint(-10**9, 10**9))))
        elif c < 0.9:
            op = rng.choice(CMP)
            if op == 'divisible' and (val(s, b) == 0 or min(val(s, a).bit_length(), val(s, b).bit_length()) > 500):
                continue
            s.call('int.' + op, a, b)
        else:
            s.call('int.' + rng.choice(PRED), a)


def int_io(rng, s, p, k, a):
    op = rng.choice(('sprint', 'print', 'sprint_txt', 'sscanf', 'sread', 'init_set', 'init_set_si', 'set_si', 'set_long', 'set_long_long', 'assign', 'swap',
                     'get_si', 'get_long', 'get_long_long', 'get_d', 'size2', 'size10', 'init', 'init_set_long', 'init_set_long_long', 'malloc',
                     'precision', 'is_precision_supported'))
    v = val(s, a)
    if op in ('sprint', 'print', 'sprint_txt'):
        s.call('int.' + op, a)
    elif op in ('sscanf', 'sread'):
        x = num(rng, MP if rng.random() < 0.3 else p, 0.4)
        t = ('+' if x >= 0 and rng.random() < 0.2 else '') + (('-' if x < 0 else '') + '0' * rng.choice((0, 0, 0, 2)) + str(abs(x)))
        if rng.random() < 0.06:
            t = rng.choice(('', 'abc', '-', 'x1'))
        lead = rng.choice(('', '', ' ', '   ')) if rng.random() < 0.95 else ' ' * rng.randint(10, 40)
        tail = rng.choice(('', ' ', ' 7', ' foo bar', ' -3 4'))
        if not t:
            tail = ''
        txt = lead + t + tail
        s.call('int.' + op, k, txt, spec=[k, txt.split()])
    elif op in ('init', 'malloc'):
        q = rng.choice(PRECS + (p, p, p) + ((7,) if rng.random() < 0.1 else ()))
        s.call('int.' + op, 8, q)
        if q == p:
            s.call('int.assign', 8, a)
            s.call('int.free', 8)
    elif op == 'init_set':
        s.call('int.init_set', k, a)
    elif op == 'init_set_si':
        s.call('int.init_set_si', k, p, rng.choice((0, 1, -1, I32MAX, I32MIN, rng.randint(-10**6, 10**6))))
    elif op in ('init_set_long', 'init_set_long_long'):
        s.call('int.' + op, k, p, str(num(rng, DP, 0.5)))
    elif op == 'set_si':
        s.call('int.set_si', k, rng.choice((0, 1, -1, I32MAX, I32MIN, rng.randint(-10**6, 10**6))))
    elif op in ('set_long', 'set_long_long'):
        s.call('int.' + op, k, str(num(rng, DP, 0.5)))
    elif op == 'assign':
        s.call('int.assign', k, a)
    elif op == 'swap':
        if k != a:
            s.call('int.swap', k, a)
    elif op == 'get_si':
        if I32MIN <= v <= I32MAX or rng.random() < 0.05:
            s.call('int.get_si', a)
    elif op in ('get_long', 'get_long_long'):
        if I64MIN <= v <= I64MAX or rng.random() < 0.05:
            s.call('int.' + op, a)
    elif op == 'get_d':
        if abs(v) < 2**53:
            s.call('int.get_d', a)
    elif op == 'size2':
        s.call('int.size_in_base_2', a)
    elif op == 'size10':
        s.call('int.size_in_base_10', a)
    elif op == 'precision':
        q = rng.choice(PRECS)
        t = 7
        s.call('int.set', t, [{'p': p, 'v': str(num(rng, p, 0.4))}])
        s.call('int.set_precision', t, q)
        if rng.random() < 0.7:
            s.call('int.set_precision', t, rng.choice(PRECS))
    else:
        s.call('int.is_precision_supported', rng.choice((32, 64, 0, 1, 31, 33, -1)))


def intpairs(rng, s, n=14):
    """Precision independence: the same small computation in the three precisions."""
    vals = [num(rng, DP, 0.15, 10**8) for _ in range(2)]
    for _ in range(n):
        op = rng.choice(BIN + ('mul_si', 'add_si'))
        vals[rng.randint(0, 1)] = num(rng, DP, 0.15, 10**8)
        a, b = vals
        if op in ('mod', 'floor_div_q', 'floor_div_r', 'div_exact') and b == 0:
            b = 3
        if op == 'div_exact':
            a = a // b * b
        for p in PRECS:
            s.call('int.set', 1, [{'p': p, 'v': str(a)}])
            if op.endswith('_si'):
                s.call('int.' + op, 3, 1, b)
            else:
                s.call('int.set', 2, [{'p': p, 'v': str(b)}])
                s.call('int.' + op, 3, 1, 2)
            c = rng.choice(CMP)
            if c != 'divisible' or val(s, 1):
                s.call('int.' + c, 3, 1)
        if len(s.ev) > 60:
            break


# ---------------------------------------------------------------------- vectors
def vec(rng, p, n, big=0.1):
    return [{'p': p, 'v': [str(num(rng, p, big)) for _ in range(n)]}]


def vecs(rng, s, n=18):
    p = rng.choice(PRECS)
    size = more(rng, 'dims', rng.choice((0, 1, 2, 2, 3, 3, 4, 5, 9)), 30)
    for k in range(1, 4):
        s.call('vec.set', k, vec(rng, p, size))
    env = rng.random() < 0.4
    if env:
        s.call('env.precision', rng.choice(('32', '64', '0', 'unset', '16')))
    for _ in range(n):
        a, b, d = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 5)
        op = rng.choice(('add', 'sub', 'add', 'sub', 'add_scalar', 'mul_scalar', 'equal', 'equal', 'is_scalar', 'tag_inequality', 'tag_equality',
                         'set', 'set', 'pmalloc', 'malloc', 'free', 'dump', 'perturb'))
        va, vb = s['v'][a], s['v'][b]
        if op == 'set':
            q = p if rng.random() < 0.93 else rng.choice(PRECS)
            m = size if rng.random() < 0.9 else rng.randint(0, 6)
            s.call('vec.set', a, vec(rng, q, m))
        elif op == 'perturb':
            if va and va[0]['v']:
                w = list(va[0]['v'])
                j = rng.randrange(len(w))
                w[j] = rng.choice((w[j], str(num(rng, va[0]['p']))))
                if rng.random() < 0.4:
                    w = ['0'] * len(w)
                    w[rng.choice((-1, -1, 0, len(w) // 2))] = str(num(rng, va[0]['p']))
                s.call('vec.set', d, [{'p': va[0]['p'], 'v': w}])
        elif op in ('add', 'sub'):
            # an invalid pair is refused (ends the episode): rarely
            ok = va and vb and va[0]['p'] == vb[0]['p'] and len(va[0]['v']) == len(vb[0]['v'])
            if ok or rng.random() < 0.03:
                s.call('vec.' + op, d, a, b)
        elif op == 'add_scalar':
            if (va and len(va[0]['v']) >= 2) or rng.random() < 0.05:
                s.call('vec.add_scalar', d, a, rng.choice((0, 1, -1, 5, I32MAX, I32MIN)))
        elif op == 'mul_scalar':
            if va:
                s.call('vec.mul_scalar', d, a, rng.choice((0, 1, -1, 2, -3, 1000)))
        elif op == 'equal':
            if (va and vb) or rng.random() < 0.5:
                s.call('vec.equal', a, b)
        elif op == 'is_scalar':
            s.call('vec.is_scalar', a)
        elif op in ('tag_inequality', 'tag_equality'):
            if (va and va[0]['v']) or rng.random() < 0.05:
                s.call('vec.' + op, a)
        elif op == 'pmalloc':
            if rng.random() < 0.05:
                s.call('vec.pmalloc', d, rng.choice((1, 16, -1)), rng.randint(1, 3))
            s.call('vec.pmalloc', d, rng.choice(PRECS), rng.randint(0, 4))
        elif op == 'malloc':
            s.call('vec.malloc', d, rng.randint(0, 4))
        elif op == 'free':
            s.call('vec.free', 5)
        elif op == 'dump':
            s.call('vec.dump', a)
