"""Random values shared by the generators.  Every choice comes from the given rng."""
SP, DP, MP = 32, 64, 0
PRECS = (SP, DP, MP)
I64MAX, I64MIN = 2**63 - 1, -2**63
I32MAX, I32MIN = 2**31 - 1, -2**31


class Size:
    """What is oversized in the current history (set by the engine for some histories)."""
    what = ()


SIZES = ('parts', 'dims', 'rows', 'count', 'num', 'long', 'stmts', 'accs', 'scops', 'exts')


RELEVANT = {'g_rel': ('dims', 'rows', 'parts', 'dims', 'rows', 'num'), 'g_bad': ('dims', 'rows', 'parts', 'count'), 'g_int': ('dims', 'num', 'count'),
            'g_scl': ('dims', 'rows', 'stmts', 'accs', 'num', 'count', 'parts', 'scops'), 'g_util': ('long', 'count')}
for f_ in 'xobjs grow tables names'.split():
    RELEVANT[f_] = ('count', 'count', 'count', 'long', 'parts', 'rows')
for f_ in 'registries generic'.split():
    RELEVANT[f_] = ('count',)
for f_ in 'lists listattrs'.split():
    RELEVANT[f_] = ('count', 'count', 'parts', 'dims', 'rows')
for f_ in 'xprint xround xread genprint genround genread'.split():
    RELEVANT[f_] = ('count', 'count', 'long', 'rows', 'dims', 'parts', 'num')
RELEVANT['g_obj'] = RELEVANT['g_text'] = ('stmts', 'accs', 'dims', 'count', 'rows', 'parts', 'exts')
SCOPS = ('stmts', 'scops', 'accs', 'dims', 'count', 'rows', 'exts')
for f_ in 'scops scopinteg stmtunions'.split():
    RELEVANT[f_] = SCOPS
RELEVANT['normalize'] = RELEVANT['normalizesmall'] = ('stmts', 'stmts', 'dims', 'parts')


def stretched(rng, fn, part):
    """The kinds of size that are oversized in a history of that generator."""
    if rng.random() >= part:
        return ()
    ks = RELEVANT.get(fn.__name__) if fn.__module__ != 'g_text' or fn.__name__ not in ('lists',) else None
    ks = ks or RELEVANT.get(fn.__module__) or SIZES
    return tuple(rng.sample(ks, 1 if len(ks) == 1 else rng.choice((1, 1, 2)))) if rng.random() < 0.8 else (rng.choice(SIZES),)


def more(rng, what, v, top):
    """v, or something larger when that kind of size is stretched in this history."""
    return v + rng.randint(rng.choice((0, top // 2, top - 2)), top) if what in Size.what and rng.random() < 0.75 else v


def wchoice(rng, pairs):
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def num(rng, p, big=0.12, lim=None):
    """An integer value representable in precision p."""
    r = rng.random()
    if r < 0.6:
        v = rng.choice((0, 0, 0, 1, 1, -1, -1, 2, -2, 3, -3, 5))
    elif r < 1 - big:
        v = rng.randint(-130, 130)
    elif r < 1 - big / 2:
        k = rng.randint(3, 17)
        v = rng.randint(-10**k, 10**k)
    else:
        v = rng.choice((I64MAX, I64MIN, I64MAX - 1, I64MIN + 1, I32MAX, I32MIN, I32MAX + 1, I32MIN - 1, 2**32, -2**32,
                        3037000500, -3037000500, 4294967296))
        if p == MP and rng.random() < 0.6:
            v = rng.choice((v * v, v * 10**rng.randint(1, 30) + rng.randint(-5, 5), I64MAX + 1, I64MIN - 1, 2**64,
                            -2**64, rng.randint(-10**40, 10**40)))
    if p == MP and lim is None and 'num' in Size.what and rng.random() < 0.06:
        k = rng.choice((100, 500, 2000, 2040, 2046, 2047, 2048, 2049, 2100, 3000))
        return rng.choice((1, -1)) * (10**k + rng.choice((0, 1, -1, 7)))
    if lim is not None and not (-lim <= v <= lim):
        v = rng.randint(-9, 9)
    if p != MP and not (I64MIN <= v <= I64MAX):
        v = rng.randint(-9, 9)
    return v


def small(rng):
    return rng.choice((0, 0, 0, 1, 1, -1, -1, 2, -2, 3, rng.randint(-20, 20)))
