"""Elementary text services: identifier substitution and readers."""
from g_base import *

NAMES = ['i', 'j', 'k', 'ii', 'i_', '_i', 'I', 'N', 'i1', 'x', 'A', 'ij', 'jump', 'sum', 'a0', 'Z_9']
OPS = ['+', '-', '*', '/', '=', '[', ']', '(', ')', ',', ';', '<', '>', '.', '->', '%', '"', "'", '@', '&', '!', ':', '{', '}', '?', '\\']


def expr(rng, ids, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.42:
            out.append(rng.choice(ids) if ids and rng.random() < 0.75 else rng.choice(NAMES))
        elif r < 0.8:
            out.append(rng.choice(OPS) if rng.random() < 0.4 else rng.choice('+=[](),;'))
        elif r < 0.86:
            out.append(str(rng.choice((0, 1, 42, '1.5', '2i', 'i2'))))
        if rng.random() < 0.35:
            out.append(rng.choice((' ', ' ', '  ', '\t', '\n', ' \n\t')) * (1 if rng.random() < 0.98 else rng.randint(8, 40)))
    return ''.join(out)


def subst(rng, s, n=14):
    for _ in range(n):
        ids = rng.sample(NAMES, rng.choice((0, 1, 1, 2, 2, 3, 4)))
        if ids and rng.random() < 0.15:
            ids.append(rng.choice(ids))  # a name given twice: the first rank counts
        if rng.random() < 0.05:
            ids = rng.sample(NAMES, 12)
        if rng.random() < 0.05:
            ids.append('v' * rng.randint(20, 120))
        r = rng.random()
        e = expr(rng, ids, rng.choice((0, 1, 2, 3, 4, 6, 9, 14)) if r < 0.97 else rng.randint(100, 400))
        if r > 0.985 and r < 0.995:
            e = e + ' ' * rng.randint(0, 20) + rng.choice(('x', '+', 'a')) * rng.randint(1500, 2300) + e
        s.call('util.subst', e, ids)


ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
PRINTABLE = ''.join(chr(c) for c in range(32, 127)) + '\t\n\r'


def substpairs(rng, s, total=64):
    """Every pair of characters around an identifier (over `total` consecutive histories), and random identifiers."""
    m = len(PRINTABLE)
    pairs = [(a, b) for a in range(m) for b in range(m) if (a * m + b) % total == s.serial % total]
    rng.shuffle(pairs)
    for k in range(0, len(pairs), 12):
        ids = [rng.choice(ALNUM[:52] + '_') + ''.join(rng.choice(ALNUM) for _ in range(rng.choice((0, 0, 1, 2)))) for _ in range(rng.choice((1, 2, 3)))]
        q = []
        for a, b in pairs[k:k + 12]:
            q.append(PRINTABLE[a] + (rng.choice(ids)) + PRINTABLE[b])
        s.call('util.subst', rng.choice(('', ' ', ';')).join(q), ids)
        s.call('util.subst', q[0], ids)


def blank(rng, many=0.3):
    out = rng.choice((' ', '\n', '\t', '#\n', '')) * rng.randint(10, 40) if rng.random() < 0.02 else ''
    while True:
        r = rng.random()
        if r < 0.6:
            out += rng.choice((' ', ' ', '\n', '\t', '\n\n', '  ', '\r\n', '\f'))
        elif r < 0.85:
            out += '#' + rng.choice(('', ' c', '## x # y', ' <tag>', ' 12', '\t')) + '\n'
        if rng.random() > many:
            return out


WORD = ['a', 'abc', '12', '-7', '+3', '007', '-0', '0', '2147483647', '2147483648', '-2147483648', '-2147483649', '99999999999999999999',
        '12abc', '-', '+', '--1', '1.5', '0x10', '1,2', '<a>', '</a>', '<ab_C>', '<a', '<a1>', '<a/>', '<>', '</>', '<//a>', '< a>', 'a<b>', '<a>b', '<a><b>',
        '</body>', '<body>', '</bod', '<bod<body>', '$', '_x', 'RAW']
TAGS = ['<a>', '</a>', '<ab_C>', '<a>b', '<body>', '</body>', '<a><b>', '<X>', '<_>', '<Zz>', '</Az>', '<>', '<a_rather_long_name>', '</a_rather_long_name>x', '<ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz>']
INTS = ['12', '-7', '+3', '007', '-0', '0', '2147483647', '-2147483648', '12abc', '1.5', '0x10', '5', '-130', '9', '1,2', '+0009', '-00000000000000000000000001']
PLAIN = ['a', 'abc', 'i', 'S1', '[', ',', '=', '0.5', '"x"', '-', '2']


def some(rng, pool, n):
    out = blank(rng) if rng.random() < 0.5 else ''
    for _ in range(n):
        w = rng.choice(pool)
        if rng.random() < 0.02:
            w += rng.choice('abz') * rng.choice((50, 300, 2047, 2048, 2049, 2100))
        out += w
        if rng.random() < 0.9:
            out += blank(rng)
        elif rng.random() < 0.2:
            out += '#' + rng.choice(PLAIN)
    if rng.random() < 0.25:
        out = out.rstrip()
    if rng.random() < 0.02:
        out = ' ' * rng.choice((2047, 2048, 2100)) + out
    if rng.random() < 0.02:
        out = '#' + 'c' * rng.choice((2046, 2047, 2048, 4100)) + '\n' + out
    return out


def readers(rng, s, n=10):
    """A text is read item after item."""
    for _ in range(n):
        what = wchoice(rng, (('int', 3), ('string', 2), ('line', 2), ('tag', 3), ('any', 1)))
        pool = {'int': INTS, 'string': WORD, 'line': WORD, 'tag': TAGS, 'any': WORD}[what]
        text = some(rng, pool, rng.choice((0, 1, 1, 2, 3, 4, 6)))
        for _ in range(5):
            op = what if what != 'any' else rng.choice(('int', 'string', 'line', 'tag'))
            if op == 'string' and rng.random() < 0.2:
                op = 'line'
            # reading at the end of the text is refused (and ends the history): rarely
            if op in ('int', 'string') and not real(text) and rng.random() < 0.9:
                break
            if what == 'any' and op != 'line' and rng.random() < 0.9 and not fits(op, text):
                op = 'line'
            if op == 'line' and rng.random() < 0.2:
                r = s.call('util.skip_f', text)
            else:
                r = s.call('util.read_%s_%s' % (op, rng.choice('sf')), text)
            end = not text
            text = r[1]
            if end:
                break


def real(text):
    import osldrv
    return bool(osldrv.in_lines(text))


def fits(op, text):
    import osldrv, re
    ls = osldrv.in_lines(text)
    if op == 'tag':
        return not ls or bool(re.match(r'</?[A-Za-z_]*>', ls[0][0]))
    if not ls:
        return False
    m = re.match(r'[+-]?\d+', ls[0][0])
    return op == 'string' or bool(m and -2**31 <= int(m.group()) < 2**31)


FLAGS = ['<a>', '</a>', 'a', 'ab', 'aab', 'abab', '>', ' ', '\n', '</body>', '#', 'aa', '-->', 'a<']


def near(rng, flag, n):
    """Text full of partial occurrences of the flag."""
    out = ''
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            k = rng.randint(0, len(flag) - 1)
            out += flag[:k]
        elif r < 0.6:
            out += flag[rng.randint(0, len(flag)):]
        elif r < 0.66:
            out += flag
        else:
            out += rng.choice(('a', 'b', '<', '>', '\n', ' ', '/', 'body', '#x\n', 'ab'))
    if rng.random() < 0.06:
        k = rng.choice((2040, 2044, 2046, 2047, 2048, 2049, 4090, 4096)) - (len(out) if rng.random() < 0.5 else 0)
        out = 'z' * max(0, k) + out
    return out


def uptos(rng, s, n=16):
    for _ in range(n):
        op = rng.choice(('read_uptoflag', 'read_uptoflag', 'read_uptotag', 'read_uptoendtag', 'tag_content', 'tag_content'))
        name = rng.choice(('a', 'body', 'ab', '/a', 'a_b', 'arrays', '')) if rng.random() < 0.93 else rng.choice(('a_long_name_of_a_tag', 'x' * 60))
        flag = rng.choice(FLAGS)
        if op == 'read_uptoflag':
            text = near(rng, flag, rng.randint(0, 9))
            if rng.random() < 0.6:
                text += flag + near(rng, flag, rng.randint(0, 4))
            name = flag
        else:
            text = near(rng, '<%s>' % name, rng.randint(0, 5))
            if rng.random() < 0.7:
                text += '<%s>' % name
            text += near(rng, rng.choice(('<%s>', '</%s>')) % name, rng.randint(0, 5))
            if rng.random() < 0.7:
                text += '</%s>' % name
            text += near(rng, '</%s>' % name, rng.randint(0, 3))
        if op == 'tag_content':
            s.call('util.tag_content', text, name)
        else:
            k = rng.choice('sf')
            r = s.call('util.%s_%s' % (op, k), text, name)
            if r[0] and rng.random() < 0.5:
                s.call('util.%s_%s' % (op, k), r[1], name)


def strings(rng, s, n=8):
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            size = rng.choice((1, 1, 2, 3, 8, 100, 2048))
            ps = [rng.choice(('', 'a', 'bc', 'x' * rng.randint(0, 9), 'y' * rng.choice((7, 8, 99, 100, 101, 2047, 2048, 2049, 4097)) if rng.random() < 0.15 else 'def'))
                  for _ in range(rng.randint(0, 8))]
            s.call('util.safe_strcat', ps, size)
        elif r < 0.7:
            s.call('util.strdup', some(rng, WORD, rng.randint(0, 4)))
        else:
            s.call('util.print_provided', rng.choice((0, 1, 1, 2, -1)), rng.choice(('Parameters', 'Scattering information', 'x', '')))
