"""Driver access: sessions that execute specification operations on the real library."""
import json, os, select, subprocess, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = 'detect_leaks=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0'


class ToolError(Exception):
    pass


class EpisodeOver(Exception):
    pass


# ------------------------------------------------------------------ text abstraction
def out_lines(text):
    """Library output -> significant lines [t tokens, c annotation] (see spec/OslText.tla);
    the contents of comments and scripts are kept verbatim ("raw")."""
    res = []
    if text == '~NULL~':
        return [{'t': ['~NULL~'], 'c': ''}]
    raw = None
    for line in text.split('\n'):
        if raw:
            k = line.find('</%s>' % raw)
            if k < 0 or k > 0:
                res.append({'t': [line if k < 0 else line[:k]], 'c': 'raw'})
            if k < 0:
                continue
            line, raw = line[k:], None
        elif line in ('<comment>', '<clay>'):
            raw = line[1:-1]
        p = line.find('#')
        body, com = (line, '') if p < 0 else (line[:p], line[p:])
        toks = body.split()
        c = ''
        if com.startswith('##'):
            c = ''.join(com[2:].split())
        elif not toks and re.match(r'#\s*e/i', com):
            c = ''.join(com.replace('#', '').split())
        if toks or c:
            res.append({'t': toks, 'c': c})
    return res


def in_lines(text):
    """Input text -> non-empty token lines."""
    res = []
    for line in text.split('\n'):
        toks = line.split('#')[0].split()
        if toks:
            res.append(toks)
    return res


LEX = re.compile(r'</?[A-Za-z_]+>')
BLANK = re.compile(r'[ \t\n\r\v\f]*')


def lex(text):
    """Input text -> [h, T, L, F] (see spec/OslExtText.tla)."""
    def sep(k):
        a = k
        while True:
            k = BLANK.match(text, k).end()
            if k < len(text) and text[k] == '#':
                while k < len(text) and text[k] != '\n':
                    k += 1
            else:
                return text[a:k], k
    h, k = sep(0)
    toks, lines, first = [], [], []
    newline = True
    while k < len(text):
        m = LEX.match(text, k)
        if m:
            e, g = m.end(), m.group()[1:-1]
        else:
            e, g = k, ''
            while e < len(text) and text[e] not in ' \t\n\r\v\f#' and not (e > k and LEX.match(text, e)):
                e += 1
        w = text[k:e]
        s, k = sep(e)
        if newline or g:
            lines.append([])
            first.append(len(toks) + 1)
        lines[-1].append(w)
        newline = bool(g) or '\n' in s
        b = re.match(r'[ \t\r\v\f]*', s).group()
        toks.append({'w': w, 'b': b, 's': s, 'l': len(lines), 'g': g})
    return {'h': h, 'T': toks, 'L': lines, 'F': first}


def in_words(text):
    return [t['w'] for t in lex(text)['T']]


def in_toks(text):
    return [t for l in in_lines(text) for t in l]


# ------------------------------------------------------------------------- the driver
class Driver:
    def __init__(self, exe, tag):
        self.err = os.path.join(os.path.dirname(exe), 'err.%s' % tag)
        open(self.err, 'w').close()
        env = {k: v for k, v in os.environ.items() if not k.startswith('OSL_')}
        env['ASAN_OPTIONS'] = ASAN
        self.p = subprocess.Popen([exe, self.err], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=os.path.dirname(exe))
        self.buf = b''

    def line(self, timeout=90):
        while True:
            k = self.buf.find(b'\n')
            if k >= 0:
                l, self.buf = self.buf[:k], self.buf[k + 1:]
                return json.loads(l.decode('utf-8', 'replace'))
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                raise ToolError('driver does not answer')
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise ToolError('driver died: ' + open(self.err, errors='replace').read()[-2000:])
            self.buf += d

    def send(self, s):
        self.p.stdin.write(s.encode())
        self.p.stdin.flush()

    def begin(self):
        if os.path.getsize(self.err) > 1 << 24:
            os.truncate(self.err, 0)
        self.send('BEGIN\n')
        r = self.line()
        if r.get('o') != 'begin':
            raise ToolError('driver protocol: %r' % r)

    def call(self, op, args):
        self.send(json.dumps({'op': op, 'a': args}) + '\n')
        return self.line()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


BANKS = 'ivrlspxngf'
# how a result is abstracted before the specification judges it
TEXT_RESULT = set()
REST_RESULT = set()      # text remaining after a string read
WORDS_RESULT = set()     # the same, with tags as tokens
PAIR_RESULT = set()


# arguments (positions, bank) that may designate an object inside a chain
VIEWABLE = {}


def viewable(text):
    for l in text.split(';'):
        w = l.split()
        for op in w[2:]:
            VIEWABLE.setdefault(w[0] + '.' + op, []).extend((int(k), b) for b, k in re.findall(r'([a-z])(\d)', w[1]))


viewable("""rel r0 nb_components replace_vector insert_vector insert_blank_row insert_blank_column add_vector sub_vector
  replace_constraints insert_constraints swap_constraints remove_row remove_column insert_columns part_equal equal integrity_check
  set_attributes_one set_attributes set_type get_array_id is_access get_attributes set_precision dump print pprint sprint spprint;
 rel r1 clone nclone clone_nconstraints union concat_vector replace_constraints insert_constraints insert_columns concat_constraints
  part_equal equal extend_output; rel r2 union concat_constraints;
 list l0 equal integrity_check set_type count get_attributes dump print pprint pprint_elts; list l1 clone concat equal filter; list l2 concat; list r1 node;
 stmt s0 number equal integrity_check get_nb_iterators get_attributes get_body dump print; stmt s1 clone nclone equal remove_unions;
 scop p0 number equal integrity_check get_nb_parameters get_attributes normalize_scattering dump print; scop p1 clone equal remove_unions names;
 gen g0 equal number count lookup dump print; gen g1 clone nclone equal; ifc f0 number equal lookup dump; ifc f1 clone nclone equal""")


class V(tuple):
    """An argument: (bank, slot, links to follow from it)."""


class Session:
    """One episode: executes calls, keeps the observed store, records the trace."""

    def __init__(self, drv):
        self.d = drv
        self.ev, self.raw = [], []
        self.over = False
        self.vrng = None
        self.st = {b: {k: [] for k in range(1, 9)} for b in BANKS}
        drv.begin()

    def __getitem__(self, key):
        return self.st[key]

    def call(self, op, *args, spec=None):
        """spec: arguments as the specification sees them, when they differ (texts)."""
        if self.over:
            raise EpisodeOver()
        args = list(args)
        if self.vrng is not None and op in VIEWABLE:
            self.choose_views(op, args)
        vw, sargs = [], list(args) if spec is None else list(spec)
        for k, x in enumerate(args):
            if isinstance(x, V):
                sargs[k] = 9 + sum(1 for y in vw if y[0] == x[0])
                vw.append(list(x))
        dargs = [x[1] + 100 * x[2] if isinstance(x, V) else x for x in args]
        r = self.d.call(op, dargs)
        m, o = op.split('.')
        e = {'m': m, 'op': o, 'a': sargs, 'vw': vw, 'o': r['o'], 'r': '', 'd': []}
        self.raw.append({'op': op, 'a': [{'view': list(x)} if isinstance(x, V) else x for x in args], 'spec': None if spec is None else list(spec)})
        self.ev.append(e)
        if r['o'] != 'ok':
            self.over = True
            raise EpisodeOver()
        e['d'] = r['d']
        res = r['r']
        if op == 'x.sprint' and (spec or args)[1] in ('comment', 'clay') and res != '~NULL~':
            res = [{'t': [res], 'c': 'raw'}]
        elif op in TEXT_RESULT:
            res = out_lines(res)
        elif op in REST_RESULT:
            res = in_toks(res)
        elif op in WORDS_RESULT:
            res = in_words(res)
        elif op in PAIR_RESULT:
            res = [res[0], in_toks(res[1])]
        e['r'] = res
        for x in r['d']:
            self.st[x['k']][x['i']] = x['v']
        return r['r']

    def choose_views(self, op, args):
        for k, b in VIEWABLE[op]:
            n = len(self.st[b][args[k]]) if isinstance(args[k], int) else 0
            if n > 1 and self.vrng.random() < 0.2:
                args[k] = V((b, args[k], self.vrng.randint(1, n - 1)))
        two = [k for k, b in VIEWABLE[op] if isinstance(args[k], int)]
        if len(two) == 2 and self.vrng.random() < 0.25:  # an object and a part of itself
            i, j = self.vrng.sample(two, 2)
            b = VIEWABLE[op][0][1]
            n = len(self.st[b][args[i]])
            if n > 1:
                args[j] = V((b, args[i], self.vrng.choice((1, 1, n - 1))))
        vs = [x for x in args if isinstance(x, V)]
        if op.endswith('equal') and len(vs) == 2 and vs[0] == vs[1]:
            args[0] = vs[0][1]

    def end(self):
        if self.over:
            return
        r = self.d.call('END', [])
        self.over = True
        e = {'m': 'sys', 'op': 'end', 'a': [], 'vw': [], 'o': r['o'], 'r': r.get('r', 0), 'd': []}
        self.ev.append(e)
        self.raw.append({'op': 'END', 'a': [], 'spec': None})


def text_ops(text='', rest='', pair='', words=''):
    TEXT_RESULT.update(text.split())
    REST_RESULT.update(rest.split())
    WORDS_RESULT.update(words.split())
    PAIR_RESULT.update(pair.split())


text_ops(
    text='rel.print rel.pprint rel.sprint rel.spprint rel.spprint_polylib rel.spprint_polylib_scoplib rel.spprint_scoplib '
         'rel.pprint_scoplib list.print list.pprint list.pprint_elts list.pprint_access_array_scoplib stmt.print stmt.pprint '
         'stmt.pprint_scoplib scop.print scop.print_scoplib gen.print gen.sprint gen.print_options_scoplib x.sprint '
         'strings.print body.print body.print_scoplib dependence.print',
    rest='rel.sread rel.psread rel.sread_polylib rel.psread_polylib int.sread',
    words='x.sread gen.sread gen.sread_one dependence.psread')


def run_script(drv, script):
    """Re-executes raw calls; returns the recorded events."""
    s = Session(drv)
    try:
        for c in script:
            if c['op'] == 'END':
                s.end()
            else:
                s.call(c['op'], *[V(x['view']) if isinstance(x, dict) and 'view' in x else x for x in c['a']], spec=c.get('spec'))
    except EpisodeOver:
        pass
    if not s.over:
        s.end()
    return s.ev, s.raw
