"""Typestate of the table reader. The reader (with the functions it calls) is interpreted over finite abstract states: the
stream (could not be opened, open, last line read, past the end), the kind of the line and cell in hand (comment, '#'
further on, numeric, empty; number, no number, out of range), how many rows and numbers were appended for them, and
whether a row still holds cells of an earlier line. On every path a file that cannot be opened ends in an error; every
line that is read and is not a comment gives exactly one row holding all its cells; every cell gives exactly one number,
appended at the end, converted in double precision (not-a-number when it is none); nothing is returned before the end."""
from .. import astq

GROUPS = ['geo']
KINDS = ('comment', 'inner', 'data', 'single', 'empty')
# how many characters a line or cell can have, how many rows a table
SPAN = dict(comment=(1, None), inner=(2, None), data=(2, None), single=(1, 1), empty=(0, 0), none=(0, 0), some=(1, None))
LEAVE = 'leave'


class Giveup(Exception):
    pass


class S:
    """Immutable abstract state: environment and counters."""
    __slots__ = ('e', 'h')

    def __init__(self, e):
        self.e = e
        self.h = frozenset(e.items())

    def get(self, k, d=None):
        return self.e.get(k, d)

    def put(self, **kw):
        return self.set(kw.items())

    def set(self, items):
        e = dict(self.e)
        for k, v in items:
            e[k] = v
        return S(e)

    def __hash__(self):
        return hash(self.h)

    def __eq__(self, o):
        return self.h == o.h


def plain(x):
    while isinstance(x, dict) and (x.get('k') == 'cast' and x.get('ck') not in ('ff', 'fi', 'if') or x.get('k') == 'ctor' and
                                   x.get('elide') and len(x.get('a', [])) == 1):
        x = x['x'] if x['k'] == 'cast' else x['a'][0]
    return x


class Reader:
    def __init__(self, c, P, f, missing):
        self.c, self.P, self.missing = c, P, missing
        self.f = f
        self.found = {}
        self.steps = 0
        self.depth = 0
        self.opened = self.lines = self.cells = 0

    def at(self, n):
        return '%s:%d' % (self.f.loc().rsplit(':', 1)[0], n.get('l', self.f.line) if isinstance(n, dict) else self.f.line)

    def report(self, st, ob, text, n):
        old = self.found.get(ob)
        tainted = bool(st.get('taint'))
        if old is None or old[0] and not tainted:
            self.found[ob] = (tainted, text, self.at(n))

    # ---- variables
    def var(self, st, x):
        """Identity of the variable an lvalue names."""
        x = plain(x)
        while isinstance(x, dict) and x.get('k') == 'call':
            e = astq.callee(self.f, x)
            if e and e['n'] in ('move', 'forward') and len(x.get('a', [])) == 1:
                x = plain(x['a'][0])
            else:
                break
        if isinstance(x, dict) and x.get('k') == 'un' and x.get('op') == '*':
            x = plain(x['x'])
        if isinstance(x, dict) and x.get('k') == 'var':
            i = x['id']
            while isinstance(st.get(i), tuple) and st.get(i)[0] == 'ref':
                i = st.get(i)[1]
            return i
        return None

    def val(self, st, x):
        i = self.var(st, x)
        return st.get(i) if i is not None else None

    # ---- line and cell accounts
    def line_done(self, st, n):
        k = st.get('line')
        if k is None or st.get('linedone'):
            return
        r = st.get('rows')
        if k == 'comment' and r:
            self.report(st, 'comment', 'a comment line gives a row', n)
        if k in ('data', 'single') and r == 0:
            self.report(st, 'row', 'a numeric line can pass without a row being appended', n)
        if k == 'inner' and r == 0:
            self.report(st, 'row', "a line with '#' after its first character is dropped", n)
        if k == 'empty' and r == 0:
            pass          # an empty line holds no data
        if r > 1:
            self.report(st, 'row', 'one line gives more than one row', n)

    def cell_done(self, st, n):
        if st.get('cell') is not None:
            if st.get('nums') == 0:
                self.report(st, 'cell', 'a cell that is %s can pass without a number being appended' %
                            dict(valid='a number', bad='not a number', huge='out of range', blank='empty')[st.get('cell')], n)
            if st.get('nums') > 1:
                self.report(st, 'cell', 'one cell gives more than one number', n)

    # ---- streams
    def truth(self, v, name):
        s = v[1]
        if v[0] == 'file':
            t = dict(M=(0, 1, 0, 0), O=(1, 0, 0, 1), L=(1, 0, 1, 0), E=(0, 1, 1, 0))[s]
        else:
            t = dict(F=(1, 0, 0, 1), Z=(1, 0, 0, 1), O=(1, 0, 0, 1), L=(1, 0, 1, 0), E=(0, 1, 1, 0))[s]
        ok, fail, eof, good = t
        if name == 'is_open':
            return s != 'M'
        return bool(dict(fail=fail, eof=eof, good=good, bad=0).get(name, ok))

    def getline(self, st, x, a):
        sv, tv = self.var(st, a[0]), self.var(st, a[1])
        v = st.get(sv)
        if v is None or tv is None or v[0] not in ('file', 'cells'):
            raise Giveup('a line is read in a way that is not followed')
        delim = '\n'
        if len(a) > 2:
            d = plain(a[2])
            if d.get('k') != 'int':
                raise Giveup('delimiter is not a constant')
            delim = chr(d['v'])
        out = []
        if v[0] == 'file':
            self.lines += 1
            if delim != '\n':
                self.report(st, 'row', 'lines are split at %r' % delim, x)
            self.cell_done(st, x)
            self.line_done(st, x)
            st = st.put(line=None, rows=0, cell=None, nums=0, cellS=None, linedone=0)
            if v[1] in ('M', 'L', 'E', 'O'):
                out.append((st.set([(sv, ('file', v[1] if v[1] == 'M' else 'E')), (tv, ('text', 'none'))]), False))
            if v[1] == 'O':
                for s in 'OL':
                    for k in KINDS:
                        if s == 'L' and k == 'empty':
                            continue
                        n = [(sv, ('file', s)), (tv, ('text', k)), ('line', k)]
                        n += [(i, ('rec', 'old')) for i, z in st.e.items() if z == ('rec', 'full')]
                        out.append((st.set(n), True))
        else:
            self.cells += 1
            self.cell_done(st, x)
            st = st.put(cell=None, nums=0)
            if v[1] in 'ZOLE':
                out.append((st.set([(sv, ('cells', 'E')), (tv, ('text', 'none')), ('cellS', 'E')]), False))
            if v[1] in 'FO':
                if delim != ',':
                    self.report(st, 'cell', 'cells are split at %r' % delim, x)
                for s in 'OL':
                    for k in ('valid', 'bad', 'huge', 'blank'):
                        out.append((st.set([(sv, ('cells', s)), (tv, ('cell', k)), ('cell', k), ('cellS', s)]), True))
        return [(s, ('stream', sv, ok)) for s, ok in out]

    # ---- expressions: list of (state, value); a value ('throw', type) is an exception
    def many(self, xs, st):
        out = [(st, [])]
        for x in xs:
            nxt = []
            for s, vs in out:
                if isinstance(vs, tuple):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.expr(x, s):
                    nxt.append((s2, v if isinstance(v, tuple) and v[0] == 'throw' else vs + [v]))
            out = nxt
        return out

    def cond(self, x, st):
        """List of (state, True/False or a throw value)."""
        out = []
        for s, v in self.expr(x, st):
            if isinstance(v, tuple) and v[0] == 'throw':
                out.append((s, v))
            elif isinstance(v, tuple) and v[0] == 'bool':
                out.append((s, v[1]))
            elif isinstance(v, tuple) and v[0] == 'stream':
                out.append((s, v[2]))
            elif isinstance(v, tuple) and v[0] in ('file', 'cells'):
                out.append((s, self.truth(v, 'ok')))
            elif isinstance(v, tuple) and v[0] == 'either':
                out += [(s, True), (s, False)]
            elif isinstance(v, tuple) and v[0] == 'int' and isinstance(v[1], int):
                out.append((s, v[1] != 0))
            else:
                s = s.put(taint=1)
                out += [(s, True), (s, False)]
        return out

    def expr(self, x, st):
        self.steps += 1
        if self.steps > 400000:
            raise Giveup('too many states')
        if not isinstance(x, dict):
            return [(st, None)]
        k = x.get('k')
        if k == 'var':
            return [(st, self.val(st, x))]
        if k == 'bool':
            return [(st, ('bool', bool(x['v'])))]
        if k == 'int':
            return [(st, ('int', x['v']))]
        if k in ('cvar', 'enum'):
            v = x.get('v')
            if x.get('n') == 'npos':
                return [(st, ('pos', 'npos'))]
            if isinstance(v, float) and v != v:
                return [(st, ('num', 'nan'))]
            return [(st, ('int', v) if isinstance(v, int) else ('num', 'const'))]
        if k == 'float':
            return [(st, ('num', 'const'))]
        if k == 'str':
            return [(st, ('lit', x.get('v')))]
        if k == 'cast':
            out = []
            for s, v in self.expr(x['x'], st):
                t = astq.typ(self.f, x.get('t'))
                if isinstance(v, tuple) and v[0] == 'num' and (t.get('k') == 'float' and t.get('w', 64) < 64 or t.get('k') == 'int'):
                    v = ('num', 'narrow') if v[1] == 'ok' else v
                elif isinstance(v, tuple) and v[0] == 'int' and t.get('k') == 'float':
                    v = ('num', 'const')
                out.append((s, v))
            return out
        if k == 'un':
            if x.get('op') == '!':
                return [(s, v if isinstance(v, tuple) else ('bool', not v)) for s, v in self.cond(x['x'], st)]
            out = self.expr(x['x'], st)
            if x.get('op') in ('++', '--'):
                i = self.var(st, x['x'])
                v = st.get(i) if i is not None else None
                if isinstance(v, tuple) and v[0] in ('int', 'num'):
                    w = ('int', '?')
                    if x.get('op') == '++' and v[0] == 'int' and v[1] != '?':
                        w = ('int', v[1] + 1 if isinstance(v[1], int) and v[1] < 3 else 'big')
                    return [(s.set([(i, w)]), v if x.get('post') else w) for s, _ in out]
            if x.get('op') == '-':
                return [(s, ('num', 'changed') if isinstance(v, tuple) and v[0] == 'num' and v[1] == 'ok' else v) for s, v in out]
            return out
        if k == 'bin':
            if x['op'] in ('&&', '||'):
                out = []
                for s, v in self.cond(x['x'], st):
                    if isinstance(v, tuple):
                        out.append((s, v))
                    elif v == (x['op'] == '||'):
                        out.append((s, ('bool', v)))
                    else:
                        out += [(z, w if isinstance(w, tuple) else ('bool', w)) for z, w in self.cond(x['y'], s)]
                return out
            out = []
            for s, vs in self.many([x['x'], x['y']], st):
                out.append((s, vs if isinstance(vs, tuple) else self.compare(x['op'], vs[0], vs[1])))
            return out
        if k == 'cond':
            out = []
            c = x.get('c') if 'c' in x else x['x']
            for s, v in self.cond(c, st):
                if isinstance(v, tuple):
                    out.append((s, v))
                else:
                    out += self.expr(x['y'] if v else x['z'], s)
            return out
        if k == 'asg':
            out = []
            for s, v in self.expr(x['y'], st):
                i = self.var(s, x['x'])
                if isinstance(v, tuple) and v[0] == 'throw':
                    out.append((s, v))
                    continue
                if x.get('op', '=') != '=':
                    v = ('num', 'changed') if isinstance(v, tuple) and v[0] == 'num' else ('int', '?')
                t = astq.typ(self.f, plain(x['x']).get('t')) if isinstance(plain(x['x']), dict) else {}
                if isinstance(v, tuple) and v[0] == 'num' and t.get('k') == 'float' and t.get('w', 64) < 64 and v[1] == 'ok':
                    v = ('num', 'narrow')
                if i is None:
                    raise Giveup('an assignment is not followed')
                out.append((s.set([(i, v)]), v))
            return out
        if k in ('call', 'ctor'):
            return self.call(x, st)
        if k == 'throw':
            out = []
            t = None
            e = plain(x.get('x'))
            while isinstance(e, dict) and e.get('k') in ('cast', 'ctor') and len(e.get('a', [])) == 1 and e.get('elide'):
                e = plain(e['a'][0])
            ent = astq.callee(self.f, e) if isinstance(e, dict) else None
            return [(st, ('throw', ent['n'] if ent else '?'))]
        if k in ('fref', 'gvar', 'null', 'this', 'lambda'):
            return [(st, None)]
        if k == 'list':
            return [(s, ('lst', tuple(v)) if not isinstance(v, tuple) else v) for s, v in self.many(x.get('a', []), st)]
        raise Giveup('%s is not followed' % k)

    def compare(self, op, a, b):
        if isinstance(b, tuple) and b[0] in ('first', 'pos') and isinstance(a, tuple) and a[0] == 'int':
            a, b = b, a
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'first' and b[0] == 'int' and op in ('==', '!='):
                if b[1] == 35:
                    return ('bool', (a[1] == 'comment') == (op == '=='))
                if b[1] == 0:
                    return ('bool', (a[1] in ('empty', 'none')) == (op == '=='))
            if a[0] == 'pos' and op in ('==', '!='):
                w = b[1] if b[0] == 'pos' else 'npos' if b[1] in (-1, 2 ** 64 - 1) else b[1]
                if w in (0, 'npos') and a[1] != '?':
                    return ('bool', (a[1] == w) == (op == '=='))
            if b[0] == 'size' and a[0] == 'int':
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a[0] == 'size' and b[0] == 'int' and isinstance(b[1], int) and op in ('==', '!=', '<', '<=', '>', '>='):
                lo, hi = SPAN[a[1]]
                n = b[1]
                if op in ('==', '!='):
                    r = False if n < lo or hi is not None and n > hi else True if lo == hi == n else None
                    if r is not None:
                        return ('bool', r == (op == '=='))
                elif op in ('<', '<='):
                    m = n if op == '<' else n + 1
                    r = False if lo >= m else True if hi is not None and hi < m else None
                    if r is not None:
                        return ('bool', r)
                else:
                    m = n if op == '>=' else n + 1
                    r = True if lo >= m else False if hi is not None and hi < m else None
                    if r is not None:
                        return ('bool', r)
                return None
            if a[0] == 'cmp' and b == ('int', 0) and op in ('==', '!='):
                return ('bool', a[1] == (op == '=='))
            if op in '+-*/' and (a[0] == 'num' or b[0] == 'num'):
                if ('num', 'nan') in (a, b):
                    return ('num', 'nan')
                return ('num', 'changed')
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'int' and op in ('==', '!=', '<', '<=', '>', '>='):
            u, v = a[1], b[1]
            if isinstance(u, int) and isinstance(v, int):
                return ('bool', dict(zip(('==', '!=', '<', '<=', '>', '>='), (u == v, u != v, u < v, u <= v, u > v, u >= v)))[op])
            if 'big' in (u, v) and '?' not in (u, v):
                n = v if u == 'big' else u
                if n == 0 and u == 'big' and op == '<':
                    return ('bool', False)
                return ('either',)       # a count that takes every value
        if op in ('+', '-', '*', '/', '%'):
            return ('int', '?')
        return None

    def call(self, x, st):
        e = astq.callee(self.f, x)
        a, o = x.get('a', []), x.get('o')
        if e is None:
            raise Giveup('a call is not followed')
        n, q = e['n'], e['q']
        if o is None and x.get('op') and e.get('m') in ('n', 'c') and a:
            o, a = a[0], a[1:]
        if n == 'getline' and q.startswith('std'):
            if isinstance(plain(a[0]), dict) and self.var(st, a[0]) is None:
                raise Giveup('a line is read in a way that is not followed')
            return self.getline(st, x, a)
        if e.get('repo'):
            return self.inline(x, e, st)
        if '__throw_' in n:
            return [(st, ('throw', n.split('__throw_')[1]))]
        if n in ('exit', 'abort', 'terminate'):
            return [(st, ('throw', 'exit'))]
        if n in ('__builtin_nanf', '__builtin_nan', 'nan', 'quiet_NaN', 'nanf', 'signaling_NaN'):
            return [(st, ('num', 'nan'))]
        if n in ('stod', 'strtod', 'atof', 'stof', 'stold', 'stoi', 'stol', 'atoi', 'strtof', 'stoul', 'stoll'):
            out = []
            for s, v in self.expr(a[0], st):
                if isinstance(v, tuple) and v[0] == 'throw':
                    out.append((s, v))
                    continue
                if not (isinstance(v, tuple) and v[0] == 'cell'):
                    raise Giveup('what is converted is not a cell')
                good = 'ok' if n in ('stod', 'strtod', 'atof', 'stold') else 'narrow'
                if v[1] == 'valid':
                    out.append((s, ('num', good)))
                elif not n.startswith('sto'):
                    out.append((s, ('num', 'const' if v[1] in ('bad', 'blank') else 'ok')))
                else:
                    out.append((s, ('throw', 'invalid_argument' if v[1] in ('bad', 'blank') else 'out_of_range')))
            return out
        if n in ('move', 'forward') and len(a) == 1:
            return self.expr(a[0], st)
        if 'basic_ostream' in q or n in ('operator<<', 'endl', 'flush') or n == 'what':
            out = []
            for s, vs in self.many(([o] if o is not None else []) + a, st):
                out.append((s, vs if isinstance(vs, tuple) and vs and vs[0] == 'throw' else None))
            return out
        if x['k'] == 'ctor':
            return self.construct(x, e, a, st)
        if n in ('isnan', 'isfinite', 'isinf'):
            out = []
            for s, v in self.expr(a[0], st):
                if v == ('num', 'nan'):
                    out.append((s, ('bool', n == 'isnan')))
                elif isinstance(v, tuple) and v[0] == 'num':
                    out.append((s, ('bool', n == 'isfinite')))
                else:
                    out.append((s, v if isinstance(v, tuple) and v[0] == 'throw' else None))
            return out
        if o is None:
            for y in a:
                v = self.val(st, y)
                if isinstance(v, tuple) and v[0] in ('file', 'cells', 'text', 'cell', 'rec', 'rows'):
                    raise Giveup('%s is not followed' % n)
            return [(s, v if isinstance(v, tuple) and v and v[0] == 'throw' else None) for s, v in self.many(a, st)]
        return self.member(x, e, o, a, st)

    def member(self, x, e, o, a, st):
        n = e['n']
        out = []
        for s, vs in self.many([o] + a, st):
            if isinstance(vs, tuple):
                out.append((s, vs))
                continue
            v, w = vs[0], vs[1:]
            i = self.var(s, o)
            if not isinstance(v, tuple):
                if v is None and n in ('operator*', 'operator->', 'begin', 'end', 'size', 'empty', 'c_str', 'what', 'data'):
                    out.append((s, None))
                    continue
                raise Giveup('%s on something that is not followed' % n)
            k = v[0]
            if k == 'stream':
                v = s.get(v[1])
                k = v[0]
            if k in ('file', 'cells'):
                if n in ('operator bool', 'operator!', 'fail', 'eof', 'good', 'bad', 'is_open'):
                    b = self.truth(v, 'fail' if n == 'operator!' else n)
                    out.append((s, ('bool', b)))
                    continue
                if k == 'file' and n == 'open':
                    self.opened += 1
                    out.append((s.set([(i, ('file', 'M' if self.missing else 'O'))]), None))
                    continue
                if n == 'close':
                    out.append((s, None))
                    continue
                if n == 'exceptions':
                    raise Giveup('streams that raise exceptions are not followed')
                if k == 'cells' and n == 'clear':
                    out.append((s.set([(i, ('cells', 'Z' if v[1] in 'LEZ' else v[1]))]), None))
                    continue
                if k == 'cells' and n == 'str' and w and isinstance(w[0], tuple) and w[0][0] == 'text':
                    c = 'E' if v[1] == 'E' else 'Z' if w[0][1] in ('empty', 'none') else 'F'
                    out.append((s.set([(i, ('cells', c)), ('cellS', c)]), None))
                    continue
                raise Giveup('stream operation %s is not followed' % n)
            if k in ('text', 'cell'):
                if k == 'cell' and n == 'empty':
                    out.append((s, ('bool', v[1] == 'blank')))
                    continue
                if k == 'cell' and n in ('size', 'length'):
                    out.append((s, ('size', 'empty' if v[1] == 'blank' else 'some')))
                    continue
                if k == 'text':
                    if n in ('operator[]', 'at') and w == [('int', 0)] or n == 'front' and not w:
                        out.append((s, ('first', v[1])))
                        continue
                    if n == 'empty':
                        out.append((s, ('bool', v[1] in ('empty', 'none'))))
                        continue
                    if n in ('size', 'length'):
                        out.append((s, ('size', v[1])))
                        continue
                    arg = w[0] if w else None
                    hashy = arg in (('int', 35), ('lit', '#'))
                    if n in ('find', 'find_first_of') and hashy and len(w) >= 1:
                        out.append((s, ('pos', {'comment': 0, 'inner': 'k'}.get(v[1], 'npos'))))
                        continue
                    if n in ('rfind', 'find') and hashy and w[1:] == [('int', 0)]:
                        out.append((s, ('pos', 0 if v[1] == 'comment' else 'npos')))
                        continue
                    if n == 'compare' and w[:2] == [('int', 0), ('int', 1)] and w[2] == ('lit', '#'):
                        out.append((s, ('cmp', v[1] == 'comment')))
                        continue
                if n in ('c_str', 'data', 'str'):
                    out.append((s, v))
                    continue
                if n in ('clear',):
                    out.append((s.set([(i, ('text', 'none'))]), None))
                    continue
                if e.get('m') == 'c':
                    out.append((s.put(taint=1), None))
                    continue
                raise Giveup('text operation %s is not followed' % n)
            if k == 'rec':
                if n in ('push_back', 'emplace_back') and len(w) == 1:
                    s = self.number(s, w[0], v, x)
                    out.append((s.set([(i, ('rec', 'old' if v[1] == 'old' else 'full'))]) if i is not None else s, None))
                    continue
                if n == 'clear':
                    out.append((s.set([(i, ('rec', 'new'))]), None))
                    continue
                if n in ('reserve', 'shrink_to_fit'):
                    out.append((s, None))
                    continue
                if n == 'operator=' and w and isinstance(w[0], tuple) and w[0][0] == 'rec':
                    out.append((s.set([(i, w[0])]), None))
                    continue
                if n in ('empty', 'size') or e.get('m') == 'c':
                    if n == 'empty':
                        if v[1] in ('full', 'new'):
                            out.append((s, ('bool', v[1] == 'new')))
                            continue
                    if n == 'size':
                        out.append((s, ('int', 'big')))
                        continue
                    out.append((s.put(taint=1), None))
                    continue
                raise Giveup('row operation %s is not followed' % n)
            if k == 'rows':
                if n in ('push_back', 'emplace_back') and len(w) == 1:
                    if not (isinstance(w[0], tuple) and w[0][0] == 'rec'):
                        raise Giveup('what is appended is not a followed row')
                    s = self.row(s, w[0], x)
                    j = self.var(s, a[0])
                    y = plain(a[0])
                    if j is not None and isinstance(y, dict) and y.get('k') == 'call':
                        s = s.set([(j, ('rec', 'new'))])        # moved from
                    out.append((s, None))
                    continue
                if n == 'empty':
                    out.append((s, ('bool', not s.get('any'))))
                    continue
                if n == 'size':
                    out.append((s, ('size', 'some' if s.get('any') else 'empty')))
                    continue
                if n in ('reserve', 'shrink_to_fit'):
                    out.append((s, None))
                    continue
                if e.get('m') == 'c' and n == 'capacity':
                    out.append((s.put(taint=1), None))
                    continue
                raise Giveup('table operation %s is not followed' % n)
            if k == 'num' or k == 'int':
                out.append((s, None))
                continue
            raise Giveup('%s is not followed' % n)
        return out

    def number(self, s, v, rec, n):
        if rec[1] == 'old':
            self.report(s, 'row', 'a row still holds the cells of an earlier line', n)
        c = s.get('cell')
        if c is None:
            self.report(s, 'cell', 'a number is appended that belongs to no cell', n)
            return s
        if isinstance(v, tuple) and v[0] == 'int':
            v = ('num', 'const')
        if not (isinstance(v, tuple) and v[0] == 'num'):
            raise Giveup('what is appended to a row is not followed')
        if c == 'valid':
            if v[1] == 'narrow':
                self.report(s, 'precision', 'a cell is converted with less than double precision', n)
            elif v[1] in ('changed', 'const', 'nan'):
                self.report(s, 'value', 'the number appended is not the one in the cell', n)
        if c in ('bad', 'blank') and v[1] in ('const', 'ok', 'changed', 'narrow'):
            self.report(s, 'value', 'a cell that is no number is read as an ordinary number', n)
        return s.put(nums=min(2, s.get('nums') + 1))

    def row(self, s, v, n):
        k = s.get('line')
        if k is None:
            self.report(s, 'row', 'a row is appended that belongs to no line', n)
        if v[1] == 'old':
            self.report(s, 'row', 'a row still holds the cells of an earlier line', n)
        self.cell_done(s, n)
        if k in ('data', 'single', 'inner') and s.get('cellS') not in ('L', 'E'):
            self.report(s, 'cell', 'a row is appended before all cells of its line were read', n)
        return s.put(rows=min(2, s.get('rows') + 1), any=1, cell=None, nums=0)

    def construct(self, x, e, a, st):
        t = str(astq.typ(self.f, x.get('t')).get('s', ''))
        out = []
        real = [y for y in a if not (isinstance(y, dict) and y.get('dflt'))]
        for s, vs in self.many(real, st):
            if isinstance(vs, tuple):
                out.append((s, vs))
                continue
            if 'ifstream' in t or 'std::basic_fstream' in t:
                if real:
                    self.opened += 1
                out.append((s, ('file', ('M' if self.missing else 'O') if real else 'M')))
            elif 'stringstream' in t:
                if not real:
                    out.append((s, ('cells', 'Z')))
                elif isinstance(vs[0], tuple) and vs[0][0] == 'text' and len(real) == 1:
                    c = 'Z' if vs[0][1] in ('empty', 'none') else 'F'
                    out.append((s.put(cellS=c), ('cells', c)))
                else:
                    raise Giveup('a stream over something that is not a line')
            elif t.startswith('std::vector<std::vector<double'):
                if real and not (isinstance(vs[0], tuple) and vs[0][0] == 'rows'):
                    raise Giveup('a table built at once')
                out.append((s, ('rows',)))
            elif t.startswith('std::vector<double'):
                if real and isinstance(vs[0], tuple) and vs[0][0] == 'rec':
                    out.append((s, vs[0]))
                elif real:
                    raise Giveup('a row built at once')
                else:
                    out.append((s, ('rec', 'new')))
            elif t.startswith('std::vector<std::vector<float') or t.startswith('std::vector<float') or t.startswith('std::vector<int'):
                if 'vector<std::vector' in t:
                    raise Giveup('a table of another type')
                self.report(s, 'precision', 'cells are kept with less than double precision', x)
                out.append((s, ('rec', 'new')))
            elif 'basic_string' in t:
                if not real:
                    out.append((s, ('text', 'none')))
                elif isinstance(vs[0], tuple) and vs[0][0] in ('text', 'cell', 'lit') and len(real) == 1:
                    out.append((s, vs[0]))
                else:
                    out.append((s, None))
            else:
                if any(isinstance(v, tuple) and v[0] in ('file', 'cells', 'text', 'cell', 'rec', 'rows') for v in vs):
                    raise Giveup('%s holds reader state' % t[:40])
                out.append((s, vs[0] if len(vs) == 1 else None))
        return out

    def inline(self, x, e, st):
        f = self.P.fns.get(e['u'])
        if f is None or f.j.get('body') is None or self.depth > 6:
            raise Giveup('%s is not followed' % e['n'])
        if x.get('o') is not None and not isinstance(x['o'], dict):
            raise Giveup('%s is not followed' % e['n'])
        old = self.f
        out = []
        starts = [(st, [])]
        ps = f.j.get('params', [])
        for p, y in zip(ps, x.get('a', [])):
            nxt = []
            t = astq.typ(f, p['t'])
            for s, binds in starts:
                i = self.var(s, y)
                if t.get('k') in ('ref', 'ptr', 'rref') and i is not None:
                    nxt.append((s, binds + [(p['id'], ('ref', i))]))
                    continue
                for s2, v in self.expr(y, s):
                    if isinstance(v, tuple) and v[0] == 'throw':
                        out.append((s2, v))
                    else:
                        nxt.append((s2, binds + [(p['id'], v)]))
            starts = nxt
        self.depth += 1
        self.f = f
        try:
            for s, binds in starts:
                s = s.set([b for b in binds if not (b[1] is not None and b[1][0] == 'ref' and b[1][1] == b[0])])
                for kind, s2, v in self.stmt(f.j['body'], s):
                    if kind == 'throw':
                        out.append((s2, v))
                    else:
                        out.append((s2, v if kind == 'ret' else None))
        finally:
            self.f = old
            self.depth -= 1
        return out

    # ---- statements: list of (kind, state, value)
    def stmt(self, s, st):
        if s is None:
            return [('norm', st, None)]
        k = s.get('k')
        if k == 'seq':
            cur, out = {st}, []
            for y in s['a']:
                nxt = set()
                for z in cur:
                    for kind, s2, v in self.stmt(y, z):
                        if kind == 'norm':
                            nxt.add(s2)
                        else:
                            out.append((kind, s2, v))
                cur = nxt
            return [('norm', z, None) for z in cur] + list(dict.fromkeys(out))
        if k == 'expr':
            return self.done(self.expr(s['x'], st))
        if k == 'throw':
            return [('throw', z, v) for z, v in self.expr(s, st)]
        if k == 'decl':
            cur, out = [st], []
            for v in s['a']:
                nxt = []
                if 'id' not in v:
                    raise Giveup('a declaration is not followed')
                t = astq.typ(self.f, v.get('t'))
                for z in cur:
                    if t.get('k') in ('ref', 'rref'):
                        i = self.var(z, v.get('i'))
                        if i is not None:
                            nxt.append(z.set([(v['id'], ('ref', i))]))
                            continue
                    for z2, val in self.expr(v.get('i'), z):
                        if isinstance(val, tuple) and val[0] == 'throw':
                            out.append(('throw', z2, val))
                            continue
                        if isinstance(val, tuple) and val[0] == 'num' and t.get('k') == 'float' and t.get('w', 64) < 64 and val[1] == 'ok':
                            val = ('num', 'narrow')
                        if isinstance(val, tuple) and val[0] == 'int' and val[1] != '?':
                            val = ('int', '?') if t.get('k') == 'int' and val[1] not in (0, 1, 2, 3, 'big') else \
                                ('num', 'const') if t.get('k') == 'float' else val
                        nxt.append(z2.set([(v['id'], val)]))
                cur = nxt
            return [('norm', z, None) for z in cur] + out
        if k == 'if':
            out = []
            pre = [('norm', st, None)]
            c = s['c']
            for z, v in self.cond(c, st):
                if isinstance(v, tuple):
                    out.append(('throw', z, v))
                else:
                    out += self.stmt(s['y'] if v else s.get('z'), z)
            return list(dict.fromkeys(out))
        if k in ('while', 'for', 'do'):
            return self.loop(s, st)
        if k == 'ret':
            out = []
            for z, v in self.expr(s.get('x'), st) if s.get('x') is not None else [(st, None)]:
                out.append(('throw', z, v) if isinstance(v, tuple) and v[0] == 'throw' else ('ret', z, v))
            return out
        if k == 'break':
            return [('brk', st, None)]
        if k == 'continue':
            return [('cont', st, None)]
        if k == 'try':
            out = []
            for kind, z, v in self.stmt(s['b'], st):
                if kind != 'throw':
                    out.append((kind, z, v))
                    continue
                for h in s['h']:
                    if self.catches(h, v):
                        out += self.stmt(h.get('b'), z)
                        break
                else:
                    out.append((kind, z, v))
            return list(dict.fromkeys(out))
        raise Giveup('statement %s is not followed' % k)

    def catches(self, h, v):
        if h.get('t') is None:
            return True
        t = astq.typ(self.f, h['t'])
        if t.get('k') in ('ref', 'rref'):
            t = astq.typ(self.f, t['to'])
        n = str(t.get('s', '')).replace('const ', '').split('::')[-1]
        return n in (v[1], 'exception') or n == 'logic_error' and v[1] in ('invalid_argument', 'out_of_range')

    def done(self, outs):
        return list(dict.fromkeys(('throw', z, v) if isinstance(v, tuple) and v[0] == 'throw' else ('norm', z, None) for z, v in outs))

    def loop(self, s, st):
        k = s['k']
        out, todo, seen = [], [], set()
        if k == 'for':
            for kind, z, v in self.stmt(s.get('init'), st):
                (todo if kind == 'norm' else out).append(z if kind == 'norm' else (kind, z, v))
        else:
            todo = [st]
        first = k == 'do'
        leave = set()
        while todo:
            z = todo.pop()
            if (z, first) in seen:
                continue
            seen.add((z, first))
            if len(seen) > 20000:
                raise Giveup('too many states')
            heads = [(z, True)] if first or s.get('c') is None else self.cond(s['c'], z)
            for z1, v in heads:
                if isinstance(v, tuple):
                    out.append(('throw', z1, v))
                    continue
                if not v:
                    leave.add(z1)
                    continue
                for kind, z2, w in self.stmt(s.get('b'), z1):
                    if kind == 'brk':
                        leave.add(z2)
                    elif kind in ('norm', 'cont'):
                        if k == 'for' and s.get('inc') is not None:
                            for z3, u in self.expr(s['inc'], z2):
                                if isinstance(u, tuple) and u[0] == 'throw':
                                    out.append(('throw', z3, u))
                                else:
                                    todo.append(z3)
                        else:
                            todo.append(z2)
                    else:
                        out.append((kind, z2, w))
            first = False if k != 'do' else False
        return [('norm', z, None) for z in leave] + list(dict.fromkeys(out))

    # ---- whole function
    def run(self):
        st = S(dict(line=None, rows=0, cell=None, nums=0, cellS=None, linedone=0, taint=0, any=0))
        n_ret = n_thr = 0
        for p in self.f.j.get('params', []):
            st = st.set([(p['id'], None)])
        for kind, z, v in self.stmt(self.f.j['body'], st):
            body = self.f.j['body']
            if kind == 'throw':
                n_thr += 1
                bad_cell = z.get('cell') in ('bad', 'huge', 'blank')
                if not self.missing and not bad_cell:
                    self.report(z, 'error', 'an error is raised for a file that can be read', body)
                continue
            n_ret += 1
            if self.missing:
                self.report(z, 'error', 'a result is returned for a file that cannot be opened', body)
                continue
            self.cell_done(z, body)
            self.line_done(z, body)
            fs = [w for w in z.e.values() if isinstance(w, tuple) and w[0] == 'file']
            if fs and not any(w[1] in ('L', 'E') for w in fs):
                self.report(z, 'row', 'the table is returned before all lines were read', body)
            if not (isinstance(v, tuple) and v[0] == 'rows'):
                raise Giveup('the result is not followed')
        if self.missing and not n_ret and not n_thr:
            self.report(st, 'error', 'reading a file that cannot be opened does not end', self.f.j['body'])
        return n_ret, n_thr


def run(c):
    P = c.P
    fs = [f for f in P.fns.values() if f.q.endswith('parse2DCsvFile') and '/spec/' not in f.file]
    obs = ('error', 'comment', 'row', 'cell', 'precision', 'value')
    steps = 0
    for f in fs:
        got, why = {}, None
        for missing in (True, False):
            R = Reader(c, P, f, missing)
            try:
                R.run()
                if not missing and not (R.opened and R.lines and R.cells):
                    why = why or 'no file is read by lines and cells'
            except Giveup as g:
                why = why or str(g)
            for k, v in R.found.items():
                if k not in got or got[k][0] and not v[0]:
                    got[k] = v
            steps += R.steps
        for k in obs:
            ob = 'table:' + k
            if k in got and not got[k][0]:
                c.bad(ob, got[k][1], got[k][2], f.q)
            elif k in got:
                c.und(ob, got[k][1] + ' (under a condition that is not decided)', got[k][2], f.q)
            elif why:
                c.und(ob, why, f.loc(), f.q)
            else:
                c.ok(ob, '', f.loc(), f.q)
    if not fs:
        c.und('table', 'no table reader found', '', '')
    c.extra = dict(readers=len(fs), abstract_steps=steps)
