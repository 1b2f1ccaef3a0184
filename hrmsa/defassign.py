"""Definite assignment over the syntax tree.

The state of a program point maps every tracked cell that may still be unassigned to the path conditions it is unassigned
under: the choices of branches that did not assign it. Cells are scalars, pointers, elements of
fixed-size matrices, rows of matrices with a constant number of rows, and data members of the own object. A loop whose
bounds are constants is run at least once; every other loop may not run. What is bound to a reference, captured by
reference or handed to an unknown function for writing counts as assigned."""
import re
from . import astq, effects

FIX = re.compile(r'^(?:const )?Eigen::(Matrix|Array)<[^<>]*(?:<[^<>]*>)?, (-?\d+), (-?\d+)')
SETTERS = {'setZero', 'setIdentity', 'setOnes', 'setConstant', 'setRandom', 'setLinSpaced', 'fill', 'setUnitRandom',
           'fromRotationMatrix', 'setFromTwoVectors', 'swap'}
SIZES = {'rows', 'cols', 'size', 'innerSize', 'outerSize', 'resize', 'conservativeResize'}
ALWAYS = frozenset([frozenset()])


def shape(t):
    """('fix', r, c) | ('dyn', r, c) | ('one',) | None for a class type."""
    s = str(t.get('s', ''))
    m = FIX.match(s)
    if m:
        r, c = int(m.group(2)), int(m.group(3))
        return ('fix', r, c) if r > 0 and c > 0 else ('dyn', r, c)
    if re.match(r'^(const )?Eigen::Quaternion<', s):
        return ('quat',)
    if re.match(r'^(const )?Eigen::(DiagonalMatrix|Rotation2D|AngleAxis)<', s):
        return ('one',)
    return None


def const(x):
    while isinstance(x, dict) and x.get('k') == 'cast':
        x = x['x']
    if isinstance(x, dict) and x.get('k') in ('int', 'cvar', 'float', 'enum') and isinstance(x.get('v'), (int, float)):
        return x['v']
    if isinstance(x, dict) and x.get('k') == 'bin':
        a, b = const(x['x']), const(x['y'])
        if a is not None and b is not None and x['op'] in '+-*':
            return a + b if x['op'] == '+' else a - b if x['op'] == '-' else a * b
    return None


def bare(x):
    while isinstance(x, dict) and (x.get('k') == 'cast' or x.get('k') == 'ctor' and len(x.get('a', [])) == 1 and x.get('elide')):
        x = x['x'] if x['k'] == 'cast' else x['a'][0]
    return x


def canon(x):
    """Text of an expression that is the same for the same expression."""
    x = bare(x)
    if not isinstance(x, dict):
        return str(x)
    k = x.get('k')
    if k == 'var':
        return 'v%s' % x['id']
    if k == 'ctor' and len(x.get('a', [])) == 1:
        return canon(x['a'][0])
    out = [str(k)]
    for z in ('op', 'n', 'v', 'fn'):
        if z in x:
            out.append(str(x[z]))
    for z in ('o', 'b', 'x', 'y', 'z', 'c', 'a'):
        if isinstance(x.get(z), list):
            out += [canon(y) for y in x[z]]
        elif isinstance(x.get(z), dict):
            out.append(canon(x[z]))
    return '(%s)' % ' '.join(out)


class Fn:
    """One walk of a function. `members` are the tracked members ({name: cells}) unassigned at entry."""

    def __init__(self, A, f, members=None, inits=True):
        self.A, self.f = A, f
        self.P = A.P
        self.bad = []          # (key, cells, node, certain)
        self.exposed = {}      # member -> node of a read before assignment
        self.pexposed = {}     # parameter index -> node
        self.reads = 0
        self.tracked = {}      # key -> (kind, all cells)
        self.guards = []       # (sequence, names)
        self.seq = 0
        self.exits = []
        self.loops = []
        self.ranges = {}
        self.empty = set()
        self.mem = members or {}
        st = {}
        for m, cells in self.mem.items():
            self.tracked['m', m] = cells
            for c in cells[1]:
                st['m', m, c] = ALWAYS
        for i, p in enumerate(f.j.get('params', [])):
            t = astq.typ(f, p['t'])
            if t.get('k') in ('ref', 'ptr') and not astq.typ(f, t['to']).get('c') and 'id' in p:
                cells = self.cells_of(astq.typ(f, t['to']), None)
                if cells and t['k'] == 'ref':
                    self.tracked['p', i] = cells
                    self.tracked['v', p['id']] = cells
                    self.alias = getattr(self, 'alias', {})
                    self.alias[p['id']] = ('p', i)
                    for c in cells[1]:
                        st['p', i, c] = ALWAYS
        if not hasattr(self, 'alias'):
            self.alias = {}
        if inits:
            for i in f.j.get('inits', []):
                if i.get('m') and not i.get('w'):
                    # default member initialiser, or default construction (which assigns nothing for tracked kinds)
                    x = i.get('x')
                    if isinstance(x, dict) and x.get('k') == 'ctor' and not x.get('a') and not x.get('zero'):
                        continue
                    if x is None:
                        continue
                if i.get('x') is not None:
                    st = self.expr(i['x'], st)
                if (i.get('b') or i.get('d')) and self.mem and isinstance(i.get('x'), dict):
                    e = astq.callee(f, i['x'])
                    B = A.summary(e['u'], True, self) if e else None
                    if B is not None:
                        for m, hit in B.exposed.items():
                            self.exposed.setdefault(m, (i['x'], hit[1]))
                        st = {z: y for z, y in st.items() if z[0] != 'm' or z in B.end}
                if i.get('m'):
                    st = self.drop(st, ('m', i['m']))
        st = self.stmt(f.j.get('body'), st)
        if st is not None:
            self.exits.append(st)
        self.end = None
        for s in self.exits:
            self.end = s if self.end is None else self.join(self.end, s)
        self.may_return = self.end is not None
        if self.end is None:
            self.end = {}

    # ---- cells
    def cells_of(self, t, init):
        """(kind, all cells) for a declared type, or None when it is not tracked."""
        if t.get('k') in ('int', 'float', 'bool', 'ptr', 'enum'):
            return ('s', (0,))
        sh = shape(t)
        if sh is None:
            return None
        if sh[0] == 'fix':
            return (sh, tuple((i, j) for i in range(sh[1]) for j in range(sh[2])))
        if sh[0] == 'quat':
            return (sh, ('w', 'x', 'y', 'z'))
        if sh[0] == 'dyn':
            return (sh, ('c',))
        return (sh, ('c',))

    def unset(self, v):
        """Cells a declaration leaves unassigned."""
        t = astq.typ(self.f, v.get('t'))
        i = v.get('i')
        x = bare(i)
        if t.get('k') in ('int', 'float', 'bool', 'ptr', 'enum'):
            return ('s', (0,)), ((0,) if i is None else ())
        sh = shape(t)
        if sh is None:
            k = self.A.plain.get(str(t.get('s')))
            if k and (x is None or x.get('k') == 'ctor' and not x.get('a') and not x.get('zero')) :
                cells = tuple(k)
                return ('rec', cells), cells
            return None, ()
        kind = self.cells_of(t, i)
        if x is None:
            return kind, kind[1]
        if x.get('k') != 'ctor' or x.get('zero'):
            return kind, ()
        a = x.get('a', [])
        if not a:
            return kind, (() if sh[0] == 'dyn' else kind[1])
        if sh[0] == 'dyn':
            ints = all(isinstance(y, dict) and self.integral(y) for y in a)
            if ints and len(a) <= 2:
                r = sh[1] if sh[1] > 0 else const(a[0]) if a else None
                if len(a) == 1 and sh[1] < 0 and sh[2] < 0:
                    return kind, ()
                if r is not None and 0 < r <= 8 and (len(a) == 2 or sh[2] == 1):
                    kind = (('rows', int(r)), tuple((i, '*') for i in range(int(r))))
                return kind, kind[1]
        return kind, ()

    def integral(self, x):
        y = x
        while isinstance(y, dict) and y.get('k') == 'cast':
            if astq.typ(self.f, y.get('t')).get('k') == 'int':
                return True
            y = y['x']
        return astq.typ(self.f, y.get('t')).get('k') in ('int', 'enum') if isinstance(y, dict) else False

    # ---- state
    def drop(self, st, key, cells=None):
        al = self.alias.get(key[1]) if key[0] == 'v' else None
        if al:
            key = al
        kind = self.tracked.get(key)
        if kind is None:
            return st
        st = dict(st)
        for c in (kind[1] if cells is None else cells):
            st.pop(key + (c,), None)
        return st

    def join(self, a, b, la=None, lb=None):
        """States after two alternatives; la and lb are the literals that choose them."""
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y:
                out[k] = x
                continue
            p = set()
            for z, l in ((x, la), (y, lb)):
                for q in z or ():
                    p.add(q | {l} if l else q)
            if len(p) > 24:
                p = {frozenset([('many', frozenset(), None, False, 0)])}
            out[k] = frozenset(p)
        return out

    def literal(self, c, pos, kind='if'):
        """(kind, names, text, truth, sequence) of a condition that holds or fails."""
        self.seq += 1
        x = bare(c)
        while isinstance(x, dict) and x.get('k') == 'un' and x.get('op') == '!':
            x, pos = bare(x['x']), not pos
        text = canon(x)
        if isinstance(x, dict) and x.get('k') == 'bin':
            u, v = canon(x['x']), canon(x['y'])
            op = x['op']
            if op in ('>', '>='):
                u, v, op = v, u, '<' if op == '>' else '<='
            if op == '!=':
                op, pos = '==', not pos
            if op == '<=':
                # u <= v is the failure of v < u
                u, v, op, pos = v, u, '<', not pos
            if op == '==':
                u, v = sorted((u, v))
            if op in ('==', '<'):
                text = '(%s %s %s)' % (u, op, v)
        return (kind, frozenset(self.names(c)), text, pos, self.seq)

    def feasible(self, q):
        """'yes', 'no' or 'open' for a path condition at the current point."""
        fuzzy = False
        ls = list(q)
        for i, l in enumerate(ls):
            if l[0] == 'many':
                return 'open'
            for o in ls[i + 1:]:
                if l[2] is not None and l[2] == o[2] and l[3] != o[3]:
                    return 'no'
                if l[1] & o[1]:
                    fuzzy = True
            for o in self.guards:
                if l[2] is not None and l[2] == o[2] and l[3] != o[3] and o[4] > l[4]:
                    return 'no'
                if l[1] & o[1] and (o[4] > l[4] or l[0] == 'loop'):
                    fuzzy = True
        return 'open' if fuzzy else 'yes'

    def use(self, st, key, cells, n):
        al = self.alias.get(key[1]) if key[0] == 'v' else None
        if al:
            key = al
        kind = self.tracked.get(key)
        if kind is None:
            return
        self.reads += 1
        hit = [c for c in (kind[1] if cells is None else cells) if key + (c,) in st]
        if not hit:
            return
        if key[0] == 'm':
            self.exposed.setdefault(key[1], (n, tuple(hit)))
            return
        if key[0] == 'p':
            self.pexposed.setdefault(key[1], n)
            return
        paths = set()
        for c in hit:
            paths |= st[key + (c,)]
        how = {self.feasible(q) for q in paths}
        if how == {'no'}:
            return
        self.bad.append((key, hit, n, 'yes' in how, frozenset() in paths))

    # ---- names conditions talk about
    def names(self, x):
        out = set()

        def see(n, up):
            if n.get('k') == 'var':
                out.add(n['id'])
            elif n.get('k') == 'mem':
                out.add('m.' + n['n'])
        astq.walk(x, see)
        return out

    def written(self, x):
        out = set()

        def see(n, up):
            t = None
            if n.get('k') == 'asg':
                t = n['x']
            elif n.get('k') == 'un' and n.get('op') in ('++', '--'):
                t = n['x']
            elif n.get('k') == 'call':
                e = astq.callee(self.f, n)
                if e and e['n'] == 'operator=' or e and e.get('m') == 'n' and n.get('o') is not None:
                    t = n.get('o') or (n['a'][0] if n.get('a') else None)
            if t is not None:
                out.update(self.names(t))
        astq.walk(x, see)
        return out

    def steps(self, x, v):
        """Whether the code changes the variable itself (not a part of something it indexes)."""
        hit = []

        def is_v(t):
            t = bare(t)
            return isinstance(t, dict) and t.get('k') == 'var' and t['id'] == v

        def see(n, up):
            k = n.get('k')
            if k == 'asg' and is_v(n['x']) or k == 'un' and n.get('op') in ('++', '--', '&') and is_v(n['x']):
                hit.append(n)
            elif k == 'call':
                e = astq.callee(self.f, n) or {}
                for a in n.get('a', []):
                    # handed over as an object, not as a value (a conversion wraps a value)
                    if isinstance(a, dict) and a.get('k') == 'var' and a['id'] == v and (e.get('repo') or e.get('n') in ('swap', 'exchange')):
                        hit.append(n)
            elif k == 'lambda':
                if v in self.names(n):
                    hit.append(n)
        astq.walk(x, see)
        return bool(hit)

    # ---- lvalues
    def index(self, x):
        """Set of values of an index, or None."""
        c = const(x)
        if c is not None:
            return {int(c)}
        x = bare(x)
        if isinstance(x, dict) and x.get('k') == 'var' and x['id'] in self.ranges:
            return set(range(*self.ranges[x['id']]))
        return None

    def target(self, x):
        """(key, cells or None) of an lvalue naming tracked storage, else None."""
        x = bare(x)
        if not isinstance(x, dict):
            return None
        k = x.get('k')
        if k == 'var':
            return (('v', x['id']), None) if ('v', x['id']) in self.tracked else None
        if k == 'un' and x.get('op') == '*':
            return None
        if k == 'mem':
            b = bare(x.get('b'))
            while isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '*':
                b = bare(b['x'])
            if isinstance(b, dict) and b.get('k') == 'this':
                return (('m', x['n']), None) if ('m', x['n']) in self.tracked else None
            t = self.target(x.get('b'))
            if t:
                kind = self.tracked[self.alias.get(t[0][1], t[0]) if t[0][0] == 'v' else t[0]]
                if kind[0] == 'rec':
                    return (t[0], (x['n'],) if x['n'] in kind[1] else ())
                return t
            return None
        if k == 'ctor' and len(x.get('a', [])) >= 1:
            e = astq.callee(self.f, x) or {}
            if e.get('ctor') == 'copy':
                return self.target(x['a'][0])
            return None
        if k == 'call':
            e = astq.callee(self.f, x)
            if e is None or e.get('repo'):
                return None
            o, a = x.get('o'), x.get('a', [])
            if o is None and e['n'].startswith('operator') and e.get('m') not in (None, 's') and a:
                o, a = a[0], a[1:]
            if o is None:
                return None
            t = self.target(o)
            if t is None:
                return None
            key, cells = t
            kind = self.tracked[self.alias.get(key[1], key) if key[0] == 'v' else key]
            r = self.select(kind, cells, e['n'], a, x)
            return (key, r) if r is not False else None
        return None

    def select(self, kind, cells, name, a, n):
        """Cells named by a part of a matrix; None for all; False when the call does not name a part."""
        allc = kind[1] if cells is None else cells
        if name in ('noalias', 'array', 'matrix', 'derived', 'transpose', 'coeffs', 'colwise', 'rowwise'):
            return cells
        k0 = kind[0][0] if isinstance(kind[0], tuple) else kind[0]
        idx = [self.index(y) for y in a]
        if k0 == 'quat':
            if name in 'wxyz' and len(name) == 1:
                return (name,)
            if name == 'vec':
                return ('x', 'y', 'z')
            return False
        if k0 == 'one':
            return cells if name in ('diagonal', 'angle', 'axis') else False
        if k0 in ('fix', 'rows'):
            R = kind[0][1]
            C = kind[0][2] if k0 == 'fix' else None
            vec = k0 == 'fix' and (R == 1 or C == 1)

            def rows(r, c=None):
                return tuple(z for z in allc if (r is None or z[0] in r) and (c is None or z[1] == '*' or z[1] in c))
            if name in ('operator()', 'coeffRef', 'coeff', 'operator[]', 'at'):
                if len(idx) == 2:
                    return rows(idx[0], idx[1])
                if len(idx) == 1 and idx[0] is None:
                    return cells
                if vec:
                    return rows(None, idx[0]) if R == 1 else rows(idx[0])
                if k0 == 'rows':
                    return rows(idx[0])
                return rows({i % R for i in idx[0]}, {i // R for i in idx[0]})
            if name in ('x', 'y', 'z', 'w') and not a:
                i = 'xyzw'.index(name)
                return rows(None, {i}) if R == 1 else rows({i})
            if name == 'row' and len(a) == 1:
                return rows(idx[0])
            if name == 'col' and len(a) == 1:
                return rows(None, idx[0])
            if name == 'diagonal' and not a:
                return tuple(z for z in allc if z[1] == '*' or z[0] == z[1])
            if name in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows',
                        'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'head', 'tail', 'segment'):
                v = [next(iter(i)) if i and len(i) == 1 else None for i in idx]
                s = re.search(r', (-?\d+)(?:, (-?\d+))?(?:, (?:true|false))?>$', str(astq.typ(self.f, n.get('t')).get('s', '')))
                fr = int(s.group(1)) if s else -1
                fc = int(s.group(2)) if s and s.group(2) else -1
                cs = C if C is not None else 10 ** 6

                def rng(lo, num, top):
                    return None if lo is None or num is None else set(range(int(lo), min(int(lo + num), 10 ** 3)))
                if name == 'block':
                    if len(v) == 4:
                        i, j, p, q = v
                    elif len(v) == 2:
                        (i, j), p, q = v, fr if fr > 0 else None, fc if fc > 0 else None
                    else:
                        return cells
                    return rows(rng(i, p, R), rng(j, q, cs))
                if name in ('head', 'tail', 'segment'):
                    if not vec and k0 == 'fix':
                        return cells
                    if name == 'segment':
                        lo, num = v[0], v[1] if len(v) > 1 else fr if fr > 0 else None
                    else:
                        num = v[0] if v else fr if fr > 0 else None
                        lo = 0 if name == 'head' else (max(R, C or 1) - num if num is not None else None)
                    g = rng(lo, num, R)
                    return rows(None, g) if R == 1 else rows(g)
                if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols'):
                    if name.startswith('middle'):
                        return rows(rng(v[0], v[1] if len(v) > 1 else None, R)) if 'Rows' in name else rows(None, rng(v[0], v[1] if len(v) > 1 else None, cs))
                    num = v[0] if v else (fr if 'Rows' in name else fc)
                    if num is None or num < 0:
                        return cells
                    if name == 'topRows':
                        return rows(rng(0, num, R))
                    if name == 'bottomRows':
                        return rows(rng(R - num, num, R))
                    if C is None:
                        return cells
                    return rows(None, rng(0, num, C)) if name == 'leftCols' else rows(None, rng(C - num, num, C))
                if len(v) == 2:
                    p, q = v
                else:
                    p, q = (fr if fr > 0 else None), (fc if fc > 0 else None)
                if p is None or q is None:
                    return cells
                ri = rng(0, p, R) if name.startswith('top') else rng(R - p, p, R)
                if C is None:
                    return rows(ri)
                ci = rng(0, q, C) if name.endswith('LeftCorner') else rng(C - q, q, C)
                return rows(ri, ci)
            return False
        if k0 == 'dyn':
            return cells if name in ('operator()', 'operator[]', 'coeffRef', 'coeff', 'row', 'col', 'block', 'head', 'tail',
                                     'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'diagonal',
                                     'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner',
                                     'x', 'y', 'z', 'w', 'middleRows', 'middleCols') else False
        return False

    def subexprs(self, x, st):
        """Evaluate the index expressions of an lvalue."""
        x = bare(x)
        if isinstance(x, dict) and x.get('k') == 'call':
            o, a = x.get('o'), x.get('a', [])
            if o is None and a:
                o, a = a[0], a[1:]
            st = self.subexprs(o, st)
            for y in a:
                st = self.expr(y, st)
        elif isinstance(x, dict) and x.get('k') == 'mem':
            st = self.subexprs(x.get('b'), st)
        elif isinstance(x, dict) and x.get('k') == 'ctor':
            for y in x.get('a', []):
                st = self.subexprs(y, st)
        return st

    def assign(self, x, st):
        t = self.target(x)
        if t is not None:
            self.empty.discard(t[0])
        if t is None:
            x = bare(x)
            if isinstance(x, dict) and x.get('k') == 'cond':
                return self.assign(x['y'], self.assign(x['z'], self.expr(x['c'] if 'c' in x else x['x'], st)))
            return self.expr(x, st)
        st = self.subexprs(x, st)
        return self.drop(st, *t)

    # ---- expressions
    def expr(self, x, st):
        if st is None or x is None:
            return st
        if isinstance(x, list):
            for y in x:
                st = self.expr(y, st)
            return st
        if not isinstance(x, dict):
            return st
        k = x.get('k')
        t = self.target(x) if k in ('var', 'mem', 'call') else None
        if t is not None:
            st = self.subexprs(x, st)
            self.use(st, t[0], t[1], x)
            return st
        if k == 'asg':
            st = self.expr(x['y'], st)
            if x.get('op', '=') != '=':
                st = self.expr(x['x'], st)
            return self.assign(x['x'], st)
        if k == 'bin' and x.get('op') in ('&&', '||'):
            st = self.expr(x['x'], st)
            g = len(self.guards)
            l, r = self.literal(x['x'], x['op'] == '||'), self.literal(x['x'], x['op'] == '&&')
            self.guards.append(r)
            s2 = self.expr(x['y'], st)
            del self.guards[g:]
            return self.join(st, s2, l, r)
        if k == 'cond':
            c = x['x'] if 'z' in x and 'x' in x else x.get('c')
            st = self.expr(c, st)
            g = len(self.guards)
            l, r = self.literal(c, True), self.literal(c, False)
            self.guards.append(l)
            a = self.expr(x['y'], st)
            self.guards[g:] = [r]
            b = self.expr(x['z'], st)
            del self.guards[g:]
            return self.join(a, b, l, r)
        if k == 'un':
            if x.get('op') == '&' and self.target(x['x']):
                return self.assign(x['x'], st)
            return self.expr(x['x'], st)
        if k == 'lambda':
            for q in x.get('caps', []):
                if q.get('e') is not None:
                    if q.get('ref'):
                        st = self.assign(q['e'], st)
                    else:
                        st = self.expr(q['e'], st)
                elif 'id' in q and not q.get('ref') and ('v', q['id']) in self.tracked:
                    self.use(st, ('v', q['id']), None, x)
                elif 'id' in q and q.get('ref') and ('v', q['id']) in self.tracked:
                    # written inside: assigned once it runs; only read inside: read now
                    w = self.written(x.get('f', {}).get('body'))
                    if q['id'] in w:
                        st = self.drop(st, ('v', q['id']))
            self.A.nested(self, x)
            return st
        if k in ('call', 'ctor', 'new'):
            return self.call(x, st)
        for kk, v in x.items():
            if isinstance(v, (dict, list)) and kk not in ('t',):
                st = self.expr(v, st)
        return st

    def call(self, x, st):
        e = astq.callee(self.f, x)
        a = x.get('a', [])
        o = x.get('o')
        if e is None:
            if o is not None:
                st = self.expr(o, st)
            for y in a:
                st = self.expr(y, st)
            for kk in ('x',):
                st = self.expr(x.get(kk), st)
            return st
        name = e['n']
        p = e.get('p', '')
        if o is None and x.get('op') and e.get('m') in ('n', 'c') and a:
            o, a = a[0], a[1:]
        if o is not None:
            if name == 'operator=':
                for y in a:
                    st = self.expr(y, st)
                return self.assign(o, st)
            if name == 'operator,' and 'CommaInitializer' in str(astq.typ(self.f, x.get('t')).get('s', '')):
                vals, y = list(a), bare(o)
                while isinstance(y, dict) and y.get('k') == 'call':
                    e2 = astq.callee(self.f, y)
                    o2, a2 = y.get('o'), y.get('a', [])
                    if o2 is None and a2:
                        o2, a2 = a2[0], a2[1:]
                    vals = list(a2) + vals
                    y = bare(o2)
                    if not e2 or e2['n'] != 'operator,':
                        break
                for z in vals:
                    st = self.expr(z, st)
                t = self.target(y)
                if t is None:
                    return self.assign(y, st)
                kind = self.tracked[self.alias.get(t[0][1], t[0]) if t[0][0] == 'v' else t[0]]
                cells = sorted(kind[1] if t[1] is None else t[1], key=str)
                single = all(astq.typ(self.f, bare(z).get('t')).get('k') in ('int', 'float') for z in vals if isinstance(bare(z), dict))
                if single and isinstance(kind[0], tuple) and kind[0][0] == 'fix' and len(vals) < len(cells):
                    return self.drop(self.subexprs(y, st), t[0], cells[:len(vals)])
                return self.assign(y, st)
            if name == 'operator<<' and 'CommaInitializer' in str(astq.typ(self.f, x.get('t')).get('s', '')):
                for y in a:
                    st = self.expr(y, st)
                return self.assign(o, st)
            t = self.target(o)
            if t is not None and not e.get('repo'):
                if name != 'resize':
                    self.empty.discard(t[0])
                kind = self.tracked[self.alias.get(t[0][1], t[0]) if t[0][0] == 'v' else t[0]]
                for y in a:
                    st = self.expr(y, st)
                if name == 'resize' and t[1] is None and t[0] in self.empty:
                    # a matrix that had no elements gets unassigned ones; resizing keeps what an equal number held
                    self.empty.discard(t[0])
                    st = dict(st)
                    for c in kind[1]:
                        st[t[0] + (c,)] = ALWAYS
                    return st
                if name in SIZES:
                    return self.subexprs(o, st)
                if name in SETTERS:
                    return self.assign(o, st)
                return self.expr(o, st)
            if not (e.get('repo') and astq.on_this(x)):
                st = self.expr(o, st)
        S = self.A.summary(e['u']) if e.get('repo') else None
        for i, y in enumerate(a):
            c = p[i] if i < len(p) else ''
            if c in ('r', 'p') and self.target(y) is not None and c == 'r':
                if S is not None:
                    if i in S.pexposed:
                        st = self.expr(y, st)
                    elif S.assigns_param(i):
                        st = self.assign(y, st)
                    else:
                        st = self.assign(y, st) if self.A.writes_param(e['u'], i) else self.expr(y, st)
                else:
                    st = self.assign(y, st)
            else:
                st = self.expr(y, st)
        if x['k'] == 'new':
            st = self.expr(x.get('x'), st)
        if e.get('repo') and e.get('c') and self.mem and x['k'] == 'call' and astq.on_this(x) and e.get('m') == 'n' or \
                e.get('repo') and self.mem and x['k'] == 'call' and astq.on_this(x) and e.get('m') == 'c':
            for u in self.A.E.may_run(x, e):
                M = self.A.summary(u, True, self)
                if M is None:
                    continue
                for m, (n, cells) in M.exposed.items():
                    live = [c for c in cells if ('m', m, c) in st]
                    if live:
                        self.exposed.setdefault(m, (x, tuple(live)))
                if len(self.A.E.may_run(x, e)) == 1:
                    for key in list(st):
                        if key[0] == 'm' and key not in M.end:
                            st = dict(st)
                            st.pop(key)
        return st

    # ---- statements
    def stmt(self, s, st):
        if st is None or s is None:
            return st
        if isinstance(s, list):
            for y in s:
                st = self.stmt(y, st)
            return st
        k = s.get('k')
        if k == 'seq':
            for y in s['a']:
                st = self.stmt(y, st)
                if st is None:
                    return None
            return st
        if k == 'expr':
            return self.expr(s['x'], st)
        if k == 'decl':
            for v in s['a']:
                st = self.declare(v, st)
            return st
        if k == 'if':
            st = self.expr(s['c'], st) if not isinstance(s['c'], dict) or s['c'].get('k') != 'decl' else self.stmt(s['c'], st)
            g = len(self.guards)
            l, r = self.literal(s['c'], True), self.literal(s['c'], False)
            self.guards.append(l)
            a = self.stmt(s['y'], st)
            self.guards[g:] = [r]
            b = self.stmt(s.get('z'), st)
            del self.guards[g:]
            if a is None:
                self.guards.append(r)
            elif b is None:
                self.guards.append(l)
            return self.join(a, b, l, r)
        if k in ('for', 'while', 'do', 'range'):
            return self.loop(s, st)
        if k == 'ret':
            st = self.expr(s.get('x'), st)
            if st is not None:
                self.exits.append(st)
            return None
        if k == 'throw':
            self.expr(s.get('x'), st)
            return None
        if k in ('break', 'continue'):
            if self.loops:
                self.loops[-1][k].append(st)
            return None
        if k == 'try':
            body = self.stmt(s['b'], st)
            out = body
            hs = s.get('h') or []
            for h in hs if isinstance(hs, list) else [hs]:
                b = h.get('b') if isinstance(h, dict) and 'b' in h else h
                out = self.join(out, self.stmt(b, st), None, ('try', frozenset(), None, False, 0))
            return out
        if k in ('var', 'call', 'asg', 'un', 'bin', 'ctor', 'mem', 'cast', 'lambda', 'new', 'cond'):
            return self.expr(s, st)
        # other statements: everything written inside counts as assigned
        w = self.written(s)
        for i in w:
            st = self.drop(st, ('v', i))
            if isinstance(i, str):
                st = self.drop(st, ('m', i[2:]))
        return st

    def declare(self, v, st):
        if 'id' not in v:
            return self.expr(v.get('i'), st)
        t = astq.typ(self.f, v.get('t'))
        i = v.get('i')
        if t.get('k') == 'ref':
            # a name for something else: what it names counts as assigned from here on
            return self.assign(i, st) if not astq.typ(self.f, t['to']).get('c') else self.expr(i, st)
        kind, cells = self.unset(v)
        if i is not None:
            st = self.expr(i, st)
        if kind is None or st is None:
            return st
        if v.get('static'):
            return st
        key = ('v', v['id'])
        self.tracked[key] = kind
        if isinstance(kind[0], tuple) and kind[0][0] == 'dyn' and not cells:
            x = bare(i)
            if x is None or x.get('k') == 'ctor' and not x.get('a'):
                self.empty.add(key)
        st = dict(st)
        for c in kind[1]:
            st.pop(key + (c,), None)
        for c in cells:
            st[key + (c,)] = ALWAYS
        return st

    def trip(self, s):
        """(variable, lo, hi) of a loop over constants, else None."""
        i, c = s.get('init'), s.get('c')
        v = None
        if isinstance(i, dict) and i.get('k') == 'decl' and len(i['a']) == 1:
            v, lo = i['a'][0].get('id'), const(i['a'][0].get('i'))
        else:
            return None
        c = bare(c)
        if lo is None or not isinstance(c, dict) or c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '!='):
            return None
        x = bare(c['x'])
        if not (isinstance(x, dict) and x.get('k') == 'var' and x['id'] == v):
            return None
        hi = const(c['y'])
        if hi is None:
            y = bare(c['y'])
            e = astq.callee(self.f, y) if isinstance(y, dict) and y.get('k') == 'call' else None
            if e and e['n'] in ('rows', 'cols', 'size') and y.get('o') is not None:
                sh = shape(astq.typ(self.f, bare(y['o']).get('t')))
                if sh and sh[0] == 'fix':
                    hi = sh[1] if e['n'] == 'rows' else sh[2] if e['n'] == 'cols' else sh[1] * sh[2]
        if hi is None:
            return None
        hi = hi + 1 if c['op'] == '<=' else hi
        inc = bare(s.get('inc'))
        if not (isinstance(inc, dict) and (inc.get('k') == 'un' and inc.get('op') == '++')):
            return (v, lo, hi) if lo < hi and False else None
        return (v, int(lo), int(hi))

    def counted(self, c):
        """A condition on a variable and a constant: whether it holds at first is not followed."""
        c = bare(c)
        if not isinstance(c, dict) or c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '>', '>=', '!='):
            return False
        for x, y in ((c['x'], c['y']), (c['y'], c['x'])):
            x, y = bare(x), bare(y)
            if not (isinstance(x, dict) and x.get('k') == 'var'):
                continue
            if const(y) is not None:
                return True
            e = astq.callee(self.f, y) if isinstance(y, dict) and y.get('k') == 'call' else None
            if e and e['n'] in ('rows', 'cols', 'size') and y.get('o') is not None:
                sh = shape(astq.typ(self.f, bare(y['o']).get('t')))
                if sh and sh[0] == 'fix':
                    return True
        return False

    def listed(self, x):
        """A list written down in the code, with at least one value."""
        x = bare(x)
        return isinstance(x, dict) and x.get('k') in ('list', 'init', 'initlist') and bool(x.get('a'))

    def loop(self, s, st):
        k = s['k']
        self.loops.append({'break': [], 'continue': []})
        g = len(self.guards)
        once = k == 'do'
        none = None
        v = None
        if k == 'range':
            st = self.expr(s['x'], st)
        elif k == 'for':
            st = self.stmt(s.get('init'), st)
            t = self.trip(s)
            if t:
                v, lo, hi = t
                if lo < hi and not self.steps(s.get('b'), v):
                    self.ranges[v] = (lo, hi)
                    once = True
        if k in ('for', 'while'):
            st = self.expr(s.get('c'), st)
            none = self.literal(s.get('c'), False, 'loop')
            self.guards.append(self.literal(s.get('c'), True))
            if self.counted(s.get('c')):
                none = ('many', frozenset(), None, False, 0)
        if k == 'range' and self.listed(s['x']):
            once = True
        elif k == 'range':
            self.seq += 1
            none = ('loop', frozenset(self.names(s['x'])), None, False, self.seq)
        entry = st
        body = self.stmt(s.get('b'), st)
        L = self.loops.pop()
        for z in L['continue']:
            body = self.join(body, z)
        if k == 'for' and body is not None:
            body = self.expr(s.get('inc'), body)
        if k == 'do' and body is not None:
            body = self.expr(s.get('c'), body)
        del self.guards[g:]
        c = s.get('c')
        forever = k != 'range' and (c is None or isinstance(bare(c), dict) and (
            bare(c).get('k') == 'bool' and bare(c).get('v') or bare(c).get('k') == 'int' and bare(c).get('v')))
        if forever and k != 'do':
            out = None
        elif once:
            out = body
        else:
            out = self.dyn(entry, body, none)
        if once and body is None and not L['break']:
            out = None
        for z in L['break']:
            out = self.join(out, z)
        if v is not None:
            self.ranges.pop(v, None)
        return out

    def dyn(self, entry, body, none):
        """A loop that may not run; storage of run-time size filled by it is empty when it does not."""
        out = self.join(entry, body, none, None)
        if body is not None and out is not None:
            for key in list(out):
                kind = self.tracked.get(key[:2])
                if kind and isinstance(kind[0], tuple) and kind[0][0] in ('dyn', 'rows') and key not in body:
                    out.pop(key)
                elif kind and isinstance(kind[0], tuple) and len(kind[1]) > 1 and key not in body:
                    # entries filled one by one: the number of rounds is not followed
                    out[key] = frozenset([frozenset([('many', frozenset(), None, False, 0)])])
        return out

    def assigns_param(self, i):
        k = self.tracked.get(('p', i))
        return k is not None and not any(('p', i, c) in self.end for c in k[1])


class Analysis:
    def __init__(self, P, E=None):
        self.P = P
        self.E = E or effects.Effects(P)
        self._sum = {}
        self.lambdas = []
        self.plain = {}
        for k in P.cls.values():
            if '/spec/' in k.j['file']:
                continue
            own = [f for f in P.fns.values() if f.cls == k.usr and f.ent.get('ctor') and f.ent.get('ctor') != 'copy' and
                   any(i.get('w') for i in f.j.get('inits', []))]
            un = [x['n'] for x in k.fields if x.get('i') is None and k.tu['types'][x['t']].get('k') in
                  ('int', 'float', 'bool', 'ptr', 'enum')]
            if un and not own and not any(e.get('ctor') for e in ()):
                self.plain[k.t] = un

    def nested(self, fn, x):
        self.lambdas.append((fn.f, x))

    def writes_param(self, u, i):
        return ('P', i) in self.E.sets.get(u, {})

    def summary(self, u, mem=False, like=None):
        f = self.P.fns.get(u)
        if f is None:
            return None
        key = (u, tuple(sorted(like.mem)) if mem and like else ())
        if key not in self._sum:
            self._sum[key] = None            # recursion: nothing known
            self._sum[key] = Fn(self, f, dict(like.mem) if mem and like else None)
        return self._sum[key]

    def local(self, f):
        return self.summary(f.usr)

    def unset_members(self, k):
        """{member: cells} without an initialiser in the class itself."""
        out = {}
        for x in k.fields:
            if x.get('i') is not None:
                continue
            t = k.tu['types'][x['t']]
            if t.get('k') in ('int', 'float', 'bool', 'ptr', 'enum'):
                out[x['n']] = ('s', (0,))
                continue
            sh = shape(t)
            if sh is None or sh[0] == 'dyn':
                continue
            if sh[0] == 'fix':
                out[x['n']] = (sh, tuple((i, j) for i in range(sh[1]) for j in range(sh[2])))
            elif sh[0] == 'quat':
                out[x['n']] = (sh, ('w', 'x', 'y', 'z'))
            else:
                out[x['n']] = (sh, ('c',))
        return out
