"""Lengths of sequences along the paths of a function (zone domain over the syntax tree).

A state holds upper bounds of differences between integer terms: integer locals, integer reads such as `this.n`, and
lengths `#X` of sequences X (locals, members, rows of tables). Tests refine it, `push_back`, `clear`, `resize`, copies
and assignments update it, loops keep what their body cannot change (counters that only grow keep their lower bounds,
sequences that only grow keep theirs). A state also knows which sequences hold the answer of a function whose number of
results is not fixed. Every use of a sequence by position is recorded with what is known there."""
from . import astq
from .defassign import bare, const

INF = float('inf')
GROW = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'emplace', 'insert'}
KEEP = {'reserve', 'shrink_to_fit', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'at', 'operator[]',
        'front', 'back', 'size', 'empty', 'capacity', 'max_size', 'get_allocator', 'length'}
ORDER = {'sort', 'stable_sort', 'reverse', 'rotate', 'shuffle', 'random_shuffle', 'fill', 'iota', 'transform',
         'partial_sort', 'nth_element', 'swap_ranges', 'iter_swap', 'min_element', 'max_element', 'minmax_element',
         'accumulate', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'for_each', 'find', 'find_if', 'distance',
         'next', 'prev', 'begin', 'end', 'size', 'empty', 'is_sorted', 'equal', 'lower_bound', 'upper_bound',
         'generate', 'partition', 'stable_partition', 'copy', 'fmin', 'fmax', 'min', 'max', 'abs', 'fabs'}


def is_seq(t):
    s = str(t.get('s', ''))
    s = s[6:] if s.startswith('const ') else s
    return s.startswith(('std::vector<', 'std::deque<'))


class State:
    __slots__ = ('d', 'o', 'b')

    def __init__(self, d=None, o=None, b=None):
        self.d = d or {}        # (x, y) -> c with x - y <= c
        self.o = o or {}        # sequence -> origin
        self.b = b or {}        # bool local -> condition node

    def copy(self):
        return State(dict(self.d), dict(self.o), dict(self.b))

    def ub(self, x, y):
        """Least known c with x - y <= c."""
        if x == y:
            return 0
        # shortest path from x to y
        dist, todo = {x: 0}, [x]
        n = 0
        adj = {}
        for (p, q), c in self.d.items():
            adj.setdefault(p, []).append((q, c))
        names = {x, y} | {z for k in self.d for z in k}
        for z in names:
            if z[0] == '#':
                adj.setdefault('0', []).append((z, 0))     # 0 - #z <= 0
        while todo and n < 4000:
            n += 1
            p = todo.pop(0)
            for q, c in adj.get(p, ()):
                v = dist[p] + c
                if v < dist.get(q, INF) - 0 and v > -10 ** 6:
                    dist[q] = v
                    todo.append(q)
        return dist.get(y, INF)

    def lb(self, x):
        return -self.ub('0', x)

    def add(self, x, y, c):
        """x - y <= c; False when that contradicts what is known."""
        if x == y:
            return c >= 0
        if self.ub(y, x) + c < 0:
            return False
        if c < self.d.get((x, y), INF):
            self.d[x, y] = c
        return True


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    d = {}
    names = {z for k in a.d for z in k} | {z for k in b.d for z in k}
    for k in set(a.d) | set(b.d):
        c = max(a.ub(*k), b.ub(*k))
        if c < INF:
            d[k] = c
    for z in names:
        for k in ((z, '0'), ('0', z)):
            if z != '0' and k not in d:
                c = max(a.ub(*k), b.ub(*k))
                if c < INF:
                    d[k] = c
    o = {}
    for k in set(a.o) & set(b.o):
        if a.o[k] == b.o[k] or a.o[k] and b.o[k] and a.o[k][0] == b.o[k][0]:
            o[k] = a.o[k]
    return State(d, o, {k: v for k, v in a.b.items() if b.b.get(k) is v})


class Walk:
    """One function. `assume` maps sequences (terms) to least lengths at entry."""

    def __init__(self, A, f, params=None, body=None, st=None, env=None, depth=0, facts=()):
        self.A, self.f, self.P = A, f, A.P
        self.depth = depth
        self.env = env if env is not None else {}
        self.use = []            # dict(seq, off, term, node, ...)
        self.calls = []          # (node, entity, [(param index, seq term, lower bound, origin)], guarded)
        self.guards = []
        self.derived = {}
        self.exits = []
        self.loops = []
        self.lambdas = {}
        self.relate = facts
        params = f.j.get('params', []) if params is None else params
        self.pars = {p['id']: i for i, p in enumerate(params) if 'id' in p}
        st = st or State()
        st = self.stmt(f.j.get('body') if body is None else body, st)
        if st is not None:
            self.exits.append((None, st))

    # ---- names of things
    def path(self, x):
        """Text of a place (a local, a member, an element), or None."""
        x = bare(x)
        if not isinstance(x, dict):
            return None
        k = x['k']
        if k == 'var':
            i = x.get('id')
            if i in self.env:
                return self.env[i]
            return 'v%s' % i if i is not None else 'g:%s' % x.get('n')
        if k == 'this':
            return 'this'
        if k == 'un' and x.get('op') == '*':
            return self.path(x['x'])
        if k == 'mem':
            b = self.path(x.get('b'))
            return b and '%s.%s' % (b, x['n'])
        if k == 'ctor' and len(x.get('a', [])) == 1:
            e = astq.callee(self.f, x) or {}
            return self.path(x['a'][0]) if e.get('ctor') in ('copy', 'move') or is_seq(astq.typ(self.f, bare(x['a'][0]).get('t'))) \
                and is_seq(astq.typ(self.f, x.get('t'))) and not x.get('list') else None
        if k == 'call':
            e = astq.callee(self.f, x)
            o, a = x.get('o'), x.get('a', [])
            if e is None:
                return None
            if o is None and x.get('op') and a:
                o, a = a[0], a[1:]
            if e['n'] in ('at', 'operator[]') and o is not None and len(a) == 1:
                b, i = self.path(o), self.lin(a[0])
                return b and i and '%s[%s%+d]' % (b, i[0], i[1])
            if e['n'] in ('front', 'back') and o is not None and not a:
                b = self.path(o)
                return b and '%s<%s>' % (b, e['n'])
            if e['n'] in ('operator->', 'operator*', 'get') and o is not None and not a:
                b = self.path(o)
                return b
            if e['n'] in ('move', 'forward', 'as_const', 'ref', 'cref') and o is None and len(a) == 1:
                return self.path(a[0])
            if e.get('repo') and not a and e['n'].startswith('get') and o is not None:
                b = self.path(o)
                return b and '%s.%s()' % (b, e['n'])
        return None

    def lin(self, x):
        """(term, offset) of an integer expression, or None."""
        x = bare(x)
        if not isinstance(x, dict):
            return None
        c = const(x)
        if c is not None:
            return ('0', int(c)) if c == int(c) else None
        k = x['k']
        if k == 'bin' and x.get('op') in '+-':
            a, b = self.lin(x['x']), self.lin(x['y'])
            if a and b:
                if b[0] == '0':
                    return (a[0], a[1] + (b[1] if x['op'] == '+' else -b[1]))
                if a[0] == '0' and x['op'] == '+':
                    return (b[0], a[1] + b[1])
            return None
        if k == 'call':
            e = astq.callee(self.f, x)
            o, a = x.get('o'), x.get('a', [])
            if e and e['n'] in ('size', 'length') and not e.get('repo'):
                q = o if o is not None else a[0] if len(a) == 1 else None
                if q is not None and (o is None or not a) and is_seq(astq.typ(self.f, bare(q).get('t'))):
                    p = self.path(q)
                    return (('#' + p, 0)) if p else None
            if e and e['n'] == 'distance' and len(a) == 2:
                p, q = self.iter(a[0]), self.iter(a[1])
                if p and q and p[0] == q[0] and p[1] == '0' and q[1].startswith('#'):
                    return (q[1], q[2] - p[2])
            if e and e['n'] in ('min', 'max'):
                return None
            if e and x.get('op') and e['n'] == 'operator-' and len(a) + (o is not None) == 2:
                q, p = (o, a[0]) if o is not None else (a[0], a[1])
                q, p = self.iter(q), self.iter(p)
                if p and q and p[0] == q[0] and p[1] == '0':
                    return (q[1], q[2] - p[2])
                return None
            if e and e.get('repo') and not a:
                p = self.path(x)
                return (p, 0) if p and astq.typ(self.f, x.get('t')).get('k') == 'int' else None
            return None
        if k in ('var', 'mem'):
            if astq.typ(self.f, x.get('t')).get('k') == 'int':
                p = self.path(x)
                return (p, 0) if p else None
        return None

    def iter(self, x):
        """(sequence, term, offset) of an iterator expression."""
        x = bare(x)
        if not isinstance(x, dict):
            return None
        if x['k'] == 'ctor' and len(x.get('a', [])) == 1:
            return self.iter(x['a'][0])
        if x['k'] == 'var':
            p = self.path(x)
            return self.iters.get(p) if p and hasattr(self, 'iters') else None
        if x['k'] != 'call':
            return None
        e = astq.callee(self.f, x)
        o, a = x.get('o'), x.get('a', [])
        if e is None:
            return None
        n = e['n']
        if n in ('begin', 'cbegin', 'end', 'cend', 'data'):
            q = o if o is not None else a[0] if len(a) == 1 else None
            if q is None or not is_seq(astq.typ(self.f, bare(q).get('t'))):
                return None
            p = self.path(q)
            return p and ((p, '#' + p, 0) if 'end' in n else (p, '0', 0))
        if n in ('next', 'prev') and o is None and a:
            b = self.iter(a[0])
            k = self.lin(a[1]) if len(a) > 1 and not (isinstance(a[1], dict) and a[1].get('dflt')) else ('0', 1)
            return self.shift(b, k, 1 if n == 'next' else -1)
        if n in ('operator+', 'operator-'):
            z = ([o] if o is not None else []) + list(a)
            if len(z) == 2:
                return self.shift(self.iter(z[0]), self.lin(z[1]), 1 if n[-1] == '+' else -1)
        return None

    @staticmethod
    def shift(b, k, s):
        if not b or not k:
            return None
        if k[0] == '0':
            return (b[0], b[1], b[2] + s * k[1])
        if s > 0 and b[1] == '0':
            return (b[0], k[0], b[2] + k[1])
        return None

    def names(self, x):
        """Roots (locals, fields) an expression mentions, with what they were computed from."""
        out = set()

        def see(n, up):
            if n['k'] == 'var':
                p = self.path(n)
                for r in self.roots(p):
                    out.add(r)
            elif n['k'] == 'mem':
                out.add('.' + n['n'])
            elif n['k'] == 'lambda':
                for q in n.get('caps', []):
                    if 'id' in q:
                        out.add('v%s' % q['id'])
        astq.walk(x, see)
        return self.close(out)

    def close(self, out):
        todo = list(out)
        while todo:
            for y in self.derived.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    @staticmethod
    def roots(p):
        """Locals and fields a term mentions."""
        import re
        return set() if not p else {z for z in re.findall(r'\bv\d+\b|\.\w+|g:\w+', p)}

    # ---- writes
    def forget(self, st, root, grow=False, only=None):
        """Drop what is known about terms mentioning a root that has been written."""
        hit = {z for k in st.d for z in k if z != '0' and root in self.roots(z)}
        for z in hit:
            self.kill(st, z)
        for s in [s for s in st.o if root in self.roots(s)]:
            del st.o[s]
        for b in [b for b, v in st.b.items() if b == root or root in self.names(v)]:
            del st.b[b]
        if hasattr(self, 'iters'):
            for i in [i for i, v in self.iters.items() if root in self.roots(v[0])]:
                del self.iters[i]

    def kill(self, st, z):
        ins = [(k[0], c) for k, c in st.d.items() if k[1] == z]
        outs = [(k[1], c) for k, c in st.d.items() if k[0] == z]
        if z[0] == '#':
            ins.append(('0', 0)) if not any(p == '0' for p, c in ins) else None
        for k in [k for k in st.d if z in k]:
            del st.d[k]
        for p, c in ins:
            for q, e in outs:
                if p != q and c + e < st.d.get((p, q), INF):
                    st.d[p, q] = c + e

    def setlin(self, st, z, v):
        """z := v where v is (term, offset) or None; v may mention z."""
        if v and v[0] == z:
            k = v[1]
            st.d = {(p, q): c + (k if p == z else 0) - (k if q == z else 0) for (p, q), c in st.d.items()}
            return
        self.kill(st, z)
        if v:
            st.d[z, v[0]] = v[1]
            st.d[v[0], z] = -v[1]

    def write(self, st, p):
        """Something unknown is stored in the place p."""
        if p is None:
            return
        rs = self.roots(p)
        r = [x for x in rs if x.startswith('.')]
        if '[' in p or '<' in p:
            # an element: lengths of the outer sequence stay
            import re
            out = re.match(r'^[^\[<]*', p).group(0)
            tail = {z for k in st.d for z in k if z != '0' and (z.lstrip('#').startswith(out + '[') or z.lstrip('#').startswith(out + '<'))}
            for z in tail:
                self.kill(st, z)
            for s in [s for s in st.o if s.startswith(out + '[') or s.startswith(out + '<')]:
                del st.o[s]
            return
        last = None
        if r:
            last = '.' + p.split('.')[-1]
        elif rs:
            last = next(iter(rs))
        if last:
            self.forget(st, last)

    def note(self, root, x):
        """root is computed from x under the tests around."""
        s = self.derived.setdefault(root, set())
        s |= self.names(x) if x is not None else set()
        for g in self.guards:
            s |= g
        s.discard(root)

    # ---- expressions
    def position(self, st, seq, idx, n, kind):
        if st is None or seq is None:
            return
        u = dict(seq=seq, idx=idx, node=n, kind=kind, origin=st.o.get(seq),
                 low=st.lb('#' + seq), guards=set().union(*self.guards) if self.guards else set(), line=n.get('l'))
        if idx:
            # greatest known value of idx - length
            u['over'] = min((st.ub(idx[0], '#' + seq) + idx[1]), INF)
            u['st'] = st.copy()
        self.use.append(u)

    def expr(self, x, st):
        if st is None or x is None:
            return st
        if isinstance(x, list):
            for y in x:
                st = self.expr(y, st)
            return st
        if not isinstance(x, dict):
            return st
        k = x.get('k')
        if k == 'asg':
            return self.assign(x, st)
        if k == 'bin' and x.get('op') in ('&&', '||'):
            st = self.expr(x['x'], st)
            if st is None:
                return None
            t = x['op'] == '&&'
            r = self.refine(st.copy(), x['x'], t)
            self.guards.append(self.opaque(x['x']))
            self.expr(x['y'], r)
            self.guards.pop()
            return st
        if k == 'cond':
            c = x.get('c') if 'c' in x else x.get('x')
            st = self.expr(c, st)
            if st is None:
                return None
            self.guards.append(self.opaque(c))
            self.expr(x['y'], self.refine(st.copy(), c, True))
            self.expr(x['z'], self.refine(st.copy(), c, False))
            self.guards.pop()
            return st
        if k == 'un':
            if x.get('op') in ('++', '--'):
                v = self.lin(x['x'])
                p = self.path(x['x'])
                st = self.expr(x['x'], st)
                if v and p == v[0]:
                    self.setlin(st, p, (p, 1 if x['op'] == '++' else -1))
                    self.unindex(st, p)
                else:
                    self.write(st, p)
                return st
            if x.get('op') == '&':
                p = self.path(x['x'])
                st = self.expr(x['x'], st)
                return st
            if x.get('op') == '*':
                i = self.iter(x['x'])
                if i:
                    self.position(st, i[0], (i[1], i[2]), x, '*')
            return self.expr(x['x'], st)
        if k == 'sub':
            i = self.iter(x['x'])
            j = self.lin(x['y'])
            if i and j:
                s = self.shift(i, j, 1)
                if s:
                    self.position(st, s[0], (s[1], s[2]), x, '[]')
            return self.expr(x['y'], self.expr(x['x'], st))
        if k == 'lambda':
            for q in x.get('caps', []):
                if q.get('e') is not None:
                    st = self.expr(q['e'], st)
            return st
        if k in ('call', 'ctor', 'new'):
            return self.call(x, st)
        for kk, v in x.items():
            if isinstance(v, (dict, list)) and kk != 't':
                st = self.expr(v, st)
        return st

    def unindex(self, st, p):
        """p changed by a known amount: terms that use it inside an index are gone."""
        r = self.roots(p)
        r = ('.' + p.split('.')[-1]) if '.' in p else next(iter(r), None)
        for z in {z for k in st.d for z in k if z not in ('0', p) and r in self.roots(z)}:
            self.kill(st, z)
        for s in [s for s in st.o if r in self.roots(s)]:
            del st.o[s]
        for b in [b for b, v in st.b.items() if r in self.names(v)]:
            del st.b[b]

    def assign(self, x, st):
        l, r = x['x'], x['y']
        st = self.expr(r, st)
        st = self.lhs(l, st)
        if st is None:
            return None
        p = self.path(l)
        t = astq.typ(self.f, bare(l).get('t'))
        if p is None:
            return st
        root = ('.' + p.split('.')[-1]) if '.' in p else p
        self.note(root, r)
        if t.get('k') == 'int' and '[' not in p:
            v = self.lin(r)
            op = x.get('op', '=')
            if op == '=':
                v2 = v
            elif op in ('+=', '-=') and v and v[0] == '0':
                v2 = (p, v[1] if op == '+=' else -v[1])
            else:
                v2 = None
            if v2 and v2[0] != p and root in self.roots(v2[0]):
                v2 = None
            self.setlin(st, p, v2)
            self.unindex(st, p)
            return st
        if t.get('k') == 'bool' and '[' not in p and '.' not in p and x.get('op', '=') == '=':
            self.forget(st, p)
            if root not in self.names(r):
                st.b[p] = r
            return st
        self.write(st, p)
        return st

    def lhs(self, l, st):
        l = bare(l)
        if isinstance(l, dict) and l['k'] in ('var', 'mem'):
            return st
        return self.expr(l, st)

    def place(self, st, p, i):
        """The sequence at p takes the value of expression i."""
        i0 = bare(i)
        q = self.path(i0)
        self.write_seq(st, p)
        n = None
        org = None
        if q is not None and q != p and not set(self.roots(p)) <= self.roots(q):
            n = ('#' + q, 0)
            org = st.o.get(q)
        elif isinstance(i0, dict):
            n, org = self.length(i0, st)
        if n:
            self.setlin(st, '#' + p, n)
            if n[0] == '0' and org is None:
                org = ('grown',)
        if org:
            st.o[p] = org
            low = org[2] if len(org) > 2 else 0
            if low:
                st.add('0', '#' + p, -low)

    def write_seq(self, st, p):
        self.write(st, p)
        self.kill(st, '#' + p)
        st.o.pop(p, None)

    def length(self, i, st):
        """((term, offset) | None, origin | None) of a freshly made sequence."""
        k = i['k']
        if k == 'ctor':
            a = [y for y in i.get('a', []) if not (isinstance(y, dict) and y.get('dflt'))]
            if not a:
                return ('0', 0), None
            b = bare(a[0])
            if isinstance(b, dict) and b['k'] in ('list', 'ilist', 'init') and len(a) == 1:
                return ('0', len(b.get('a', []))), None
            if len(a) == 1 and isinstance(b, dict) and is_seq(astq.typ(self.f, b.get('t'))) and is_seq(astq.typ(self.f, i.get('t'))):
                p = self.path(b)
                if p:
                    return ('#' + p, 0), st.o.get(p)
                return self.length(b, st)
            t = astq.typ(self.f, b.get('t')) if isinstance(b, dict) else {}
            if t.get('k') == 'int' and len(a) <= 2:
                return self.lin(b), None
            if len(a) == 2:
                p, q = self.iter(a[0]), self.iter(a[1])
                if p and q and p[0] == q[0] and p[1] == '0':
                    return (q[1], q[2] - p[2]), st.o.get(p[0])
            return None, None
        if k == 'call':
            e = astq.callee(self.f, i)
            if e and e.get('repo'):
                low = self.A.least_of(self, i, e)
                if low is not None:
                    return None, ('call', e['n'], low)
            if e and i.get('op') and e['n'] == 'operator()' and not e.get('repo'):
                return None, None
        return None, None

    def call(self, x, st):
        e = astq.callee(self.f, x)
        o, a = x.get('o'), x.get('a', [])
        if e is None:
            # a lambda held in a local, or something unknown
            for y in [o] + list(a):
                st = self.expr(y, st)
            return self.expr(x.get('x'), st)
        n = e['n']
        if o is None and x.get('op') and e.get('m') in ('n', 'c') and a:
            o, a = a[0], a[1:]
        if n == 'operator()' and o is not None:
            b = bare(o)
            lam = b if isinstance(b, dict) and b['k'] == 'lambda' else self.lambdas.get(self.path(b))
            if lam is not None:
                for y in a:
                    st = self.expr(y, st)
                return self.inside(lam, st, a)
        if n == 'operator=' and o is not None and len(a) == 1:
            st = self.expr(a[0], st)
            st = self.lhs(o, st)
            p = self.path(o)
            if st is None or p is None:
                return st
            self.note(('.' + p.split('.')[-1]) if '.' in p else p.split('[')[0], a[0])
            if is_seq(astq.typ(self.f, bare(o).get('t'))):
                self.place(st, p, a[0])
            else:
                self.write(st, p)
            return st
        st = self.expr(o, st) if o is not None else st
        lams = []
        for y in a:
            b = bare(y)
            while isinstance(b, dict) and b['k'] == 'ctor' and len(b.get('a', [])) == 1:
                b = bare(b['a'][0])
            lam = b if isinstance(b, dict) and b['k'] == 'lambda' else self.lambdas.get(self.path(b)) if isinstance(b, dict) and b['k'] == 'var' else None
            if lam is not None:
                lams.append(lam)
            st = self.expr(y, st)
        if st is None:
            return None
        for lam in lams:
            if not e.get('repo'):
                st = self.inside(lam, st, None)
        if x['k'] == 'ctor':
            return self.effects(x, e, None, a, st)
        if o is not None and not e.get('repo') and is_seq(astq.typ(self.f, bare(o).get('t'))):
            p = self.path(o)
            if n in ('at', 'operator[]') and len(a) == 1:
                self.position(st, p, self.lin(a[0]), x, n)
                return st
            if n in ('front', 'back') and not a:
                self.position(st, p, ('0', 0), x, n)
                return st
            if p is None:
                return st
            root = ('.' + p.split('.')[-1]) if '.' in p else p.split('[')[0]
            if n in GROW:
                for y in a:
                    self.note(root, y)
                if n in ('insert', 'emplace') and len(a) != 2 and n == 'insert':
                    low = st.lb('#' + p)
                    self.kill(st, '#' + p)
                    st.add('0', '#' + p, -low)
                else:
                    if ('#' + p) not in {z for k in st.d for z in k}:
                        st.d['0', '#' + p] = 0
                    self.setlin(st, '#' + p, ('#' + p, 1))
                if st.o.get(p) != ('grown',):
                    st.o.pop(p, None)
                for z in {z for k in st.d for z in k if z.lstrip('#').startswith(p + '<')}:
                    self.kill(st, z)
                return st
            if n in ('pop_back', 'pop_front'):
                low = st.lb('#' + p)
                self.setlin(st, '#' + p, ('#' + p, -1))
                if low <= 0:
                    self.kill(st, '#' + p)
                return st
            if n == 'clear':
                self.write_seq(st, p)
                self.setlin(st, '#' + p, ('0', 0))
                st.o[p] = ('grown',)
                return st
            if n in ('resize', 'assign') and a:
                v = self.lin(a[0])
                self.write_seq(st, p)
                if v and (n == 'resize' or astq.typ(self.f, bare(a[0]).get('t')).get('k') == 'int'):
                    self.setlin(st, '#' + p, v if v[0] != '#' + p else None)
                return st
            if n in KEEP:
                return st
            for y in [p] + [self.path(y) for y in a]:
                if y:
                    self.write_seq(st, y)
            return st
        return self.effects(x, e, o, a, st)

    def effects(self, x, e, o, a, st):
        """What a call may write."""
        if e.get('repo'):
            args = []
            for i, y in enumerate(a):
                p = self.path(y)
                if p and is_seq(astq.typ(self.f, bare(y).get('t'))):
                    args.append((i, p, st.lb('#' + p), st.o.get(p)))
            if args:
                self.calls.append((x, e, args, set().union(*self.guards) if self.guards else set(), st.copy()))
            w = set()
            known = False
            for u in self.A.E.may_run(x, e) if hasattr(self.A.E, 'may_run') else [e['u']]:
                if u in self.A.E.sets:
                    known = True
                    w |= set(self.A.E.sets[u])
                else:
                    known = False
                    break
            if not known:
                for i, y in enumerate(a):
                    p = self.path(y)
                    if p:
                        self.write(st, p)
                self.forget_members(st)
                return st
            for r in w:
                if r[0] == 'F':
                    self.forget(st, '.' + r[2])
                    if r[3] if len(r) > 3 else '':
                        self.forget(st, '.' + r[3])
                elif r[0] == 'P' and r[1] < len(a):
                    p = self.path(a[r[1]])
                    if p:
                        self.note(('.' + p.split('.')[-1]) if '.' in p else p.split('[')[0], x)
                        if is_seq(astq.typ(self.f, bare(a[r[1]]).get('t'))):
                            self.write_seq(st, p)
                            low = self.A.least_out(e['u'], r[1])
                            if low is not None:
                                st.o[p] = ('call', e['n'], low)
                                if low:
                                    st.add('0', '#' + p, -low)
                        else:
                            self.write(st, p)
                elif r[0] == 'T':
                    self.forget_members(st)
            return st
        if e['n'] in ORDER or x['k'] == 'ctor' and e.get('ctor') in ('copy', 'move'):
            return st
        if e['n'] == 'swap' and len(a) == 2:
            for y in a:
                p = self.path(y)
                if p:
                    self.write_seq(st, p)
            return st
        # a library function: what it gets by non-const reference is written
        t = [astq.typ(self.f, i) for i in e.get('ps', [])] if isinstance(e.get('ps'), list) else None
        for i, y in enumerate(a):
            p = self.path(y)
            if p and is_seq(astq.typ(self.f, bare(y).get('t'))) and '(const' not in str(e.get('p', '')):
                if x['k'] != 'ctor':
                    self.write_seq(st, p)
        if o is not None and e.get('m') == 'n':
            p = self.path(o)
            if p and astq.typ(self.f, bare(o).get('t')).get('k') not in ('ptr',):
                pass
        return st

    def forget_members(self, st):
        for z in {z for k in st.d for z in k if '.' in z}:
            self.kill(st, z)
        for s in [s for s in st.o if '.' in s]:
            del st.o[s]

    def inside(self, lam, st, args):
        """The body of a lambda run here (args) or an unknown number of times (None)."""
        if self.depth > 6 or st is None:
            return st
        f = lam.get('f', {})
        saved = (self.exits, self.loops, self.pars)
        self.exits, self.loops = [], []
        self.depth += 1
        st0 = st.copy()
        if args is None:
            w = Writes(self)
            w.see(f.get('body'))
            w.havoc(st)
            st0 = st.copy()
        else:
            for p, y in zip(f.get('params', []), args):
                if 'id' in p:
                    q = self.path(y)
                    if q:
                        self.env[p['id']] = q
                    else:
                        v = self.lin(y)
                        self.kill(st, 'v%s' % p['id'])
                        if v:
                            self.setlin(st, 'v%s' % p['id'], v)
        st = self.stmt(f.get('body'), st)
        for r, s in self.exits:
            st = join(st, s)
        self.exits, self.loops, self.pars = saved
        self.depth -= 1
        return join(st, st0) if args is None else st

    # ---- conditions
    def opaque(self, c, seen=()):
        """Names in the parts of a test that say nothing the domain understands."""
        c = bare(c)
        if not isinstance(c, dict):
            return set()
        k = c['k']
        if k == 'bin' and c.get('op') in ('&&', '||'):
            return self.opaque(c['x']) | self.opaque(c['y'])
        if k == 'un' and c.get('op') == '!':
            return self.opaque(c['x'])
        if k == 'bin' and c.get('op') in ('<', '<=', '>', '>=', '==', '!='):
            if self.lin(c['x']) and self.lin(c['y']):
                a, b = self.lin(c['x']), self.lin(c['y'])
                out = set()
                for z in (a[0], b[0]):
                    # integers that were computed from something else
                    if z != '0' and z[0] != '#':
                        out |= self.close({r for r in self.roots(z)} & set(self.derived)) - self.roots(z)
                return out
            return self.names(c)
        if k == 'call':
            e = astq.callee(self.f, c)
            if e and e['n'] == 'empty' and not c.get('a') and c.get('o') is not None and self.path(c['o']):
                return set()
            if self.simple(c):
                return set()
            return self.names(c)
        if k in ('bool', 'int'):
            return set()
        if self.lin(c):
            return set()
        return self.names(c)

    def simple(self, c):
        """(callee function, returned expression) of a call of a one-line test."""
        e = astq.callee(self.f, c)
        if not e or not e.get('repo') or e.get('v'):
            return None
        g = self.P.fns.get(e['u'])
        if g is None or g.tu is not self.f.tu and False:
            return None
        b = g.j.get('body')
        while isinstance(b, dict) and b.get('k') == 'seq' and len(b['a']) == 1:
            b = b['a'][0]
        if isinstance(b, dict) and b.get('k') == 'ret' and b.get('x') is not None:
            return g, b['x']
        return None

    def refine(self, st, c, truth, n=0):
        if st is None:
            return None
        c = bare(c)
        if not isinstance(c, dict) or n > 12:
            return st
        k = c['k']
        if k == 'bool':
            return st if bool(c.get('v')) == truth else None
        if k == 'un' and c.get('op') == '!':
            return self.refine(st, c['x'], not truth, n + 1)
        if k == 'bin' and c.get('op') in ('&&', '||'):
            if (c['op'] == '&&') == truth:
                return self.refine(self.refine(st, c['x'], truth, n + 1), c['y'], truth, n + 1)
            a = self.refine(st.copy(), c['x'], truth, n + 1)
            b = self.refine(self.refine(st.copy(), c['x'], not truth, n + 1), c['y'], truth, n + 1)
            return join(a, b)
        if k == 'bin' and c.get('op') in ('<', '<=', '>', '>=', '==', '!='):
            a, b = self.lin(c['x']), self.lin(c['y'])
            op = c['op']
            if a is None or b is None:
                # comparison of a truth value with a constant
                return st
            if not truth:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            return self.compare(st, a, op, b)
        if k == 'call':
            e = astq.callee(self.f, c)
            if e and e['n'] == 'empty' and not c.get('a') and c.get('o') is not None:
                p = self.path(c['o'])
                if p:
                    return self.compare(st, ('#' + p, 0), '==' if truth else '>', ('0', 0))
            s = self.simple(c)
            if s:
                g, x = s
                env = dict(self.env)
                sub = Sub(self, g, c)
                return sub.refine(st, x, truth, n + 1)
            return st
        if k == 'var':
            p = self.path(c)
            if p in st.b:
                return self.refine(st, st.b[p], truth, n + 1)
        v = self.lin(c)
        if v:
            return self.compare(st, v, '!=' if truth else '==', ('0', 0))
        return st

    def compare(self, st, a, op, b):
        x, y, c = a[0], b[0], b[1] - a[1]         # x - y OP c
        for t in (x, y):
            if t.startswith('#'):
                self.facts(st, t)
        if op in ('>', '>='):
            x, y, c, op = y, x, -c, '<' if op == '>' else '<='
        if op == '<':
            c, op = c - 1, '<='
        if op == '<=':
            return st if st.add(x, y, c) else None
        if op == '==':
            return st if st.add(x, y, c) and st.add(y, x, -c) else None
        if op == '!=':
            u, l = st.ub(x, y), -st.ub(y, x)
            if u == c and l == c:
                return None
            if u == c:
                return st if st.add(x, y, c - 1) else None
            if l == c:
                return st if st.add(y, x, -c - 1) else None
        return st

    def facts(self, st, t):
        for p, q in self.relate:
            pass

    # ---- statements
    def stmt(self, s, st):
        if st is None or s is None:
            return st
        if isinstance(s, list):
            for y in s:
                st = self.stmt(y, st)
            return st
        k = s.get('k')
        if k == 'seq':
            g = len(self.guards)
            for y in s['a']:
                st = self.stmt(y, st)
                if st is None:
                    break
            # tests that ended the function or the iteration guard the rest of this block only
            del self.guards[g:]
            return st
        if k == 'expr':
            return self.expr(s['x'], st)
        if k == 'decl':
            for v in s['a']:
                st = self.declare(v, st)
            return st
        if k == 'if':
            if s.get('init') is not None:
                st = self.stmt(s['init'], st)
            c = s['c']
            if isinstance(c, dict) and c.get('k') == 'decl':
                st = self.stmt(c, st)
                names = set()
                a0, b0 = st.copy() if st else None, st.copy() if st else None
            else:
                st = self.expr(c, st)
                if st is None:
                    return None
                names = self.opaque(c)
                a0, b0 = self.refine(st.copy(), c, True), self.refine(st.copy(), c, False)
            full = names | (self.names(c) if isinstance(c, dict) and c.get('k') != 'decl' else set())
            self.guards.append(names)
            self.guards.append(set())
            a = self.stmt(s['y'], a0)
            b = self.stmt(s.get('z'), b0)
            self.guards.pop()
            self.guards.pop()
            if (a is None) != (b is None) and names:
                self.guards.append(names)
            return join(a, b)
        if k in ('for', 'while', 'do', 'range'):
            return self.loop(s, st)
        if k == 'ret':
            st = self.expr(s.get('x'), st)
            if st is not None:
                self.exits.append((s.get('x'), st))
            return None
        if k == 'throw':
            self.expr(s.get('x'), st)
            return None
        if k in ('break', 'continue'):
            if self.loops:
                self.loops[-1][k].append(st)
            return None
        if k == 'try':
            self.guards.append({'*'})
            w = Writes(self)
            w.see(s)
            body = self.stmt(s.get('b'), st.copy())
            w.havoc(st)
            hs = s.get('h') or []
            for h in hs if isinstance(hs, list) else [hs]:
                b = h.get('b') if isinstance(h, dict) and 'b' in h else h
                body = join(body, self.stmt(b, st.copy()))
            self.guards.pop()
            return body
        if k in ('var', 'call', 'asg', 'un', 'bin', 'ctor', 'mem', 'cast', 'lambda', 'new', 'cond', 'sub'):
            return self.expr(s, st)
        # anything else (switch, goto): what is written inside is unknown, what is used inside is guarded by unknown tests
        w = Writes(self)
        w.see(s)
        w.havoc(st)
        self.guards.append({'*'})
        self.loops.append({'break': [], 'continue': []})
        for key in ('c', 'b', 'a', 'x', 'init'):
            if isinstance(s.get(key), (dict, list)):
                y = s[key]
                for z in y if isinstance(y, list) else [y]:
                    if isinstance(z, dict):
                        self.stmt(z, st.copy())
        self.loops.pop()
        self.guards.pop()
        return st

    def declare(self, v, st):
        i = v.get('i')
        if st is None:
            return None
        if 'id' not in v:
            return self.expr(i, st)
        t = astq.typ(self.f, v.get('t'))
        p = 'v%s' % v['id']
        self.env.pop(v['id'], None)
        self.forget(st, p)
        if i is None:
            return st
        b = bare(i)
        while isinstance(b, dict) and b['k'] == 'ctor' and len(b.get('a', [])) == 1 and bare(b['a'][0]).get('k') == 'lambda':
            b = bare(b['a'][0])
        if isinstance(b, dict) and b['k'] == 'lambda':
            self.lambdas[p] = b
            return self.expr(i, st)
        st = self.expr(i, st)
        if st is None:
            return None
        self.note(p, i)
        if t.get('k') == 'ref':
            q = self.path(i)
            if q:
                self.env[v['id']] = q
                return st
            t = astq.typ(self.f, t['to'])
        if is_seq(t):
            self.place(st, p, i)
            return st
        if t.get('k') == 'int':
            r = self.lin(i)
            if r:
                self.setlin(st, p, r)
            return st
        if t.get('k') == 'bool':
            st.b[p] = i
            return st
        it = self.iter(i)
        if it:
            if not hasattr(self, 'iters'):
                self.iters = {}
            self.iters[p] = it
        return st

    def loop(self, s, st):
        k = s['k']
        self.loops.append({'break': [], 'continue': []})
        g = len(self.guards)
        if k == 'range':
            st = self.expr(s.get('x'), st)
        elif k == 'for':
            st = self.stmt(s.get('init'), st)
        if st is None:
            self.loops.pop()
            return None
        w = Writes(self)
        w.see(s.get('b'))
        if k != 'range':
            w.see(s.get('inc'))
            w.see(s.get('c'))
        head = st.copy()
        if k == 'do':
            first = self.quiet(s.get('b'), st.copy())
        w.havoc(head)
        after = head.copy()
        c = s.get('c') if k != 'range' else None
        body = head
        if k in ('for', 'while') and c is not None:
            body = self.expr(c, body)
            body = self.refine(body, c, True) if body is not None else None
            self.guards.append(self.opaque(c))
            after = self.refine(after, c, False)
        elif k == 'for':
            after = None
        elif k == 'range':
            q = self.path(s.get('x'))
            if q and is_seq(astq.typ(self.f, bare(s['x']).get('t'))) and body is not None:
                if not body.add('0', '#' + q, -1):
                    body = None
            v = s.get('v')
            if isinstance(v, dict) and 'id' in v:
                self.note('v%s' % v['id'], s.get('x'))
                self.env.pop(v['id'], None)
                t = astq.typ(self.f, v.get('t'))
                if body is not None:
                    self.forget(body, 'v%s' % v['id'])
        if k == 'do':
            body = head
        n = len(self.use)
        end = self.stmt(s.get('b'), body)
        L = self.loops.pop()
        if k == 'for':
            e2 = end
            for z in L['continue']:
                e2 = join(e2, z)
            self.expr(s.get('inc'), e2.copy() if e2 else None)
        del self.guards[g:]
        if k == 'do':
            for z in L['continue']:
                end = join(end, z)
            if end is not None:
                end = self.expr(c, end)
                after = self.refine(end.copy(), c, False)
            else:
                after = None
        for z in L['break']:
            after = join(after, z)
        return after

    def quiet(self, s, st):
        return st


class Sub(Walk):
    """A one-line test of another function, read with its arguments in place."""

    def __init__(self, W, g, c):
        self.A, self.P, self.f = W.A, W.P, g
        self.depth = W.depth + 1
        self.env = {}
        self.guards, self.derived, self.lambdas, self.loops, self.exits = [], {}, {}, [], []
        self.use, self.calls = [], []
        self.relate = W.relate
        self.lins = {}
        o, a = c.get('o'), c.get('a', [])
        for p, y in zip(g.j.get('params', []), a):
            if 'id' in p:
                q = W.path(y)
                v = W.lin(y)
                self.env[p['id']] = q or 'w%s' % p['id']
                if v:
                    self.lins[p['id']] = v

    def lin(self, x):
        b = bare(x)
        if isinstance(b, dict) and b['k'] == 'var' and b.get('id') in self.lins:
            return self.lins[b['id']]
        return Walk.lin(self, x)


class Writes:
    """What a loop body may change, and in which direction."""

    def __init__(self, W):
        self.W = W
        self.up, self.down, self.any = set(), set(), set()       # integer places
        self.grow, self.seq, self.elem = set(), set(), set()     # sequences
        self.all_members = False
        self.fields = set()
        self.certain = set()        # sequences that grow without a test

    def see(self, body):
        W = self.W
        skips = []
        astq.walk(body, lambda n, up: skips.append(n) if n['k'] in ('continue', 'break', 'ret', 'throw') else None)

        def place(x, kind):
            p = W.path(x)
            if p is None:
                return
            if is_seq(astq.typ(W.f, bare(x).get('t'))):
                {'grow': self.grow, 'set': self.seq}[kind].add(p)
            else:
                self.any.add(p)

        def one(n, up):
            k = n['k']
            if k == 'un' and n.get('op') in ('++', '--'):
                p = W.path(n['x'])
                if p:
                    (self.up if n['op'] == '++' else self.down).add(p)
            elif k == 'asg':
                p = W.path(n['x'])
                v = W.lin(n['y'])
                if p:
                    W.note(('.' + p.split('.')[-1]) if '.' in p else p.split('[')[0], n['y'])
                    for z in up:
                        if z['k'] == 'if':
                            W.derived.setdefault(('.' + p.split('.')[-1]) if '.' in p else p.split('[')[0], set()).update(W.names(z['c']))
                    if n.get('op') in ('+=', '-=') and v and v[0] == '0':
                        (self.up if (v[1] >= 0) == (n['op'] == '+=') else self.down).add(p)
                    else:
                        self.any.add(p)
            elif k == 'decl':
                for v in n['a']:
                    if 'id' in v:
                        self.any.add('v%s' % v['id'])
            elif k in ('call', 'ctor'):
                e = astq.callee(W.f, n)
                if e is None:
                    return
                o, a = n.get('o'), n.get('a', [])
                if o is None and n.get('op') and e.get('m') in ('n', 'c') and a:
                    o, a = a[0], a[1:]
                if e.get('repo'):
                    for u in W.A.E.may_run(n, e):
                        if u not in W.A.E.sets:
                            self.all_members = True
                            for y in a:
                                place(y, 'set')
                            continue
                        for r in W.A.E.sets[u]:
                            if r[0] == 'F':
                                self.fields.add('.' + r[2])
                                if len(r) > 3 and r[3]:
                                    self.fields.add('.' + r[3])
                            elif r[0] == 'T':
                                self.all_members = True
                            elif r[0] == 'P' and r[1] < len(a):
                                place(a[r[1]], 'set')
                    return
                if k == 'ctor':
                    return
                if o is not None and is_seq(astq.typ(W.f, bare(o).get('t'))):
                    if e['n'] in GROW:
                        place(o, 'grow')
                        if not skips and not any(z['k'] in ('if', 'cond', 'switch') for z in up):
                            self.certain.add(W.path(o))
                    elif e['n'] not in KEEP:
                        place(o, 'set')
                        for y in a if e['n'] == 'swap' else ():
                            place(y, 'set')
                    return
                if e['n'] == 'operator=' and o is not None:
                    place(o, 'set')
                elif e['n'] not in ORDER:
                    for y in a:
                        if '(const' not in str(e.get('p', '')):
                            b = bare(y)
                            if isinstance(b, dict) and is_seq(astq.typ(W.f, b.get('t'))):
                                place(y, 'set')
        astq.walk(body, one)

    def havoc(self, st):
        W = self.W
        if self.all_members:
            W.forget_members(st)
        for r in self.fields:
            W.forget(st, r)
        for p in self.seq:
            W.write_seq(st, p)
        for p in self.grow - self.seq:
            low = st.lb('#' + p)
            keep = [(k[0], c) for k, c in st.d.items() if k[1] == '#' + p]
            W.kill(st, '#' + p)
            for q, c in keep:
                st.add(q, '#' + p, c)
            if low > 0:
                st.add('0', '#' + p, -low)
            if p in self.certain or st.o.get(p) != ('grown',):
                st.o.pop(p, None)
        for p in self.any | (self.up & self.down):
            if '[' in p or '<' in p:
                W.write(st, p)
            else:
                W.forget(st, ('.' + p.split('.')[-1]) if '.' in p else p)
        for p in (self.up | self.down) - self.any - (self.up & self.down):
            up = p in self.up
            keep = [(k, c) for k, c in st.d.items() if k[1 if up else 0] == p]
            low = -st.ub('0', p) if up else st.ub(p, '0')
            W.kill(st, p)
            W.unindex(st, p)
            for k, c in keep:
                st.add(k[0], k[1], c)
            if up and low > -INF:
                st.add('0', p, -low)
            if not up and low < INF:
                st.add(p, '0', low)


class Analysis:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self._w, self._least, self._out = {}, {}, {}

    def walk(self, f):
        w = self._w.get(f.usr)
        if w is None:
            self._w[f.usr] = False
            w = self._w[f.usr] = Walk(self, f)
        return w

    def least_of(self, W, x, e):
        low = None
        for u in self.E.may_run(x, e):
            v = self.least(u)
            if v is None:
                return None
            low = v if low is None else min(low, v)
        return low

    def least(self, u):
        """Least number of elements a function returns; None when that is not a fixed number some path returns."""
        if u in self._least:
            return self._least[u]
        self._least[u] = None
        f = self.P.fns.get(u)
        if f is None or f.j.get('body') is None:
            self._least[u] = None
            return None
        rt = astq.typ(f, f.j.get('rt')) if f.j.get('rt') is not None else {}
        if rt.get('k') == 'ref':
            self._least[u] = None       # hands out something that exists
            return None
        if not is_seq(rt):
            self._least[u] = None
            return None
        w = self.walk(f)
        if not w:
            return None
        low = None
        for x, st in w.exits:
            if x is None:
                continue
            v = self.attained(w, x, st)
            if v is None:
                return None
            low = v if low is None else min(low, v)
        self._least[u] = low
        return low

    def attained(self, w, x, st):
        p = w.path(x)
        if p:
            org = st.o.get(p)
            n = None
        else:
            n, org = w.length(bare(x), st)
        if n is not None and n[0] == '0':
            return int(n[1])
        if org is None:
            return None
        if org[0] == 'call':
            return int(max(org[2], st.lb('#' + p))) if p else int(org[2])
        v = st.lb('#' + p) if p else 0
        return int(max(0, v))

    def least_out(self, u, i):
        """Least length of the sequence a function leaves in its i-th parameter; None: not known code."""
        if (u, i) in self._out:
            return self._out[u, i]
        self._out[u, i] = None
        f = self.P.fns.get(u)
        if f is None or f.j.get('body') is None:
            return None
        w = self.walk(f)
        if not w:
            return None
        ids = [p.get('id') for p in f.j.get('params', [])]
        if i >= len(ids) or ids[i] is None:
            return None
        low = None
        for x, st in w.exits:
            p = 'v%s' % ids[i]
            if st.o.get(p) is None:
                return None
            v = int(max(0, st.lb('#' + p)))
            low = v if low is None else min(low, v)
        self._out[u, i] = low
        return low
