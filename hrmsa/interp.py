"""Random interpretation of canonical terms.

Two canonical terms that are not the same object may still denote the same value
(the normal form is not complete), so a mismatch alone is no verdict.  Following
Gulwani and Necula's random interpretation, both terms are read in the same
randomly chosen model of the term algebra: arithmetic, lists, records, matrices,
loops and conditions have their own meaning, every opaque function is an
arbitrary (congruent) function.  Terms that are equal in all models agree in
every sample, so a sample that separates them refutes their equality; samples
that never separate them settle nothing.  Only terms are interpreted: no code
of the repository runs.
"""
import functools
import hashlib
import json
import math
import os
import random
import re
import select
import signal
import time
from fractions import Fraction

from . import terms as TM
from .terms import T


class Stuck(Exception):
    """This sample cannot be completed (unknown construct, too long)."""


class Outside(Exception):
    """An element outside of its list was needed."""


class O:
    """Opaque value known by its key only."""
    __slots__ = ('k', 'i', 'n', 'name', 'd')

    def __init__(self, k, isint=False, nonneg=False, name=''):
        self.k = k
        self.i = isint
        self.n = nonneg
        self.name = name
        self.d = None


class R:
    """Record: fields written over a base value."""
    __slots__ = ('b', 'f')

    def __init__(self, b, f):
        self.b = b
        self.f = f


class M:
    """Matrix with known dimensions (None: not known), entries on demand."""
    __slots__ = ('r', 'c', 'f', 'm', 'out')

    def __init__(self, r, c, f):
        self.r = r
        self.c = c
        self.f = f
        self.m = {}
        self.out = ()

    def at(self, i, j):
        v = self.m.get((i, j))
        if v is None:
            if i < 0 or j < 0 or self.r is not None and i >= self.r or self.c is not None and j >= self.c:
                raise Outside()
            m = CURRENT[0]
            was, m.outside = m.outside, False
            try:
                v = self.f(i, j)
            finally:
                if m.outside:
                    self.out = self.out + ((i, j),)
                m.outside |= was
            self.m[i, j] = v
        elif self.out and (i, j) in self.out:
            CURRENT[0].outside = True
        return v


class S:
    """Symbolic constant."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


UNDEF = S('undef')
OLIST = object()
CURRENT = [None]
ARRAYS = ('colplus', 'ewabs', 'ewsin', 'ewcos', 'ewsign', 'ewsqrt', 'ewsquare')

SCALAR = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp}


def isnum(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)


def hsh(*a):
    return int.from_bytes(hashlib.blake2b('|'.join(map(str, a)).encode(), digest_size=7).digest(), 'big')


class Model:
    def __init__(self, seed, size=3, reals='rat', budget=120000, complete=frozenset(), sizes=None, over=None):
        self.seed = seed
        self.over = over or {}
        self.touched = {}
        self.taken = set()
        self.N = size
        self.reals = reals
        self.outside = False
        self.tainted = set()
        CURRENT[0] = self
        self.budget = budget
        self.memo = {}
        self.env = {}
        self.stamp = 0
        self.keys = {}
        self.fb = {}
        self.sargs = None
        self.keep = []
        self.complete = complete
        self.unset = False
        self.sizes = dict(sizes or {})
        self.rows = {}
        self.wanted = {}

    # ------------------------------------------------------------ opaque values
    def h(self, o, what=''):
        return hsh(self.seed, o.k, what)

    def num(self, v):
        if isinstance(v, bool):
            return 1 if v else 0
        if isnum(v):
            return v
        if isinstance(v, O):
            if v.k in self.over:
                return self.over[v.k]
            n = v.name
            if v.i and ('num' in n or 'Num' in n):
                return self.N
            r = self.given(v, n)
            self.touched[v.k] = (v, r)
            return r
        return self.num1(v)

    def given(self, v, n):
        x = self.h(v)
        if v.i:
            k = x % (self.N + 1) if self.reals in ('small', 'mix') else x % max(self.N, 1)
            return k if v.n or x % 5 else -k
        if self.reals == 'small':
            r = x % 5 - (0 if v.n else 2)
            return r
        if self.reals == 'tiny':
            return x % 2 if v.n or x & 1 << 20 else -(x % 2)
        if self.reals == 'index':
            # every number can be a position
            return x % min(self.N, 3)
        if self.reals == 'micro':
            r = Fraction(x % 97 + 1, 8192)
            return r if v.n or x & 1 << 20 else -r
        if self.reals == 'huge':
            r = (x % 1021 + 1) * 64
            return r if v.n or x & 1 << 20 else -r
        if self.reals == 'mix':
            # values that often coincide or differ by orders of magnitude
            r = (0, 1, 1, 2, Fraction(1, 64), Fraction(x % 1021 + 1, 256), Fraction(x % 97 + 1, 98), 100)[x % 8]
            return r if v.n or x & 1 << 20 else -r
        if self.reals == 'holes':
            # one kind of quantity is often zero, the others are not
            if hsh(self.seed, 'hole', re.sub(r'[0-9]+', '', n)) % 3 == 0 and x % 7 < 4:
                return 0
            r = Fraction(x % 1021 + 1, 256)
            return r if v.n else r - 2
        if self.reals == 'unit':
            r = Fraction(x % 97 + 1, 98)
            return r if v.n or x & 1 << 20 else -r
        r = Fraction(x % 1021 + 1, 256)
        return r if v.n else r - 2

    def num1(self, v):
        if v is UNDEF:
            return Fraction(hsh(self.seed, 'undef') % 101, 7)
        if isinstance(v, M) and v.r == 1 and v.c == 1:
            return self.num(v.at(0, 0))
        if isinstance(v, S):
            return Fraction(hsh(self.seed, v.k) % 1021, 256)
        return Fraction(hsh(self.seed, self.key(v)) % 1021, 256)

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isnum(v):
            return v != 0
        if isinstance(v, O):
            if v.i:
                return self.num(v) != 0
            if v.k in self.over:
                return bool(self.over[v.k])
            # as often true as false, or mostly one of them
            r = self.h(v, 'b') >> 3 & 15 < (8, 14, 8, 2)[(self.seed * 7 + self.seed // 100) % 4]
            self.touched[v.k] = (v, r)
            return r
        if v is UNDEF:
            raise Stuck('truth of an unset value')
        return bool(hsh(self.seed, self.key(v), 'b') >> 3 & 1)

    def size(self, v):
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, O):
            if v.k in self.sizes:
                return self.sizes[v.k]
            if self.reals == 'ragged':
                return self.h(v, 'n') % (self.N + 1)
            return self.N
        if isinstance(v, R):
            return self.size(v.b)
        if isinstance(v, M):
            r, c = self.dims(v)
            return r * c
        if v is UNDEF:
            return 0
        raise Stuck('size of %s' % type(v).__name__)

    def sub(self, v, what, t=None, name=''):
        r = O(hsh(self.key(v), what), t is not None and t.isint, t is not None and t.nonneg, name)
        if isinstance(v, O) and v.k in self.rows and what.startswith('#'):
            self.sizes.setdefault(r.k, self.rows[v.k])
        return r

    def index(self, v, i, t=None):
        if isinstance(i, tuple) and i and i[0] == 'ij':
            return self.at(v, i[1], i[2], t)
        if isinstance(i, tuple):
            return self.block(v, i)
        k = self.num(i)
        if isinstance(k, float):
            k = round(k)
        if isinstance(k, Fraction) and k.denominator != 1:
            raise Stuck('fractional index')
        k = int(k)
        if isinstance(v, tuple):
            if 0 <= k < len(v):
                return v[k]
            return self.beyond(v, k, t)
        if isinstance(v, M):
            try:
                return v.at(k, 0) if v.c == 1 else v.at(0, k) if v.r == 1 else v.at(k, 0)
            except Outside:
                return self.beyond(v, k, t)
        if isinstance(v, R):
            return self.index(v.b, k, t)
        if isinstance(v, O):
            if not 0 <= k < self.size(v):
                self.miss(v, k)
            return self.sub(v, '#%d' % k, t)
        if v is UNDEF:
            return UNDEF
        return self.sub(v, '#%d' % k, t)

    def miss(self, v, k):
        """A given list is read where it does not reach: it has to be longer."""
        self.outside = True
        if 0 <= k < 25:
            self.wanted[v.k] = max(self.wanted.get(v.k, 0), k + 1)

    def beyond(self, v, k, t):
        self.outside = True
        return self.sub(v, '#%d' % k, t)

    def at(self, v, i, j, t=None):
        i, j = int(self.num(i)), int(self.num(j))
        if isinstance(v, M):
            try:
                return v.at(i, j)
            except Outside:
                return self.beyond(v, '%d,%d' % (i, j), t)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, tuple):
            return self.index(v, i + j, t)
        if isinstance(v, R):
            return self.at(v.b, i, j, t)
        return self.sub(v, '#%d' % i if j == 0 else '@%d,%d' % (i, j), t)

    def block(self, v, g):
        m = self.mat(v)
        if g[0] == 'seg':
            o, n = int(self.num(g[1])), int(self.num(g[2]))
            if m.c == 1 or m.c is None:
                return M(n, 1, lambda i, j: m.at(o + i, 0))
            return M(1, n, lambda i, j: m.at(0, o + j))
        if g[0] == 'row':
            o = int(self.num(g[1]))
            return M(1, m.c, lambda i, j: m.at(o, j))
        if g[0] == 'col':
            o = int(self.num(g[1]))
            return M(m.r, 1, lambda i, j: m.at(i, o))
        if g[0] == 'blk':
            a, b, r, c = [int(self.num(x)) for x in g[1:5]]
            return M(r, c, lambda i, j: m.at(a + i, b + j))
        raise Stuck('block %s' % (g[0],))

    def field(self, v, name, t=None):
        if isinstance(v, R):
            if name in v.f:
                return v.f[name]
            return self.field(v.b, name, t)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, O) and v.name.startswith('in:'):
            return O(hsh('in', v.name[3:], name), t is not None and t.isint, t is not None and t.nonneg,
                     v.name + '.' + name)
        if name == 'end_' and isinstance(v, O):
            # an interval starts before it ends
            s = self.num(self.field(v, 'start_', t))
            return s + abs(self.num(self.sub(v, '.' + name, t, name)) - s)
        return self.sub(v, '.' + name, t, name)

    def tolist(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, O):
            return tuple(self.sub(v, '#%d' % k) for k in range(self.size(v)))
        if v is UNDEF:
            return ()
        if isinstance(v, M) and (v.r == 1 or v.c == 1):
            n = v.r if v.c == 1 else v.c
            return tuple(self.index(v, k) for k in range(n))
        raise Stuck('list of %s' % type(v).__name__)

    # ------------------------------------------------------------ matrices
    def mat(self, v):
        if isinstance(v, M):
            return v
        if isinstance(v, tuple):
            return M(len(v), 1, lambda i, j: v[i])
        if isinstance(v, O):
            r, c = v.d or (None, None)
            return M(r, c, lambda i, j: self.sub(v, '#%d' % i if j == 0 else '@%d,%d' % (i, j)))
        if isinstance(v, R):
            return self.mat(v.b)
        raise Stuck('matrix of %s' % type(v).__name__)

    def dims(self, m):
        return (m.r if m.r is not None else self.N, m.c if m.c is not None else self.N)

    def madd(self, a, b):
        r = a.r if a.r is not None else b.r
        c = a.c if a.c is not None else b.c
        if a.r is not None and b.r is not None and a.r != b.r or a.c is not None and b.c is not None and a.c != b.c:
            self.outside = True
            raise Stuck('sizes of a matrix sum')
        return M(r, c, lambda i, j: self.plus(a.at(i, j), b.at(i, j)))

    def plus(self, x, y):
        return self.num(x) + self.num(y)

    def mscale(self, s, a):
        return M(a.r, a.c, lambda i, j: s * self.num(a.at(i, j)))

    def mmul(self, a, b):
        n = a.c if a.c is not None else b.r
        if n is None or (b.r is not None and b.r != n):
            raise Stuck('sizes of a matrix product')
        return M(a.r, b.c, lambda i, j: sum(self.num(a.at(i, k)) * self.num(b.at(k, j)) for k in range(n)))

    def emap(self, f, *ms):
        ms = [self.mat(m) for m in ms]
        r = next((m.r for m in ms if m.r is not None), None)
        c = next((m.c for m in ms if m.c is not None), None)
        return M(r, c, lambda i, j: f(*[self.num(m.at(i, j)) for m in ms]))

    def entries(self, v):
        m = self.mat(v)
        r, c = self.dims(m)
        return [self.num(m.at(i, j)) for i in range(r) for j in range(c)]

    def inverse(self, m):
        r, c = self.dims(m)
        if r != c or r > 4:
            raise Stuck('inverse')
        a = [[self.num(m.at(i, j)) for j in range(c)] + [1 if i == k else 0 for k in range(r)] for i in range(r)]
        for k in range(r):
            p = max(range(k, r), key=lambda i: abs(a[i][k]))
            if abs(a[p][k]) < 1e-9:
                raise Stuck('singular')
            a[k], a[p] = a[p], a[k]
            d = a[k][k]
            a[k] = [div(x, d) for x in a[k]]
            for i in range(r):
                if i != k and a[i][k] != 0:
                    g = a[i][k]
                    a[i] = [x - g * y for x, y in zip(a[i], a[k])]
        return M(r, r, lambda i, j: a[i][r + j])

    def det(self, m):
        r, c = self.dims(m)
        if r != c or r > 4:
            raise Stuck('determinant')
        a = [[self.num(m.at(i, j)) for j in range(c)] for i in range(r)]

        def d(a):
            if len(a) == 1:
                return a[0][0]
            return sum((-1) ** k * a[0][k] * d([x[:k] + x[k + 1:] for x in a[1:]]) for k in range(len(a)))
        return d(a)

    # ------------------------------------------------------------ quaternions
    def q(self, v):
        return [self.num(self.field(v, n)) for n in 'wxyz']

    def mkq(self, w, x, y, z):
        return R(UNDEF, {'w': w, 'x': x, 'y': y, 'z': z})

    def rotmat(self, v):
        w, x, y, z = self.q(v)
        e = [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
             2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
             2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]
        return M(3, 3, lambda i, j: e[3 * i + j])

    # ------------------------------------------------------------ identity
    def key(self, v):
        """Congruence key: equal values have equal keys."""
        if isinstance(v, bool):
            return 'n%d' % v
        if isinstance(v, int):
            return 'n%d' % v
        if isinstance(v, Fraction):
            return 'n%d' % v.numerator if v.denominator == 1 else 'f%.9g' % float(v)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return 'f' + repr(v)
            if abs(v - round(v)) < 1e-9 and abs(v) < 1e15:
                return 'n%d' % round(v)
            return 'f%.9g' % v
        if isinstance(v, O):
            return v.k
        if isinstance(v, S):
            if v is UNDEF:
                self.unset = True
            return v.k
        k = self.keys.get(id(v))
        if k is not None:
            if id(v) in self.tainted:
                self.outside = True
            return k
        was, self.outside = self.outside, False
        try:
            k = self.key1(v)
        finally:
            out = self.outside
            self.outside |= was
        if out:
            self.tainted.add(id(v))
        self.keys[id(v)] = k
        self.keep.append(v)
        return k

    def key1(self, v):
        if isinstance(v, tuple):
            k = hsh('list', *[self.key(x) for x in v])
        elif isinstance(v, R):
            f = {n: self.key(x) for n, x in v.f.items()}
            b = v.b
            while isinstance(b, R):
                for n, x in b.f.items():
                    if n not in f:
                        f[n] = self.key(x)
                b = b.b
            if frozenset(f) in self.complete:
                b = UNDEF
            if b is not UNDEF:
                for n in list(f):
                    if f[n] == self.key(self.field(b, n)):
                        del f[n]
            if not f:
                k = self.key(b)
            else:
                k = hsh('rec', '-' if b is UNDEF else self.key(b), *['%s=%s' % (n, f[n]) for n in sorted(f)])
        elif isinstance(v, M):
            r, c = self.dims(v)
            try:
                k = hsh('mat', v.r, v.c, *[self.key(v.at(i, j)) for i in range(r) for j in range(c)])
            except Outside:
                raise Stuck('matrix entry')
        else:
            raise Stuck('key')
        return k

    def same(self, a, b, path=()):
        """None when equal, else the path to a difference."""
        if a is b:
            return None
        if a is UNDEF:
            return None
        if b is UNDEF:
            return path, a, b
        if isinstance(a, bool) and isinstance(b, bool):
            return None if a == b else (path, a, b)
        if isnum(a) or isnum(b) or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (tuple, R)) or isinstance(b, (tuple, R)):
                raise Stuck('values of different kind')
            if isinstance(a, M) and (a.r != 1 or a.c != 1) or isinstance(b, M) and (b.r != 1 or b.c != 1):
                raise Stuck('values of different kind')
            return None if near(self.num(a), self.num(b)) else (path, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, M) or isinstance(b, M):
                m, v = (a, b) if isinstance(a, M) else (b, a)
                if not isinstance(v, tuple):
                    raise Stuck('values of different kind')
                if m.r is not None and m.c is not None and m.r * m.c != len(v):
                    return path + ('length',), a, b
                for i, x in enumerate(v):
                    d = self.same(self.index(m, i), x, path + (i,))
                    if d:
                        return d
                return None
            n1, n2 = self.size(a), self.size(b)
            if n1 != n2:
                return path + ('length',), n1, n2
            for i in range(n1):
                d = self.same(self.index(a, i), self.index(b, i), path + (i,))
                if d:
                    return d
            return None
        if isinstance(a, R) or isinstance(b, R):
            f = set()
            for x in (a, b):
                while isinstance(x, R):
                    f |= set(x.f)
                    x = x.b
            for n in sorted(f):
                d = self.same(self.field(a, n), self.field(b, n), path + (n,))
                if d:
                    return d
            while isinstance(a, R):
                a = a.b
            while isinstance(b, R):
                b = b.b
            if frozenset(f) in self.complete:
                return None
            return self.same(a, b, path)
        if isinstance(a, M) or isinstance(b, M):
            a, b = self.mat(a), self.mat(b)
            for x, y in ((a.r, b.r), (a.c, b.c)):
                if x is not None and y is not None and x != y:
                    return path + ('dimension',), x, y
            r = a.r if a.r is not None else b.r if b.r is not None else self.N
            c = a.c if a.c is not None else b.c if b.c is not None else self.N
            for i in range(r):
                for j in range(c):
                    d = self.same(a.at(i, j), b.at(i, j), path + ((i, j),))
                    if d:
                        return d
            return None
        if self.key(a) == self.key(b):
            return None
        return path, a, b

    # ------------------------------------------------------------ terms
    def frees(self, t):
        r = self.fb.get(t)
        if r is None:
            op = t.op
            if op == 'bv':
                r = frozenset([t.args[0]])
            elif op == 'bphi':
                r = frozenset([t.args[0]])
            elif op in TM.BINDERS:
                h = TM._bh(t)
                r = frozenset()
                outer = set(map(id, TM._outer(t)))
                for c in TM._walk_direct(t.args):
                    f = self.frees(c)
                    r = r | (f if id(c) in outer else f - {h})
            else:
                r = frozenset()
                for c in TM._walk_direct(t.args):
                    f = self.frees(c)
                    if f:
                        r = r | f
            if op == 'sarg':
                r = r | {'s'}
            self.fb[t] = r
        return r

    def ev(self, t):
        f = self.frees(t)
        if f:
            k = (t,) + tuple(sorted((str(h), self.env[h][2] if h in self.env else -1) for h in f))
        else:
            k = t
        v = self.memo.get(k)
        if v is None:
            self.budget -= 1
            if self.budget < 0:
                raise Stuck('too long')
            was, self.outside = self.outside, False
            try:
                v = self.ev1(t)
            finally:
                if self.outside:
                    self.tainted.add(k)
                self.outside |= was
            if isinstance(v, O) and t in TM.DIMS:
                v.d = TM.DIMS[t]
            self.memo[k] = v
        elif k in self.tainted:
            self.outside = True
        return v

    def bound(self, h, lv, phis=()):
        self.stamp += 1
        old = self.env.get(h)
        self.env[h] = (lv, phis, self.stamp)
        return old

    def restore(self, h, old):
        if old is None:
            self.env.pop(h, None)
        else:
            self.env[h] = old

    def count(self, n):
        c = self.num(self.ev(n))
        if isinstance(c, float):
            c = math.floor(c + 1e-9)
        c = math.ceil(c) if isinstance(c, Fraction) else c
        if c > max(40, self.N + 4):
            raise Stuck('long loop')
        return max(c, 0)

    def ev1(self, t):
        op = t.op
        m = getattr(self, 'x_' + op, None)
        if m is None:
            raise Stuck('construct %s' % op)
        return m(t)

    def x_num(self, t):
        return t.args[0]

    def x_b(self, t):
        return bool(t.args[0])

    def x_in(self, t):
        p = t.args[0]
        return O(hsh('in', *p), t.isint, t.nonneg, 'in:' + '|'.join(map(str, p)))

    def x_undef(self, t):
        return UNDEF

    def x_null(self, t):
        return S('null')

    def x_void(self, t):
        return S('void')

    def x_str(self, t):
        return S('str:%s' % (t.args[0],))

    def x_enum(self, t):
        return S('enum:%s' % (t.args,))

    def x_ptr(self, t):
        return S('ptr:%s' % hsh(*[self.part(a) for a in t.args]))

    def x_unk(self, t):
        raise Stuck('construct not understood: %s' % (t.args[:1],))

    x_havoc = x_unk

    def x_oob(self, t):
        self.outside = True
        return self.sub(self.ev(t.args[0]), '#%s' % (self.key(self.ev(t.args[1])),), t)

    def x_bv(self, t):
        return self.env[t.args[0]][0]

    def x_bphi(self, t):
        return self.env[t.args[0]][1][t.args[1]]

    def x_sarg(self, t):
        return self.sargs[t.args[0]]

    def x_poly(self, t):
        s = 0
        ms = None
        mons = []
        vec = False
        for mon, c in TM.topoly(t).items():
            fs = [(self.ev(a.args[0]) if a.op == 'den' else self.ev(a), e) for a, e in mon]
            mons.append((fs, c))
            vec = vec or any(isinstance(v, tuple) or isinstance(v, M) and not (v.r == 1 and v.c == 1) or
                             isinstance(v, O) and v.d is not None for v, e in fs)
        for fs, c in mons:
            p = c
            mt = None
            plain = all(isnum(v) or isinstance(v, O) and v.i and v.d is None for v, e in fs)
            if vec and not plain and not any(isinstance(v, (M, tuple)) for v, e in fs):
                # one of the opaque factors is a vector too
                os_ = [k for k, (v, e) in enumerate(fs) if isinstance(v, (O, R)) and e == 1]
                if len(os_) != 1:
                    raise Stuck('sum of a vector and an opaque value')
                k = os_[0]
                fs[k] = (self.mat(fs[k][0]), 1)
            for v, e in fs:
                if isinstance(v, M) and not (v.r == 1 and v.c == 1) or isinstance(v, tuple):
                    if mt is not None or e != 1:
                        raise Stuck('product of vectors')
                    mt = self.mat(v)
                    continue
                x = self.num(v)
                if e < 0 and x == 0 or e < 0 and isinstance(x, float) and abs(x) < 1e-12:
                    raise Stuck('division by zero')
                if isinstance(x, float) or isinstance(p, float):
                    try:
                        p = float(p) * float(x) ** e
                    except OverflowError:
                        raise Stuck('overflow')
                else:
                    p = p * (Fraction(x) ** e)
            if mt is not None:
                q = self.mscale(p, mt) if p != 1 else mt
                ms = q if ms is None else self.madd(ms, q)
            else:
                s = s + p
        if ms is not None:
            if s != 0:
                # a number is added to every entry of an array
                k = s
                return M(ms.r, ms.c, lambda i, j: self.plus(k, ms.at(i, j)))
            return ms
        if isinstance(s, Fraction) and s.denominator == 1:
            s = int(s)
        return s

    def x_lt0(self, t):
        v = self.ev(t.args[0])
        v = self.num(v)
        r = v < -1e-9 if isinstance(v, float) else v < 0
        self.taken.add((t, r))
        return r

    def x_eq0(self, t):
        v = self.num(self.ev(t.args[0]))
        r = abs(v) <= 1e-9 if isinstance(v, float) else v == 0
        self.taken.add((t, r))
        return r

    def x_eq(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, O) or isinstance(b, O):
                return hsh(self.seed, *sorted(map(str, (self.key(a), self.key(b))))) % 3 == 0
        return self.same(a, b) is None

    def x_atom(self, t):
        r = self.boolean(self.ev(t.args[0]))
        self.taken.add((t, r))
        return r

    def x_ite(self, t):
        while t.op == 'ite':
            was, self.outside = self.outside, False
            why = None
            try:
                c = self.boolean(self.ev(t.args[0]))
            except Outside as e:
                why = e
            except Stuck as e:
                if str(e) != 'division by zero':
                    raise
                why = e
            if why is not None or self.outside:
                # the condition has no meaning here: it may still not matter
                self.outside = False
                try:
                    a = self.ev(t.args[1])
                    if self.key(a) == self.key(self.ev(t.args[2])):
                        self.outside |= was
                        return a
                except (Stuck, Outside):
                    pass
                if why is not None:
                    self.outside |= was
                    raise why
                self.outside = True
            self.outside |= was
            t = t.args[1] if c else t.args[2]
        return self.ev(t)

    def x_min(self, t):
        return self.extreme(t, min)

    def x_max(self, t):
        return self.extreme(t, max)

    def extreme(self, t, f):
        vs = [self.num(self.ev(a)) for a in t.args]
        r = f(vs)
        self.taken.add((t, vs.index(r)))
        return r

    def x_ij(self, t):
        return ('ij', self.num(self.ev(t.args[0])), self.num(self.ev(t.args[1])))

    def x_tag(self, t):
        return tuple(a if isinstance(a, str) else self.num(self.ev(a)) for a in t.args)

    def x_idx(self, t):
        return self.index(self.ev(t.args[0]), self.ev(t.args[1]), t)

    def x_fld(self, t):
        return self.field(self.ev(t.args[0]), t.args[1], t)

    def x_fset(self, t):
        f = {}
        while t.op == 'fset':
            f.setdefault(t.args[1], self.ev(t.args[2]))
            t = t.args[0]
        return R(self.ev(t), f)

    def x_size(self, t):
        return self.size(self.ev(t.args[0]))

    def x_seq(self, t):
        return tuple(self.ev(a) for a in t.args)

    def x_rep(self, t):
        n = self.count(t.args[0])
        return (self.ev(t.args[1]),) * n

    def x_cat(self, t):
        r = ()
        for a in t.args:
            r = r + self.tolist(self.ev(a))
            if len(r) > 3000:
                raise Stuck('long list')
        return r

    def x_rev(self, t):
        return tuple(reversed(self.tolist(self.ev(t.args[0]))))

    def x_bigcat(self, t):
        n, h, b = t.args
        r = []
        for i in range(self.count(n)):
            old = self.bound(h, i)
            try:
                r.extend(self.tolist(self.ev(b)))
            finally:
                self.restore(h, old)
        return tuple(r)

    def x_sum(self, t):
        n, h, b = t.args
        r = 0
        for i in range(self.count(n)):
            old = self.bound(h, i)
            try:
                r = r + self.num(self.ev(b))
            finally:
                self.restore(h, old)
        return r

    def x_ex(self, t):
        n, h, b = t.args
        for i in range(self.count(n)):
            old = self.bound(h, i)
            try:
                if self.boolean(self.ev(b)):
                    return True
            finally:
                self.restore(h, old)
        return False

    def x_first(self, t):
        n, h, s, b = t.args
        for i in range(self.count(n)):
            old = self.bound(h, i)
            try:
                if self.boolean(self.ev(s)):
                    return self.ev(b)
            finally:
                self.restore(h, old)
        return UNDEF

    def x_mapupd(self, t):
        base, n, h, pat, body = t.args
        v = self.ev(base)
        ups = []
        for i in range(self.count(n)):
            old = self.bound(h, i)
            try:
                ups.append((self.ev(pat), self.ev(body)))
            finally:
                self.restore(h, old)
        return self.store(v, ups)

    def x_set(self, t):
        return self.store(self.ev(t.args[0]), [(self.ev(t.args[1]), self.ev(t.args[2]))])

    def store(self, v, ups):
        if not ups:
            return v
        if any(isinstance(p, tuple) for p, _ in ups) or isinstance(v, M):
            m = self.mat(v) if v is not UNDEF else M(None, None, lambda i, j: UNDEF)
            for p, x in ups:
                m = self.mstore(m, p, x)
            return m
        l = list(self.tolist(v))
        for p, x in ups:
            k = self.num(p)
            if not 0 <= k < len(l):
                if isinstance(v, O):
                    self.miss(v, k)
                self.outside = True
                raise Stuck('write outside of a list')
            l[int(k)] = x
        return tuple(l)

    def mstore(self, m, p, x):
        if not isinstance(p, tuple):
            k = int(self.num(p))
            p = ('ij', 0, k) if m.r == 1 and m.c != 1 else ('ij', k, 0)
        if p[0] == 'ij':
            a, b = int(p[1]), int(p[2])
            if a < 0 or b < 0 or m.r is not None and a >= m.r or m.c is not None and b >= m.c:
                self.outside = True
                raise Stuck('write outside of a matrix')
            return M(m.r, m.c, lambda i, j: x if i == a and j == b else m.at(i, j))
        y = self.mat(x) if not isnum(x) else M(None, None, lambda i, j: x)
        if p[0] == 'row':
            a = int(p[1])
            return M(m.r, m.c, lambda i, j: (y.at(j, 0) if y.c == 1 and m.c != 1 else y.at(0, j)) if i == a else m.at(i, j))
        if p[0] == 'col':
            a = int(p[1])
            return M(m.r, m.c, lambda i, j: y.at(i, 0) if j == a else m.at(i, j))
        if p[0] == 'seg':
            a, n = int(p[1]), int(p[2])
            return M(m.r, m.c, lambda i, j: self.index(y, i + j - a) if a <= i + j < a + n else m.at(i, j))
        if p[0] == 'blk':
            a, b, r, c = [int(z) for z in p[1:5]]
            return M(m.r, m.c, lambda i, j: y.at(i - a, j - b) if a <= i < a + r and b <= j < b + c else m.at(i, j))
        raise Stuck('block')

    def x_mat(self, t):
        r, c = t.args[0], t.args[1]
        es = t.args[2:]
        return M(r, c, lambda i, j: self.ev(es[i * c + j])) if not self.frees(t) else self.fixed(r, c, [self.ev(e) for e in es])

    def fixed(self, r, c, es):
        return M(r, c, lambda i, j: es[i * c + j])

    def x_sort(self, t):
        l = self.tolist(self.ev(t.args[0]))
        c = t.args[1]

        def less(a, b):
            old, self.sargs = self.sargs, (a, b)
            o2 = self.bound('s', None)
            try:
                return self.boolean(self.ev(c))
            finally:
                self.sargs = old
                self.restore('s', o2)
        return tuple(sorted(l, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0)))

    def x_mu(self, t):
        n, h, cond, stop, eqs, on, os_ = t.args
        N = None if n is TM.NULL else self.count(n)
        phis = tuple(self.ev(i) for i, _ in eqs)
        k = 0
        while True:
            old = self.bound(h, k, phis)
            try:
                if N is not None and k >= N or not self.boolean(self.ev(cond)):
                    return self.ev(on)
                if self.boolean(self.ev(stop)):
                    return self.ev(os_)
                phis = tuple(self.ev(nx) for _, nx in eqs)
            finally:
                self.restore(h, old)
            k += 1
            if k > 60:
                raise Stuck('loop goes on')

    def x_obj(self, t):
        return S('obj:%s' % self.key(self.ev(t.args[0])))

    def x_callable(self, t):
        return S('callable:%s' % self.key(self.ev(t.args[0])))

    def x_st(self, t):
        return S('st:%s=%s' % (t.args[0], self.key(self.ev(t.args[1]))))

    def part(self, a):
        if isinstance(a, T):
            return self.key(self.ev(a))
        if isinstance(a, tuple):
            return '(' + ','.join(str(self.part(x)) for x in a) + ')'
        return str(a)

    def x_iter(self, t):
        return S('iter:%s' % hsh(*[self.part(a) for a in t.args]))

    def x_comma(self, t):
        return S('comma')

    # ------------------------------------------------------------ calls
    def vec(self, t):
        """A sum of opaque vectors where an array is expected."""
        if t.op != 'poly':
            return self.ev(t)
        r = None
        for mon, c in TM.topoly(t).items():
            v = self.ev(mon[0][0]) if len(mon) == 1 and mon[0][1] == 1 else None
            if not isinstance(v, (O, M, tuple)) or isinstance(v, O) and v.i:
                return self.ev(t)
            v = self.mscale(c, self.mat(v))
            r = v if r is None else self.madd(r, v)
        return r

    def x_call(self, t):
        name = t.args[0]
        f = CALLS.get(name)
        if f is not None:
            try:
                r = f(self, *[self.vec(a) if name in ARRAYS else self.ev(a) for a in t.args[1:]])
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                r = NotImplemented
            except Outside:
                raise Stuck('matrix entry')
            if r is not NotImplemented:
                return r
        ks = [self.part(a) for a in t.args[1:]]
        if name in TM.COMMUTATIVE:
            ks.sort(key=str)
        r = O(hsh('call', name, *ks), t.isint, t.nonneg, str(name))
        if name in TM.ROUNDS:
            # the length of such a list is known
            if r.k not in self.sizes:
                self.sizes[r.k] = min(int(self.num(self.ev(TM.ROUNDS[name][0](*t.args[1:])))), 64)
            row = TM.ROUNDS[name][1]
            if row is not None and r.k not in self.rows:
                self.rows[r.k] = min(int(self.num(self.ev(row(*t.args[1:])))), 64)
        return r


def div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    return Fraction(a) / b


def near(a, b):
    if a == b:
        return True
    a, b = float(a), float(b)
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def _f1(fn):
    def g(m, x):
        if isinstance(x, (M, tuple)):
            return NotImplemented
        return fn(float(m.num(x)))
    return g


def _abs(m, x):
    return NotImplemented if isinstance(x, (M, tuple)) else abs(m.num(x))


def _sqrt(m, x):
    v = m.num(x)
    if v < 0:
        return NotImplemented
    return math.sqrt(v)


def _pow(m, x, y):
    a, b = m.num(x), m.num(y)
    if a == 0 and b < 0 or a < 0 and b != int(b):
        return NotImplemented
    return float(a) ** float(b)


def _mmul(m, *xs):
    r = None
    for k, x in enumerate(xs):
        if isnum(x):
            # a plane rotation is represented by its angle
            x = _rot2(m, x)
        elif isinstance(x, O) and r is None and not any(isinstance(y, M) for y in xs):
            return NotImplemented
        x = m.mat(x)
        r = x if r is None else m.mmul(r, x)
    return r


def _rot2(m, a):
    v = m.num(a)
    c, s = math.cos(v), math.sin(v)
    e = [c, -s, s, c]
    return M(2, 2, lambda i, j: e[2 * i + j])


def _tr(m, x):
    if isinstance(x, O):
        return NotImplemented
    y = m.mat(x)
    return M(y.c, y.r, lambda i, j: y.at(j, i))


def _ew(f):
    def g(m, *xs):
        if isnum(xs[0]) and len(xs) == 1:
            return f(xs[0])
        if any(isinstance(x, O) for x in xs) and not any(isinstance(x, (M, tuple)) for x in xs):
            return NotImplemented
        return m.emap(f, *xs)
    return g


def _ewpow(m, x, y):
    if not isinstance(x, M):
        return NotImplemented
    p = m.num(y)

    def f(a):
        if a == 0 and p <= 0 or a < 0 and p != int(p):
            raise Stuck('power')
        return float(a) ** float(p)
    return m.emap(f, x)


def _norm(m, x):
    if isnum(x):
        return abs(x)
    if isinstance(x, O):
        return NotImplemented
    return math.sqrt(sum(float(e) ** 2 for e in m.entries(x)))


def _dot(m, x, y):
    if isnum(x) and isnum(y):
        return x * y
    if isinstance(x, O) and isinstance(y, O):
        return NotImplemented
    return sum(a * b for a, b in zip(m.entries(x), m.entries(y)))


def _cross(m, x, y):
    if not isinstance(x, M) and not isinstance(y, M):
        return NotImplemented
    a, b = [[m.num(m.index(z, k)) for k in range(3)] for z in (x, y)]
    e = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return M(3, 1, lambda i, j: e[i])


def _normalized(m, x):
    if not isinstance(x, M):
        return NotImplemented
    es = m.entries(x)
    n = math.sqrt(sum(float(e) ** 2 for e in es))
    if n < 1e-9:
        raise Stuck('normalisation')
    return M(x.r, x.c, lambda i, j: float(m.num(x.at(i, j))) / n)


def _umat(m, r, c):
    return M(int(m.num(r)), int(m.num(c)), lambda i, j: UNDEF)


def _spaced(m, *a):
    if len(a) != 3:
        return NotImplemented
    n, x, y = m.num(a[0]), m.num(a[1]), m.num(a[2])
    if not isnum(n) or n != int(n) or not 0 <= n <= 64:
        return NotImplemented
    n = int(n)
    return M(n, 1, lambda i, j: y if n == 1 else x + Fraction(i, n - 1) * (y - x) if not isinstance(y - x, float)
             else x + i * (y - x) / (n - 1))


def _constmat(m, *a):
    x = a[-1]
    if len(a) == 3:
        return M(int(m.num(a[0])), int(m.num(a[1])), lambda i, j: x)
    if len(a) == 2:
        return M(int(m.num(a[0])), 1, lambda i, j: x)
    return M(None, None, lambda i, j: x)


def _eye(m, *a):
    if len(a) == 2:
        return M(int(m.num(a[0])), int(m.num(a[1])), lambda i, j: 1 if i == j else 0)
    return M(None, None, lambda i, j: 1 if i == j else 0)


def _diag(m, *a):
    if len(a) == 1 and not isnum(a[0]):
        v = m.mat(a[0])
        n = v.r if v.c == 1 or v.c is None else v.c
        return M(n, n, lambda i, j: m.index(v, i) if i == j else 0)
    if len(a) >= 2:
        return M(len(a), len(a), lambda i, j: a[i] if i == j else 0)
    return NotImplemented


def _colplus(m, x, y):
    x, y = m.mat(x), m.mat(y)
    return M(x.r if x.r is not None else y.r, x.c, lambda i, j: m.plus(x.at(i, j), y.at(i, 0)))


def _colwise(m, x):
    return x


def _red(f):
    def g(m, x):
        if isinstance(x, O):
            return NotImplemented
        return f(m.entries(x))
    return g


def _seqred(f):
    def g(m, x):
        l = m.tolist(x)
        if not l:
            return NotImplemented
        return f(m.num(e) for e in l)
    return g


def _resize(m, x, k, v=None):
    l = m.tolist(x)
    n = int(m.num(k))
    if n > 60:
        raise Stuck('long list')
    return l[:n] + (v if v is not None else UNDEF,) * (n - len(l))


def _slice(m, x, a, b):
    l = m.tolist(x)
    a, b = int(m.num(a)), int(m.num(b))
    if not 0 <= a <= b <= len(l):
        m.outside = True
    return l[a:b]


def _insert(m, x, p, new):
    l = m.tolist(x)
    k = m.num(p)
    return l[:int(k)] + m.tolist(new) + l[int(k):]


def _erase(m, x, *ks):
    l = m.tolist(x)
    if len(ks) == 1:
        k = int(m.num(ks[0]))
        return l[:k] + l[k + 1:]
    a, b = [int(m.num(k)) for k in ks]
    return l[:a] + l[b:]


def _isnan(m, x):
    if isnum(x):
        return isinstance(x, float) and math.isnan(x)
    if isinstance(x, O):
        return m.h(x, 'nan') % 4 == 0
    return NotImplemented


def _mod(m, a, b):
    x, y = m.num(a), m.num(b)
    if isinstance(x, int) and isinstance(y, int) and y:
        return int(math.fmod(x, y))
    return NotImplemented


def _fill(m, *a):
    return M(len(a), 1, lambda i, j: a[i])


def _qmul(m, a, b):
    w1, x1, y1, z1 = m.q(a)
    w2, x2, y2, z2 = m.q(b)
    return m.mkq(w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                 w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2)


def _qinv(m, a):
    w, x, y, z = m.q(a)
    n = w * w + x * x + y * y + z * z
    if n == 0:
        raise Stuck('inverse')
    return m.mkq(div(w, n), div(-x, n), div(-y, n), div(-z, n))


def _trunc(m, x):
    return math.trunc(m.num(x))


def _atan2(m, y, x):
    a, b = float(m.num(y)), float(m.num(x))
    if abs(a) < 1e-9 and b < 0:
        raise Stuck('branch cut')
    return math.atan2(a, b)


def _acos(f):
    def g(m, x):
        v = float(m.num(x))
        if abs(v) > 1:
            return NotImplemented
        return f(v)
    return g


def _int(f):
    def g(m, x):
        return f(m.num(x))
    return g


def _idiv(m, a, b):
    x, y = m.num(a), m.num(b)
    if isinstance(x, int) and isinstance(y, int) and y:
        return int(x / y)
    return NotImplemented


def _svd(m, a):
    a = m.mat(a)
    return R(UNDEF, {'A': a, 'k': S('svd:%s' % m.key(a))})


def _svdpart(what, vec):
    def g(m, s):
        if not isinstance(s, R) or 'A' not in s.f:
            return NotImplemented
        n = m.dims(s.f['A'])[1 if what == 'matrixV' else 0]
        b = O(hsh('svd', what, s.f['k'].k), nonneg=bool(vec))
        return M(n, 1 if vec else n, lambda i, j: m.sub(b, '@%d,%d' % (i, j)) if not vec else O(hsh(b.k, i), False, True))
    return g


def _inv(m, x):
    if isnum(x):
        return _rot2(m, -x)
    return m.inverse(x) if isinstance(x, M) else NotImplemented


CALLS = {
    'idiv': _idiv, 'svd': _svd, 'svd.matrixU': _svdpart('matrixU', False), 'svd.matrixV': _svdpart('matrixV', False),
    'svd.singularValues': _svdpart('singularValues', True),
    'sin': _f1(math.sin), 'cos': _f1(math.cos), 'tan': _f1(math.tan), 'exp': _f1(math.exp), 'atan': _f1(math.atan),
    'asin': _acos(math.asin), 'acos': _acos(math.acos), 'atan2': _atan2, 'sqrt': _sqrt, 'pow': _pow, 'abs': _abs,
    'floor': _int(math.floor), 'ceil': _int(math.ceil), 'trunc': _trunc, 'round': _int(round), 'mod': _mod,
    'log': lambda m, x: math.log(m.num(x)), 'fmod': lambda m, x, y: math.fmod(m.num(x), m.num(y)),
    'INFINITY': lambda m: math.inf, 'NEG_INF': lambda m: -math.inf, 'NAN': lambda m: math.nan,
    '__builtin_inff': lambda m: math.inf, '__builtin_inf': lambda m: math.inf, '__builtin_huge_val': lambda m: math.inf,
    'isnan': _isnan, 'maxseq': _seqred(max), 'minseq': _seqred(min),
    'mmul': _mmul, 'rot2': _rot2, 'T': _tr, 'inv': _inv,
    'det': lambda m, x: m.det(x) if isinstance(x, M) else NotImplemented,
    'determinant': lambda m, x: m.det(x) if isinstance(x, M) else NotImplemented,
    'rotmat': lambda m, x: m.rotmat(x), 'qmul': _qmul, 'qinv': _qinv,
    'norm': _norm, 'dot': _dot, 'cross': _cross, 'normalized': _normalized,
    'minCoeff': _red(min), 'maxCoeff': _red(max), 'sum': _red(sum), 'E.sum': _red(sum),
    'umat': _umat, 'LinSpaced': _spaced, 'constmat': _constmat, 'eye': _eye, 'diag': _diag, 'colplus': _colplus,
    'ewmul': _ew(lambda a, b: a * b), 'ewdiv': _ew(lambda a, b: div(a, b)), 'ewabs': _ew(abs), 'ewpow': _ewpow,
    'ewsin': _ew(lambda a: math.sin(a)), 'ewcos': _ew(lambda a: math.cos(a)),
    'ewsign': _ew(lambda a: (a > 0) - (a < 0)), 'ewsqrt': _ew(lambda a: math.sqrt(a)), 'ewsquare': _ew(lambda a: a * a),
    'resize': _resize, 'slice': _slice, 'insert': _insert, 'erase': _erase, 'fill': _fill,
    'rows': lambda m, x: m.dims(m.mat(x))[0], 'cols': lambda m, x: m.dims(m.mat(x))[1],
}


PLAN = [(3, 'rat'), (3, 'small'), (2, 'rat'), (3, 'unit'), (2, 'small'), (4, 'rat'), (1, 'rat'), (3, 'small'), (2, 'unit'),
        (3, 'rat'), (1, 'small'), (2, 'small'), (4, 'unit'), (3, 'small'), (2, 'rat'), (3, 'rat')]
MORE = [(4, 'holes'), (4, 'index'), (3, 'micro'), (3, 'huge'), (3, 'mix'), (3, 'tiny'), (2, 'mix'), (1, 'tiny'), (4, 'mix'), (2, 'tiny'), (3, 'holes'), (3, 'small'), (1, 'mix'), (4, 'tiny')]


def describe(path, a, b, m):
    def s(v):
        if isinstance(v, O):
            return 'value of ' + (v.name or 'an opaque expression')
        if isnum(v) or isinstance(v, bool):
            return '%.6g' % float(v) if not isinstance(v, bool) else str(v).lower()
        if isinstance(v, tuple):
            return 'a list of %d' % len(v)
        return 'another value'
    return '.'.join(str(p) for p in path) or 'value', s(a), s(b)


def records(*ts):
    """Field sets of the records built from nothing: nothing else is in them."""
    r = set()
    seen = set()
    for t in ts:
        for x in TM.subterms(t):
            if x.op == 'fset' and x not in seen:
                f = set()
                while x.op == 'fset':
                    seen.add(x)
                    f.add(x.args[1])
                    x = x.args[0]
                if x is TM.UNDEF:
                    r.add(frozenset(f))
    return frozenset(r)


BROKEN = ('write outside of a list', 'loop goes on')


def lengths(*ts):
    """Input lists whose length the terms relate to constants (with those), and those they cut or pad (with 0)."""
    r = {}

    def given(x):
        return not x.free and not any(y.op not in ('in', 'fld', 'idx', 'num') for y in TM.subterms(x))

    def hint(x, c):
        r.setdefault(x, set()).update((c - 1, c, c + 1) if c else (0,))
    for t in ts:
        for x in TM.subterms(t):
            if x.op == 'poly':
                p = TM.topoly(x)
                c = p.get((), 0)
                ms = [m for m in p if m != ()]
                if abs(c) >= 2 and c == int(c) and abs(c) <= 20:
                    for m in ms:
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'size' and given(m[0][0].args[0]):
                            hint(m[0][0].args[0], abs(int(c)))
            elif x.op == 'call' and x.args[0] == 'resize' and isinstance(x.args[1], T) and given(x.args[1]):
                hint(x.args[1], 0)
            elif x.op == 'call' and x.args[0] == 'slice' and given(x.args[1]):
                for b in x.args[2:]:
                    if isinstance(b, T) and b.op == 'num' and b.args[0] >= 2:
                        hint(x.args[1], int(b.args[0]))
    return {x: sorted(c for c in v if c or len(v) == 1) for x, v in r.items()}


class Broken(Exception):
    """The code does what the reference does not."""


def shape(v, deep=3):
    """Coarse form of a result."""
    if isinstance(v, bool):
        return v
    if isinstance(v, tuple):
        return min(len(v), 3), tuple(shape(x, deep - 1) for x in v[:2]) if deep else ()
    if isinstance(v, R):
        return tuple((n, shape(x, deep - 1)) for n, x in sorted(v.f.items())) if deep else ()
    if isnum(v):
        return (v > 0) - (v < 0)
    return None


def trial(want, have, pre, complete, hints, seed, n, reals, turn=None, sizes=None, over=None):
    """Both terms under one interpretation: (model, difference, the reference looked outside of a list,
    a value never set was met), or None where the precondition does not hold."""
    sizes = dict(sizes or {})
    for again in range(6):
        m = Model(seed, n, reals, complete=complete, sizes=sizes, over=over)
        try:
            if turn is not None:
                for x, c in hints:
                    v = m.ev(x)
                    if isinstance(v, O):
                        m.sizes.setdefault(v.k, c[turn % len(c)] if c[0] else n + turn % 3)
            if pre is not TM.TRUE and not m.boolean(m.ev(pre)):
                return None
            a = m.ev(want)
            m.key(a)
        except Stuck:
            if not m.wanted or again == 5:
                raise
        else:
            if not m.outside or not m.wanted:
                break
        sizes = {**sizes, **{k: max(x, sizes.get(k, 0)) for k, x in m.wanted.items()}}
    m.shape = shape(a)
    wout = m.outside
    unset = m.unset
    m.outside = False
    try:
        b = m.ev(have)
        d = m.same(a, b)
    except Stuck as e:
        if not sizes and not wout and not unset and str(e) in BROKEN:
            raise Broken(str(e))
        raise
    return m, d, wout, unset


FAIL = (RecursionError, ZeroDivisionError, OverflowError, ValueError, TypeError)
POOL = [200.0]
WORKERS = 4


def separate(want, have, pre=TM.TRUE, rounds=2, need=12, more=100, seconds=6.0):
    """('diff', text) | ('same', n) | ('stuck', why)"""
    clean = 0
    loose = 0
    why = ''
    found = None
    broken = 0
    complete = records(want, have)
    hints = sorted(lengths(want, have).items(), key=lambda x: x[0].key)
    t0 = time.time()
    first = []
    far = [(c + k, reals) for c in reach(want, have) for k, reals in ((1, 'rat'), (2, 'small'))][:6]
    for r in range(rounds + more):
        if r >= rounds and (time.time() - t0 > seconds or clean == 0 and loose == 0):
            break
        for j, (n, reals) in enumerate(PLAN if r < rounds else MORE + far if r == rounds else MORE):
            seed = r * 100 + j
            turn = j // 3 + r if j % 3 == 2 else None
            try:
                q = trial(want, have, pre, complete, hints, seed, n, reals, turn)
            except Broken as e:
                why = str(e)
                broken += 1
                continue
            except Stuck as e:
                why = str(e)
                continue
            except Outside:
                why = 'matrix entry'
                continue
            except FAIL as e:
                why = type(e).__name__
                continue
            if q is None:
                continue
            m, d, wout, unset = q
            if wout:
                loose += 1
                if d is not None and found is None:
                    found = ('loose', d, m)
                continue
            clean += 1
            if d is not None:
                if unset:
                    why = 'value never set'
                    continue
                p, x, y = describe(*d, m)
                return 'diff', 'at %s: reference %s, code %s (sample %d, lists of %d)' % (p, x, y, seed, n)
            if len(first) < 60:
                first.append((seed, n, reals, turn, m))
            if r < rounds and clean >= need * (r + 1):
                break
    if clean == 0 and loose >= 4 and found is not None:
        p, x, y = describe(*found[1], found[2])
        return 'diff', 'at %s: reference %s, code %s (unrestricted sample)' % (p, x, y)
    if clean == 0 and loose == 0:
        if broken >= 4:
            return 'diff', 'the code does what the reference never does: %s (%d samples)' % (why, broken)
        return 'stuck', why
    if first and POOL[0] > 0:
        t1 = time.time()
        text, more = steered(want, have, pre, complete, hints, first, min(40.0, max(4.0, POOL[0] / 5)))
        POOL[0] -= time.time() - t1
        clean += more
        if text is not None:
            return 'diff', text
    return 'same', clean


def reach(*ts):
    """Counts beyond the usual lengths which only one of the terms looks at."""
    r = []
    for t in ts:
        s = set()
        for x in TM.subterms(t):
            if x.op == 'poly':
                p = TM.topoly(x)
                c = p.get((), 0)
                if 5 <= abs(c) <= 60 and c == int(c) and any(
                        m[0][0].op in ('size', 'bv') and m[0][1] == 1 for m in p if len(m) == 1):
                    s.add(abs(int(c)))
        r.append(s)
    return sorted(r[0] ^ r[1])[:3]


def constants(*ts):
    """Numbers the terms compare with."""
    r = set()
    for t in ts:
        for x in TM.subterms(t):
            if x.op == 'poly':
                for m, c in TM.topoly(x).items():
                    c = abs(Fraction(c)) if not isinstance(c, float) else Fraction(c).limit_denominator(10 ** 9)
                    if Fraction(1, 10 ** 6) <= abs(c) <= 10 ** 5 and c != 1:
                        r.add(abs(c))
            elif x.op == 'num' and not isinstance(x.args[0], float) and 0 < abs(x.args[0]) <= 10 ** 5:
                r.add(abs(Fraction(x.args[0])))
    return sorted(r)[:40]


def steered(want, have, pre, complete, hints, first, seconds):
    """guided() in several processes, each with its own choices."""
    jobs = []
    for k in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            text, more = None, 0
            try:
                os.close(r)
                d, more = guided(want, have, pre, complete, hints, first, seconds, 7 + k)
                if d is not None:
                    text = 'at %s: reference %s, code %s (steered)' % describe(*d[0], d[1])
            except BaseException:
                pass
            try:
                os.write(w, json.dumps([text, more]).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        jobs.append((pid, r))
    found, count = None, 0
    left = list(jobs)
    while left:
        ready = select.select([r for _, r in left], [], [], seconds + 60)[0]
        if not ready:
            break
        for pid, r in [x for x in left if x[1] in ready]:
            data = b''
            while True:
                x = os.read(r, 65536)
                if not x:
                    break
                data += x
            left.remove((pid, r))
            try:
                text, more = json.loads(data.decode())
            except ValueError:
                continue
            count += more
            found = found or text
        if found:
            break
    for pid, r in left:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    for pid, r in jobs:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return found, count


def guided(want, have, pre, complete, hints, first, seconds, start=7):
    """Interpretations changed value by value, kept where they take a branch in a new way: (difference, model) or None."""
    rng = random.Random(start)
    seen = set()
    corpus = []
    consts = constants(want, have)

    def note(e, m):
        new = {x + (m.shape,) for x in m.taken} - seen
        if new or len(corpus) < 6:
            seen.update(new)
            # what is needed to go on from here
            corpus.append((e, [(v, x) for v, x in m.touched.values()], dict(m.sizes)))
    for seed, n, reals, turn, m in first:
        note((seed, n, reals, turn, {}), m)
    t0 = time.time()
    count = 0
    while corpus and time.time() - t0 < seconds:
        (seed, n, reals, turn, over), touched, sizes = corpus[-1 - int(len(corpus) * rng.random() ** 2)]
        if not touched:
            if len(corpus) == 1:
                break
            corpus = [c for c in corpus if c[1]]
            continue
        o2 = dict(over)
        for k in range(rng.choice((1, 1, 1, 2, 2, 3, 4))):
            v, x = rng.choice(touched)
            x = o2.get(v.k, x)
            if isinstance(x, bool):
                o2[v.k] = not x
                continue
            if v.i:
                y = rng.choice((0, 1, 2, n, n - 1, x + 1, x - 1))
                y = max(-n, min(n + 1, int(y)))
                o2[v.k] = abs(y) if v.n else y
                continue
            how = rng.randrange(8)
            if how < 3:
                w, y = rng.choice(touched)
                y = o2.get(w.k, y)
                if isinstance(y, bool):
                    continue
                if how == 1:
                    y = -y
                elif how == 2:
                    y = y + rng.choice((1, -1)) * rng.choice(consts or (1,))
            elif how == 3:
                y = -x
            elif how == 4:
                y = x * rng.choice((Fraction(1, 100), Fraction(1, 8), Fraction(1, 2), 2, 8, 100))
            elif how == 5:
                y = rng.choice((0, 1, Fraction(1, 2), 3, 100)) if not consts or rng.random() < .5 else \
                    rng.choice(consts) * rng.choice((1, 1, Fraction(1, 2), 2))
            else:
                y = x + rng.choice((1, -1)) * rng.choice((Fraction(1, 1000), Fraction(1, 50), Fraction(1, 4), 1, 5, 50))
            if isinstance(y, float) or abs(y) > 10 ** 5 or isinstance(y, Fraction) and y.denominator > 10 ** 7:
                continue
            o2[v.k] = abs(y) if v.n else y
        if o2 == over:
            continue
        e = (seed, n, reals, turn, o2)
        try:
            q = trial(want, have, pre, complete, hints, seed, n, reals, turn, None, o2)
        except (Broken, Stuck, Outside) + FAIL:
            continue
        if q is None:
            continue
        m, d, wout, unset = q
        if wout or unset:
            continue
        count += 1
        if d is not None:
            return (d, m), count
        m.touched = {**{v.k: (v, x) for v, x in touched if v.k in o2}, **m.touched}
        note(e, m)
    return None, count


def bare(n, prefix):
    """Function name of a call head."""
    while True:
        k = re.sub(r'^(out\d+|after|ret):', '', n)
        if k == n:
            break
        n = k
    if not n.startswith(prefix + ('ctor:',)):
        n = re.sub(r'(?<!:):(?!:).*$', '', n)
    return re.sub(r'((?<!operator)(?<!operator<)<.*|!)$', '', n)


def unmatched(want, have, known, prefix):
    """Library functions without a model that only one side applies."""
    def heads(ts):
        r = set()
        for x in ts:
            if x.op == 'call' and isinstance(x.args[0], str):
                n = bare(x.args[0], prefix)
                if n not in known and n not in CALLS and not n.startswith(prefix):
                    r.add(n)
        return r
    a, b = set(TM.subterms(want)), set(TM.subterms(have))
    return heads(a - b) ^ heads(b - a)
