"""Canonical, hash-consed value terms.

Every value the analyser knows is one of these terms.  Two pieces of source that
compute the same thing in different spelling (extracted helper, hoisted
temporary, inverted condition, re-associated arithmetic, index loop versus
iterator loop ...) are mapped to the *same* term object, so all comparisons made
by the rules are identity comparisons.

Normal forms
  * arithmetic     : polynomials with rational coefficients over atoms
                     (negative exponents for division)
  * conditions     : multi-terminal decision diagrams (`ite` nodes ordered by
                     the structural key of the tested atom)
  * sequences      : concatenation monoid: seq / rep / cat / bigcat(N, body)
  * binders        : `bv` of binder height (locally nameless)
No solver is involved: everything is rewriting on construction.
"""
import hashlib
import math
import contextlib
import time
from fractions import Fraction

_table = {}
_count = [0]
_deadline = [None]


class Timeout(Exception):
    """The time budget of one obligation is exhausted."""


def set_budget(seconds):
    _deadline[0] = None if seconds is None else time.time() + seconds


@contextlib.contextmanager
def budget(seconds):
    """A shorter limit for one step."""
    old = _deadline[0]
    if seconds is not None:
        t = time.time() + seconds
        _deadline[0] = t if old is None else min(t, old)
    try:
        yield
    finally:
        _deadline[0] = old


# dimensions of terms that stand for a whole small matrix
DIMS = {}
# number of links: always the length of the list of links (established by the default
# of the class, kept by addBody, its only writer; obligations addBody2D, addBody3D)
COUNTS = {'numLinks_': 'link_'}


class T:
    __slots__ = ('op', 'args', 'key', 'h', 'free', 'isint', 'nonneg', 'nl', 'opaque', '_p')

    def __repr__(self):
        return show(self)


def _ser(a):
    c = a.__class__
    if c is T:
        return 'T' + a.key
    if c is tuple:
        return '(' + ','.join([_ser(x) for x in a]) + ')'
    return c.__name__[0] + str(a)


def _walk_direct(a):
    c = a.__class__
    if c is T:
        return (a,)
    if c is tuple:
        r = []
        for x in a:
            c = x.__class__
            if c is T:
                r.append(x)
            elif c is tuple:
                r.extend(_walk_direct(x))
        return r
    return ()


_EMPTY = frozenset()
BINDERS = {'bigcat', 'ex', 'sum', 'mapupd', 'first', 'mu'}
OPAQUE_OPS = {'unk', 'havoc'}


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    _count[0] += 1
    if not _count[0] & 1023 and _deadline[0] is not None and time.time() > _deadline[0]:
        raise Timeout('time budget of one obligation exhausted')
    t = T()
    t.op = op
    t.args = args
    h = 0
    free = _EMPTY
    opq = op in OPAQUE_OPS
    for c in _walk_direct(args):
        if c.h > h:
            h = c.h
        if c.free:
            if not free:
                free = c.free
            elif not c.free <= free:
                free = free | c.free
        if c.opaque:
            opq = True
    if op == 'lv' or op == 'phi':
        free = frozenset([t])
    t.free = free
    t.h = h
    t.opaque = opq
    t.isint = False
    t.nonneg = False
    t.nl = 1
    t._p = None
    if op == 'ite':
        t.nl = args[1].nl + args[2].nl
    t.key = hashlib.blake2b((op + '|' + _ser(args)).encode(), digest_size=12).hexdigest()
    _table[k] = t
    return t


# ------------------------------------------------------------------ constants
def qcanon(v):
    """Exact rational: int when integral, Fraction otherwise."""
    if v.__class__ is int:
        return v
    v = Fraction(v)
    return v.numerator if v.denominator == 1 else v


def qdiv(a, b):
    """Exact quotient of two rationals."""
    return qcanon(Fraction(a) / b)


def num(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk('call', 'INFINITY' if v > 0 else ('NEG_INF' if math.isinf(v) else 'NAN'))
        v = Fraction(v)
    t = mk('num', qcanon(v))
    t.isint = t.args[0].__class__ is int
    t.nonneg = t.args[0] >= 0
    return t


ZERO = num(0)
ONE = num(1)
TRUE = mk('b', 1)
FALSE = mk('b', 0)
UNDEF = mk('undef')
NULL = mk('null')
EMPTY = mk('seq')


def boolc(b):
    return TRUE if b else FALSE


def is_bool(t):
    """Is t a boolean (decision diagram or atom)?"""
    if t.op == 'b':
        return True
    if t.op in ('lt0', 'eq0', 'eq', 'ex', 'atom'):
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


# ------------------------------------------------------------ decision diagrams
_ite_cache = {}
LIFT_CAP = 96


def top(t):
    return t.args[0] if t.op == 'ite' else None


def cof(t, atom, v):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if v else t.args[2]
    return t


def _as_minmax(atom, hi, lo):
    if atom.op != 'lt0':
        return None
    if not (_numericish(hi) and _numericish(lo)):
        return None
    d = poly_sub(topoly(hi), topoly(lo))
    p = topoly(atom.args[0])
    k = _ratio(d, p)
    if k is None or k == 0:
        return None
    return mk_minmax('min' if k > 0 else 'max', hi, lo)


def _numericish(t):
    return t.op in ('num', 'poly', 'idx', 'fld', 'in', 'call', 'lv', 'phi', 'bv', 'bphi', 'size', 'min', 'max', 'mu')


def _ratio(d, p):
    if set(d) != set(p) or not p:
        return None
    k = None
    for m in p:
        r = qdiv(d[m], p[m])
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def _tag_of(atom):
    """The value an atom compares with an enumerator or a text."""
    a, b = atom.args
    if a.op in ('enum', 'str'):
        return b
    if b.op in ('enum', 'str'):
        return a
    return None


def _no_tag(t, s):
    if t.op == 'ite':
        for a in atoms_of(t):
            if a.op == 'eq' and _tag_of(a) is s:
                t = cofactor(t, a, False)
    return t


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if atom is TRUE:
        return hi
    if atom is FALSE:
        return lo
    if atom.op == 'eq':
        s = _tag_of(atom)
        if s is not None:
            # a value that is one enumerator is no other, and a test that
            # decides as if no enumerator matched is not needed
            hi = _no_tag(hi, s)
            if _no_tag(lo, s) is hi:
                return lo
    if hi.op not in ('b', 'ite') and lo.op not in ('b', 'ite'):
        m = _as_minmax(atom, hi, lo)
        if m is not None:
            return m
        # sequences: factor a common prefix is left to seq normalisation
    t = mk('ite', atom, hi, lo)
    t.isint = hi.isint and lo.isint
    t.nonneg = hi.nonneg and lo.nonneg
    return t


def ITE(c, a, b):
    """General if-then-else on decision diagrams, c boolean."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        if c.op == 'ite' or c.op == 'b':
            return c
    if c.op != 'ite' and c.op != 'b':
        c = mk('ite', c, TRUE, FALSE)
    k = (c, a, b)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    if c.op == 'ite' and (a.op in ('min', 'max') or b.op in ('min', 'max')):
        a, b = _open_minmax(c, a, b), _open_minmax(c, b, a)
    at = c.args[0] if c.op == 'ite' else None
    if a.op == 'ite' and (at is None or a.args[0].key < at.key):
        at = a.args[0]
    if b.op == 'ite' and (at is None or b.args[0].key < at.key):
        at = b.args[0]
    if c.op == 'ite' and c.args[0] is at:
        _, c1, c0 = c.args
    else:
        c1 = c0 = c
    if a.op == 'ite' and a.args[0] is at:
        _, a1, a0 = a.args
    else:
        a1 = a0 = a
    if b.op == 'ite' and b.args[0] is at:
        _, b1, b0 = b.args
    else:
        b1 = b0 = b
    r = node(at, ITE(c1, a1, b1), ITE(c0, a0, b0))
    _ite_cache[k] = r
    return r


def _open_minmax(c, a, b):
    """min(x, b) chosen under c against b: a test of x against b that comes
    before c in the order is opened, so that the form does not depend on the
    order the two tests were met in."""
    if a.op not in ('min', 'max') or len(a.args) != 2 or b not in a.args:
        return a
    x = a.args[0] if a.args[1] is b else a.args[1]
    at = bdd(lt(x, b) if a.op == 'min' else lt(b, x))
    if at.op != 'ite' or not at.args[0].key < c.args[0].key or at.args[1].op != 'b' or at.args[2].op != 'b':
        return a
    return mk('ite', at.args[0], x, b) if at.args[1] is TRUE else mk('ite', at.args[0], b, x)


def bdd(t):
    """Boolean term -> decision diagram."""
    if t.op in ('b', 'ite'):
        return t
    if t.op == 'num':
        return boolc(t.args[0] != 0)
    return mk('ite', t, TRUE, FALSE)


def AND(a, b):
    return ITE(bdd(a), bdd(b), FALSE)


def OR(a, b):
    return ITE(bdd(a), TRUE, bdd(b))


def NOT(a):
    return ITE(bdd(a), FALSE, TRUE)


def ANDS(xs):
    r = TRUE
    for x in xs:
        r = AND(r, x)
    return r


def ORS(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


def entails(a, b):
    return AND(a, NOT(b)) is FALSE


def atoms_of(t):
    """Atoms tested in the top-level diagram of t."""
    seen = {}
    st = [t]
    vis = set()
    while st:
        x = st.pop()
        if x in vis:
            continue
        vis.add(x)
        if x.op == 'ite':
            seen[x.args[0]] = 1
            st.append(x.args[1])
            st.append(x.args[2])
    return list(seen)


_cof_cache = {}


def cofactor(t, atom, v):
    if t.op != 'ite':
        return t
    k = (t, atom, v)
    r = _cof_cache.get(k)
    if r is None:
        a, hi, lo = t.args
        if a is atom:
            r = cofactor(hi if v else lo, atom, v)
        else:
            r = node(a, cofactor(hi, atom, v), cofactor(lo, atom, v))
        _cof_cache[k] = r
    return r


DONTCARE = mk('str', '*')


def constrain(f, c, name=None):
    """A value that equals f wherever c holds and otherwise depends on nothing
    but what f is there: conditions are dropped one by one where f does not
    need them under c, the rest is mapped onto c.  `name` maps an atom to an
    ordering key."""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    sup = set(atoms_of(f)) | set(atoms_of(c))
    order = sorted(sup, key=(lambda a: (name(a), a.key)) if name else (lambda a: a.key))
    if len(order) > 18:
        return f
    for a in order:
        f0, f1 = cofactor(f, a, 0), cofactor(f, a, 1)
        c0, c1 = cofactor(c, a, 0), cofactor(c, a, 1)
        if f0 is f1:
            f, c = f0, OR(c0, c1)
            continue
        both = AND(c0, c1)
        if both is FALSE or ITE(both, f0, DONTCARE) is ITE(both, f1, DONTCARE):
            f, c = ITE(c1, f1, f0), OR(c0, c1)
    if c is TRUE or f.op != 'ite':
        return f
    memo = {}

    def go(f, c, i):
        if c is TRUE or f.op != 'ite':
            return f
        k = (f, c, i)
        r = memo.get(k)
        if r is None:
            a = order[i]
            c1, c0 = cofactor(c, a, 1), cofactor(c, a, 0)
            if c1 is FALSE:
                r = go(cofactor(f, a, 0), c0, i + 1)
            elif c0 is FALSE:
                r = go(cofactor(f, a, 1), c1, i + 1)
            else:
                r = ITE(bdd(a), go(cofactor(f, a, 1), c1, i + 1), go(cofactor(f, a, 0), c0, i + 1))
            memo[k] = r
        return r
    return go(f, c, 0)


_forced_cache = {}


def forced(pc):
    """Literals forced by a path condition: dict atom -> bool."""
    r = _forced_cache.get(pc)
    if r is None:
        r = {}
        # fixpoint: forced literals are implied by every path to TRUE
        for a in atoms_of(pc):
            if cofactor(pc, a, 0) is FALSE:
                r[a] = True
            elif cofactor(pc, a, 1) is FALSE:
                r[a] = False
        _forced_cache[pc] = r
    return r


def leaves(t):
    out = {}
    st = [t]
    vis = set()
    while st:
        x = st.pop()
        if x in vis:
            continue
        vis.add(x)
        if x.op == 'ite':
            st.extend(x.args[1:])
        else:
            out[x] = 1
    return list(out)


def map_leaves(t, f, memo=None):
    if t.op != 'ite':
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        a, hi, lo = t.args
        r = ITE(bdd(a), map_leaves(hi, f, memo), map_leaves(lo, f, memo))
        memo[t] = r
    return r


def lift(f, args, memo=None):
    """Apply strict function f to terms, distributing over top-level ite."""
    n = 1
    for a in args:
        n *= a.nl
        if n > LIFT_CAP:
            return f(*args)
    if n == 1:
        return f(*args)
    if memo is None:
        memo = {}
    k = tuple(args)
    r = memo.get(k)
    if r is not None:
        return r
    tops = [top(a) for a in args if a.op == 'ite']
    at = min(tops, key=lambda x: x.key)
    hi = lift(f, [cof(a, at, 1) for a in args], memo)
    lo = lift(f, [cof(a, at, 0) for a in args], memo)
    r = ITE(bdd(at), hi, lo)
    memo[k] = r
    return r


# ------------------------------------------------------------------ arithmetic
# polynomial = dict monomial -> Fraction ; monomial = tuple of (atom, exp) sorted
def topoly(t):
    if t._p is not None:
        return t._p
    if t.op == 'num':
        p = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == 'poly':
        p = dict(t.args[0])
    else:
        p = {((t, 1),): 1}
    t._p = p
    return p


def _exact(c):
    assert c.__class__ is not float, 'inexact coefficient'
    return c


def frompoly(p):
    p = {m: c if c.__class__ is int else qcanon(_exact(c)) for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0])))
    t = mk('poly', items)
    if t._p is None:
        t._p = dict(p)
        t.isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in p.items())
        t.nonneg = all(c > 0 and all(a.nonneg for a, e in m) for m, c in p.items())
    return t


def _mkey(m):
    return (sum(abs(e) for a, e in m), tuple((a.key, e) for a, e in m))


def poly_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def poly_sub(p, q):
    return poly_add(p, q, -1)


def mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def poly_mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = mono_mul(m, n)
            v = r.get(mn, 0) + c * d
            if v == 0:
                r.pop(mn, None)
            else:
                r[mn] = v
    return r


def _inv(t):
    p = topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): qdiv(1, c)}
    if not p:
        return {((mk('call', 'div0'), 1),): Fraction(1)}
    # primitive: leading coefficient one
    lead = max(p, key=_mkey)
    c = p[lead]
    q = {m: qdiv(v, c) for m, v in p.items()}
    return {((mk('den', frompoly(q)), -1),): qdiv(1, c)}


def _fix_den(p):
    """Cancel den(q)^-1 monomials against a numerator that is a multiple of q."""
    return p


def add(a, b):
    return lift(lambda x, y: frompoly(poly_add(topoly(x), topoly(y))), [a, b])


def sub(a, b):
    return lift(lambda x, y: frompoly(poly_sub(topoly(x), topoly(y))), [a, b])


def neg(a):
    return sub(ZERO, a)


def mul(a, b):
    def f(x, y):
        px, py = topoly(x), topoly(y)
        if len(px) * len(py) > 4000:
            if x.key > y.key:
                x, y = y, x
            return mk('call', 'bigmul', x, y)
        r = frompoly(poly_mul(px, py))
        return r
    return lift(f, [a, b])


def div(a, b):
    def f(x, y):
        if x is y:
            return ONE
        px = topoly(x)
        k = _ratio(px, topoly(y)) if px else None
        if k is not None:
            return num(k)
        return frompoly(poly_mul(px, _inv(y)))
    return lift(f, [a, b])


def power(a, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else div(ONE, r)


BIG = Fraction(2) ** 1023


def extremum(kind, m):
    """Smallest / largest element of a sequence of numbers ('min' | 'max')."""
    if m.op == 'seq' and m.args:
        r = m.args[0]
        for x in m.args[1:]:
            r = minmax(kind, r, x)
        return r
    if m.op == 'cat':
        r = None
        for p in m.args:
            x = extremum(kind, p)
            r = x if r is None else minmax(kind, r, x)
        return r
    if m.op == 'rep':
        return m.args[1]
    if m.op in ('sort', 'rev'):
        return extremum(kind, m.args[0])
    if m.op == 'bigcat':
        # order of the visited list does not matter
        n, v, b = unbind(m)
        for x in subterms(b):
            if x.op == 'idx' and x.args[1] is v and x.args[0].op in ('sort', 'rev') and v not in x.args[0].free:
                b2 = _replace(b, x, idx(x.args[0].args[0], v))
                if not any(y.op == 'idx' and y.args[1] is v and y.args[0] is not x.args[0].args[0] for y in subterms(b2)):
                    return extremum(kind, bigcat(n, v, b2))
    return mk('call', kind + 'seq', m)


def _replace(t, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        if not (old.free <= x.free):
            return x
        r = memo.get(x)
        if r is None:
            r = _subst_poly(x, go) if x.op == 'poly' else rebuild(x, _map_args(x.args, go))
            memo[x] = r
        return r
    return go(t)


def _absorb(k, xs):
    """min over a list already covers its own elements; X(0) together with the
    elements 1.. is the whole list."""
    nm = k + 'seq'
    seqs = [x for x in xs if x.op == 'call' and x.args[0] == nm]
    if not seqs:
        return xs
    xs = [x for x in xs if not (x.op == 'num' and abs(x.args[0]) >= BIG) and
          not (x.op == 'call' and x.args[0] == ('INFINITY' if k == 'min' else 'NEG_INF'))]
    for q in seqs:
        m = q.args[1]
        if m.op == 'bigcat':
            n, v, b = unbind(m)
            if b.op == 'seq' and len(b.args) == 1:
                e = b.args[0]
                first = subst(e, {v: ZERO})
                last = subst(e, {v: sub(n, ONE)})
                xs = [x for x in xs if x is not first and x is not last]
                if not any(c.op == 'idx' and c.args[1] is v for c in subterms(e)):
                    prev = subst(e, {v: num(-1)})
                    if prev in xs:
                        w = fresh_lv()
                        full = extremum(k, bigcat(add(n, ONE), w, mkseq(subst(e, {v: sub(w, ONE)}))))
                        xs = [x for x in xs if x is not prev and x is not q]
                        if full not in xs:
                            xs.append(full)
                        return _absorb(k, xs)
        else:
            f0 = _mkidx(m, ZERO)
            l0 = _mkidx(m, sub(size(m), ONE))
            xs = [x for x in xs if x is not f0 and x is not l0]
    return xs


def _sorted_end(x):
    """x = idx(sort(S, cmp), first|last): ('min'|'max', S, field) or None."""
    s, i = x.args
    if s.op != 'sort':
        return None
    c = s.args[1]
    a0, a1 = mk('sarg', 0), mk('sarg', 1)
    fields = [None]
    for y in subterms(c):
        if y.op == 'fld' and y.args[0] in (a0, a1):
            fields = [y.args[1]]
    f = fields[0]
    g = (lambda t: t) if f is None else (lambda t: mk('fld', t, f))
    if c is lt(g(a0), g(a1)):
        up = True
    elif c is lt(g(a1), g(a0)):
        up = False
    else:
        return None
    if i is ZERO:
        return ('min' if up else 'max', s.args[0], f)
    if i is sub(size(s), ONE):
        return ('max' if up else 'min', s.args[0], f)
    return None


def _project(s, f):
    if s.op in ('sort', 'rev'):
        return _project(s.args[0], f)
    if f is None:
        return s
    if s.op == 'seq':
        return mkseq(*[fld(x, f) for x in s.args])
    if s.op == 'cat':
        r = EMPTY
        for p in s.args:
            r = cat(r, _project(p, f))
        return r
    if s.op == 'rep':
        return mk('rep', s.args[0], fld(s.args[1], f))
    v = fresh_lv()
    if s.op == 'bigcat':
        n, v, b = unbind(s)
        if b.op == 'seq':
            return bigcat(n, v, mkseq(*[fld(x, f) for x in b.args]))
        return bigcat(n, v, map_leaves(b, lambda x: _project(x, f)))
    return bigcat(size(s), v, mkseq(fld(idx(s, v), f)))


def mk_minmax(k, a, b):
    xs = {}
    for t in (a, b):
        if t.op == k:
            for x in t.args:
                xs[x] = 1
        else:
            xs[t] = 1
    xs = {x: 1 for x in _absorb(k, list(xs))}
    if len(xs) == 1:
        return list(xs)[0]
    if len(xs) == 1:
        return a
    consts = [x for x in xs if x.op == 'num']
    if len(consts) > 1:
        v = (min if k == 'min' else max)(consts, key=lambda x: x.args[0])
        xs = {x: 1 for x in xs if x.op != 'num'}
        xs[v] = 1
        if len(xs) == 1:
            return v
    t = mk(k, *sorted(xs, key=lambda x: x.key))
    t.isint = all(x.isint for x in xs)
    t.nonneg = all(x.nonneg for x in xs)
    return t


def minmax(k, a, b):
    return lift(lambda x, y: mk_minmax(k, x, y), [a, b])


def _scale(p):
    """Scale a non-empty polynomial by a positive factor: |leading| == 1 (or
    integral primitive for integer polynomials)."""
    lead = _lead(p)
    c = abs(p[lead])
    if c == 1:
        return p
    return {m: qdiv(v, c) for m, v in p.items()}


def _lead(p):
    nc = [m for m in p if m != ()]
    return max(nc, key=_mkey)


def lt(a, b):
    """a < b"""
    return lift(_lt, [a, b])


def _nonneg_poly(p):
    return all(c > 0 and all(a.nonneg or (e % 2 == 0) for a, e in m) for m, c in p.items())


def _lt(a, b):
    d = frompoly(poly_sub(topoly(a), topoly(b)))
    if d.op == 'num':
        return boolc(d.args[0] < 0)
    p = topoly(d)
    isint = a.isint and b.isint and d.isint
    if isint:
        # p < 0 over the integers, orient to positive leading coefficient
        if _nonneg_poly({m: c for m, c in p.items() if m != ()}) and p.get((), 0) >= 0:
            return FALSE
        q = {m: -c for m, c in p.items()}
        if _nonneg_poly({m: c for m, c in q.items() if m != ()}) and q.get((), 0) > 0:
            return TRUE
        from math import gcd
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, abs(c.numerator))
        lead = p[_lead(p)]
        if g > 1:
            # g*r + k < 0  <=>  r < -k/g  <=> r <= ceil(-k/g)-1 <=> r - ceil(-k/g) < 0
            k = p.get((), Fraction(0))
            p = {m: qdiv(c, g) for m, c in p.items() if m != ()}
            n = math.ceil(Fraction(-k, g))
            if n != 0:
                p[()] = Fraction(-n)
        if lead > 0:
            return bdd(mk('lt0', frompoly(p)))
        q = {m: -c for m, c in p.items()}
        q[()] = q.get((), Fraction(0)) - 1
        return NOT(mk('lt0', frompoly(q)))
    p = _scale(p)
    return bdd(mk('lt0', frompoly(p)))


def le(a, b):
    return NOT(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return NOT(lt(a, b))


def eq(a, b):
    return lift(_eq, [a, b])


def _is_num(t):
    return t.op in ('num', 'poly') or t.isint


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'b' or b.op == 'b':
        x, y = (a, b) if a.op == 'b' else (b, a)
        return bdd(y) if x is TRUE else NOT(y)
    if a.op in ('enum', 'str') and b.op == a.op:
        return FALSE
    if a.op in ('enum', 'str', 'null', 'ptr') or b.op in ('enum', 'str', 'null', 'ptr'):
        if 'ptr' in (a.op, b.op) and 'null' in (a.op, b.op):
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.key)
        return bdd(mk('eq', x, y))
    d = frompoly(poly_sub(topoly(a), topoly(b)))
    if d.op == 'num':
        return boolc(d.args[0] == 0)
    p = topoly(d)
    isint = a.isint and b.isint
    nz = [m for m in p if m != ()]
    if isint and len(p) == 1 and len(nz) == 1 and _nonneg_poly({nz[0]: abs(p[nz[0]])}):
        return _lt(frompoly({nz[0]: abs(p[nz[0]])}), ONE)
    if () in p:
        for g in (1, -1):
            if g * p[()] > 0 and _nonneg_poly({m: g * p[m] for m in nz}):
                return FALSE
    p = _scale(p)
    if p[_lead(p)] < 0:
        p = {m: -c for m, c in p.items()}
    t = mk('eq0', frompoly(p))
    if isint:
        t.isint = True
    return bdd(t)


def truthy(t):
    if is_bool(t):
        return bdd(t)
    return lift(_truthy, [t])


def _truthy(t):
    if t.op == 'num':
        return boolc(t.args[0] != 0)
    if t.op == 'b':
        return t
    if t.op == 'null':
        return FALSE
    if t.op in ('ptr', 'closure'):
        return TRUE
    if is_bool(t):
        return bdd(t)
    if t.isint:
        return NOT(_eq(t, ZERO))
    return bdd(mk('atom', t))


def atomize(t):
    """term of boolean type -> diagram"""
    if is_bool(t):
        return bdd(t)
    return lift(lambda x: x if x.op == 'b' else bdd(x if is_bool(x) else mk('atom', x)), [t])


def fabs(a):
    def f(x):
        if x.op == 'num':
            return num(abs(x.args[0]))
        p = topoly(x)
        lead = _lead(p)
        k = abs(p[lead])
        s = p[lead]
        q = frompoly({m: qdiv(c, s) for m, c in p.items()})
        if q.op == 'call' and q.args[0] == 'abs':
            r = q
        else:
            r = mk('call', 'abs', q)
            r.isint = q.isint
            r.nonneg = True
        return frompoly(poly_mul(topoly(r), {(): k})) if k != 1 else r
    return lift(f, [a])


def norm(a):
    """Length of a vector; the sign of the vector does not matter."""
    def f(x):
        p = topoly(x) if x.op == 'poly' else None
        if p:
            lead = _lead(p)
            if p[lead] < 0:
                x = frompoly({m: -c for m, c in p.items()})
        r = mk('call', 'norm', x)
        r.nonneg = True
        return r
    return lift(f, [a])


def determinant(a):
    """Written out where all entries are known."""
    def f(x):
        if x.op == 'mat' and x.args[0] == x.args[1] == 2:
            p, q, r, s = x.args[2:]
            return add(mul(p, s), neg(mul(q, r)))
        return mk('call', 'determinant', x)
    return lift(f, [a])


def ij(i, j):
    return lift(lambda a, b: mk('ij', a, b), [i, j])


# ------------------------------------------------------------------ sequences
# lists whose length is known although their content is not (loop state that is
# only overwritten in place)
SIZES = {}


def size(t):
    def f(x):
        op = x.op
        if op == 'seq':
            return num(len(x.args))
        if op == 'rep':
            return x.args[0]
        if op == 'cat':
            r = ZERO
            for p in x.args:
                r = add(r, size(p))
            return r
        if op == 'bigcat':
            n, var, body = unbind(x)
            return sum_bound(n, var, size(body))
        if op == 'call' and x.args[0] == 'resize':
            return x.args[2]
        if op in ('set', 'mapupd', 'rev', 'sort'):
            return size(x.args[0])
        if op == 'fset':
            return size(x.args[0])
        if x in SIZES:
            return SIZES[x]
        if op == 'call' and x.args[0] in ROUNDS:
            return ROUNDS[x.args[0]][0](*x.args[1:])
        if op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] in ROUNDS:
            f = ROUNDS[x.args[0].args[0]][1]
            if f is not None:
                return f(*x.args[0].args[1:])
        r = mk('size', x)
        r.isint = True
        r.nonneg = True
        return r
    return lift(f, [t])


# lists made by a function of the repository: how many elements, and of what length
# (each is the statement of an obligation of its own: interpRn, interpSlerp, ...)
ROUNDS = {
    'interpolateRn': (lambda a, b, n: add(n, ONE), lambda a, b, n: size(a)),
    'interpolateSlerp': (lambda a, b, n: add(n, ONE), None),
    'interpolateAngleAxis': (lambda a, b, n: add(n, ONE), None),
    'interpolateSE3': (lambda a, b, n: add(n, ONE), lambda a, b, n: num(7)),
}


def cat(a, b):
    return lift(_cat, [a, b])


def _parts(t):
    if t.op == 'cat':
        return list(t.args)
    if t is EMPTY:
        return []
    if t.op == 'idx' and t.args[0].op == 'call' and t.args[0].args[0] in ROUNDS:
        # a list of known length, element by element
        k = size(t)
        if k.op == 'num' and 0 < k.args[0] <= 16:
            return [mk('seq', *[idx(t, num(i)) for i in range(int(k.args[0]))])]
    return [t]


def _cat(a, b):
    ps = []
    for p in _parts(a) + _parts(b):
        if ps and p.op == 'seq' and ps[-1].op == 'seq':
            ps[-1] = mk('seq', *(ps[-1].args + p.args))
        else:
            ps.append(p)
    if not ps:
        return EMPTY
    if len(ps) == 1:
        return ps[0]
    return mk('cat', *ps)


def append(c, e):
    return cat(c, mk('seq', e)) if e.nl == 1 or e.nl > LIFT_CAP else lift(lambda x, y: _cat(x, mk('seq', y)), [c, e])


def mkseq(*es):
    return lift(lambda *xs: mk('seq', *xs), list(es)) if es else EMPTY


def idx(c, i):
    return lift(_idx, [c, i])


def _mkidx(c, i):
    return mk('idx', c, i)


def _idx(c, i):
    op = c.op
    if op == 'seq' and i.op == 'num' and i.args[0].denominator == 1:
        k = int(i.args[0])
        if 0 <= k < len(c.args):
            return c.args[k]
        return mk('oob', c, i)
    if op == 'sort':
        e = _sorted_end(mk('idx', c, i))
        if e is not None and e[2] is None:
            return extremum(e[0], e[1])
    if op == 'rep':
        return c.args[1]
    if op == 'cat':
        # offset decomposition: constant part sizes, or index size(prefix)+k
        pre = ZERO
        ps = list(c.args)
        for n, p in enumerate(ps):
            d = sub(i, pre)
            sz = size(p)
            if d.op == 'num':
                if d.args[0] < 0:
                    break
                if sz.op == 'num':
                    if d.args[0] < sz.args[0]:
                        return idx(p, d)
                elif p.op == 'bigcat' or n < len(ps) - 1:
                    # constant offset into a part of unknown size: in range only
                    # if the part is known to be long enough -- keep symbolic
                    return _mkidx(c, i)
            elif n == len(ps) - 1 and p.op == 'bigcat':
                pass
            elif d.op != 'num' and sz.op == 'num' and n == 0 and p.op == 'seq' and False:
                pass
            pre = add(pre, sz)
        # index relative to last binder part  pre + lv
        return _mkidx(c, i)
    if op == 'bigcat':
        n, var, body = unbind(c)
        if body.op == 'seq' and len(body.args) == 1:
            return subst(body.args[0], {var: i})
        return _mkidx(c, i)
    if op == 'set':
        base, j, v = c.args
        r = index_eq(i, j)
        if r is True:
            return v
        if r is False:
            return idx(base, i)
        return _mkidx(c, i)
    if op == 'mapupd':
        base = c.args[0]
        n, var, pat, body = unbind_map(c)
        m = match_index(pat, i, var)
        if m is None:
            return _mkidx(c, i)
        if m is False:
            return idx(base, i)
        val = subst(body, {var: m})
        if m.op == 'num' and n.op == 'num':
            return val if 0 <= m.args[0] < n.args[0] else idx(base, i)
        sz = size(base)
        if pat is var and sz is n:
            return val   # index in range (else undefined behaviour)
        inside = AND(lt(m, n), ge(m, ZERO)) if not m.nonneg else lt(m, n)
        return ITE(inside, val, idx(base, i))
    if op == 'rev' and False:
        return c
    return _mkidx(c, i)


def index_eq(i, j):
    if i is j:
        return True
    if i.op == 'ij' and j.op == 'ij':
        rs = [index_eq(a, b) for a, b in zip(i.args, j.args)]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if i.op == 'str' and j.op == 'str':
        return False
    if i.op in ('ij', 'str', 'tag') or j.op in ('ij', 'str', 'tag'):
        if i.op == 'tag' and j.op == 'tag':
            return False
        return None
    d = poly_sub(topoly(i), topoly(j))
    if not d:
        return True
    if set(d) == {()}:
        return False
    # i = size(x)+k with nonneg difference
    t = frompoly(d)
    for s in (d, {m: -c for m, c in d.items()}):
        nz = {m: c for m, c in s.items() if m != ()}
        if _nonneg_poly(nz) and s.get((), 0) > 0:
            return False
    return None


def match_index(pat, i, var):
    """Solve pat(var) == i for var: term, False (never) or None (unknown)."""
    if pat is var:
        return i
    if pat.op == 'ij':
        if i.op != 'ij' or len(i.args) != len(pat.args):
            return None
        sol = None
        for p, q in zip(pat.args, i.args):
            if var in p.free:
                s = match_index(p, q, var)
                if s is None or s is False:
                    return s
                if sol is not None and sol is not s:
                    return None
                sol = s
            else:
                r = index_eq(p, q)
                if r is False:
                    return False
                if r is None:
                    return None
        return sol
    p = topoly(pat)
    m = ((var, 1),)
    if p.get(m) in (1, -1) and not any(var in a.free for mm in p for a, e in mm if mm != m):
        c = p[m]
        rest = {k: v for k, v in p.items() if k != m}
        return frompoly({k: qdiv(v, c) for k, v in poly_sub(topoly(i), rest).items()})
    return None


def setidx(c, i, v):
    return lift(_set, [c, i, v])


def _set(c, i, v):
    if c.op == 'seq' and i.op == 'num' and i.args[0].denominator == 1:
        k = int(i.args[0])
        if 0 <= k < len(c.args):
            return mk('seq', *(c.args[:k] + (v,) + c.args[k + 1:]))
    if c.op == 'rep' and c.args[0].op == 'num' and i.op == 'num' and c.args[0].args[0] <= 16:
        k = int(i.args[0])
        n = int(c.args[0].args[0])
        if 0 <= k < n:
            return mk('seq', *[v if j == k else c.args[1] for j in range(n)])
    if c.op == 'set':
        base, j, w = c.args
        r = index_eq(i, j)
        if r is True:
            return _set(base, i, v)
        if r is False and i.key < j.key:
            return mk('set', _set(base, i, v), j, w)
    if c.op == 'mapupd' and i.op == 'num':
        # written before the range of positions the loop writes
        n, var, pat, body = unbind_map(c)
        k = sub(pat, var)
        if k.op == 'num' and i.args[0] < k.args[0]:
            return mapupd(_set(c.args[0], i, v), n, var, pat, body)
    if v.op == 'idx' and v.args[0] is c and v.args[1] is i:
        return c
    return mk('set', c, i, v)


def fld(x, name):
    return lift(lambda t: _fld(t, name), [x])


def _fld(x, name):
    if x.op == 'fset':
        if x.args[1] == name:
            return x.args[2]
        return _fld(x.args[0], name)
    if x is UNDEF:
        return UNDEF
    if name in COUNTS:
        return size(_fld(x, COUNTS[name]))
    if x.op == 'in':
        return mk('in', x.args[0] + (name,))
    if x.op == 'idx' and x.args[0].op == 'sort':
        e = _sorted_end(x)
        if e is not None and e[2] == name:
            return extremum(e[0], _project(e[1], name))
    return mk('fld', x, name)


def fset(x, name, v):
    return lift(lambda a, b: _fset(a, name, b), [x, v])


def _fset(x, name, v):
    if x.op == 'fset':
        if x.args[1] == name:
            return _fset(x.args[0], name, v)
        if x.args[1] > name:
            return mk('fset', _fset(x.args[0], name, v), x.args[1], x.args[2])
    b = x
    while b.op == 'fset':
        b = b.args[0]
    if (v.op == 'fld' and v.args[0] is b and v.args[1] == name) or \
            (v.op == 'in' and b.op == 'in' and v.args[0] == b.args[0] + (name,)):
        return x
    return mk('fset', x, name, v)


def pair(a, b):
    return fset(fset(UNDEF, 'first', a), 'second', b)


def call(name, *args):
    """Uninterpreted strict function (value arguments)."""
    if name in COMMUTATIVE and len(args) == 2:
        return lift(lambda x, y: mk('call', name, *sorted((x, y), key=lambda t: t.key)), list(args))
    return lift(lambda *xs: mk('call', name, *xs), list(args)) if args else mk('call', name)


# library functions symmetric in their two arguments
COMMUTATIVE = {'angdist', 'bigmul', 'dot', 'qdot', 'ewmul'}


# ------------------------------------------------------------------ binders
_uid = [0]


def fresh_lv():
    _uid[0] += 1
    t = mk('lv', _uid[0])
    t.isint = True
    t.nonneg = True
    return t


def fresh_phi(tag):
    _uid[0] += 1
    return mk('phi', _uid[0], tag)


def bvar(h):
    t = mk('bv', h)
    t.isint = True
    t.nonneg = True
    return t


def bind(var, *bodies):
    """Close bodies over free variable var; returns (h, bodies')."""
    h = 1 + max(b.h for b in bodies)
    bv = bvar(h)
    return h, [subst(b, {var: bv}) for b in bodies]


def _mkh(h, op, *args):
    t = mk(op, *args)
    t.h = max(t.h, h)
    return t


def unbind(t):
    """('bigcat'|'ex'|'sum', N, h, body) -> (N, fresh var, body)"""
    n, h, body = t.args
    v = fresh_lv()
    return n, v, subst_bv(body, h, v)


def bigcat(n, var, body):
    if body is EMPTY or n is ZERO:
        return EMPTY
    if n is ONE:
        return subst(body, {var: ZERO})
    if body.op == 'cat' and False:
        pass
    if body.op == 'seq' and len(body.args) == 1 and var not in body.free:
        return mk('rep', n, body.args[0])
    # eta: bigcat(size c, idx(c,i)) == c
    if body.op == 'seq' and len(body.args) == 1:
        e = body.args[0]
        if e.op == 'idx' and e.args[1] is var and var not in e.args[0].free and size(e.args[0]) is n:
            return e.args[0]
    if n.op == 'ite' and n.nl <= 8:
        at = n.args[0]
        cb = lambda b, v: mkseq(*[cofactor(x, at, v) for x in b.args]) if b.op == 'seq' else cofactor(b, at, v)
        return ITE(bdd(at), bigcat(n.args[1], var, cb(body, 1)), bigcat(n.args[2], var, cb(body, 0)))
    h, (b,) = bind(var, body)
    t = _mkh(h, 'bigcat', n, h, b)
    return t


def sum_bound(n, var, body):
    if var not in body.free:
        return mul(n, body)
    if body.op == 'poly' or body.op == 'num':
        # linear parts independent of var
        p = topoly(body)
        dep = {m: c for m, c in p.items() if any(var in a.free for a, e in m)}
        ind = {m: c for m, c in p.items() if m not in dep}
        r = mul(n, frompoly(ind))
        # factor invariant factors out of each dependent monomial
        for m, c in dep.items():
            out = tuple((a, e) for a, e in m if var not in a.free)
            inn = tuple((a, e) for a, e in m if var in a.free)
            r = add(r, mul(frompoly({out: c}), _sum1(n, var, frompoly({inn: Fraction(1)}))))
        return r
    return _sum1(n, var, body)


def _sum1(n, var, body):
    h, (b,) = bind(var, body)
    t = _mkh(h, 'sum', n, h, b)
    t.isint = body.isint
    t.nonneg = body.nonneg
    return t


def prime_implicants(f, cap=10):
    """All prime implicants of boolean diagram f: list of dict atom->bool,
    or None when too large."""
    ats = sorted(atoms_of(f), key=lambda a: a.key)
    if len(ats) > cap:
        return None
    memo = {}

    def rec(g):
        if g is TRUE:
            return [frozenset()]
        if g is FALSE:
            return []
        r = memo.get(g)
        if r is not None:
            return r
        a = g.args[0]
        f0, f1 = g.args[2], g.args[1]
        both = rec(AND(f0, f1))
        p0 = rec(f0)
        p1 = rec(f1)
        res = list(both)
        bs = set(both)
        for ps, lit in ((p0, (a, False)), (p1, (a, True))):
            for p in ps:
                if not any(q <= p for q in bs):
                    res.append(p | {lit})
        memo[g] = res
        return res
    out = rec(f)
    if len(out) > 64:
        return None
    return out


def exists(n, var, body):
    """Is there var in [0,n) with body?"""
    body = bdd(body)
    if body is FALSE or n is ZERO:
        return FALSE
    if n is ONE:
        return subst(body, {var: ZERO})
    if var not in body.free:
        return AND(body, lt(ZERO, n))
    if n.op == 'ite' and n.nl <= 8:
        return map_leaves(n, lambda m: exists(m, var, body))
    own = [a for a in atoms_of(body) if var not in a.free]
    if own and len(own) <= 6:
        # conditions that do not vary are decided first
        a = min(own, key=lambda a: a.key)
        return ITE(bdd(a), exists(n, var, cofactor(body, a, 1)), exists(n, var, cofactor(body, a, 0)))
    ps = prime_implicants(body)
    if ps is None:
        return bdd(_ex1(n, var, body))
    r = FALSE
    for p in ps:
        out = TRUE
        inn = TRUE
        for a, v in sorted(p, key=lambda x: x[0].key):
            l = bdd(a) if v else NOT(a)
            if var in a.free:
                inn = AND(inn, l)
            else:
                out = AND(out, l)
        if inn is TRUE:
            r = OR(r, AND(out, lt(ZERO, n)))
        else:
            r = OR(r, AND(out, bdd(_ex1(n, var, inn))))
    return r


def _ex1(n, var, body):
    # canonical order for directly nested independent quantifiers
    h, (b,) = bind(var, body)
    return _mkh(h, 'ex', n, h, b)


def mapupd(base, n, var, pat, body):
    """for var in [0,n): base[pat(var)] = body(var)   (body may read idx(base,pat))"""
    if pat is var and body.op == 'idx' and body.args[0] is base and body.args[1] is var:
        return base
    if pat is var and size(base) is n and not _mentions(body, base):
        return bigcat(n, var, mk('seq', body)) if body.nl == 1 else bigcat(n, var, mkseq(body))
    # fixed first elements and a loop over all the others: nothing of the old list is left
    k = sub(pat, var)
    if k.op == 'num' and 0 < k.args[0] <= 16 and base.op == 'set' and sub(size(base), n) is k:
        k, got, x = int(k.args[0]), {}, base
        while x.op == 'set' and x.args[1].op == 'num':
            got.setdefault(x.args[1].args[0], x.args[2])
            x = x.args[0]
        if all(i in got for i in range(k)) and not (x.free - {var}) & body.free & frozenset([x]):
            return cat(mkseq(*[got[i] for i in range(k)]), bigcat(n, var, mkseq(body)))
    # every entry of a vector written: what was there before does not matter
    if (pat is var or pat.op == 'ij') and base.op in ('call', 'set', 'mapupd') and base not in body.free and \
            not (base.op == 'call' and base.args[0] == 'umat') and not _mentions(body, base):
        from .models import rows, cols
        i, j = pat.args if pat.op == 'ij' else (var, var)
        if i is var and (j is ZERO or j is var) and cols(base) is ONE and rows(base) is n:
            base = call('umat', n, ONE)
        elif j is var and (i is ZERO or i is var) and rows(base) is ONE and cols(base) is n:
            base = call('umat', ONE, n)
    h, (p, b) = bind(var, pat, body)
    return _mkh(h, 'mapupd', base, n, h, p, b)


def _mentions(t, x):
    return False


def unbind_map(t):
    base, n, h, pat, body = t.args
    v = fresh_lv()
    return n, v, subst_bv(pat, h, v), subst_bv(body, h, v)


# ------------------------------------------------------------------ substitution
REBUILD = {}


def rebuild(t, args):
    """Rebuild a term with new args, re-normalising."""
    op = t.op
    if op == 'poly':
        r = ZERO
        for m, c in args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, power(a, e)) if e > 0 else div(x, power(a, -e))
            r = add(r, x)
        return r
    if op == 'den':
        return args[0]
    if op == 'ite':
        c = args[0]
        if not is_bool(c):
            c = atomize(c)
        return ITE(bdd(c), args[1], args[2])
    if op == 'lt0':
        p = args[0]
        if t.args[0].isint and not p.isint:
            return lt(p, ZERO)
        return lt(p, ZERO)
    if op == 'eq0':
        if t.isint and args[0].op == 'poly':
            return eq(args[0], ZERO)
        return eq(args[0], ZERO)
    if op == 'eq':
        return eq(*args)
    if op == 'atom':
        return atomize(args[0])
    if op == 'idx':
        r = idx(*args)
    elif op == 'set':
        r = setidx(*args)
    elif op == 'size':
        r = size(*args)
    elif op == 'fld':
        r = fld(*args)
    elif op == 'fset':
        r = fset(*args)
    elif op == 'cat':
        r = EMPTY
        for a in args:
            r = cat(r, a)
    elif op == 'seq':
        r = mkseq(*args)
    elif op in ('min', 'max'):
        r = args[0]
        for a in args[1:]:
            r = minmax(op, r, a)
        return r
    elif op == 'call':
        if args[0] == 'abs':
            return fabs(args[1])
        if args[0] == 'norm':
            return norm(args[1])
        if args[0] in ('minseq', 'maxseq'):
            return lift(lambda x: extremum(args[0][:3], x), [args[1]])
        r = call(*args) if all(isinstance(a, T) for a in args[1:]) else mk('call', *args)
        if r.op == 'call':
            r.nonneg = t.nonneg
    elif op in ('bigcat', 'ex', 'sum'):
        n, h, body = args
        v = fresh_lv()
        b2 = subst_bv(body, h, v)
        return {'bigcat': bigcat, 'ex': exists, 'sum': sum_bound}[op](n, v, b2)
    elif op == 'mapupd':
        base, n, h, pat, body = args
        v = fresh_lv()
        return mapupd(base, n, v, subst_bv(pat, h, v), subst_bv(body, h, v))
    elif op == 'ij' and len(args) == 2:
        return ij(*args)
    elif op == 'tag' and len(args) == 2 and isinstance(args[1], T):
        return lift(lambda a: mk('tag', args[0], a), [args[1]])
    elif op in REBUILD:
        return REBUILD[op](t, args)
    else:
        r = mk(op, *args)
    if r.op not in ('num',):
        if t.isint:
            r.isint = True
        if t.nonneg:
            r.nonneg = True
    return r


def _map_args(args, f):
    c = args.__class__
    if c is T:
        return f(args)
    if c is tuple:
        return tuple([f(a) if a.__class__ is T else _map_args(a, f) if a.__class__ is tuple else a for a in args])
    return args


def subst(t, m, memo=None):
    """Substitute free lv/phi terms."""
    if not t.free:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(x):
        if not (x.free & keys):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if x.op == 'poly':
                r = _subst_poly(x, go)
            else:
                r = rebuild(x, _map_args(x.args, go))
            memo[x] = r
        return r
    return go(t)


def _subst_poly(x, go):
    # plain leaves: one pass over the polynomial, no case distribution
    q = {}
    new = {}
    for m, c in x.args[0]:
        for a, e in m:
            if a not in new:
                b = go(a.args[0] if a.op == 'den' else a)
                if b.nl != 1 or e < 0 and (b.op in ('num', 'poly') or a.op == 'den'):
                    new = None
                    break
                new[a] = b
            elif e < 0 and (new[a].op in ('num', 'poly') or a.op == 'den'):
                new = None
                break
        if new is None:
            break
        d = {}
        rest = None
        for a, e in m:
            b = new[a]
            if b.op == 'num' or b.op == 'poly':
                for _ in range(e):
                    rest = topoly(b) if rest is None else poly_mul(rest, topoly(b))
            else:
                k = d.get(b, 0) + e
                if k:
                    d[b] = k
                else:
                    del d[b]
        mono = {tuple(sorted(d.items(), key=lambda z: z[0].key)): c}
        if rest is not None:
            if len(rest) > 200:
                new = None
                break
            mono = poly_mul(mono, rest)
        for k, v in mono.items():
            w = q.get(k, 0) + v
            if w:
                q[k] = w
            else:
                del q[k]
    if new is not None:
        return frompoly(q)
    r = ZERO
    for m, c in x.args[0]:
        y = num(c)
        for a, e in m:
            if a.op == 'den':
                b = go(a.args[0])
                y = mul(y, power(b, e)) if e > 0 else div(y, power(b, -e))
            else:
                b = go(a)
                y = mul(y, power(b, e)) if e > 0 else div(y, power(b, -e))
        r = add(r, y)
    return r


def subst_bv(t, h, v):
    """Replace bound variable of height h by v inside a body."""
    memo = {}
    bv = bvar(h)

    def go(x):
        if x is bv:
            return v
        if not _has_bv(x, h):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'poly':
                r = _subst_poly(x, go)
            elif x.op in BINDERS and _bh(x) == h:
                r = rebuild(x, _map_outer(x, go))
            else:
                r = rebuild(x, _map_args(x.args, go))
            memo[x] = r
        return r
    return go(t)


_bv_cache = {}


def _bh(x):
    return x.args[2] if x.op == 'mapupd' else x.args[1]


def _map_outer(x, go):
    a = x.args
    if x.op == 'mapupd':
        return (go(a[0]), go(a[1])) + a[2:]
    if x.op == 'mu':
        return (go(a[0]),) + a[1:4] + (tuple((go(i), n) for i, n in a[4]),) + a[5:]
    return (go(a[0]),) + a[1:]


def _outer(x):
    a = x.args
    if x.op == 'mapupd':
        return [a[0], a[1]]
    if x.op == 'mu':
        return [a[0]] + [i for i, n in a[4]]
    return [a[0]]


def _has_bv(t, h):
    k = (t, h)
    r = _bv_cache.get(k)
    if r is None:
        if t.op == 'bv':
            r = t.args[0] == h
        else:
            # a binder of the same height shadows
            if t.op in BINDERS and _bh(t) == h:
                r = any(_has_bv(x, h) for x in _outer(t))
            else:
                r = any(_has_bv(x, h) for x in _walk_direct(t.args))
        _bv_cache[k] = r
    return r


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_walk_direct(x.args))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0]) if a[0].denominator < 1000 else repr(float(a[0]))
    if op == 'b':
        return 'true' if a[0] else 'false'
    if op == 'in':
        return '.'.join(str(x) if not isinstance(x, tuple) else x[-1] if isinstance(x[-1], str) else str(x) for x in a[0])
    if op == 'poly':
        r = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator < 1000 else repr(float(c)))
            for x, e in m:
                f.append(s(x) + ('' if e == 1 else '^%d' % e))
            r.append('*'.join(f))
        return '(' + ' + '.join(r) + ')'
    if op == 'den':
        return s(a[0])
    if op == 'idx':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'fld':
        return s(a[0]) + '.' + a[1]
    if op == 'seq':
        return '{' + ', '.join(s(x) for x in a) + '}'
    if op == 'cat':
        return '(' + ' ++ '.join(s(x) for x in a) + ')'
    if op == 'lt0':
        return s(a[0]) + '<0'
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '[' + s(a[0]) + ']'
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + '[' + s(a[0]) + ']'
        return 'if(' + s(a[0]) + ', ' + s(a[1]) + ', ' + s(a[2]) + ')'
    if op == 'lv':
        return 'i%d' % a[0]
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'phi':
        return 'φ%d:%s' % (a[0], a[1])
    if op == 'call':
        return str(a[0]).split('::')[-1] + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    if op in ('bigcat', 'ex', 'sum'):
        return {'bigcat': '⧺', 'ex': '∃', 'sum': 'Σ'}[op] + 'b%d<%s:' % (a[1], s(a[0])) + s(a[2])
    if op == 'fset':
        fs = []
        x = t
        while x.op == 'fset':
            fs.append((x.args[1], x.args[2]))
            x = x.args[0]
        return ('' if x is UNDEF else s(x)) + '{' + ', '.join('%s=%s' % (f, s(v)) for f, v in reversed(fs)) + '}'
    return op + '(' + ', '.join(s(x) for x in a) + ')'
