"""Queries over the extracted syntax: walks, call targets, reachability by class."""


def walk(n, f, up=()):
    """f(node, ancestors) for every expression and statement node."""
    if isinstance(n, dict):
        if 'k' in n:
            f(n, up)
            up = up + (n,)
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                walk(v, f, up)
    elif isinstance(n, list):
        for v in n:
            walk(v, f, up)


def parts(fn):
    """Everything executed by a function: initialisers and body."""
    return [fn.j.get('inits', []), fn.j.get('body')]


def nodes(fn, *kinds):
    out = []

    def see(n, up):
        if not kinds or n['k'] in kinds:
            out.append((n, up))
    for p in parts(fn):
        walk(p, see)
    return out


def callee(fn, n):
    i = n.get('fn')
    return fn.tu['fns'][i] if isinstance(i, int) else None


def on_this(n):
    o = n.get('o')
    while isinstance(o, dict) and o.get('k') == 'un' and o.get('op') == '*':
        o = o.get('x')
    return o is None or o.get('k') == 'this'


def typ(fn, i):
    return fn.tu['types'][i] if isinstance(i, int) and i >= 0 else {}


class Graph:
    """Calls, with virtual calls on the own object resolved for a given class."""

    def __init__(self, P):
        self.P = P
        self._calls = {}

    def calls(self, fn):
        r = self._calls.get(fn.usr)
        if r is None:
            r = []
            for n, up in nodes(fn, 'call', 'ctor', 'fref'):
                e = callee(fn, n)
                if e is not None and e.get('repo'):
                    r.append((n, e))
            self._calls[fn.usr] = r
        return r

    def target(self, n, e, cls):
        u = e['u']
        if e.get('v') and not n.get('qual') and on_this(n) and cls:
            u = self.P.vtable(cls).get(u, u)
        return u

    def reach(self, cls, roots):
        """usr -> calling usr, for everything run on an object of class cls."""
        lin = self.P.linear(cls)
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            u, by = st.pop()
            if u in seen:
                continue
            seen[u] = by
            f = self.P.fns.get(u)
            if not f:
                continue
            own = f.cls in lin
            for n, e in self.calls(f):
                st.append((self.target(n, e, cls if own else None), u))
        return seen


def entity(k, m):
    return k.tu['fns'][m['fn']]


def surface(P, cls, protected=False):
    """usrs run when the public operations of class cls are used."""
    vt = P.vtable(cls)
    out = []
    for c in P.linear(cls):
        for m in P.cls[c].methods:
            if m.get('acc', 0) == 0 or protected and m.get('acc') == 1:
                u = entity(P.cls[c], m)['u']
                out.append(vt.get(u, u))
    return out
