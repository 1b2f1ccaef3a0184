"""Class-level rules over all classes of the library. Replaced operations: a member function declared in a class
with the name and number of arguments of one of its base class overrides it, unless the base version is never run on an
object of the class (public operations and everything they reach, virtual calls resolved for the class). Dispatch: no
call names a base version of an overridden operation except from the overriding operation itself, no constructor or
destructor runs an operation that a derived class replaces, no object of a derived class is copied into an object of
its base class. Ownership: a class with virtual operations has a virtual destructor; the result of every new expression
goes to a smart pointer or to a pointer that is deleted in one place; nothing managed by a smart pointer is deleted or
handed to a second one."""
from .. import astq

GROUPS = ['p2d', 'p3d', 'abl', 'astar', 'ompl', 'geo']
SMART = ('std::shared_ptr', 'std::unique_ptr')


def short(q):
    return q.replace('hrm::planners::ompl_interface::', '').replace('hrm::planners::', '').replace('hrm::', '')


def run(c):
    P = c.P
    g = astq.Graph(P)
    ent = astq.entity
    own = [k for k in P.cls.values() if '/spec/' not in k.j['file']]

    def loc(k, line):
        from ..load import REPO
        return '%s:%d' % (k.j['file'].replace(REPO + '/', ''), line)

    def named(k):
        return [(m, ent(k, m)) for m in k.methods
                if not ent(k, m).get('ctor') and not ent(k, m).get('dtor') and not ent(k, m).get('conv')
                and ent(k, m).get('m') != 's' and not ent(k, m)['n'].startswith('operator')]

    def overrides(m, k):
        """All base functions m overrides, directly or through another."""
        out, st = set(), list(m['over'])
        while st:
            u = st.pop()
            if u in out:
                continue
            out.add(u)
            for b in P.cls.values():
                for x in b.methods:
                    if ent(b, x)['u'] == u:
                        st.extend(x['over'])
        return out

    # ---- replaced operations
    reach = {}

    def reached(d):
        if d not in reach:
            reach[d] = g.reach(d, astq.surface(P, d))
        return reach[d]
    for k in own:
        bases = [P.cls[b] for b in P.linear(k.usr)[1:]]
        if not bases:
            continue
        ob = 'replaces:' + short(k.t)
        bad = False
        mine = named(k)
        ov = {ent(k, m)['u']: overrides(m, k) for m, _ in mine}
        for b in bases:
            for bm, be in named(b):
                same = [(m, e) for m, e in mine if e['n'] == be['n'] and len(e['p']) == len(be['p'])]
                if not same or any(be['u'] in ov[e['u']] for _, e in mine):
                    continue
                # the base version counts when something runs it on such an object
                why = None
                if bm.get('acc', 0) == 0:
                    why = 'is a public operation'
                else:
                    for d in P.derived(k.usr):
                        r = reached(d)
                        if be['u'] in r:
                            f = P.fns.get(r[be['u']]) if r[be['u']] else None
                            why = 'is run by %s' % (f.q if f else 'a caller')
                            break
                if why:
                    m, e = same[0]
                    bad = True
                    c.bad(ob, '%s::%s does not override %s::%s, which %s, so the general version stays in effect'
                          % (short(k.t), e['n'], short(b.t), be['n'], why), loc(k, m['l']), k.q + '::' + e['n'])
        if not bad:
            c.ok(ob, '', loc(k, k.j['l']), k.q)

    # ---- destruction through the general class
    for k in own:
        if not k.j.get('poly'):
            continue
        ob = 'destructor:' + short(k.t)
        d = [m for m in k.methods if ent(k, m).get('dtor')]
        if k.j.get('vdtor') or d and d[0].get('acc', 0) != 0:
            c.ok(ob, '', loc(k, k.j['l']), k.q)
        else:
            c.bad(ob, '%s has virtual operations but its destructor is not virtual: an object of a derived class is '
                  'not destroyed through it' % short(k.t), loc(k, k.j['l']), k.q)

    # ---- dispatch
    n1 = n2 = n3 = 0
    replaced = {}          # overridden usr -> [overriding (class, usr)]
    name_of = {}
    for k in own:
        for m, e in named(k):
            name_of[e['u']] = (k, e)
            for u in overrides(m, k):
                replaced.setdefault(u, []).append((k, e['u']))
    callers = {}
    for f in P.fns.values():
        for n, e in g.calls(f):
            callers.setdefault(e['u'], set()).add(f.usr)

    def within(u, base, depth=3):
        """The function is an override of base, or a helper only such overrides use."""
        if any(x == u for _, x in replaced.get(base, [])):
            return True
        cs = callers.get(u, set()) - {u}
        return depth > 0 and bool(cs) and u not in replaced and all(within(x, base, depth - 1) for x in cs)
    for f in P.fns.values():
        if '/spec/' in f.file:
            continue
        for n, e in g.calls(f):
            u = e['u']
            if n.get('qual') and e.get('v') and n['k'] == 'call' and f.cls and astq.on_this(n):
                n1 += 1
                ob = 'dispatch:%s->%s' % (short(f.q), e['n'])
                hit = [d for d in P.derived(f.cls) if P.vtable(d).get(u, u) != u]
                if hit and not within(f.usr, u):
                    c.bad(ob, '%s calls %s by its class name, so the version of %s is not run on an object of that class'
                          % (short(f.q), short(e['q']), short(P.cls[hit[0]].t)), '%s:%d' % (f.loc().split(':')[0], n['l']), f.q)
                else:
                    c.ok(ob, '', '%s:%d' % (f.loc().split(':')[0], n['l']), f.q)
        if f.ent.get('ctor') or f.ent.get('dtor'):
            if not f.cls or f.cls not in P.cls:
                continue
            n2 += 1
            ob = 'construction:' + short(f.q)
            r = g.reach(f.cls, [f.usr])
            bad = None
            for u in r:
                h = P.fns.get(u)
                if not h or h.cls not in P.linear(f.cls):
                    continue
                for n, e in g.calls(h):
                    if not e.get('v') or n.get('qual') or not astq.on_this(n) or n['k'] != 'call':
                        continue
                    t = g.target(n, e, f.cls)
                    for d in P.derived(f.cls):
                        if d != f.cls and P.vtable(d).get(t, t) != t:
                            bad = (h, n, e, d)
            if bad:
                h, n, e, d = bad
                c.bad(ob, '%s runs %s while the object is being built or destroyed, so the version of %s is not used'
                      % (short(f.q), e['n'], short(P.cls[d].t)), '%s:%d' % (h.loc().split(':')[0], n['l']), f.q)
            else:
                c.ok(ob, '', f.loc(), f.q)
        for n, up in astq.nodes(f, 'ctor'):
            if n.get('slice'):
                e = astq.callee(f, n)
                k = P.cls.get(e.get('cu'))
                if k and k.j.get('poly'):
                    n3 += 1
                    c.bad('slicing:' + short(f.q), 'an object of a derived class is copied into a %s' % short(k.t),
                          '%s:%d' % (f.loc().split(':')[0], n['l']), f.q)
    if not n3:
        c.ok('slicing', 'no copy of a derived object into its base')
    owners(c, P)
    c.extra = dict(classes=len(own), qualified_virtual_calls=n1, constructors_and_destructors=n2)


def smart(fn, t):
    t = astq.typ(fn, t)
    return str(t.get('r', '')).startswith(SMART) or 'shared_ptr' in str(t.get('r', '')) and t.get('k') == 'rec'


def strip(x):
    while isinstance(x, dict) and x.get('k') == 'cast':
        x = x['x']
    return x


def same(a, b):
    a, b = strip(a), strip(b)
    if not a or not b or a.get('k') != b.get('k'):
        return False
    if a['k'] == 'var':
        return a['id'] == b['id']
    if a['k'] == 'mem':
        return a['n'] == b['n'] and (same(a.get('b'), b.get('b')) or (a.get('b') or {}).get('k') == 'this')
    return a['k'] == 'this'


def owners(c, P):
    fields = {}
    for f in P.fns.values():
        if '/spec/' in f.file or '/external/' in f.file:
            continue
        at = lambda n: '%s:%d' % (f.loc().split(':')[0], n['l'])
        dels = [(strip(n['x']), n, up) for n, up in astq.nodes(f, 'delete')]
        taken = []
        for n, up in astq.nodes(f, 'ctor', 'call'):
            e = astq.callee(f, n)
            sp = n['k'] == 'ctor' and smart(f, n['t']) or \
                n['k'] == 'call' and e and e['n'] == 'reset' and n.get('o') and smart(f, n['o'].get('t'))
            if not sp or not n.get('a'):
                continue
            a = strip(n['a'][0])
            if not isinstance(a, dict) or astq.typ(f, a.get('t')).get('k') != 'ptr':
                continue
            ob = 'ownership:%s' % short(f.q)
            ge = astq.callee(f, a) if a['k'] == 'call' else None
            if a['k'] == 'this' or a['k'] == 'un' and a.get('op') == '&' or \
                    ge and ge['n'] == 'get' and a.get('o') and smart(f, a['o'].get('t')):
                c.bad(ob, 'a smart pointer takes over an object that already has an owner', at(n), f.q)
            elif a['k'] in ('var', 'mem'):
                if any(same(a, b) for b in taken) or any(same(a, x) for x, _, _ in dels):
                    c.bad(ob, 'one object is released by two owners', at(n), f.q)
                taken.append(a)
        for x, n, up in dels:
            ge = astq.callee(f, x) if x.get('k') == 'call' else None
            if ge and ge['n'] == 'get' and x.get('o') and smart(f, x['o'].get('t')) or \
                    x.get('k') == 'un' and x.get('op') == '&':
                c.bad('ownership:%s' % short(f.q), 'deletes an object that another owner releases', at(n), f.q)
            if x.get('k') == 'mem':
                fields.setdefault((f.cls, x['n']), {}).setdefault('del', []).append((f, n))
            # twice on one straight line
            for y, m, up2 in dels:
                if m is not n and same(x, y) and up and up2 and up[:-1] == up2[:-1] and up[-2:-1] and up[-2].get('k') == 'seq':
                    i, j = [up[-2]['a'].index(u) if u in up[-2]['a'] else -1 for u in (up[-1], up2[-1])]
        for n, up in astq.nodes(f, 'new'):
            ob = 'acquired:%s:%s' % (short(f.q), astq.typ(f, n['at']).get('s', '?'))
            own = None
            for u in reversed(up):
                if u['k'] in ('cast', 'cond', 'list'):
                    continue
                if u['k'] == 'ctor' and smart(f, u['t']):
                    own = 'smart pointer'
                elif u['k'] == 'call' and (astq.callee(f, u) or {}).get('n') == 'reset' and u.get('o') and smart(f, u['o'].get('t')):
                    own = 'smart pointer'
                elif u['k'] == 'asg':
                    own = strip(u['x'])
                elif u['k'] == 'decl':
                    own = dict(k='var', id=next((v['id'] for v in u['a'] if has(v.get('i'), n)), None))
                elif u['k'] == 'ret':
                    own = 'caller'
                else:
                    own = 'other'
                break
            if not up or own is None:
                # a member initialiser
                m = next((i.get('m') for i in f.j.get('inits', []) if has(i.get('x'), n)), None)
                own = dict(k='mem', n=m) if m else 'other'
            if isinstance(own, str):
                c.ok(ob, 'released by ' + own, at(n), f.q)
            elif own['k'] == 'mem':
                fields.setdefault((f.cls, own['n']), {}).setdefault('new', []).append((f, n))
            elif own['k'] == 'var':
                vid = own['id']
                uses = [(x, u2) for x, u2 in astq.nodes(f, 'var') if x.get('id') == vid]
                nd = [d for d in dels if d[0].get('id') == vid and d[0]['k'] == 'var']
                escapes = any(u2 and u2[-1]['k'] in ('call', 'ctor', 'ret', 'asg', 'list', 'cast') for x, u2 in uses)
                if not nd and not escapes:
                    c.bad(ob, 'the object is never released', at(n), f.q)
                else:
                    c.ok(ob, '', at(n), f.q)
            else:
                c.ok(ob, 'owner not followed', at(n), f.q)
    for (u, name), d in fields.items():
        k = P.cls.get(u)
        if not k:
            continue
        ob = 'owned:%s::%s' % (short(k.t), name)
        lin = set(P.linear(u)) | set(P.derived(u))
        alld = [x for (v, m), e in fields.items() if m == name and v in lin for x in e.get('del', [])]
        if d.get('new'):
            f, n = d['new'][0]
            at = '%s:%d' % (f.loc().split(':')[0], n['l'])
            if not any(x.ent.get('dtor') for x, _ in alld):
                c.bad(ob, 'the object held by %s is never released' % name, at, k.q + '::' + name)
                continue
            c.ok(ob, '', at, k.q + '::' + name)
        dt = [x for x in alld if x[0].ent.get('dtor')]
        if len(dt) > 1:
            f, n = dt[1]
            c.bad(ob, 'the object held by %s is released by two destructors' % name,
                  '%s:%d' % (f.loc().split(':')[0], n['l']), k.q + '::' + name)


def has(t, n):
    r = []
    astq.walk(t, lambda x, up: r.append(1) if x is n else None)
    return bool(r)
