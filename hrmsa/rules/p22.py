"""Definite assignment: along every path through a function each local scalar, pointer, matrix element and plain record
member is assigned before it is read. Loops over constants are unrolled as running at least once, any other loop may not
run. Members a class gives no initial value must be assigned by every constructor, or before the first read in every
public operation. A value assigned on only some of the paths is a violation unless a later condition talks about the
same variables as the choice of path, which is left undetermined."""
from .. import astq, defassign

GROUPS = ['p2d', 'p3d', 'abl', 'ompl', 'geo', 'astar', 'kdl']


def short(q):
    return q.replace('hrm::planners::ompl_interface::', '').replace('hrm::planners::', '').replace('hrm::', '')


def cell(kind, hit):
    if kind[0] == 's':
        return ''
    return ' (%s)' % ', '.join('%s,%s' % c if isinstance(c, tuple) else str(c) for c in hit[:4])


def run(c):
    P = c.P
    A = defassign.Analysis(P)
    names = {}
    n_reads = n_tracked = n_fns = 0

    def at(f, n):
        return '%s:%d' % (f.loc().rsplit(':', 1)[0], n.get('l', f.line))

    def judge(f, F, ob):
        sure = [b for b in F.bad if b[3]]
        if F.bad:
            key, hit, n, s, cert = (sure or F.bad)[0]
            nm = next((v.get('n') for d, up in astq.nodes(f, 'decl') for v in d['a'] if v.get('id') == key[1]), '?')
            text = '%s reads %s%s %s' % (short(f.q), nm, cell(F.tracked[key], hit), 'before it is assigned' if cert else
                                        'which is not assigned on every path')
            (c.bad if sure else c.und)(ob, text, at(f, n), f.q)
        else:
            c.ok(ob, '', f.loc(), f.q)
    for f in sorted(P.fns.values(), key=lambda f: f.loc()):
        if '/spec/' in f.file or f.j.get('body') is None:
            continue
        F = A.local(f)
        n_fns += 1
        n_reads += F.reads
        n_tracked += len(F.tracked)
        if F.tracked or F.bad:
            judge(f, F, 'locals:%s' % short(f.q))
    seen = set()
    for f, x in list(A.lambdas):
        if id(x) in seen:
            continue
        seen.add(id(x))

        class L:
            pass
        g = L()
        g.j = dict(params=x['f'].get('params', []), body=x['f'].get('body'), rt=x['f'].get('rt'))
        g.tu, g.ent, g.usr, g.cls, g.q, g.file, g.line, g.loc = f.tu, {}, f.usr, f.cls, f.q, f.file, f.line, f.loc
        F = defassign.Fn(A, g)
        n_reads += F.reads
        n_tracked += len(F.tracked)
        if F.tracked:
            judge(g, F, 'locals:%s lambda at %d' % (short(f.q), x['l']))
    # ---- members
    n_cls = 0
    for k in P.cls.values():
        if '/spec/' in k.j['file'] or '/external/' in k.j['file']:
            continue
        lin = P.linear(k.usr)
        mem = {}
        for u in lin:
            mem.update(A.unset_members(P.cls[u]))
        ctors = [f for f in P.fns.values() if f.cls == k.usr and f.ent.get('ctor') and f.ent.get('ctor') != 'copy']
        if not mem or not ctors:
            continue
        n_cls += 1

        class Like:
            pass
        like = Like()
        like.mem = mem
        left = {}
        ob = 'members:%s' % short(k.t)
        bad = None
        for f in ctors:
            F = A.summary(f.usr, True, like)
            if F is None:
                continue
            for m, (n, hit) in F.exposed.items():
                bad = bad or (f, n, m)
            for key in F.end:
                if key[0] == 'm':
                    left.setdefault(key[1], f)
        if not bad and left:
            seen_u = set()
            for u in astq.surface(P, k.usr):
                f = P.fns.get(u)
                if f is None or f.ent.get('ctor') or f.ent.get('dtor') or u in seen_u:
                    continue
                seen_u.add(u)
                lk = Like()
                lk.mem = {m: mem[m] for m in left}
                F = A.summary(u, True, lk)
                for m, (n, hit) in F.exposed.items() if F else ():
                    bad = bad or (f, n, m)
        if bad:
            f, n, m = bad
            c.bad(ob, '%s reads member %s, which no constructor has assigned' % (short(f.q), m), at(f, n), f.q)
        else:
            c.ok(ob, '%d members' % len(mem), '%s:%d' % (k.j['file'].split('/repo/')[-1], k.j['l']), k.q)
    c.extra = dict(functions=n_fns, tracked_variables=n_tracked, reads_checked=n_reads, classes=n_cls)
