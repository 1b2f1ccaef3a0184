"""Lengths along paths (zone domain): at every use by position of the elements a repository function returned, or left in
an argument, the length known from the tests, copies and insertions on the path must exceed the position; a function
that uses its argument by position needs that length at each of its call sites. A path on which the known length is too
small is a violation when the number of elements really can be that small (some path of the producing function returns
so few) and no test that the domain cannot read stands between. Tables with an entry per slice, sweep line or free
segment: a use at a neighbour of the current entry needs a test that keeps the neighbour inside the number of entries
that bounds the current one."""
import re
from .. import astq, effects, sizes

GROUPS = ['p2d', 'p3d', 'abl', 'ompl', 'geo', 'astar']

# tables and the number of their entries: (path of the table, terms that give the number)
ROWS = [
    (re.compile(r'^(.*)\.(xM|xL|xU)$'), ['#{0}.ty', '#{0}.xM']),
    (re.compile(r'^(.*)\.(xM|xL|xU)(\[.*\])$'), ['#{0}.xM{2}', '#{0}.xL{2}', '#{0}.xU{2}']),
    (re.compile(r'^(.*)\.(freeSegmentYZ)$'), ['#{0}.tx']),
    (re.compile(r'^this\.(vertexIdx_|headings_|v_|q_)$'), ['this.param_.numSlice']),
    (re.compile(r'^this\.numVertex_\.(plane)$'), ['#*.ty']),
    (re.compile(r'^this\.numVertex_\.(line)$'), ['#*.tx']),
]


def short(q):
    return q.replace('hrm::planners::ompl_interface::', '').replace('hrm::planners::', '').replace('hrm::', '')


def counts(seq, st, copies):
    """Terms equal to the number of entries of seq."""
    out = ['#' + seq]
    todo, seen = [seq], {seq}
    while todo:
        s = todo.pop()
        for a, b in copies:
            if s.startswith(a) and (len(s) == len(a) or s[len(a)] in '.[<') and b + s[len(a):] not in seen:
                seen.add(b + s[len(a):])
                todo.append(b + s[len(a):])
    for s in seen:
        for r, ts in ROWS:
            m = r.match(s)
            if not m:
                continue
            for t in ts:
                if t.startswith('#*'):
                    names = {z for k in st.d for z in k}
                    out += sorted(z for z in names if z.startswith('#') and z.endswith(t[2:]) and '[' not in z)
                else:
                    out.append(t.format(*m.groups()))
    return out


def run(c):
    P = c.P
    E = effects.Effects(P)
    A = sizes.Analysis(P, E)
    fns = [f for f in sorted(P.fns.values(), key=lambda f: f.loc())
           if '/spec/' not in f.file and '/external/' not in f.file and f.j.get('body') is not None]
    n_uses = n_table = 0

    def at(f, n):
        return '%s:%d' % (f.loc().rsplit(':', 1)[0], n.get('l', f.line))

    def name(w, seq):
        m = re.match(r'^v(\d+)(.*)$', seq)
        if not m:
            return seq.replace('this.', '')
        for p in w.f.j.get('params', []):
            if str(p.get('id')) == m.group(1):
                return p.get('n', '?') + m.group(2)
        for d, up in astq.nodes(w.f, 'decl'):
            for v in d['a']:
                if str(v.get('id')) == m.group(1):
                    return v.get('n', '?') + m.group(2)
        return seq

    def related(w, seq):
        """What the number of elements of seq was computed from."""
        return w.close(set(w.roots(seq))) | {'*'}

    # ---- least lengths functions need of their arguments
    need = {}

    def needs(f):
        if f.usr in need:
            return need[f.usr]
        need[f.usr] = {}
        w = A.walk(f)
        out = {}
        if not w:
            return out
        for u in w.use:
            m = re.match(r'^v(\d+)$', u['seq'])
            if not m or int(m.group(1)) not in w.pars or u['idx'] is None or u['idx'][0] != '0' or u['origin']:
                continue
            if u['over'] < 0 or u['guards'] & (set(w.roots(u['seq'])) | {'*'}):
                continue
            i, k = w.pars[int(m.group(1))], u['idx'][1] + 1
            if k > out.get(i, (0,))[0]:
                out[i] = (k, u['node'], f)
        need[f.usr] = out
        for x, e, args, guards, st in w.calls:
            g = P.fns.get(e['u'])
            if g is None or e.get('v'):
                continue
            for i, p, low, org in args:
                m = re.match(r'^v(\d+)$', p)
                if m and int(m.group(1)) in w.pars and not org and i in needs(g):
                    k = needs(g)[i]
                    if low < k[0] and not guards & (set(w.roots(p)) | {'*'}) and k[0] > out.get(w.pars[int(m.group(1))], (0,))[0]:
                        out[w.pars[int(m.group(1))]] = k
        return out

    for f in fns:
        w = A.walk(f)
        if not w:
            continue
        # ---- results of other functions used by position
        done = {}

        def say(ob, kind, *a):
            if done.get(ob) != 'bad':
                if kind != 'ok' or ob not in done:
                    done[ob] = kind
                    done[ob, 'a'] = a
        ob = 'positions:' + short(f.q)
        for u in w.use:
            if not u['origin'] or u['idx'] is None:
                continue
            if u['origin'][0] == 'grown' and u['over'] >= 0:
                # built here: decided by what the building function returns, unless nothing was put in at all
                continue
            n_uses += 1
            if u['over'] < 0:
                say(ob, 'ok', '', f.loc(), f.q)
                continue
            if u['over'] == sizes.INF or u['guards'] & related(w, u['seq']):
                say(ob, 'und', 'length of %s at position %s is tested in a way that is not understood' % (
                    name(w, u['seq']), u['idx'][1]), at(f, u['node']), f.q)
                continue
            k = u['idx'][1] if u['idx'][0] == '0' else max(u['idx'][1], u['over'] + max(0, u['low']))
            say(ob, 'bad', '%s uses element %s of %s, of which only %s are known to be there; %s can return %s' % (
                short(f.q), k, name(w, u['seq']), max(0, int(u['low'])), u['origin'][1], u['origin'][2]),
                at(f, u['node']), f.q)
        for x, e, args, guards, st in w.calls:
            g = P.fns.get(e['u'])
            if g is None or e.get('v') or g.j.get('body') is None:
                continue
            for i, p, low, org in args:
                k = needs(g).get(i)
                if not org or org[0] != 'call' or not k:
                    continue
                n_uses += 1
                if low >= k[0]:
                    say(ob, 'ok', '', f.loc(), f.q)
                elif guards & related(w, p):
                    say(ob, 'und', 'length of %s given to %s is tested in a way that is not understood' % (
                        name(w, p), short(g.q)), at(f, x), f.q)
                else:
                    say(ob, 'bad', '%s hands %s to %s, which uses %d elements; only %d are known to be there, %s can '
                        'return %d' % (short(f.q), name(w, p), short(g.q), k[0], max(0, int(low)), org[1], org[2]),
                        at(f, x), f.q)
        # ---- neighbours in tables
        copies = []
        for d, up in astq.nodes(f, 'decl'):
            for v in d['a']:
                if 'id' in v and v.get('i') is not None and astq.typ(f, v.get('t')).get('k') != 'ref':
                    y = v['i']
                    if isinstance(y, dict) and y.get('k') == 'ctor' and len(y.get('a', [])) == 1:
                        q = w.path(y['a'][0])
                        if q:
                            copies.append(('v%s' % v['id'], q))
        ob = 'neighbours:' + short(f.q)
        for u in w.use:
            if u['idx'] is None or u['idx'][0] in ('0',) or u['idx'][0].startswith('#') and u['idx'][1] < 0:
                continue
            t, k = u['idx']
            st = u['st']
            if k < 0:
                low = st.lb(t)
                if low + k >= 0:
                    n_table += 1
                    say(ob, 'ok', '', f.loc(), f.q)
                elif low == -sizes.INF or u['guards'] & (w.close(set(w.roots(t))) | {'*'}):
                    pass
                else:
                    n_table += 1
                    say(ob, 'bad', '%s uses entry %s%+d of %s where %s may be %d' % (
                        short(f.q), name(w, t), k, name(w, u['seq']), name(w, t), low), at(f, u['node']), f.q)
                continue
            if k == 0:
                continue
            over = min(st.ub(t, z) + k for z in counts(u['seq'], st, copies))
            if over < 0:
                n_table += 1
                say(ob, 'ok', '', f.loc(), f.q)
            elif over == sizes.INF:
                continue
            elif u['guards'] & (w.close(set(w.roots(t))) | {'*'}):
                say(ob, 'und', 'entry %s%+d of %s is guarded in a way that is not understood' % (
                    name(w, t), k, name(w, u['seq'])), at(f, u['node']), f.q)
            else:
                n_table += 1
                say(ob, 'bad', '%s uses entry %s%+d of %s, where %s may be the last entry' % (
                    short(f.q), name(w, t), k, name(w, u['seq']), name(w, t)), at(f, u['node']), f.q)
        for ob in [o for o in done if isinstance(o, str)]:
            getattr(c, done[ob])(ob, *done[ob, 'a'])
    c.extra = dict(functions=len(fns), uses_by_position=sum(len(A.walk(f).use) for f in fns if A.walk(f)),
                   result_uses=n_uses, neighbour_uses=n_table)
