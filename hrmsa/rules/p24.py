"""Effect analysis: the set of members, parameters and globals each function of the library may write is computed over
the whole call graph (references, pointers, iterators, range variables and returned references are followed; a virtual
call may run every overrider). The members that hold the problem are those a planner, free-space or OMPL class
initialises from the arena, obstacle, start, goal and limit arguments of its constructor. After construction no function
writes them (start and goal may only change their length), no function writes a caller's argument it gets by reference
in a constructor or public operation, no accessor writes a member, no cast removes const and no member is mutable."""
from .. import astq, effects

GROUPS = ['p2d', 'p3d', 'abl', 'ompl', 'geo']
ROOTS = ('hrm::planners::HighwayRoadMap', 'hrm::planners::ompl_interface::OMPLInterface', 'hrm::FreeSpaceComputator')
LENGTH = {'resize', 'push_back', 'pop_back', 'emplace_back', 'reserve', 'shrink_to_fit', 'init'}


def short(q):
    return q.replace('hrm::planners::ompl_interface::', '').replace('hrm::planners::', '').replace('hrm::', '')


def strip(x):
    while isinstance(x, dict) and x.get('k') in ('cast',) or isinstance(x, dict) and x.get('k') in ('ctor', 'list') and \
            len(x.get('a', [])) == 1:
        x = x['x'] if x['k'] == 'cast' else x['a'][0]
    return x


def source(f, x):
    """('arg', name) when an initialiser copies a constructor parameter or a member of one."""
    x = strip(x)
    if isinstance(x, dict) and x.get('k') == 'call' and (astq.callee(f, x) or {}).get('n') in ('move', 'forward'):
        x = strip(x['a'][0])
    path = []
    while isinstance(x, dict) and x.get('k') == 'mem':
        path.append(x['n'])
        x = strip(x.get('b'))
    if isinstance(x, dict) and x.get('k') == 'var' and any(p['id'] == x['id'] for p in f.j.get('params', [])):
        return [x['n']] + path[::-1]
    return None


def roles(P, k):
    """member -> 'shapes' | 'config' | 'params' for a class, from its constructors."""
    out = {}
    for f in P.fns.values():
        if f.cls != k.usr or not f.ent.get('ctor') or f.ent.get('ctor') == 'copy':
            continue
        items = [(i.get('m'), i.get('x')) for i in f.j.get('inits', []) if i.get('m') and i.get('w')]
        for n, up in astq.nodes(f, 'asg', 'call'):
            if n['k'] == 'asg' and n.get('op') == '=':
                x, y = n['x'], n['y']
            elif n['k'] == 'call' and (astq.callee(f, n) or {}).get('n') == 'operator=' and n.get('a'):
                x, y = n.get('o') or n['a'][0], n['a'][-1]
            else:
                continue
            if isinstance(x, dict) and x.get('k') == 'mem' and (x.get('b') or {}).get('k') == 'this':
                items.append((x['n'], y))
        for m, x in items:
            s = source(f, x)
            if not s:
                continue
            fd = next((z for z in k.fields if z['n'] == m), None)
            if not fd:
                continue
            t = astq.typ(k, fd['t']) if False else k.tu['types'][fd['t']]
            if t.get('k') in ('ref',):
                t = k.tu['types'][t['to']]
            txt = str(t.get('s', ''))
            if 'std::vector' in txt and ('SuperEllipse' in txt or 'SuperQuadrics' in txt):
                out[m] = 'shapes'
            elif 'std::vector<double' in txt or 'std::vector<hrm::Coordinate' in txt:
                out[m] = 'config'
            elif 'PlannerParameter' in txt:
                out[m] = 'params'
    return out


def run(c):
    P = c.P
    E = effects.Effects(P)

    def at(f, n):
        return '%s:%d' % (f.loc().split(':')[0], n.get('l', f.line))
    fam = {}
    for k in P.cls.values():
        lin = [P.cls[u] for u in P.linear(k.usr)]
        if any(b.q in ROOTS for b in lin):
            fam[k.usr] = k
    nf = 0
    for k in fam.values():
        ro = roles(P, k)
        lineage = set(P.linear(k.usr)) | set(P.derived(k.usr))
        for m, kind in sorted(ro.items()):
            ob = 'kept:%s.%s' % (short(k.t), m)
            bad = und = None
            n_f = 0
            for f in P.fns.values():
                if f.ent.get('ctor') or f.ent.get('dtor') or '/spec/' in f.file:
                    continue
                n_f += 1
                for r, hows in E.sets[f.usr].items():
                    if r[0] == 'T' and f.cls in lineage:
                        for h, n in hows.items():
                            if not h.startswith('call of'):
                                bad = bad or (f, n, h)
                        continue
                    if r[0] != 'F' or r[1] != k.usr or r[2] != m:
                        continue
                    for h, n in hows.items():
                        if kind == 'params':
                            if r[3] == 'boundaryLimits' and not h.startswith('call of'):
                                bad = bad or (f, n, h)
                            elif r[3] == '' and not h.startswith('call of'):
                                und = und or (f, n, h)
                            continue
                        callee = next((u for u in E.may_run(n, astq.callee(f, n)) if u in E.sets), None) \
                            if h.startswith('call of') and n.get('fn') is not None else None
                        if h.startswith('call of') and callee and any(
                                z[0] in ('F', 'T') and z[1:3] == r[1:3] for u in E.may_run(n, astq.callee(f, n))
                                for z in E.sets.get(u, {})):
                            continue     # reported where it happens
                        if kind == 'config' and h in LENGTH and direct(n.get('o'), m):
                            continue
                        if kind == 'config' and h in ('=', 'operator=', 'assign') and \
                                direct(n.get('x') or n.get('o') or (n.get('a') or [None])[0], m):
                            y = n.get('y') or (n.get('a') or [None])[-1]
                            others = mentions(y, [z for z, q in ro.items() if z != m])
                            if not others:
                                und = und or (f, n, h)
                                continue
                        bad = bad or (f, n, h)
            nf = max(nf, n_f)
            if bad:
                f, n, h = bad
                c.bad(ob, '%s changes %s after construction (%s)' % (short(f.q), m, h), at(f, n), f.q)
            elif und:
                f, n, h = und
                c.und(ob, '%s assigns %s as a whole; whether it keeps its values is not decided' % (short(f.q), m), at(f, n), f.q)
            else:
                c.ok(ob, '', '%s:%d' % (k.j['file'].split('/repo/')[-1], k.j['l']), k.q)
        # ---- operations and accessors
        for m in k.methods:
            e = astq.entity(k, m)
            f = P.fns.get(e['u'])
            if f is None or m.get('acc', 0) != 0 or e.get('dtor'):
                continue
            W = E.sets[f.usr]
            ps = [r for r in W if r[0] == 'P' and describes(f, r[1])]
            ob = 'arguments:%s::%s' % (short(k.t), e['n'])
            if ps:
                n = list(W[ps[0]].values())[0]
                c.bad(ob, '%s may write its argument %d, an object of the caller' % (short(f.q), ps[0][1]), at(f, n), f.q)
            else:
                c.ok(ob, '', f.loc(), f.q)
            if e['n'].startswith('get') and not e['p'] and P_ret(k, e):
                ob = 'accessor:%s::%s' % (short(k.t), e['n'])
                hit = None
                for r, hows in W.items():
                    if r[0] == 'G' or r[0] == 'P':
                        continue
                    for h, n in hows.items():
                        if r[0] == 'F' and roles(P, P.cls[r[1]]).get(r[2]) == 'config' if r[0] == 'F' and r[1] in P.cls else False:
                            continue      # judged by 'kept'
                        hit = hit or (r, n, h)
                if hit:
                    c.bad(ob, '%s writes %s (%s)' % (short(f.q), hit[0][2] if hit[0][0] == 'F' else 'the object', hit[2]),
                          at(f, hit[1]), f.q)
                else:
                    c.ok(ob, '', f.loc(), f.q)
    # robots and shapes: reading operations
    for k in P.cls.values():
        if k.usr in fam or '/spec/' in k.j['file'] or not any(
                x in k.q for x in ('MultiBodyTree', 'SuperEllipse', 'SuperQuadrics', 'ParseURDF')):
            continue
        for m in k.methods:
            e = astq.entity(k, m)
            f = P.fns.get(e['u'])
            if f is None or m.get('acc', 0) != 0 or not (e['n'].startswith('get') or e['n'] == 'minkSum'):
                continue
            W = [r for r in E.sets[f.usr] if r[0] != 'G']
            ob = 'accessor:%s::%s' % (short(k.t), e['n'])
            if W:
                n = list(E.sets[f.usr][W[0]].values())[0]
                c.bad(ob, '%s writes %s' % (short(f.q), W[0][2] if W[0][0] == 'F' else 'an argument' if W[0][0] == 'P' else
                                            'the object'), at(f, n), f.q)
            else:
                c.ok(ob, '', f.loc(), f.q)
    cc = effects.const_casts(P)
    for file, l, t in cc:
        c.bad('const', 'a cast removes const from %s' % t, '%s:%d' % (file, l), file)
    if not cc:
        c.ok('const', 'no cast removes const')
    mut = [(k, x) for k in P.cls.values() for x in k.fields if x.get('mut') and '/spec/' not in k.j['file']]
    for k, x in mut:
        if k.usr in fam:
            c.und('mutable:%s.%s' % (short(k.t), x['n']), 'a mutable member may change in const operations')
    c.extra = dict(functions_with_write_sets=len(E.sets), rounds=E.rounds, classes=len(fam))


def describes(f, i):
    ps = f.j.get('params', [])
    t = astq.typ(f, ps[i]['t']) if i < len(ps) else {}
    t = str(astq.typ(f, t.get('to')).get('s', '')) if t.get('k') in ('ref', 'rref', 'ptr') else ''
    return any(x in t for x in ('SuperEllipse', 'SuperQuadrics', 'MultiBodyTree', 'PlanningRequest', 'PlannerParameter',
                                'std::vector<double'))


def P_ret(k, e):
    return k.tu['types'][e['rt']].get('k') != 'void'


def direct(x, m):
    while isinstance(x, dict) and x.get('k') == 'cast':
        x = x['x']
    return isinstance(x, dict) and x.get('k') == 'mem' and x.get('n') == m and (x.get('b') or {}).get('k') in ('this', None)


def mentions(t, names):
    r = []
    astq.walk(t, lambda x, up: r.append(1) if x.get('k') == 'mem' and x.get('n') in names else None)
    return bool(r)
