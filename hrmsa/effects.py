"""What each function may write: members of the own object, parameters, globals.

A write set holds roots ('F', class usr, member, member of it or ''), ('P', index), ('G', name), ('T',) for the whole
own object.  Local
references, pointers, iterators and range variables are followed to what they refer to; calls of repository functions
use the write set of every function the call may run; library operations write their object when they are not const
and do not only hand out a reference, and their non-const reference arguments."""
from . import astq

# non-const members of library classes that hand out a part of the object
HANDLE = {'at', 'operator[]', 'operator()', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'data', 'operator->',
          'operator*', 'get', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'block',
          'diagonal', 'row', 'col', 'head', 'tail', 'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols',
          'colwise', 'rowwise', 'array', 'matrix', 'noalias', 'transpose', 'rotation', 'translation', 'linear', 'x',
          'y', 'z', 'w', 'coeffs', 'vec', 'angle', 'axis', 'as', 'find', 'lower_bound', 'upper_bound', 'coeffRef',
          'base', 'state', 'point', 'getStates', 'getVertex', 'real', 'imag', 'derived', 'eval', 'lpNorm'}
# library functions that only forward, pair up or read what they are given by non-const reference
PASS = {'make_shared', 'make_unique', 'make_pair', 'make_tuple', 'tie', 'forward', 'begin', 'end', 'cbegin', 'cend',
        'ref', 'cref', 'addressof', 'get', 'emplace_back', 'emplace', 'emplace_front', 'distance', 'next', 'prev',
        'size', 'data', 'min', 'max', 'accumulate', 'find', 'find_if', 'min_element', 'max_element', 'count',
        'count_if', 'any_of', 'all_of', 'none_of', 'for_each', 'equal', 'norm', 'function', 'bind', 'forward_as_tuple'}
# library algorithms that write through iterators they get by value
THROUGH = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'rotate', 'shuffle', 'random_shuffle',
           'fill', 'fill_n', 'iota', 'remove', 'remove_if', 'unique', 'iter_swap', 'swap_ranges', 'transform', 'copy',
           'copy_n', 'copy_if', 'copy_backward', 'move_backward', 'generate', 'generate_n', 'replace', 'replace_if',
           'inplace_merge', 'partition', 'stable_partition', 'partial_sum', 'adjacent_difference', 'make_heap'}
# those of them that read the range of the first two arguments and write the third
INTO = {'copy', 'copy_n', 'copy_if', 'copy_backward', 'move_backward', 'partial_sum', 'adjacent_difference'}


class Effects:
    def __init__(self, P):
        self.P = P
        self.g = astq.Graph(P)
        self.sets = {}      # usr -> {root: (node, how)}
        self.refs = {}      # usr -> roots a returned reference may name
        over = {}
        for k in P.cls.values():
            for m in k.methods:
                for o in m['over']:
                    over.setdefault(o, set()).add(astq.entity(k, m)['u'])
        self.over = over
        self._env = {}
        fns = [f for f in P.fns.values()]
        for f in fns:
            self.sets[f.usr] = {}
            self.refs[f.usr] = set()
        change = True
        n = 0
        while change and n < 20:
            change = False
            n += 1
            for f in fns:
                w, r = self._one(f)
                if sum(map(len, w.values())) != sum(map(len, self.sets[f.usr].values())) or r != self.refs[f.usr]:
                    change = True
                self.sets[f.usr], self.refs[f.usr] = w, r
        self.rounds = n

    # ---- names
    def may_run(self, n, e):
        out, st = set(), [e['u']]
        while st:
            u = st.pop()
            if u in out:
                continue
            out.add(u)
            if e.get('v') and not n.get('qual'):
                st.extend(self.over.get(u, ()))
        return out

    def mapped(self, f, n, roots, env):
        """Roots of a callee in terms of the caller."""
        out = set()
        for r in roots:
            if r[0] in ('F', 'T'):
                o = n.get('o')
                if o is None and n['k'] == 'ctor':
                    continue
                if astq.on_this(n):
                    out.add(r)
                else:
                    out |= self.root(f, o, env)
            elif r[0] == 'P':
                a = n.get('a', [])
                if r[1] < len(a):
                    out |= self.root(f, a[r[1]], env)
            else:
                out.add(r)
        return out

    def root(self, f, x, env, d=0):
        if not isinstance(x, dict) or d > 60:
            return set()
        k = x.get('k')
        if k == 'var':
            return set(env.get(x['id'], ()))
        if k == 'gvar':
            return {('G', x.get('q'))}
        if k == 'this':
            return {('T',)}
        if k == 'mem':
            b = x.get('b')
            bb = b
            while isinstance(bb, dict) and (bb.get('k') == 'cast' or bb.get('k') == 'un' and bb.get('op') == '*'):
                bb = bb['x']
            if isinstance(bb, dict) and bb.get('k') == 'this':
                return {('F', self.owner(f, x['n']), x['n'], '')}
            r = self.root(f, b, env, d + 1)
            if isinstance(bb, dict) and bb.get('k') == 'mem':
                r = {z[:3] + (x['n'],) if z[0] == 'F' and not z[3] else z for z in r}
            return r
        if k in ('cast', 'un') and x.get('op') not in ('!', '-', '~', '+'):
            return self.root(f, x.get('x'), env, d + 1)
        if k == 'sub':
            return self.root(f, x.get('x'), env, d + 1)
        if k == 'cond':
            return self.root(f, x['y'], env, d + 1) | self.root(f, x['z'], env, d + 1)
        if k == 'asg':
            return self.root(f, x['x'], env, d + 1)
        if k == 'bin':
            # iterator arithmetic
            if x.get('op') in ('+', '-'):
                return self.root(f, x['x'], env, d + 1)
            return set()
        if k == 'ctor':
            # iterators and smart pointers copied from one another
            a = x.get('a', [])
            e = astq.callee(f, x) or {}
            if len(a) == 1 and (e.get('ctor') == 'copy' or 'iterator' in str(e.get('c')) or 'reference_wrapper' in str(e.get('c'))) \
                    and self.refish(f, x.get('t')):
                return self.root(f, a[0], env, d + 1)
            return set()
        if k == 'call':
            e = astq.callee(f, x)
            if e is None:
                return set()
            if not self.refish(f, e.get('rt')):
                if e['n'] not in ('operator+', 'operator-', 'operator++', 'operator--') or \
                        not self.refish(f, x.get('t')):
                    return set()
            if e.get('repo'):
                out = set()
                for u in self.may_run(x, e):
                    out |= self.mapped(f, x, self.refs.get(u, ()), env)
                return out
            out = set()
            if x.get('o') is not None:
                out |= self.root(f, x['o'], env, d + 1)
            elif e.get('m') is None or e.get('m') == 's' or e['n'].startswith('operator'):
                for a in x.get('a', []):
                    out |= self.root(f, a, env, d + 1)
            return out
        return set()

    def refish(self, f, t):
        t = astq.typ(f, t)
        if t.get('k') in ('ref', 'rref', 'ptr'):
            return not astq.typ(f, t.get('to')).get('c')
        r = str(t.get('r', ''))
        return 'iterator' in r or 'reference' in r or r.startswith(('Eigen::Block', 'Eigen::Diagonal', 'Eigen::Transpose',
                                                                    'Eigen::VectorBlock', 'Eigen::ArrayWrapper',
                                                                    'Eigen::CommaInitializer', 'Eigen::Map', 'Eigen::Ref'))

    def owner(self, f, name):
        for c in self.P.linear(f.cls) if f.cls else ():
            if any(x['n'] == name for x in self.P.cls[c].fields):
                return c
        return f.cls

    # ---- one function
    def _one(self, f):
        env = {}
        for i, p in enumerate(f.j.get('params', [])):
            t = astq.typ(f, p['t'])
            if self.refish(f, p['t']):
                env[p['id']] = {('P', i)}
        W, R = {}, set()

        def hit(roots, n, how):
            for r in roots:
                W.setdefault(r, {}).setdefault(how, n)

        def bind(v):
            if 'id' not in v:
                return
            fn = self.functor(v.get('i'), {})
            if fn is not None:
                env['fn', v['id']] = fn
            if self.refish(f, v.get('t')):
                env[v['id']] = env.get(v['id'], set()) | self.root(f, v.get('i'), env)

        def see(n, up):
            k = n['k']
            if k == 'decl':
                for v in n['a']:
                    bind(v)
                    for b in v.get('binds', []):
                        env[b['id']] = env.get(b['id'], set()) | self.root(f, b.get('e'), env) | self.root(f, v.get('i'), env)
            elif k == 'range':
                v = n['v']
                if isinstance(v, dict) and 'id' in v and self.refish(f, v.get('t')):
                    env[v['id']] = env.get(v['id'], set()) | self.root(f, n['x'], env)
            elif k == 'lambda':
                for i, p in enumerate(n.get('f', {}).get('params', [])):
                    if 'id' in p and self.refish(f, p.get('t')):
                        env.setdefault(p['id'], set())
                for q in n.get('caps', []):
                    if q.get('init') and q.get('ref'):
                        env[q['id']] = env.get(q['id'], set()) | self.root(f, q.get('e'), env)
            elif k == 'asg':
                x = n['x']
                if isinstance(x, dict) and x.get('k') == 'var' and astq.typ(f, x.get('t')).get('k') == 'ptr' or \
                        isinstance(x, dict) and x.get('k') == 'var' and 'iterator' in str(astq.typ(f, x.get('t')).get('r', '')):
                    env[x['id']] = env.get(x['id'], set()) | self.root(f, n['y'], env)
                else:
                    hit(self.root(f, x, env), n, n.get('op', '='))
            elif k == 'un' and n.get('op') in ('++', '--', 'post++', 'post--'):
                x = n['x']
                if not (isinstance(x, dict) and x.get('k') == 'var' and astq.typ(f, x.get('t')).get('k') == 'ptr'):
                    hit(self.root(f, x, env), n, n['op'])
            elif k == 'ret':
                rt = f.j.get('rt')
                if self.refish(f, rt):
                    R.update(self.root(f, n.get('x'), env))
            elif k in ('call', 'ctor'):
                self._call(f, n, env, hit)
        for _ in range(2):
            for p in astq.parts(f):
                astq.walk(p, see)
        if f.ent.get('ctor'):
            for i in f.j.get('inits', []):
                if i.get('w') and i.get('m'):
                    W.setdefault(('F', f.cls, i['m'], ''), {}).setdefault('init', i)
        return W, R

    def _call(self, f, n, env, hit):
        e = astq.callee(f, n)
        if e is None:
            return
        name = e['n']
        a = n.get('a', [])
        p = e.get('p', '')
        # a function object called, or handed to a library operation together with what it is applied to
        if name == 'operator()' and n['k'] == 'call':
            fn = self.functor(n.get('o') if n.get('o') is not None else a[0] if a else None, env)
            if fn is not None:
                args = a if n.get('o') is not None else a[1:]
                for i, x in enumerate(args):
                    self.given(f, fn, i, self.root(f, x, env), n, env, hit)
                return
        for x in a:
            fn = self.functor(x, env)
            if fn is not None:
                rs = set()
                for y in a:
                    if y is not x:
                        rs |= self.root(f, y, env)
                for i in range(4):
                    self.given(f, fn, i, rs, n, env, hit)
        if e.get('repo'):
            for u in self.may_run(n, e):
                for r in self.sets.get(u, {}):
                    if n['k'] == 'ctor' and r[0] in ('F', 'T'):
                        continue
                    hit(self.mapped(f, n, [r], env), n, 'call of ' + e['n'])
            if e.get('asg') or e['n'] == 'operator=':
                hit(self.root(f, n.get('o') or (n['a'][0] if n.get('a') else None), env), n, '=')
            if e.get('ctor') == 'copy' or e.get('asg'):
                pass
            return
        if name == 'move' and e['q'].startswith('std') and len(a) == 1:
            hit(self.root(f, a[0], env), n, 'std::move')
            return
        if n['k'] == 'call' and n.get('o') is not None and e.get('m') == 'n' and name not in HANDLE:
            o = n['o']
            it = 'iterator' in str(astq.typ(f, o.get('t')).get('r', '')) if isinstance(o, dict) else False
            if not it:
                hit(self.root(f, o, env), n, name)
        if name in PASS or e['q'].startswith('std::pair') or e['q'].startswith('std::tuple'):
            return
        for i, x in enumerate(a):
            c = p[i] if i < len(p) else ''
            if c in 'rp' and c:
                if n.get('op') and i == 0 and name in ('operator[]', 'operator*', 'operator->'):
                    continue
                hit(self.root(f, x, env), n, name)
            elif c == 'v' and name in THROUGH and not self.source(name, i, len(a)):
                hit(self.root(f, x, env), n, name)

    @staticmethod
    def source(name, i, n):
        """Whether the i-th of the n arguments of an algorithm is a range that is only read."""
        if name == 'transform':
            return i < n - 2
        return name in INTO and i < 2

    def functor(self, x, env, d=0):
        """The lambda, or the usr of the repository function or class, a function object is made of."""
        while isinstance(x, dict) and d < 9:
            d += 1
            if x.get('k') == 'lambda':
                return x
            if x.get('k') == 'fref':
                return x
            if x.get('k') == 'cast' or x.get('k') == 'un' and x.get('op') == '&':
                x = x['x']
            elif x.get('k') in ('ctor', 'call') and len(x.get('a', [])) == 1 and x.get('o') is None:
                x = x['a'][0]
            elif x.get('k') == 'var':
                return env.get(('fn', x['id']))
            else:
                return None
        return None

    def given(self, f, fn, i, roots, n, env, hit):
        if fn['k'] == 'lambda':
            ps = fn.get('f', {}).get('params', [])
            if i < len(ps) and 'id' in ps[i] and self.refish(f, ps[i].get('t')):
                env[ps[i]['id']] = env.get(ps[i]['id'], set()) | roots
            return
        e = astq.callee(f, fn)
        if e and ('P', i) in self.sets.get(e['u'], {}):
            hit(roots, n, 'call of ' + e['n'])


def const_casts(P):
    out = []
    for d in P.tus:
        for x in d.get('notes', []):
            if x['k'] == 'constcast' and '/spec/' not in x['file']:
                out.append((x['file'], x['l'], d['types'][x['t']].get('s', '?')))
    return sorted(set(out))
