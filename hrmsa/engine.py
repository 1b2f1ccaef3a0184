"""Gated value-numbering interpreter over the extracted program.

One forward pass per function: branch joins become decision-diagram selections,
loops are summarised in closed form (comprehension, quantifier, sum) or as an
alpha-canonical recursion term (`mu`).  Calls to repository functions are
inlined (virtual calls on the analysed object are resolved to the final
overrider of the concrete class); everything else is an uninterpreted operation
on its argument values.  There is no path enumeration and no solver.
"""
from .terms import *
from . import terms as TM
from .load import AnalysisBroken, Program, Fn

import sys
sys.setrecursionlimit(20000)


class LV:
    """Location: static path plus dynamic projections."""
    __slots__ = ('path', 'pr')

    def __init__(self, path, pr=()):
        self.path = path
        self.pr = pr

    def f(self, name):
        if self.pr:
            return LV(self.path, self.pr + (('f', name),))
        return LV(self.path + (name,))

    def i(self, t):
        return LV(self.path, self.pr + (('i', t),))

    def ptr(self):
        return mk('ptr', self.path, self.pr)

    def __repr__(self):
        return 'LV(%s)' % (show_path(self),)


def show_path(lv):
    s = '.'.join(str(x) if not isinstance(x, tuple) else '/'.join(map(str, x)) for x in lv.path)
    for k, x in lv.pr:
        s += ('[%s]' % show(x)) if k == 'i' else '.' + x
    return s


class State:
    __slots__ = ('mem', 'conds', 'pc')

    def __init__(self, mem=None, conds=(), pc=TRUE):
        self.mem = mem if mem is not None else {}
        self.conds = conds
        self.pc = pc

    def fork(self, c=TRUE):
        return State(dict(self.mem), self.conds if c is TRUE else self.conds + (c,),
                     self.pc if c is TRUE else AND(self.pc, c))


class Out:
    """Outcome of a statement."""
    __slots__ = ('st', 'rets', 'brks', 'conts', 'thrs')

    def __init__(self, st):
        self.st = st
        self.rets = []
        self.brks = []
        self.conts = []
        self.thrs = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.thrs += o.thrs


class Ev:
    __slots__ = ('kind', 'pc', 'fn', 'line', 'd')

    def __init__(self, kind, pc, fn, line, **d):
        self.kind = kind
        self.pc = pc
        self.fn = fn
        self.line = line
        self.d = d

    def loc(self):
        return '%s:%s' % (self.fn.loc().rsplit(':', 1)[0] if self.fn else '?', self.line)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.loc(), self.d)


class LoopEv(Ev):
    __slots__ = ('body', 'n', 'var', 'cond', 'stop', 'phis')


class Frame:
    __slots__ = ('act', 'fn', 'tu', 'vars', 'this', 'stack', 'declared', 'rett')

    def __init__(self, act, fn, tu, this, stack):
        self.act = act
        self.fn = fn
        self.tu = tu
        self.vars = {}
        self.this = this
        self.stack = stack
        self.declared = None
        self.rett = None


class Give_up(Exception):
    pass


SCALAR = ('int', 'float', 'bool', 'enum')


def i0_const(en, d, t, fr, st, path):
    """A constant kept between calls: initialised with a value no input has a part in."""
    if not t.get('c') or d.get('i') is None or path in st.mem:
        return path in st.mem
    s2 = st.fork()
    en.init_into(LV(path), d['i'], fr, s2, t)
    v = en.read(s2, LV(path))
    if any(x.op in ('in', 'bv', 'lv', 'phi', 'bphi') for x in TM.subterms(v)):
        return False
    en.init_into(LV(path), d['i'], fr, st, t)
    return True


class Engine:
    deep = False  # also what members point to

    def __init__(self, prog, concrete=None, opaque=None, maxdepth=24, spec_map=None):
        self.P = prog
        self.concrete = concrete            # usr of the concrete class of `this`
        self.opaque = opaque or (lambda fn: False)
        self.maxdepth = maxdepth
        self.acts = 0
        self.events = []
        self.closures = {}
        self.plans = {}
        self.nosplit = 0
        self.unswitched = 0
        self.names = {}             # recurrence variable -> name-independent stand-in
        self.objcls = {}
        self.ptype = {}
        self.heap = 0
        self.unknown = []                   # constructs not understood
        self.visited = set()
        self.loopdecls = []
        self.nloops = 0
        self.stmts = 0
        self.inlined = set()
        self.spec_map = spec_map or {}
        self.throwlist = []
        self.reads = set()
        self.wrote = set()
        self.opaque_used = set()
        self.quick = False                  # effects only: one pass per loop

    # ------------------------------------------------------------- utilities
    def ty(self, fr, i):
        return fr.tu['types'][i] if i is not None and i >= 0 else {'k': 'other', 's': '?'}

    def unref(self, fr, t):
        while t and t['k'] in ('ref', 'rref'):
            t = fr.tu['types'][t['to']]
        return t

    def ety(self, fr, e):
        return self.unref(fr, self.ty(fr, e.get('t', -1)))

    def flag(self, t, ty):
        """Attach integer/bool knowledge from the static type."""
        k = ty['k']
        if k == 'bool':
            return atomize(t)
        if k == 'int':
            u = ty.get('u')
            for x in leaves(t):
                if x.op not in ('num', 'poly', 'b'):
                    x.isint = True
                    if u:
                        x.nonneg = True
        return t

    def unk(self, why, e=None):
        self.unknown.append((why, e.get('l') if isinstance(e, dict) else None))
        return mk('unk', why, len(self.unknown))

    def emit(self, kind, fr, st, line, **d):
        e = Ev(kind, st.pc, fr.fn if fr else None, line, **d)
        self.events.append(e)
        return e

    # ------------------------------------------------------------- memory
    def read_path(self, st, path):
        m = st.mem
        v = m.get(path)
        if v is not None:
            # no extension entries coexist with an exact entry unless written later
            ext = [p for p in m if len(p) > len(path) and p[:len(path)] == path]
            if ext:
                v = self._overlay(m, v, path, ext)
            return v
        # longest written prefix
        for n in range(len(path) - 1, 0, -1):
            b = m.get(path[:n])
            if b is not None:
                v = b
                for f in path[n:]:
                    v = fld(v, f)
                break
        else:
            v = self.initial(path)
        ext = [p for p in m if len(p) > len(path) and p[:len(path)] == path]
        if ext:
            v = self._overlay(m, v, path, ext)
        return v

    def _overlay(self, m, v, path, ext):
        n = len(path)
        for p in sorted(ext, key=lambda p: (len(p), repr(p))):
            if '*' in p[n:] and not self.deep:
                continue
            v = self._nested_set(v, p[n:], m[p])
        return v

    def _nested_set(self, v, fs, x):
        if len(fs) == 1:
            return fset(v, fs[0], x)
        return fset(v, fs[0], self._nested_set(fld(v, fs[0]), fs[1:], x))

    def initial(self, path):
        r = path[0]
        if isinstance(r, tuple) and r[0] == 'L':
            return UNDEF
        if isinstance(r, tuple) and r[0] == 'deref' and len(path) == 1:
            return mk('call', 'deref', r[1])
        if isinstance(r, tuple) and r[0] == 'deref':
            v = mk('call', 'deref', r[1])
            for f in path[1:]:
                v = fld(v, f)
            return v
        if isinstance(r, tuple) and r[0] == 'H':
            return UNDEF
        if r == 'this':
            self.reads.add(path)
        if path[-1] in TM.COUNTS and len(path) > 1:
            return size(mk('in', path[:-1] + (TM.COUNTS[path[-1]],)))
        return mk('in', path)

    def write_path(self, st, path, v):
        self.wrote.add(path)
        m = st.mem
        for p in [p for p in m if len(p) > len(path) and p[:len(path)] == path and '*' not in p[len(path):]]:
            del m[p]
        m[path] = v

    def targets(self, st, path):
        """A location behind a pointer chosen by a condition: the choice, as a
        diagram over the pointers it can be (null is never read through)."""
        r = path[0]
        if not (isinstance(r, tuple) and r[0] == 'deref' and r[1].op == 'ite' and r[1].nl <= 8):
            return None
        v = self.simp(r[1], st)
        ls = TM.leaves(v)
        if not all(x.op in ('ptr', 'null', 'in') for x in ls) or not any(x.op == 'ptr' for x in ls):
            return None
        return TM.constrain(v, map_leaves(v, lambda x: FALSE if x.op == 'null' else TRUE))

    def read(self, st, lv):
        ch = self.targets(st, lv.path)
        if ch is not None:
            def at(x):
                if x.op == 'null':
                    return UNDEF
                b = self.deref(st, x)
                return self.read(st, LV(b.path + lv.path[1:] if not b.pr else b.path,
                                        lv.pr if not b.pr else b.pr + tuple(('f', f) for f in lv.path[1:]) + lv.pr))
            return self.simp(map_leaves(ch, at), st)
        v = self.read_path(st, lv.path)
        for k, x in lv.pr:
            v = fld(v, x) if k == 'f' else self.idx(v, x, st)
        return self.simp(v, st)

    def simp(self, v, st):
        if v.op == 'ite':
            f = forced(st.pc)
            if f:
                for a in atoms_of(v):
                    if a in f:
                        v = cofactor(v, a, f[a])
                    else:
                        d = decide(a, f)
                        if d is not None:
                            v = cofactor(v, a, d)
        return v

    def idx(self, v, x, st):
        return idx_any(v, x)

    def write(self, fr, st, lv, v, line=None, quiet=False):
        ch = self.targets(st, lv.path)
        if ch is not None:
            for x in TM.leaves(ch):
                if x.op != 'null':
                    b = self.deref(st, x)
                    t = LV(b.path + lv.path[1:] if not b.pr else b.path,
                           lv.pr if not b.pr else b.pr + tuple(('f', f) for f in lv.path[1:]) + lv.pr)
                    on = map_leaves(ch, lambda y: TRUE if y is x else FALSE)
                    self.write(fr, st, t, ITE(on, v, self.read(st, t)), line, quiet)
            return
        if lv.pr:
            old = self.read_path(st, lv.path)
            new = self._upd(old, lv.pr, v, st)
        else:
            new = v
        if not quiet and not self.internal(lv.path):
            self.emit('write', fr, st, line, lv=lv, v=v)
        self.write_path(st, lv.path, new)

    def internal(self, path):
        return isinstance(path[0], tuple) and path[0][0] == 'L'

    def _upd(self, old, pr, v, st):
        k, x = pr[0]
        if len(pr) == 1:
            nv = v
        else:
            cur = fld(old, x) if k == 'f' else self.simp(self.idx(old, x, st), st)
            nv = self._upd(cur, pr[1:], v, st)
        if k == 'f':
            return fset(old, x, nv)
        if x.op == 'tag' or x.op == 'ite' and leaves(x)[0].op == 'tag':
            return lift(lambda a, i, b: blk_set(a, i, b), [old, x, nv])
        return lift(lambda a, i, b: mat_set(a, i, b) if a.op == 'mat' else TM._set(a, i, b), [old, x, nv])

    # pointers -> location
    def deref(self, st, v, lv=None):
        v = self.simp(v, st)
        if v.op == 'ptr':
            return LV(v.args[0], v.args[1])
        if v.op == 'in':
            return LV(v.args[0] + ('*',))
        return LV((('deref', v),))

    def content(self, s, v, depth=0, roots=('H', 'L')):
        """Replace pointers to objects created by the analysed code by the object."""
        if TM.contains(v, lambda x: x.op == 'closure'):
            for c in [x for x in TM.subterms(v) if x.op == 'closure']:
                v = replace(v, c, self.lambda_value(s, c))
        if v.op == 'ptr' and depth < 6 and (depth == 0 and roots is None or self.owned(v, roots)):
            return mk('obj', self.content(s, self.read(s, LV(*v.args)), depth + 1))
        if self.deep and depth < 6:
            for path in list(s.mem):
                r = path[0]
                if isinstance(r, tuple) and r[0] == 'deref' and TM.contains(v, lambda x: x is r[1]):
                    c = self.content(s, self.read(s, LV((r,))), depth + 1)
                    if not (c.op == 'call' and c.args[0] in ('deref', 'pointing')):
                        v = pointing(v, r[1], c)
        if not TM.contains(v, lambda x: x.op == 'ptr'):
            return v
        for p in [x for x in TM.subterms(v) if x.op == 'ptr']:
            if depth > 6:
                break
            if self.owned(p, roots or ('H', 'L')):
                try:
                    c = mk('obj', self.content(s, self.read(s, LV(*p.args)), depth + 1))
                except RecursionError:
                    continue
                v = replace(v, p, c)
        return v

    def lambda_value(self, s, c):
        """A callable handed to a library: its result for any arguments, in any state."""
        f, env, dfr, le = self.closures[c.args[0]]
        if f.get('dep'):
            return c
        st = State({p: v for p, v in s.mem.items() if isinstance(p[0], tuple) and p[0][0] in ('L', 'H')}, (), TRUE)
        v = self.call_closure(c, [mk('in', (('C', k),)) for k in range(len(f['params']))], dfr, st, le)
        if isinstance(v, LV):
            v = self.read(st, v)
        return mk('callable', self.content(st, v))

    @staticmethod
    def owned(p, roots):
        r = p.args[0][0]
        return isinstance(r, tuple) and r[0] in roots

    def merge(self, base, states):
        """Join states forked from base (list of State)."""
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        n = len(base.conds)
        rels = [ANDS(s.conds[n:]) for s in states]
        rel = ORS(rels)
        if len(states) == 1:
            s = states[0]
            return State(s.mem, base.conds + ((rel,) if rel is not TRUE else ()), AND(base.pc, rel))
        keys = {}
        for s in states:
            for p in s.mem:
                keys[p] = 1
        mem = {}
        joined = set()
        first = states[0].mem
        for p in keys:
            v0 = first.get(p)
            if v0 is not None and all(s.mem.get(p) is v0 for s in states):
                # same entry everywhere; extensions handled as their own keys
                mem[p] = v0
                continue
            vs = [self.read_path(s, p) for s in states]
            v = vs[-1]
            for c, x in zip(reversed(rels[:-1]), reversed(vs[:-1])):
                v = ITE(c, x, v)
            mem[p] = v
            joined.add(p)
        # a joined value was read with its extensions: these are not needed any more
        for p in list(mem):
            if any(p[:k] in joined and '*' not in p[k:] for k in range(1, len(p))):
                del mem[p]
        return State(mem, base.conds + ((rel,) if rel is not TRUE else ()), AND(base.pc, rel))

    # ------------------------------------------------------------- entry points
    def entry_frame(self, fn, this=('this',)):
        self.acts += 1
        fr = Frame(self.acts, fn, fn.tu, LV(this) if this else None, (fn.usr,))
        return fr

    def run(self, fn, this=('this',), args=None, st=None):
        """Analyse fn from a symbolic entry state; returns (State, ret term)."""
        fr = self.entry_frame(fn, this if fn.cls else None)
        if self.concrete and fn.cls:
            self.objcls[this] = self.concrete
        st = st or State()
        for n, p in enumerate(fn.j['params']):
            t = self.ty(fr, p['t'])
            if args is not None and n < len(args) and args[n] is not None:
                a = args[n]
                if isinstance(a, LV):
                    fr.vars[p['id']] = a
                    continue
                path = (('L', fr.act, p['id']),)
                self.write_path(st, path, a)
                fr.vars[p['id']] = LV(path)
                continue
            path = (('P', n),)
            fr.vars[p['id']] = LV(path)
        if fn.ent.get('ctor'):
            self.ctor_inits(fr, st, fn)
        o = self.body(fr, st, fn)
        self.throwlist += o.thrs
        sts = [s for s, v in o.rets] + ([o.st] if o.st else [])
        if not sts:
            raise AnalysisBroken('%s: no normal exit' % fn.q)
        base = State(st.mem, (), TRUE)
        base.conds = st.conds[:0]
        ret = self.merge_rets(base, o)
        fin = self.merge(base, sts)
        fin.conds = ()
        return fin, ret

    def merge_rets(self, base, o):
        rets = [(s, v) for s, v in o.rets if v is not None]
        if not rets:
            return None
        n = len(base.conds)
        if all(isinstance(v, LV) for s, v in rets):
            if len(rets) == 1 or all((v.path, v.pr) == (rets[0][1].path, rets[0][1].pr) for s, v in rets):
                return rets[0][1]
            rets = [(s, self.read(s, v)) for s, v in rets]
        rets = [(s, self.read(s, v) if isinstance(v, LV) else v) for s, v in rets]
        v = rets[-1][1]
        for s, x in reversed(rets[:-1]):
            v = ITE(ANDS(s.conds[n:]), x, v)
        return v

    def body(self, fr, st, fn):
        b = fn.j.get('body')
        if b is None:
            return Out(st)
        o = self.stmt(b, fr, st)
        return o

    # ------------------------------------------------------------- statements
    def stmt(self, s, fr, st):
        self.stmts += 1
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.unk('stmt ' + s.get('c', k), s)
            return Out(st)
        return m(s, fr, st)

    def s_expr(self, s, fr, st):
        e = s['x']
        if e and e['k'] == 'throw':
            if e.get('x'):
                self.rv(e['x'], fr, st)
            o = Out(None)
            self.emit('throw', fr, st, s['l'], t=self.ety(fr, e['x']).get('r') if e.get('x') else None)
            o.thrs.append((st, self.ety(fr, e['x']).get('u') or self.ety(fr, e['x']).get('r') if e.get('x') else None))
            return o
        n = len(self.throwlist)
        self.discard(e, fr, st)
        return self.with_throws(Out(st), n)

    def with_throws(self, o, n):
        # throws raised inside inlined calls
        while len(self.throwlist) > n:
            o.thrs.append(self.throwlist.pop())
        return o

    def discard(self, e, fr, st):
        if e is None:
            return
        self.ev(e, fr, st)

    def s_seq(self, s, fr, st):
        out = Out(st)
        cur = st
        for c in s['a']:
            if cur is None:
                break
            o = self.stmt(c, fr, cur)
            out.absorb(o)
            cur = o.st
        out.st = cur
        return out

    def s_decl(self, s, fr, st):
        n = len(self.throwlist)
        for d in s['a']:
            self.decl(d, fr, st)
        return self.with_throws(Out(st), n)

    def decl(self, d, fr, st):
        t = self.ty(fr, d['t'])
        path = (('L', fr.act, d['id']),)
        if d.get('static'):
            path = (('G', 'static:%s:%s' % (fr.fn.q if fr.fn else '', d['n'])),)
            fr.vars[d['id']] = LV(path)
            if i0_const(self, d, t, fr, st, path):
                return
            if path not in st.mem and t['k'] not in ('ref', 'rref'):
                # what an earlier call left in it
                return
        for ds in self.loopdecls:
            ds.add(path[0])
        i = d.get('i')
        if t['k'] in ('ref', 'rref') and i is not None:
            lv = self.lv(i, fr, st)
            if lv is not None:
                fr.vars[d['id']] = lv
            else:
                v = self.rv(i, fr, st)
                self.write_path(st, path, v)
                fr.vars[d['id']] = LV(path)
        else:
            fr.vars[d['id']] = LV(path)
            # forget any previous iteration's value
            for p in [p for p in st.mem if p[0] == path[0]]:
                del st.mem[p]
            if d.get('vla') is not None:
                n = self.rv(d['vla'], fr, st)
                el = self.default(self.ty(fr, d['et']), fr)
                self.write_path(st, path, mk('rep', n, el))
            elif i is not None:
                self.init_into(LV(path), i, fr, st, t)
            else:
                v = self.default(t, fr)
                if v is not UNDEF:
                    self.write_path(st, path, v)
        for b in d.get('binds', []):
            fr.vars[b['id']] = ('bind', b['e'])

    def init_into(self, lv, i, fr, st, t):
        """Initialise location from expression (constructors run in place)."""
        if i['k'] == 'ctor':
            f = fr.tu['fns'][i['fn']]
            fn = self.P.fns.get(f['u'])
            if fn is not None and fn.j.get('body') is not None and f.get('ctor') != 'copy':
                self.construct(lv, fn, i['a'], fr, st, i)
                return
        v = self.rv(i, fr, st)
        v = self.flag(v, t)
        if not lv.pr:
            self.write_path(st, lv.path, v)
        else:
            self.write(fr, st, lv, v, i.get('l'), quiet=True)

    def default(self, t, fr, tu=None):
        k = t['k']
        tu = tu or fr.tu
        if k in ('int', 'float', 'bool', 'enum', 'ptr'):
            return UNDEF
        if k == 'arr':
            el = self.default(tu['types'][t['to']], fr, tu)
            if t.get('n') is not None:
                return mk('rep', num(t['n']), el)
            return UNDEF
        if k == 'rec':
            r = t['r']
            if r in ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::set', 'std::queue', 'std::stack'):
                return EMPTY
            if r == 'std::basic_string':
                return mk('str', '')
            if r in ('std::shared_ptr', 'std::unique_ptr'):
                return NULL
            if r == 'std::pair':
                a = t.get('a', [])
                v = UNDEF
                for n, nm in zip(a, ('first', 'second')):
                    if n and 't' in n:
                        v = fset(v, nm, self.default(tu['types'][n['t']], fr, tu))
                return v
            if r.startswith('Eigen::'):
                d = mat_dims(t, tu)
                if d and d[0] * d[1] <= 36:
                    return mk('mat', d[0], d[1], *([UNDEF] * (d[0] * d[1])))
                return UNDEF
            u = t.get('u')
            if u and u in self.P.cls:
                v = UNDEF
                for k_, f in self.P.fields_of(u):
                    if f.get('i') is not None and f['i'].get('k') != 'unk':
                        fr2 = Frame(fr.act, fr.fn, k_.tu, None, fr.stack)
                        x = self.rv(f['i'], fr2, State())
                        x = self.flag(x, k_.tu['types'][f['t']])
                    else:
                        x = self.default(k_.tu['types'][f['t']], fr, k_.tu)
                    if x is not UNDEF:
                        v = fset(v, f['n'], x)
                return v
            return mk('call', 'default:' + r)
        return UNDEF

    def s_if(self, s, fr, st):
        n = len(self.throwlist)
        if s.get('init'):
            o = self.stmt(s['init'], fr, st)
            st = o.st
        if s.get('cv'):
            self.decl(s['cv'], fr, st)
        c = self.cond(s['c'], fr, st)
        thr = self.throwlist[n:]
        del self.throwlist[n:]
        out = Out(None)
        out.thrs += thr
        if c is TRUE or c is FALSE:
            b = s['y'] if c is TRUE else s.get('z')
            if b:
                o = self.stmt(b, fr, st)
                out.absorb(o)
                out.st = o.st
            else:
                out.st = st
            return out
        s1 = st.fork(c)
        s2 = st.fork(NOT(c))
        o1 = self.stmt(s['y'], fr, s1)
        out.absorb(o1)
        if s.get('z'):
            o2 = self.stmt(s['z'], fr, s2)
            out.absorb(o2)
            n2 = o2.st
        else:
            n2 = s2
        out.st = self.merge(st, [o1.st, n2])
        return out

    def cond(self, e, fr, st):
        if e is None:
            return TRUE
        c = truthy(self.rv(e, fr, st))
        return self.simpc(c, st)

    def simpc(self, c, st):
        """Simplify a condition under the path condition."""
        if c.op != 'ite':
            return c
        f = forced(st.pc)
        for a in atoms_of(c):
            if a in f:
                c = cofactor(c, a, f[a])
                continue
            d = decide(a, f)
            if d is not None:
                c = cofactor(c, a, d)
                continue
            r = eq_to_lt(a, f)
            if r is not None:
                c = ITE(r, cofactor(c, a, 1), cofactor(c, a, 0))
        if c.op == 'ite' and len(atoms_of(c)) + len(atoms_of(st.pc)) < 24:
            if AND(st.pc, c) is FALSE:
                return FALSE
            if AND(st.pc, NOT(c)) is FALSE:
                return TRUE
        return c

    def s_ret(self, s, fr, st):
        n = len(self.throwlist)
        o = Out(None)
        v = None
        if s.get('x'):
            if fr.rett and fr.rett['k'] in ('ref', 'rref'):
                v = self.lv(s['x'], fr, st)
                if v is None:
                    v = self.rv(s['x'], fr, st)
            else:
                v = self.rv(s['x'], fr, st)
                if fr.rett:
                    v = self.flag(v, self.unref(fr, fr.rett))
        o.rets.append((st, v))
        return self.with_throws(o, n)

    def s_break(self, s, fr, st):
        o = Out(None)
        o.brks.append(st)
        return o

    def s_continue(self, s, fr, st):
        o = Out(None)
        o.conts.append(st)
        return o

    def s_switch(self, s, fr, st):
        if s.get('init'):
            st = self.stmt(s['init'], fr, st).st
        v = self.rv(s['c'], fr, st)
        body = s['b']
        items = body['a'] if body['k'] == 'seq' else [body]
        # flatten into (labels, statements)
        secs = []

        def add_item(x):
            labs = []
            while x['k'] in ('case', 'default'):
                if x['k'] == 'default':
                    labs.append(None)
                else:
                    labs.append(x)
                x = x['b']
            if labs:
                secs.append((labs, [x]))
            elif secs:
                secs[-1][1].append(x)
        for x in items:
            add_item(x)
        conds = []
        for labs, _ in secs:
            c = FALSE
            for l in labs:
                if l is None:
                    c = None
                    break
                lvv = self.rv(l['v'], fr, st)
                c = OR(c, eq(v, lvv))
            conds.append(c)
        allc = ORS([c for c in conds if c is not None])
        conds = [NOT(allc) if c is None else c for c in conds]
        out = Out(None)
        ends = []
        cur = None
        for (labs, stm), c in zip(secs, conds):
            enter = st.fork(self.simpc(c, st))
            ins = [x for x in (cur, enter) if x is not None and x.pc is not FALSE]
            cur = self.merge(st, ins) if ins else None
            for x in stm:
                if cur is None:
                    break
                o = self.stmt(x, fr, cur)
                ends += o.brks
                o.brks = []
                out.absorb(o)
                cur = o.st
        none = NOT(ORS(conds))
        if none is not FALSE:
            ends.append(st.fork(self.simpc(none, st)))
        out.st = self.merge(st, ends + [cur])
        return out

    def s_try(self, s, fr, st):
        base = st.fork()
        nev = len(self.events)
        o = self.stmt(s['b'], fr, st)
        out = Out(o.st)
        out.rets = o.rets
        out.brks = o.brks
        out.conts = o.conts
        hs = s['h']
        rest = []
        normal = [o.st] if o.st else []
        # thrown inside inlined code
        for ts, tt in o.thrs:
            done = False
            for h in hs:
                ht = self.unref(fr, self.ty(fr, h['t']))
                if h['t'] == -1 or ht['k'] in ('void', 'other') or (ht.get('u') or ht.get('r')) == tt or \
                        ht.get('r') in ('std::exception', 'std::logic_error'):
                    oh = self.stmt(h['b'], fr, ts)
                    out.absorb(oh)
                    if oh.st:
                        normal.append(oh.st)
                    done = True
                    break
            if not done:
                rest.append((ts, tt))
        out.thrs += rest
        # thrown by external code reached from the block
        ext = [e for e in self.events[nev:] if e.kind == 'ext']
        if o.st is not None and ext:
            for h in hs:
                ht = self.unref(fr, self.ty(fr, h['t']))
                name = ht.get('r', '...') if ht else '...'
                sig = mk('call', 'raises', mk('str', str(name)), *[e.d['res'] for e in ext[-1:]])
                c = bdd(mk('atom', sig))
                cur = normal[0] if normal and normal[0] is o.st else None
                if cur is None:
                    break
                hst = cur.fork(c)
                nst = cur.fork(NOT(c))
                self.emit('catch', fr, hst, s['l'], t=name, cond=c)
                if h.get('v'):
                    self.decl(dict(h['v'], i=None), fr, hst)
                oh = self.stmt(h['b'], fr, hst)
                out.absorb(oh)
                normal = [nst] + normal[1:] + ([oh.st] if oh.st else [])
        out.st = self.merge(base, normal) if normal else None
        return out

    # ------------------------------------------------------------- loops
    def s_for(self, s, fr, st):
        if s.get('init'):
            o = self.stmt(s['init'], fr, st)
            st = o.st

        def cond(x):
            return self.cond(s['c'], fr, x) if s.get('c') else TRUE

        def inc(x):
            if s.get('inc'):
                self.discard(s['inc'], fr, x)
        return self.loop(fr, st, cond, lambda x: self.stmt(s['b'], fr, x), inc, ('for', id(s)), s['l'])

    def s_while(self, s, fr, st):
        def cond(x):
            if s.get('cv'):
                self.decl(s['cv'], fr, x)
            return self.cond(s['c'], fr, x)
        return self.loop(fr, st, cond, lambda x: self.stmt(s['b'], fr, x), lambda x: None,
                         ('while', id(s)), s['l'])

    def s_do(self, s, fr, st):
        def body(x):
            o = self.stmt(s['b'], fr, x)
            ends = [z for z in [o.st] + o.conts if z is not None]
            o.conts = []
            m = self.merge(x0[0], ends)
            o.st = m
            if m is not None:
                c = self.cond(s['c'], fr, m)
                b = m.fork(NOT(c))
                if b.pc is not FALSE:
                    o.brks.append(b)
                o.st = m.fork(c)
                if o.st.pc is FALSE:
                    o.st = None
            return o
        x0 = [None]

        def body2(x):
            x0[0] = x.fork()
            return body(x)
        return self.loop(fr, st, lambda x: TRUE, body2, lambda x: None, ('do', id(s)), s['l'])

    def s_range(self, s, fr, st):
        if s.get('init'):
            st = self.stmt(s['init'], fr, st).st
        lv = self.lv(s['x'], fr, st)
        if lv is None:
            v = self.rv(s['x'], fr, st)
            self.acts += 1
            lv = LV((('L', self.acts, 'rng'),))
            self.write_path(st, lv.path, v)
        return self.range_loop(fr, st, lv, ('range', id(s)), s['l'],
                               lambda x, el: self._range_body(s, fr, x, el))

    def _range_body(self, s, fr, x, el):
        d = s['v']
        t = self.ty(fr, d['t'])
        for ds in self.loopdecls:
            ds.add(('L', fr.act, d['id']))
        if t['k'] in ('ref', 'rref'):
            fr.vars[d['id']] = el
        else:
            p = (('L', fr.act, d['id']),)
            fr.vars[d['id']] = LV(p)
            self.write_path(x, p, self.read(x, el))
        for b in d.get('binds', []):
            fr.vars[b['id']] = ('bind', b['e'])
        return self.stmt(s['b'], fr, x)

    def range_loop(self, fr, st, lv, key, line, bodyfn, lo=ZERO, hi=None):
        """for i in [lo, hi): body(element lv[i])"""
        n = hi if hi is not None else size(self.read(st, lv))
        ip = (('L', fr.act, 'ri', key[1]),)
        self.write_path(st, ip, lo)

        def cond(x):
            i = self.read_path(x, ip)
            i.isint = True
            return self.simpc(lt(i, n), x)

        def body(x):
            i = self.read_path(x, ip)
            return bodyfn(x, lv.i(i))

        def inc(x):
            self.write_path(x, ip, add(self.read_path(x, ip), ONE))
        o = self.loop(fr, st, cond, body, inc, key, line)
        if o.st is not None:
            o.st.mem.pop(ip, None)
        return o

    def loop_once(self, fr, st, cond, body, inc):
        """Effect summaries: the body once, with unknown counters."""
        base = st.fork()
        x = st.fork()
        inc(x)
        for p, v in x.mem.items():
            v0 = st.mem.get(p)
            if v0 is not v and v0 is not None and v0.op == 'num':
                ph = TM.fresh_phi('q')
                ph.isint = ph.nonneg = True
                st.mem[p] = ph
        self.loopdecls.append(set())
        cond(st)
        o = body(st.fork())
        self.loopdecls.pop()
        ends = [z for z in [o.st, st] + o.conts + o.brks if z is not None]
        o.conts, o.brks = [], []
        o.st = self.merge(base, ends)
        if o.st is not None:
            inc(o.st)
        return o

    UNROLL = 8

    def unroll(self, fr, st, cond, body, inc):
        """A loop with a small constant number of iterations, iteration by iteration."""
        ev, self.events = self.events, []
        try:
            x, k = st.fork(), 0
            while True:
                c = cond(x)
                if c is FALSE:
                    break
                if c is not TRUE or k == self.UNROLL:
                    return None
                inc(x)
                k += 1
            if k == 0:
                return None
            out = Out(None)
            x = st.fork()
            brks = []
            for i in range(k + 1):
                c = cond(x)
                if c is FALSE:
                    break
                if c is not TRUE or i == k:
                    return None
                o = body(x.fork())
                brks += o.brks
                out.rets += o.rets
                out.thrs += o.thrs
                x = self.merge(x, [z for z in [o.st] + o.conts if z is not None])
                if x is None:
                    break
                inc(x)
            out.st = self.merge(st, [z for z in [x] + brks if z is not None])
            ev = ev + self.events
            return out
        finally:
            self.events = ev

    def loop(self, fr, st, cond, body, inc, key, line):
        self.nloops += 1
        if self.quick:
            return self.loop_once(fr, st, cond, body, inc)
        o = self.unroll(fr, st, cond, body, inc)
        if o is not None:
            return o
        key0 = key
        key = key + (fr.stack,)
        plan = self.plans.get(key)
        M = {((('L', fr.act, p[0][2]),) + p[1:]) if isinstance(p[0], tuple) and p[0][0] == 'L' else p
             for p in plan[0]} if plan else set()
        cong_bad = set()
        res = None
        for attempt in range(12):
            res = self.loop_detect(fr, st, cond, body, inc, M)
            if res['new'] - M:
                M |= res['new']
                continue
            break
        else:
            raise Give_up('loop fixpoint')
        for attempt in range(6):
            r = self.loop_final(fr, st, cond, body, inc, M, res, cong_bad, line)
            if isinstance(r, Out):
                self.plans[key] = (self.rel_M(fr, M), cong_bad)
                return r
            if r[0] == 'newM':
                M |= r[1]
                res = self.loop_detect(fr, st, cond, body, inc, M)
            elif r[0] == 'cong':
                cong_bad |= r[1]
            elif r[0] == 'lin':
                res['lin'] = {p: d for p, d in res['lin'].items() if p not in r[1]}
            elif r[0] == 'mats':
                res['mats'] = {p: k for p, k in res['mats'].items() if p not in r[1]}
            elif r[0] == 'kept':
                res['kept'] = res['kept'] - r[1]
            elif r[0] == 'split':
                # the extra header condition is decided before the first iteration
                s1, s2 = st.fork(r[1]), st.fork(NOT(r[1]))
                cond(s2)
                self.nosplit += 1
                try:
                    o = self.loop(fr, s1, cond, body, inc, key0, line)
                finally:
                    self.nosplit -= 1
                o.st = self.merge(st, [x for x in (o.st, s2) if x is not None])
                return o
            elif r[0] == 'unswitch':
                # a decision of the body that no iteration changes is taken before the loop
                self.unswitched += 1
                try:
                    o1 = self.loop(fr, st.fork(r[1]), cond, body, inc, key0, line)
                    o2 = self.loop(fr, st.fork(NOT(r[1])), cond, body, inc, key0, line)
                finally:
                    self.unswitched -= 1
                o = Out(self.merge(st, [x for x in (o1.st, o2.st) if x is not None]))
                o.absorb(o1)
                o.absorb(o2)
                return o
        raise Give_up('loop')

    def invariant_choice(self, L, vals, pc):
        """A condition fixed before the loop that the body decides on."""
        f = forced(pc)
        vary = L.phset | {L.lv}
        got = {}
        for v in vals:
            for a in atoms_of(v):
                if not (a.free & vary) and a not in f and decide(a, f) is None:
                    got[a] = 1
        if not got or len(got) > 3:
            return None
        return min(got, key=L.name)

    def rel_M(self, fr, M):
        return {p for p in M if not (isinstance(p[0], tuple) and p[0][0] == 'L' and p[0][1] != fr.act)}

    def record(self, phis, init, lv=None):
        new = {}
        for p, ph in phis.items():
            v = self.scalar(init[p])
            c = mk('phic', subst(v, self.names).key if (v.free & self.names.keys()) else v.key)
            c.isint, c.nonneg = ph.isint, ph.nonneg
            new[ph] = c
        if lv is not None:
            c = mk('phic', 'LV%d' % len(self.loopdecls))
            c.isint = c.nonneg = True
            new[lv] = c
        self.names.update(new)

    def header(self, st, M, repl):
        h = st.fork()
        for p in M:
            v = repl[p]
            for q in [q for q in h.mem if len(q) > len(p) and q[:len(p)] == p and '*' not in q[len(p):]]:
                del h.mem[q]
            h.mem[p] = v
        return h

    def norm_M(self, M):
        """Keep only minimal prefixes."""
        return {p for p in M if not any(p[:k] in M and '*' not in p[k:] for k in range(1, len(p)))}

    def mkphi(self, st, p):
        init = self.read_path(st, p)
        ph = fresh_phi(p[-1] if isinstance(p[-1], str) else str(p[-1][-1]))
        if init.op == 'iter':
            ph.isint = True
            ph.nonneg = True
            return ph, mk('iter', init.args[0], init.args[1], ph), init
        if is_bool(init):
            return ph, bdd(mk('atom', ph)), init
        ty = self.ptype.get(p)
        if ty == 'bool':
            return ph, bdd(mk('atom', ph)), init
        if init.isint or ty in ('int', 'uint'):
            ph.isint = init.isint and ty != 'float'
            ph.nonneg = ph.isint and (ty == 'uint' or (init.op == 'lv'))
        return ph, ph, init

    def loop_pass(self, fr, st, cond, body, inc, M, repl, extra=None):
        saved = self.events
        self.events = []
        self.loopdecls.append(set())
        a0 = self.acts
        hp0 = self.heap
        h = self.header(st, M, repl)
        h0 = dict(h.mem)
        c = cond(h)
        b = h.fork(c)
        dead = b.pc is FALSE
        nconds = len(b.conds)
        evs_pre = None
        if dead:
            o = Out(None)
        else:
            if extra is not None and extra is not TRUE:
                b = b.fork(extra)
            bb = b.fork()
            o = body(b)
            ends = [x for x in [o.st] + o.conts if x is not None]
            o.conts = []
            o.st = self.merge(bb, ends)
            if o.st is not None:
                inc(o.st)
            nconds = len(bb.conds)
        ds = self.loopdecls.pop()
        evs = self.events
        self.events = saved

        def local(p):
            r = p[0]
            if not isinstance(r, tuple):
                return False
            if r[0] == 'deref':
                return bool(r[1].free)
            if r[0] in ('H', 'HA'):
                return r[1] > hp0
            return r[0] == 'L' and (r in ds or r[1] > a0)
        return dict(h=h, h0=h0, c=c, b=b, o=o, evs=evs, local=local, nconds=nconds, bpc=None if dead else bb)

    def changed(self, h0, s, local, M):
        new = set()
        for p, v in s.mem.items():
            if local(p):
                continue
            v0 = h0.get(p)
            if v0 is v:
                continue
            if v0 is None:
                # unchanged if equal to what reading the header state gives
                tmp = State(h0)
                if self.read_path(tmp, p) is v:
                    continue
            new.add(p)
        return new

    def loop_detect(self, fr, st, cond, body, inc, M):
        M = set(self.norm_M(M))
        phis, repl, init = {}, {}, {}
        for p in M:
            phis[p], repl[p], init[p] = self.mkphi(st, p)
        self.record(phis, init)
        nu = len(self.unknown)
        r = self.loop_pass(fr, st, cond, body, inc, M, repl)
        o = r['o']
        new = set()
        for s in [o.st] + o.brks + [s for s, v in o.rets]:
            if s is not None:
                new |= self.changed(r['h0'], s, r['local'], M)
        new |= self.changed({k: v for k, v in r['h0'].items()}, r['h'], r['local'], M)
        new = {p for p in new if not any(p[:k] in M for k in range(1, len(p) + 1))} | set(M)
        lin = {}
        if o.st is not None:
            for p in M:
                nv = self.read_path(o.st, p)
                ph = phis[p]
                if nv.op == 'iter' and init[p].op == 'iter' and nv.args[:2] == init[p].args[:2]:
                    d = sub(nv.args[2], ph)
                elif nv.op in ('poly', 'num', 'phi') or nv.isint:
                    if nv.op == 'ite':
                        continue
                    d = frompoly(TM.poly_sub(topoly(nv), topoly(ph)))
                else:
                    continue
                if any(x in d.free for x in phis.values()):
                    continue
                if d.free - self.outer_free(st):
                    pass
                if d is ZERO:
                    continue
                lin[p] = d
            # an increment containing values computed in the body is invariant
            # only if it survives the final pass (re-checked there)
        # lists that are only overwritten in place keep their length
        kept = set()
        if o.st is not None:
            for p in M:
                if p in lin or init[p].op == 'iter' or init[p] is UNDEF:
                    continue
                nv = self.read_path(o.st, p)
                if nv is phis[p] or not any(l.op in ('set', 'mapupd', 'mu') or l.op == 'call' and l in TM.SIZES for l in leaves(nv)):
                    continue
                if size(nv) is size(phis[p]):
                    kept.add(p)
        # small matrices of which only some entries are ever overwritten
        mats = {}
        if o.st is not None:
            for p in M:
                if p in lin or init[p].op != 'mat':
                    continue
                ks = self.entries_set(self.read_path(o.st, p), phis[p], init[p])
                if ks:
                    mats[p] = ks
                    kept.discard(p)
        return dict(new=new, lin=lin, phis=phis, c=r['c'], kept=kept, mats=mats)

    def entries_set(self, v, ph, m):
        """Entries overwritten in a chain of updates of ph, or None."""
        ks = set()
        for l in leaves(v):
            while l.op == 'set':
                k = mat_index(m, l.args[1])
                if k is None:
                    return None
                ks.add(k)
                l = l.args[0]
            if l is not ph:
                return None
        return ks

    def outer_free(self, st):
        return frozenset()

    def loop_final(self, fr, st, cond, body, inc, M, det, cong_bad, line):
        M = self.norm_M(M)
        lv = fresh_lv()
        phis, repl, init = {}, {}, {}
        lin = {}
        for p in M:
            phis[p], repl[p], init[p] = self.mkphi(st, p)
        self.record(phis, init, lv)
        for p, d in det['lin'].items():
            if p not in M or any(x in d.free for x in phis.values()):
                continue
            if init[p].op == 'iter':
                lin[p] = d
                repl[p] = mk('iter', init[p].args[0], init[p].args[1], add(init[p].args[2], mul(d, lv)))
            elif init[p] is UNDEF:
                continue
            else:
                lin[p] = d
                repl[p] = add(init[p], mul(d, lv))
        mats = {}
        for p, ks in det['mats'].items():
            if p in M and p not in lin and init[p].op == 'mat':
                h, w = init[p].args[:2]
                mats[p] = ks
                repl[p] = mk('mat', h, w, *[mk('idx', phis[p], ij(h, w, k)) if k in ks else v
                                            for k, v in enumerate(init[p].args[2:])])
        for p in det['kept']:
            if p in M and p not in lin and init[p].op != 'iter' and init[p] is not UNDEF:
                TM.SIZES[phis[p]] = size(init[p])
        # congruence hypotheses  n == size(container)
        cong = {}
        conts = {}
        for p in M:
            if p in lin:
                continue
            iv = init[p]
            if iv.op in ('in', 'phi', 'cat', 'seq', 'bigcat', 'mu', 'idx', 'fld', 'ite', 'rep'):
                conts.setdefault(size(iv), p)
        for p in M:
            if p in lin or p in cong_bad or init[p] is ZERO:
                continue
            q = conts.get(init[p])
            if q is not None and q != p and not is_bool(init[p]) and init[p].op != 'iter':
                cong[p] = q
                repl[p] = size(phis[q])
        r = self.loop_pass(fr, st, cond, body, inc, M, repl)
        c = r['c']
        # a table whose length never changes has its initial length
        keep = []
        if r['o'].st is not None and c.free:
            for p in M:
                if p in lin or p in cong or phis[p] not in c.free or init[p].op == 'iter':
                    continue
                sz = mk('size', phis[p])
                if TM.contains(c, lambda x: x is sz) and size(self.read_path(r['o'].st, p)) is sz:
                    keep.append((sz, size(init[p])))
            for a_, b_ in keep:
                c = bdd(replace(c, a_, b_))
        # ---- iteration domain from the header condition
        n, rest = self.domain(c, lv, set(phis.values()))
        extra = None
        endstop = FALSE
        if n is not None and rest is not TRUE:
            # rotate the remaining header condition to the end of the iteration
            sub_init = {phis[p]: self.scalar(init[p]) for p in M if p not in lin and p not in cong}
            r0 = self.simpc(subst_bool(subst(rest, {**sub_init, lv: ZERO})), st)
            if r0 is TRUE:
                extra = 'rot'
            elif r0 is not FALSE and not self.nosplit:
                return ('split', r0)
        o = r['o']
        new = set()
        for s in [o.st] + o.brks + [s for s, v in o.rets]:
            if s is not None:
                new |= self.changed(r['h0'], s, r['local'], M)
        new |= self.changed(r['h0'], r['h'], r['local'], M)
        new = {p for p in new if not any(p[:k] in M for k in range(1, len(p) + 1))}
        if new:
            return ('newM', new)
        # ---- verify hypotheses
        if o.st is not None:
            bad = {p for p, q in cong.items()
                   if self.read_path(o.st, p) is not size(self.read_path(o.st, q))}
            if bad:
                return ('cong', bad)
            badl = set()
            for p, d in lin.items():
                nv = self.read_path(o.st, p)
                want = add(repl[p].args[2] if repl[p].op == 'iter' else repl[p], d)
                if (nv.args[2] if nv.op == 'iter' else nv) is not want:
                    badl.add(p)
            if badl:
                return ('lin', badl)
            badm = set()
            for p, ks in mats.items():
                for l in leaves(self.read_path(o.st, p)):
                    if l.op != 'mat' or l.args[:2] != init[p].args[:2] or any(
                            v is not init[p].args[2 + k] for k, v in enumerate(l.args[2:]) if k not in ks):
                        badm.add(p)
            if badm:
                return ('mats', badm)
            bads = {p for p in det['kept'] if p in M and phis[p] in TM.SIZES and
                    size(self.read_path(o.st, p)) is not TM.SIZES[phis[p]]}
            if bads:
                return ('kept', bads)
        pv = [p for p in sorted(M, key=repr) if p not in lin and p not in cong]
        nxt = {}
        if o.st is not None:
            for p in pv:
                nxt[p] = self.read_path(o.st, p)
        # phis that never change
        same = {phis[p]: self.scalar(init[p]) for p in pv if p in nxt and self.same_phi(nxt[p], phis[p])}
        for _ in range(4):
            more = False
            for p in pv:
                if p in nxt and phis[p] not in same:
                    nv = subst(nxt[p], same) if same else nxt[p]
                    if nv is init[p]:
                        same[phis[p]] = self.scalar(init[p])
                        more = True
            if not more:
                break
        base = r['bpc']
        # conditions of leaving, relative to the iteration start
        def relc(s):
            return ANDS(s.conds[r['nconds']:]) if s is not None else FALSE

        stops = []            # (kind, cond, state, value)
        for s in o.brks:
            stops.append(('brk', relc(s), s, None))
        for s, v in o.rets:
            stops.append(('ret', relc(s), s, v))
        thr = o.thrs
        if extra == 'rot' and o.st is not None:
            m = {phis[p]: self.scalar(self.read_path(o.st, p)) for p in pv}
            for p, q in cong.items():
                pass
            rn = subst_bool(subst(rest, {**m, lv: add(lv, ONE)}))
            rn = self.simpc(rn, o.st)
            if rn is not TRUE:
                b = o.st.fork(NOT(rn))
                stops.append(('brk', relc(b), b, None))
            rest = TRUE
        elif n is not None and rest is not TRUE:
            # the remaining header condition is a stop at the head of the iteration
            stops = [(k, AND(rest, cc), s, v) for k, cc, s, v in stops]
            stops.insert(0, ('brk', NOT(rest), r['h'].fork(NOT(rest)), None))
            rest = TRUE
        S = ORS([x[1] for x in stops])
        L = Loop(lv, n if n is not None else NULL, rest if n is not None else c, S, phis, init, nxt, lin, same, pv, self)
        if self.unswitched < 3 and not self.nosplit:
            vals = [nxt[p] for p in nxt if phis[p] not in L.same and TM.atoms_of(nxt[p]) and
                    TM.contains(L.close(p), lambda x: x.op == 'mu')]
            a = self.invariant_choice(L, vals, st.pc) if vals else None
            if a is not None:
                return ('unswitch', bdd(a))
        # ---- record
        le = LoopEv('loop', st.pc, fr.fn, line)
        le.body = r['evs']
        le.n = n
        le.var = lv
        le.cond = c
        le.stop = S
        le.phis = {p: (phis[p], init[p], nxt.get(p)) for p in pv}
        if le.body or not self.silent_loop(pv, r):
            self.events.append(le)
        out = Out(None)
        # ---- normal exit
        E = L.happened()
        ns = st.fork()
        zero = n is ZERO
        if c is FALSE:
            out.st = ns
            return out
        norm_possible = E is not TRUE
        nmem = {}
        if norm_possible and not (n is None and c is TRUE):
            for p in pv:
                nmem[p] = L.close(p)
            for p, d in lin.items():
                iv = init[p]
                if n is not None:
                    tot = mul(d, n)
                    nmem[p] = mk('iter', iv.args[0], iv.args[1], add(iv.args[2], tot)) if iv.op == 'iter' else add(iv, tot)
                else:
                    x = L.mu(add(iv.args[2] if iv.op == 'iter' else iv, mul(d, lv)), None)
                    nmem[p] = mk('iter', iv.args[0], iv.args[1], x) if iv.op == 'iter' else x
            for p, q in cong.items():
                nmem[p] = size(nmem[q])
            ns = self.header(st, set(nmem), nmem)
            normal = ns
        else:
            normal = None
        conds_E = self.simpc(E, st)
        brks = [x for x in stops if x[0] == 'brk']
        rets = [x for x in stops if x[0] == 'ret']

        def stop_state(group):
            """State on leaving through one of the stops in group."""
            s = st.fork()
            paths = {}
            for _, _, x, _ in group:
                for p in x.mem:
                    if not r['local'](p):
                        paths[p] = 1
            mem = dict(st.mem)
            for p in paths:
                vs = [(cc, self.read_path(x, p)) for _, cc, x, _ in group]
                if p in st.mem and all(v is st.mem[p] for cc, v in vs) and p not in M:
                    continue
                v = vs[-1][1]
                for cc, w in reversed(vs[:-1]):
                    v = ITE(cc, w, v)
                v = TM.constrain(v, ORS([x[1] for x in group]), L.name)
                mem[p] = L.at_stop(v)
                raw[p] = v
            return mem

        raw = {}
        mixed = bool(brks) and bool(rets)
        Eb = Er = conds_E
        if mixed:
            Rc = ORS([x[1] for x in rets])
            isr = L.at_stop(bdd(Rc))
            isr = atomize(isr)
            Er = AND(conds_E, isr)
            Eb = AND(conds_E, NOT(isr))
        ends = []
        if normal is not None:
            x = State(normal.mem, st.conds, st.pc)
            ends.append(x.fork(NOT(conds_E)) if conds_E is not FALSE else x)
        elif n is None and c is TRUE and conds_E is not TRUE:
            # infinite loop: leaves only through the stops
            Eb2 = TRUE
            if not mixed:
                Eb = Er = conds_E = TRUE
        def followed(mem):
            """A recurrence followed up to the exit, whichever exit it is."""
            if normal is None or mixed:
                return
            for p in pv:
                if p in raw and p in nmem and p in mem and mem[p].op == 'mu' and p in nxt and \
                        phis[p] not in L.same and not is_bool(nmem[p]) and nmem[p].op != 'iter':
                    u = L.mu(phis[p], L.before(subst(raw[p], L.same) if L.same else raw[p]))
                    u.isint, u.nonneg = nmem[p].isint and mem[p].isint, nmem[p].nonneg and mem[p].nonneg
                    if phis[p] in TM.SIZES:
                        TM.SIZES[u] = TM.SIZES[phis[p]]
                    mem[p] = ends[0].mem[p] = u

        if brks:
            mem = stop_state(brks)
            followed(mem)
            x = State(mem, st.conds, st.pc).fork(Eb)
            if x.pc is not FALSE:
                ends.append(x)
        if rets:
            mem = stop_state(rets)
            followed(mem)
            x = State(mem, st.conds, st.pc).fork(Er)
            if x.pc is not FALSE:
                val = None
                vals = [(cc, v) for _, cc, s_, v in rets]
                if vals[0][1] is not None:
                    vv = [(cc, self.read(s_, v) if isinstance(v, LV) else v) for (_, cc, s_, v) in rets]
                    v = vv[-1][1]
                    for cc, w in reversed(vv[:-1]):
                        v = ITE(cc, w, v)
                    val = L.at_stop(TM.constrain(v, ORS([x[1] for x in rets]), L.name))
                    if len(rets) == 1 and isinstance(rets[0][3], LV) and not (rets[0][3].path and r['local'](rets[0][3].path)):
                        l0 = rets[0][3]
                        val2 = LV(l0.path, tuple((k, L.at_stop(y) if k == 'i' else y) for k, y in l0.pr))
                        val = val2
                out.rets.append((x, val))
        for ts, tt in thr:
            out.thrs.append((ts, tt))
        out.st = self.merge(st, ends)
        if out.st is not None:
            for p in [p for p in out.st.mem if r['local'](p)]:
                del out.st.mem[p]
        return out

    def same_phi(self, v, ph):
        return v is ph or (v.op == 'ite' and v is bdd(mk('atom', ph))) or (v.op == 'iter' and v.args[2] is ph)

    def scalar(self, v):
        return v.args[2] if v.op == 'iter' else v

    def silent_loop(self, pv, r):
        return not r['evs']

    def domain(self, c, lv, phis, depth=0):
        """Header condition -> (number of iterations, remaining condition)."""
        if c is TRUE or c is FALSE:
            return None, c
        f = forced(c)
        best = []

        def named(x):
            return subst(x, self.names).key if (x.free & self.names.keys()) else x.key
        for a in sorted(f, key=named):
            v = f[a]
            if lv not in a.free or (a.free & phis):
                continue
            if a.op == 'lt0':
                p = topoly(a.args[0])
                s = 1 if v else -1
                off = 0 if v else 1
                # v: p<0 ; not v: p>=0  <=> -p-1<0 (ints)
                q = {m: s * x for m, x in p.items()}
                if not v:
                    if not a.args[0].isint:
                        continue
                    q[()] = q.get((), 0) - 1
            elif a.op == 'eq0' and not v:
                p = topoly(a.args[0])
                q = dict(p)
                k = q.get(((lv, 1),))
                if k is None:
                    continue
                if k < 0:
                    q = {m: -x for m, x in q.items()}
            else:
                continue
            m = ((lv, 1),)
            k = q.get(m)
            if k is None or k <= 0:
                continue
            if any(lv in at.free for mm in q for at, e in mm if mm != m):
                continue
            r = {mm: TM.qdiv(-x, k) for mm, x in q.items() if mm != m}
            n = frompoly(r)
            if k != 1 or not n.isint:
                if not n.isint or any(x.denominator != 1 for x in r.values()):
                    n = mk('call', 'ceil', n)
                    n.isint = True
            if n.op == 'num' and n.args[0] < 0:
                n = ZERO
            n.isint = True
            best.append((n, a, v))
        if not best:
            # a bound that depends on a condition fixed before the loop
            inv = sorted((a for a in atoms_of(c) if lv not in a.free and not (a.free & phis)), key=named)
            if inv and depth < 4:
                a = inv[0]
                n1, r1 = self.domain(cofactor(c, a, True), lv, phis, depth + 1)
                n2, r2 = self.domain(cofactor(c, a, False), lv, phis, depth + 1)
                if n1 is not None and n2 is not None:
                    n = ITE(bdd(a), n1, n2)
                    n.isint = True
                    return n, ITE(bdd(a), r1, r2)
            # `x < n` with x a size known to be >= 1 (do not handle)
            return None, c
        # several bounds on the counter: the smallest one (counting up from zero
        # in steps of one, `!=` is a bound when it cannot be below zero)
        use = [x for x in best if x[1].op == 'lt0' or x[0].nonneg] or best[:1]
        n = None
        for m, a, v in use:
            n = m if n is None else TM.minmax('min', n, m)
            c = cofactor(c, a, v)
        n.isint = True
        return n, c

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        """Evaluate for value or location (location preferred)."""
        lv = self.lv(e, fr, st)
        if lv is not None:
            return lv
        return self.rv(e, fr, st)

    def rv(self, e, fr, st):
        if e is None:
            return UNDEF
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.unk('expr ' + e['k'], e)
        v = m(e, fr, st)
        if isinstance(v, LV):
            v = self.read(st, v)
            return self.flag(v, self.ety(fr, e))
        if v is None:
            v = mk('void')
        return self.flag(v, self.ety(fr, e))

    LVK = {'var', 'gvar', 'mem', 'sub', 'un', 'call', 'asg', 'bind', 'this', 'cond', 'cast', 'cvar'}

    def lv(self, e, fr, st):
        """Location denoted by e, or None (then nothing was evaluated)."""
        k = e['k']
        if k == 'var':
            v = fr.vars.get(e['id'])
            if isinstance(v, tuple) and v[0] == 'bind':
                return self.lv(v[1], fr, st)
            if v is None:
                v = LV((('L', fr.act, e['id']),))
                fr.vars[e['id']] = v
            return v
        if k == 'bind':
            return self.lv(e['e'], fr, st)
        if k == 'gvar':
            return LV((('G', e['q']),))
        if k == 'mem':
            if e.get('arrow'):
                b = self.ptrlv(e['b'], fr, st)
            else:
                b = self.lv(e['b'], fr, st)
                if b is None:
                    v = self.rv(e['b'], fr, st)
                    b = self.temp(st, v)
            return b.f(e['n'])
        if k == 'sub':
            b = self.lv(e['x'], fr, st)
            i = self.rv(e['y'], fr, st)
            if b is None:
                b = self.deref(st, self.rv(e['x'], fr, st))
            else:
                v = self.read(st, b)
                if v.op == 'ptr':
                    b = self.deref(st, v)
            return b.i(i)
        if k == 'un':
            op = e['op']
            if op == '*':
                v = self.rv(e['x'], fr, st)
                if v.op == 'iter':
                    return LV(v.args[0], v.args[1]).i(v.args[2])
                return self.deref(st, v)
            if op in ('++', '--') and not e.get('post'):
                lv = self.lv(e['x'], fr, st)
                self.incdec(fr, st, lv, op, e)
                return lv
            return None
        if k == 'asg':
            return self.assign(e, fr, st)
        if k == 'call':
            r = self.callx(e, fr, st)
            if isinstance(r, LV):
                return r
            return self.temp(st, r) if r is not None and self.ty(fr, e.get('t', -1))['k'] == 'rec' else self.tempval(st, r)
        if k == 'cast' and e['ck'] in ('bd', 'dyn', 'other'):
            return self.lv(e['x'], fr, st)
        if k == 'cond':
            return None
        return None

    def temp(self, st, v):
        self.acts += 1
        lv = LV((('L', self.acts, 't'),))
        self.write_path(st, lv.path, v)
        return lv

    def tempval(self, st, v):
        return self.temp(st, v if v is not None else mk('void'))

    def ptrlv(self, e, fr, st):
        """Location a pointer-valued expression points to."""
        if e['k'] == 'this':
            return fr.this if fr.this is not None else LV(('this',))
        v = self.rv(e, fr, st)
        if v.op == 'iter':
            return LV(v.args[0], v.args[1]).i(v.args[2])
        return self.deref(st, v)

    def e_var(self, e, fr, st):
        v = fr.vars.get(e['id'])
        if v is None or isinstance(v, tuple):
            v = self.lv(e, fr, st)
            if v is None:
                return self.unk('var', e)
        x = self.read(st, v)
        if x is UNDEF:
            self.emit('undef', fr, st, e.get('l'), name=e.get('n'), ctx='var')
        return x

    def e_bind(self, e, fr, st):
        return self.rv(e['e'], fr, st)

    def e_gvar(self, e, fr, st):
        g = self.P.globals.get(e['q'])
        path = (('G', e['q']),)
        if path in st.mem:
            return st.mem[path]
        if g is not None:
            d, j = g
            t = d['types'][j['t']]
            if t.get('c') and j.get('i') is not None:
                fr2 = Frame(fr.act, fr.fn, d, None, fr.stack)
                return self.rv(j['i'], fr2, st)
        return mk('in', path)

    def e_mem(self, e, fr, st):
        # value of a member of an rvalue without materialising
        lv = self.lv(e, fr, st)
        v = self.read(st, lv)
        if v is UNDEF:
            self.emit('undef', fr, st, e.get('l'), name=e.get('n'), ctx='mem')
        return v

    def e_sub(self, e, fr, st):
        return self.lv(e, fr, st)

    def e_int(self, e, fr, st):
        return num(e['v'])

    def e_float(self, e, fr, st):
        v = e['v']
        return num(float(v)) if v is not None else mk('call', 'INFINITY')

    def e_inf(self, e, fr, st):
        return mk('call', 'INFINITY')

    def e_bool(self, e, fr, st):
        return boolc(e['v'])

    def e_str(self, e, fr, st):
        return mk('str', e['v'])

    def e_null(self, e, fr, st):
        return NULL

    def e_zero(self, e, fr, st):
        t = self.ety(fr, e)
        if t['k'] == 'bool':
            return FALSE
        if t['k'] in ('int', 'float', 'enum'):
            return ZERO
        if t['k'] == 'ptr':
            return NULL
        return self.default(t, fr)

    def e_this(self, e, fr, st):
        t = fr.this or LV(('this',))
        return t.ptr()

    def e_enum(self, e, fr, st):
        return mk('enum', e['q'])

    def e_fref(self, e, fr, st):
        f = fr.tu['fns'][e['fn']]
        return mk('fnref', f['u'], f['q'])

    def e_cvar(self, e, fr, st):
        v = e['v']
        if isinstance(v, float):
            return num(v)
        t = self.ety(fr, e)
        if t['k'] == 'bool':
            return boolc(v)
        return num(v)

    def e_list(self, e, fr, st):
        t = self.ety(fr, e)
        vs = [self.rv(a, fr, st) for a in e['a']]
        if t['k'] == 'rec' and t.get('u') in self.P.cls:
            flds = self.P.fields_of(t['u'])
            v = UNDEF
            for (k, f), x in zip(flds, vs):
                v = fset(v, f['n'], x)
            for k, f in flds[len(vs):]:
                if f.get('i') is not None:
                    v = fset(v, f['n'], self.rv(f['i'], Frame(fr.act, fr.fn, k.tu, None, fr.stack), st))
            return v
        if t['k'] in SCALAR and len(vs) == 1:
            return vs[0]
        if t['k'] == 'arr' and t.get('n') and len(vs) < t['n']:
            vs += [ZERO] * (t['n'] - len(vs)) if t['n'] <= 64 else []
        return mkseq(*vs)

    def e_new(self, e, fr, st):
        t = self.ty(fr, e['at'])
        self.heap += 1
        root = ('H', self.heap)
        lv = LV((root,))
        self.emit('new', fr, st, e['l'], t=t.get('r'), lv=lv)
        if t.get('u'):
            self.objcls[(root,)] = t['u']
        if e.get('x'):
            self.init_into(lv, e['x'], fr, st, t)
        return lv.ptr()

    def e_delete(self, e, fr, st):
        v = self.rv(e['x'], fr, st)
        self.emit('delete', fr, st, e['l'], v=v)
        return mk('void')

    def e_throw(self, e, fr, st):
        self.emit('throw', fr, st, e.get('l'), t=None)
        return mk('void')

    def e_unk(self, e, fr, st):
        return self.unk(e.get('c', '?'), e)

    def e_lambda(self, e, fr, st):
        self.acts += 1
        uid = self.acts
        env = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('init'):
                v = self.rv(c['e'], fr, st)
                p = (('L', uid, c['id']),)
                self.write_path(st, p, v)
                env[c['id']] = LV(p)
                continue
            src = fr.vars.get(c['id'])
            if src is None:
                continue
            if isinstance(src, tuple):
                env[c['id']] = src
            elif c.get('ref'):
                env[c['id']] = src
            else:
                p = (('L', uid, c['id']),)
                self.write_path(st, p, self.read(st, src))
                env[c['id']] = LV(p)
        t = mk('closure', uid)
        self.closures[uid] = (e['f'], env, fr, e)
        return t

    def e_cast(self, e, fr, st):
        ck = e['ck']
        v = self.rv(e['x'], fr, st)
        if ck in ('if', 'ff', 'bd', 'dyn', 'other', 'void'):
            if ck == 'if' and is_bool(v):
                return ITE(bdd(v), ONE, ZERO)
            return v
        if ck == 'ii':
            t = self.ety(fr, e)
            if is_bool(v):
                return ITE(bdd(v), ONE, ZERO)
            return v
        if ck == 'fi':
            def tr(x):
                if x.op == 'num':
                    import math
                    return num(math.trunc(x.args[0]))
                if x.isint:
                    return x
                r = mk('call', 'trunc', x)
                r.isint = True
                return r
            return lift(tr, [v])
        if ck in ('ib', 'fb', 'pb'):
            return truthy(v)
        return v

    def e_un(self, e, fr, st):
        op = e['op']
        if op == '!':
            return NOT(truthy(self.rv(e['x'], fr, st)))
        if op == '-':
            v = self.rv(e['x'], fr, st)
            if v.op == 'call' and v.args[0] == 'INFINITY':
                return mk('call', 'NEG_INF')
            return neg(v)
        if op == '+':
            return self.rv(e['x'], fr, st)
        if op in ('++', '--'):
            lv = self.lv(e['x'], fr, st)
            old = self.read(st, lv)
            self.incdec(fr, st, lv, op, e)
            return old if e.get('post') else self.read(st, lv)
        if op == '*':
            return self.lv(e, fr, st)
        if op == '&':
            lv = self.lv(e['x'], fr, st)
            if lv is not None:
                return lv.ptr()
            if e['x']['k'] == 'fref':
                return self.rv(e['x'], fr, st)
            return self.unk('addr', e)
        if op == '~':
            return call('~', self.rv(e['x'], fr, st))
        return self.unk('un ' + op, e)

    def incdec(self, fr, st, lv, op, e):
        old = self.read(st, lv)
        d = ONE if op == '++' else num(-1)
        if old.op == 'iter':
            nv = mk('iter', old.args[0], old.args[1], add(old.args[2], d))
        else:
            nv = add(old, d)
        t = self.ety(fr, e['x'])
        nv = self.flag(nv, t)
        self.note_type(lv, t)
        self.write(fr, st, lv, nv, e.get('l'))

    def note_type(self, lv, t):
        if not lv.pr and lv.path not in self.ptype:
            if t['k'] == 'int':
                self.ptype[lv.path] = 'uint' if t.get('u') else 'int'
            elif t['k'] in ('bool', 'float'):
                self.ptype[lv.path] = t['k']

    def assign(self, e, fr, st):
        op = e['op']
        t = self.ety(fr, e['x'])
        if op == '=':
            v = self.rv(e['y'], fr, st)
            lv = self.lv(e['x'], fr, st)
            if lv is None:
                self.unk('assign', e)
                return self.temp(st, v)
            v = self.flag(v, t)
        else:
            lv = self.lv(e['x'], fr, st)
            old = self.read(st, lv)
            if old is UNDEF:
                self.emit('undef', fr, st, e.get('l'), name='op=', ctx='compound')
            y = self.rv(e['y'], fr, st)
            v = self.arith(op[:-1], old, y, t, self.ety(fr, e['y']), e)
            v = self.flag(v, t)
        self.note_type(lv, t)
        self.write(fr, st, lv, v, e.get('l'))
        return lv

    def e_asg(self, e, fr, st):
        return self.assign(e, fr, st)

    def arith(self, op, x, y, tx, ty, e):
        if x.op == 'iter' or y.op == 'iter':
            return self.iter_arith(op, x, y, e)
        if op == '+':
            return add(num_(x), num_(y))
        if op == '-':
            return sub(num_(x), num_(y))
        if op == '*':
            return mul(num_(x), num_(y))
        if op == '/':
            if tx['k'] == 'int' and ty['k'] == 'int':
                def idiv(a, b):
                    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
                        import math
                        return num(math.trunc(Fraction(a.args[0], b.args[0])))
                    if b is ONE:
                        return a
                    r = mk('call', 'idiv', a, b)
                    r.isint = True
                    r.nonneg = a.nonneg and b.nonneg
                    return r
                return lift(idiv, [x, y])
            return div(num_(x), num_(y))
        if op == '%':
            def md(a, b):
                if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
                    import math
                    return num(math.fmod(int(a.args[0]), int(b.args[0])))
                r = mk('call', 'mod', a, b)
                r.isint = True
                r.nonneg = a.nonneg
                return r
            return lift(md, [x, y])
        if op in ('&', '|', '^') and is_bool(x) and is_bool(y):
            x, y = bdd(x), bdd(y)
            return AND(x, y) if op == '&' else OR(x, y) if op == '|' else ITE(x, NOT(y), y)
        if x.op == 'num' and y.op == 'num' and y.args[0] >= 0:
            i, j = int(x.args[0]), int(y.args[0])
            v = {'&': lambda: i & j, '|': lambda: i | j, '^': lambda: i ^ j, '<<': lambda: i << j if j < 64 else None,
                 '>>': lambda: i >> j}.get(op, lambda: None)()
            if v is not None:
                return num(v)
        r = call('bit' + op, x, y)
        return r

    def iter_arith(self, op, x, y, e):
        if x.op == 'iter' and y.op == 'iter':
            if op == '-' and x.args[:2] == y.args[:2]:
                return sub(x.args[2], y.args[2])
            return self.unk('iter', e)
        it, d = (x, y) if x.op == 'iter' else (y, x)
        if op == '+':
            return mk('iter', it.args[0], it.args[1], add(it.args[2], d))
        if op == '-':
            return mk('iter', it.args[0], it.args[1], sub(it.args[2], d))
        return self.unk('iter', e)

    def compare(self, op, x, y, e=None):
        if x.op == 'iter' and y.op == 'iter':
            if x.args[:2] == y.args[:2]:
                x, y = x.args[2], y.args[2]
            elif op in ('==', '!='):
                c = bdd(mk('atom', mk('call', 'itereq', x, y)))
                return c if op == '==' else NOT(c)
        if op in ('==', '!='):
            if is_bool(x) and is_bool(y):
                c = ITE(bdd(x), bdd(y), NOT(y))
            else:
                c = eq(num_(x), num_(y))
            return c if op == '==' else NOT(c)
        x, y = num_(x), num_(y)
        for a, b, o in ((x, y, op), (y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            pass
        return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](x, y)

    def e_bin(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||'):
            x = truthy(self.rv(e['x'], fr, st))
            x = self.simpc(x, st)
            if (op == '&&' and x is FALSE) or (op == '||' and x is TRUE):
                return x
            s2 = st.fork(x if op == '&&' else NOT(x))
            y = truthy(self.rv(e['y'], fr, s2))
            s1 = st.fork(NOT(x) if op == '&&' else x)
            m = self.merge(st, [s2, s1])
            if m is not None:
                st.mem = m.mem
            return AND(x, y) if op == '&&' else OR(x, y)
        if op == ',':
            self.discard(e['x'], fr, st)
            return self.rv(e['y'], fr, st)
        x = self.rv(e['x'], fr, st)
        y = self.rv(e['y'], fr, st)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, x, y, e)
        return self.arith(op, x, y, self.ety(fr, e['x']), self.ety(fr, e['y']), e)

    def e_cond(self, e, fr, st):
        c = self.cond(e['x'], fr, st)
        if c is TRUE:
            return self.rv(e['y'], fr, st)
        if c is FALSE:
            return self.rv(e['z'], fr, st)
        s1 = st.fork(c)
        s2 = st.fork(NOT(c))
        a = self.rv(e['y'], fr, s1)
        b = self.rv(e['z'], fr, s2)
        m = self.merge(st, [s1, s2])
        if m is not None:
            st.mem = m.mem
        return ITE(c, a, b)

    # ------------------------------------------------------------- construction
    def e_ctor(self, e, fr, st):
        f = fr.tu['fns'][e['fn']]
        fn = self.P.fns.get(f['u'])
        kind = f.get('ctor')
        t = self.ety(fr, e)
        if kind == 'copy' and e['a']:
            return self.rv(e['a'][0], fr, st)
        if fn is not None and (fn.j.get('body') is not None or fn.j.get('inits')):
            self.acts += 1
            lv = LV((('L', self.acts, 'obj'),))
            self.construct(lv, fn, e['a'], fr, st, e)
            v = self.read_path(st, lv.path)
            return v
        if f.get('repo') and not e['a']:
            return self.default(t, fr)
        from .models import ext_ctor
        return ext_ctor(self, e, f, t, fr, st)

    def construct(self, lv, fn, args, fr, st, e):
        """Run a repository constructor in place."""
        if len(fr.stack) > self.maxdepth:
            self.write(fr, st, lv, self.unk('depth', e), quiet=True)
            return
        self.inlined.add(fn.usr)
        self.acts += 1
        nf = Frame(self.acts, fn, fn.tu, lv, fr.stack + (fn.usr,))
        if not lv.pr:
            if fn.cls:
                self.objcls[lv.path] = fn.cls
        self.bind_params(nf, fn.j['params'], args, fr, st)
        self.ctor_inits(nf, st, fn)
        self.body(nf, st, fn)

    def ctor_inits(self, nf, st, fn):
        lv = nf.this
        # implicit field initialisation
        written = {i['m'] for i in fn.j.get('inits', []) if 'm' in i}
        for i in fn.j.get('inits', []):
            x = i.get('x')
            if 'm' in i:
                t = None
                for k, f in self.P.fields_of(fn.cls) if fn.cls in self.P.cls else []:
                    if f['n'] == i['m']:
                        t = k.tu['types'][f['t']]
                if x is None:
                    continue
                if t is not None and t['k'] in ('ref', 'rref'):
                    l2 = self.lv(x, nf, st)
                    v = l2.ptr() if l2 is not None else self.rv(x, nf, st)
                    self.write(nf, st, lv.f(i['m']), v, i['l'])
                    continue
                if x.get('k') == 'ctor' and not x['a'] and not i.get('w'):
                    v = self.rv(x, nf, st)
                    self.write(nf, st, lv.f(i['m']), v, i['l'], quiet=True)
                    continue
                self.init_into(lv.f(i['m']), x, nf, st, t or {'k': 'other'})
            elif 'b' in i and x is not None:
                if x.get('k') == 'ctor':
                    f = nf.tu['fns'][x['fn']]
                    b = self.P.fns.get(f['u'])
                    if b is not None:
                        self.acts += 1
                        bf = Frame(self.acts, b, b.tu, lv, nf.stack + (b.usr,))
                        self.bind_params(bf, b.j['params'], x['a'], nf, st)
                        self.ctor_inits(bf, st, b)
                        self.body(bf, st, b)
            elif 'd' in i and x is not None and x.get('k') == 'ctor':
                f = nf.tu['fns'][x['fn']]
                b = self.P.fns.get(f['u'])
                if b is not None:
                    self.construct(lv, b, x['a'], nf, st, x)

    def bind_params(self, nf, params, args, fr, st):
        for n, p in enumerate(params):
            t = nf.tu['types'][p['t']] if p['t'] >= 0 else {'k': 'other'}
            path = (('L', nf.act, p['id']),)
            if n >= len(args):
                nf.vars[p['id']] = LV(path)
                continue
            a = args[n]
            if isinstance(a, T):
                self.write_path(st, path, a)
                nf.vars[p['id']] = LV(path)
                continue
            if isinstance(a, LV):
                if t['k'] in ('ref', 'rref'):
                    nf.vars[p['id']] = a
                else:
                    self.write_path(st, path, self.read(st, a))
                    nf.vars[p['id']] = LV(path)
                continue
            if t['k'] in ('ref', 'rref'):
                lv = self.lv(a, fr, st)
                if lv is None:
                    v = self.rv(a, fr, st)
                    self.write_path(st, path, v)
                    lv = LV(path)
                nf.vars[p['id']] = lv
            else:
                v = self.rv(a, fr, st)
                v = self.flag(v, t)
                self.write_path(st, path, v)
                nf.vars[p['id']] = LV(path)

    # ------------------------------------------------------------- calls
    def e_call(self, e, fr, st):
        return self.callx(e, fr, st)

    def callx(self, e, fr, st):
        """Evaluate a call: LV (reference results) or term."""
        from .models import ext_call
        if 'fn' not in e:
            c = e.get('callee')
            v = self.rv(c, fr, st) if c else UNDEF
            if v.op == 'ptr':
                v = self.read(st, LV(*v.args))
            if v.op == 'closure':
                return self.call_closure(v, [self.arg(a, fr, st) for a in e['a']], fr, st, e)
            if v.op == 'fnref' and v.args[0] in self.P.fns:
                return self.call_fn(self.P.fns[v.args[0]], None, e['a'], fr, st, e)
            args = [self.rv(a, fr, st) for a in e['a']]
            return call('indirect', v, *args)
        f = fr.tu['fns'][e['fn']]
        u = f['u']
        if f['n'] == 'operator()' and e.get('o') is not None:
            # closures
            olv = self.lv(e['o'], fr, st)
            ov = self.read(st, olv) if olv is not None else self.rv(e['o'], fr, st)
            if ov.op == 'closure':
                return self.call_closure(ov, [self.arg(a, fr, st) for a in e['a']], fr, st, e)
            fn = self.P.fns.get(u)
            if fn is not None:
                return self.call_fn(fn, olv if olv is not None else self.temp(st, ov), e['a'], fr, st, e)
            return ext_call(self, e, f, fr, st, olv, ov)
        if f.get('repo') and not f['q'].startswith('__builtin') or u in self.P.fns:
            this = None
            if f.get('m') and f['m'] != 's' and e.get('o') is not None:
                if e.get('arrow'):
                    this = self.ptrlv(e['o'], fr, st)
                else:
                    this = self.lv(e['o'], fr, st)
                    if this is None:
                        this = self.temp(st, self.rv(e['o'], fr, st))
            fn = self.resolve(f, u, this, e, fr)
            if f.get('asg') and (fn is None or f.get('dflt')):
                lv = this
                v = self.rv(e['a'][0], fr, st)
                self.write(fr, st, lv, v, e.get('l'))
                return lv
            if fn is None:
                return self.opaque_call(f, this, e, fr, st)
            if self.opaque(fn):
                return self.opaque_call(fn.ent, this, e, fr, st, fn)
            return self.call_fn(fn, this, e['a'], fr, st, e)
        return ext_call(self, e, f, fr, st)

    def arg(self, a, fr, st):
        lv = self.lv(a, fr, st)
        if lv is not None:
            return lv
        return self.rv(a, fr, st)

    def resolve(self, f, u, this, e, fr):
        fn = self.P.fns.get(u)
        if f.get('v') and not e.get('qual') and this is not None:
            cls = None
            if not this.pr:
                cls = self.objcls.get(this.path)
                if this.path == ('this',) and self.concrete:
                    cls = self.concrete
            if cls is not None:
                vt = self.P.vtable(cls)
                tgt = vt.get(u, u)
                return self.P.fns.get(tgt, fn if tgt == u else None)
            # unique final overrider among known subclasses of the static class
            ds = [c for c in self.P.derived(f.get('cu'))]
            tg = {self.P.vtable(c).get(u, u) for c in ds}
            tg = {t for t in tg if t in self.P.fns}
            if len(tg) == 1:
                return self.P.fns[tg.pop()]
            if fn is not None and u in tg:
                return fn
            return None
        return fn

    def call_fn(self, fn, this, args, fr, st, e):
        if len(fr.stack) > self.maxdepth or fr.stack.count(fn.usr) >= 2:
            vals = [self.rv(a, fr, st) if isinstance(a, dict) else a for a in args]
            self.unknown.append(('recursion ' + fn.q, e.get('l')))
            return mk('unk', 'recursion ' + fn.q, len(self.unknown))
        self.inlined.add(fn.usr)
        self.acts += 1
        nf = Frame(self.acts, fn, fn.tu, this, fr.stack + (fn.usr, e.get('l')))
        nf.rett = fn.tu['types'][fn.j['rt']] if fn.j.get('rt', -1) >= 0 else None
        self.bind_params(nf, fn.j['params'], args, fr, st)
        if fn.ent.get('ctor'):
            self.ctor_inits(nf, st, fn)
        return self.finish_call(nf, st, self.body_of(fn), fr, fn)

    def body_of(self, fn):
        return fn.j.get('body')

    def finish_call(self, nf, st, body, fr, fn):
        base = State(None, st.conds, st.pc)
        w = State(st.mem, st.conds, st.pc)
        o = self.stmt(body, nf, w) if body else Out(w)
        sts = [s for s, v in o.rets] + ([o.st] if o.st else [])
        for ts, tt in o.thrs:
            self.throwlist.append((ts, tt))
        if not sts:
            st.mem = w.mem
            return mk('noreturn')
        ret = self.merge_rets(base, o)
        m = self.merge(base, sts)
        st.mem = m.mem
        if o.thrs:
            st.conds = m.conds
            st.pc = m.pc
        return ret if ret is not None else mk('void')

    def call_closure(self, c, args, fr, st, e):
        f, env, dfr, le = self.closures[c.args[0]]
        if f.get('dep') or len(fr.stack) > self.maxdepth:
            return self.unk('generic lambda', e)
        self.acts += 1
        nf = Frame(self.acts, dfr.fn, dfr.tu, dfr.this, fr.stack + (('lam', le.get('l')),))
        nf.vars.update(dfr.vars)
        nf.vars.update(env)
        nf.rett = dfr.tu['types'][f['rt']] if f.get('rt', -1) >= 0 else None
        self.bind_params(nf, f['params'], args, fr, st)
        return self.finish_call(nf, st, f['body'], fr, None)

    def apply(self, fv, args, fr, st, e, flv=None, cls=None):
        """Call a callable value with already evaluated args (LV or T)."""
        if fv.op == 'ptr':
            flv = LV(*fv.args)
            fv = self.read(st, flv)
        if fv.op == 'closure':
            return self.call_closure(fv, args, fr, st, e)
        if fv.op == 'fnref' and fv.args[0] in self.P.fns:
            return self.call_fn(self.P.fns[fv.args[0]], None, args, fr, st, e)
        if cls and cls in self.P.cls:
            m = self.P.find_method(cls, 'operator()')
            if m is not None:
                if flv is None:
                    flv = self.temp(st, fv)
                return self.call_fn(m, flv, args, fr, st, e)
        return None

    def member(self, st, l, p):
        for x in p:
            l = self.deref(st, self.read(st, l)) if x == '*' else l.f(x)
        return l

    def opaque_call(self, f, this, e, fr, st, fn=None):
        """Uninterpreted repository call: the result and the written state are
        functions of the arguments and of the state the callee can see (its
        effect summary); nothing else changes."""
        vals = []
        lvs = []
        for a, pk in zip(e['a'], f['p'] + 'v' * 20):
            l = self.lv(a, fr, st)
            v = self.read(st, l) if l is not None else self.rv(a, fr, st)
            vals.append(self.content(st, v, roots=('H', 'L', 'P')))
            lvs.append((l, pk))
        name = f['n']
        rs, ms = self.effects(fn) if fn is not None else (set(), set())
        ctx = []
        if this is not None and f.get('m') != 's':
            if this.path == ('this',) and not this.pr:
                for p in top_paths(rs | ms):
                    v = self.content(st, self.read(st, self.member(st, LV(('this',)), p)), roots=('H', 'L', 'P'))
                    if v is not self.initial(('this',) + p):
                        ctx.append(mk('st', '.'.join(p), v))
            else:
                ctx.append(mk('st', '', self.read(st, this)))
        pre = vals + ctx
        res = call(name, *pre)
        rt = fr.tu['types'][f['rt']] if fn is None else fn.tu['types'][fn.j['rt']]
        if rt['k'] == 'bool':
            res = atomize(res)
        self.emit('opaque', fr, st, e.get('l'), name=name, args=vals, res=res, this=this, callee=fn)
        self.opaque_used.add(name)
        for n, (l, pk) in enumerate(lvs):
            if pk == 'r' and l is not None:
                self.write(fr, st, l, call('out%d:%s' % (n, name), *pre), e.get('l'))
        if this is not None:
            for p in top_paths(ms):
                l = self.member(st, this, p)
                v = call('after:%s:%s' % (name, '.'.join(p)), *pre)
                for cnt, lst in TM.COUNTS.items():
                    # the counter of the list is not written: the list keeps its length
                    if p[-1] == lst and not any(q == p[:-1] + (cnt,) or p[:len(q)] == q for q in ms if q != p):
                        TM.SIZES[v] = size(self.read(st, l))
                self.write(fr, st, l, v, e.get('l'), quiet=True)
        if rt['k'] in ('ref', 'rref'):
            rt = (fr.tu if fn is None else fn.tu)['types'][rt['to']]
        self.flag(res, rt)
        return res

    def effects(self, fn):
        """(read, written) paths below `this` of a repository method, nested
        uninterpreted calls included."""
        k = (fn.usr, self.concrete)
        cache = self.P.__dict__.setdefault('_effects', {})
        key = (k, getattr(self.opaque, 'key', id(self.opaque)))
        if key in cache:
            return cache[key]
        cache[key] = (set(), set())
        en = Engine(self.P, self.concrete, self.opaque, self.maxdepth)
        en.quick = True
        dims = dict(TM.DIMS)
        try:
            s, r = en.run(fn)
            ms = {p[1:] for p in en.wrote if p[0] == 'this' and len(p) > 1}
            rs = {p[1:] for p in en.reads if p[0] == 'this' and len(p) > 1}
        except AnalysisBroken:
            ms, rs = set(), set()
        finally:
            # inputs are named by position: those of fn are not those of the caller
            TM.DIMS.clear()
            TM.DIMS.update(dims)
        ok = lambda ps: {p for p in ps if all(isinstance(x, str) for x in p)}
        cache[key] = (ok(rs), ok(ms))
        return cache[key]


def pointing(v, p, c):
    """v with the pointer p, where it is a part of v, followed by its pointee."""
    if v is p:
        return call('pointing', p, c)
    if v.op == 'fset':
        return TM.fset(pointing(v.args[0], p, c), v.args[1], pointing(v.args[2], p, c))
    if v.op == 'ite':
        return map_leaves(v, lambda x: pointing(x, p, c))
    if v.op == 'obj':
        return mk('obj', pointing(v.args[0], p, c))
    return v


def top_paths(ps):
    """Sorted paths without those below another one."""
    return [p for p in sorted(ps) if not any(p[:k] in ps and '*' not in p[k:] for k in range(1, len(p)))]


def num_(t):
    """Boolean used as a number."""
    if is_bool(t) and t.op != 'num':
        return ITE(bdd(t), ONE, ZERO)
    return t


def decide(a, f):
    """Decide atom a from literals f by difference reasoning."""
    if a.op == 'lt0':
        p = topoly(a.args[0])
        for b, v in f.items():
            if b.op != 'lt0':
                continue
            q = topoly(b.args[0])
            d = TM.poly_sub(p, q)
            if set(d) <= {()}:
                k = d.get((), 0)
                if v and k <= 0:
                    return True
                if not v and k >= 0:
                    return False
            else:
                # opposite orientation p = -q + k
                s = TM.poly_add(p, q)
                if set(s) <= {()}:
                    k = s.get((), 0)
                    # v: q<0 -> p = k - q > k ; p<0 impossible if k>=0
                    if v and k >= 0:
                        return False
                    # not v: q>=0 -> p <= k ; p<0 certain if k<0
                    if not v and k < 0:
                        return True
    if a.op == 'eq0' and a.isint:
        p = topoly(a.args[0])
        for b, v in f.items():
            if b.op != 'lt0':
                continue
            q = topoly(b.args[0])
            d = TM.poly_sub(p, q)
            if set(d) <= {()}:
                k = d.get((), 0)
                # v: q<=-1 -> p <= k-1 ; nonzero if k-1<0
                if v and k <= 0:
                    return False
                # not v: q>=0 -> p>=k ; nonzero if k>0
                if not v and k > 0:
                    return False
    return None


def eq_to_lt(a, f):
    """Integer equality that is one end of a known range -> inequality."""
    if a.op != 'eq0' or not a.isint:
        return None
    p = topoly(a.args[0])
    for b, v in f.items():
        if b.op != 'lt0':
            continue
        q = topoly(b.args[0])
        d = TM.poly_sub(p, q)
        if set(d) <= {()}:
            k = d.get((), 0)
            if v and k == 1:        # p <= 0
                return NOT(lt(a.args[0], ZERO))
            if not v and k == 0:    # p >= 0
                return lt(a.args[0], ONE)
        s = TM.poly_add(p, q)
        if set(s) <= {()}:
            k = s.get((), 0)
            # p = k - q.  v: q <= -1 -> p >= k+1
            if v and k == -1:
                return lt(a.args[0], ONE)
            # not v: q >= 0 -> p <= k
            if not v and k == 0:
                return NOT(lt(a.args[0], ZERO))
    return None


def subst_bool(t):
    return bdd(t) if is_bool(t) or t.op in ('b', 'ite') else truthy(t)


# ------------------------------------------------------------------ small matrices
def mat_dims(t, tu):
    """(rows, cols) of a fixed-size Eigen matrix type."""
    if t.get('r') != 'Eigen::Matrix' or not t.get('a') or len(t['a']) < 3:
        return None
    r, c = t['a'][1], t['a'][2]
    if not r or not c or 'i' not in r or 'i' not in c:
        return None
    r, c = r['i'], c['i']
    if r < 0 or c < 0:
        return None
    return r, c


def mkmat(r, c, es):
    """Explicit small matrix; collapses to M when all entries are M's."""
    e0 = es[0]
    if e0.op == 'idx' and e0.args[1].op in ('ij', 'num'):
        m = e0.args[0]
        if all(e.op == 'idx' and e.args[0] is m and e.args[1] is ij(r, c, k) for k, e in enumerate(es)):
            TM.DIMS[m] = (r, c)
            return m
    return mk('mat', r, c, *es)


def ij(r, c, k):
    if c == 1:
        return num(k)
    return mk('ij', num(k // c), num(k % c))


def mat_index(m, i):
    r, c = m.args[0], m.args[1]
    if i.op == 'ij':
        a, b = i.args
        if a.op == 'num' and b.op == 'num':
            k = int(a.args[0]) * c + int(b.args[0])
            return k if 0 <= k < r * c else None
        return None
    if i.op == 'num' and (c == 1 or r == 1):
        k = int(i.args[0])
        return k if 0 <= k < r * c else None
    return None


def mat_idx(m, i):
    k = mat_index(m, i)
    if k is None:
        return mk('idx', m, i)
    return m.args[2 + k]


def mat_set(m, i, v):
    k = mat_index(m, i)
    if k is None:
        return mk('set', m, i, v)
    es = list(m.args[2:])
    es[k] = v
    return mkmat(m.args[0], m.args[1], es)


def entry(v, r, c, i, j):
    """Entry (i,j) of an r x c value."""
    if v.op == 'mat':
        k = i * v.args[1] + j if v.args[1] == c else (i if v.args[1] == 1 else j)
        if k + 2 < len(v.args):
            return v.args[2 + k]
        return mk('oob', v, num(k))
    if v.op == 'seq' and i * c + j < len(v.args):
        return v.args[i * c + j]
    if v.op == 'call' and v.args[0] == 'fill' and len(v.args) == 1 + r * c:
        return v.args[1 + i * c + j]
    if c == 1:
        return TM._idx(v, num(i))
    if r == 1:
        return TM._idx(v, num(j))
    return mx_idx(v, mk('ij', num(i), num(j)))


def blk_get(m, tag):
    """tag('blk', r0, c0, h, w) with constant numbers on an explicit matrix."""
    a = tag.args
    if a[0] == 'blk' and m.op == 'mat' and all(x.op == 'num' for x in a[1:]):
        r0, c0, h, w = [int(x.args[0]) for x in a[1:]]
        R, C = m.args[0], m.args[1]
        if r0 >= 0 and c0 >= 0 and r0 + h <= R and c0 + w <= C:
            return mk('mat', h, w, *[m.args[2 + (r0 + i) * C + c0 + j] for i in range(h) for j in range(w)])
    if a[0] == 'blk' and all(x.op == 'num' for x in a[1:]) and a[3].args[0] * a[4].args[0] <= 16 and \
            m.op in ('in', 'idx', 'fld', 'call', 'phi', 'bphi'):
        r0, c0, h, w = [int(x.args[0]) for x in a[1:]]
        return mk('mat', h, w, *[mx_idx(m, mk('ij', num(r0 + i), num(c0 + j))) for i in range(h) for j in range(w)])
    if a[0] == 'seg' and m.op == 'mat' and (m.args[0] == 1 or m.args[1] == 1) and all(x.op == 'num' for x in a[1:]):
        s, n = [int(x.args[0]) for x in a[1:]]
        return mkmat(n, 1, [m.args[2 + s + i] for i in range(n)])
    return mk('idx', m, tag)


def blk_set(m, tag, v):
    a = tag.args
    if m.op == 'mat':
        R, C = m.args[0], m.args[1]
        if a[0] == 'blk' and all(x.op == 'num' for x in a[1:]):
            r0, c0, h, w = [int(x.args[0]) for x in a[1:]]
            if r0 >= 0 and c0 >= 0 and r0 + h <= R and c0 + w <= C:
                es = list(m.args[2:])
                for i in range(h):
                    for j in range(w):
                        es[(r0 + i) * C + c0 + j] = entry(v, h, w, i, j)
                return mkmat(R, C, es)
        if a[0] == 'seg' and all(x.op == 'num' for x in a[1:]):
            s, n = [int(x.args[0]) for x in a[1:]]
            es = list(m.args[2:])
            if s + n <= len(es):
                for i in range(n):
                    es[s + i] = entry(v, n, 1, i, 0)
                return mkmat(R, C, es)
    return mk('set', m, tag, v)


# ------------------------------------------------------------------ loop closing
class Loop:
    def __init__(self, lv, n, cond, stop, phis, init, nxt, lin, same, pv, eng):
        self.eng = eng
        self.lv = lv
        self.n = n
        self.cond = cond
        self.stop = subst(stop, same) if same else stop
        self.phis = phis
        self.pre = []
        self.init = init
        self.same = same
        self.nxt = {p: (subst(v, same) if same else v) for p, v in nxt.items()}
        self.pv = [p for p in pv if phis[p] not in same]
        self.phset = frozenset(phis[p] for p in self.pv)
        self.closed = {}
        self.untouched()
        if self.stop is not FALSE:
            go = NOT(bdd(self.stop))
            self.nxt = {p: TM.constrain(v, go, self.name) for p, v in self.nxt.items()}
        if same and cond is not TRUE and cond is not FALSE:
            self.cond = subst_bool(subst(cond, same))

    def untouched(self):
        """A table that is only overwritten at a position of its own in every
        iteration still holds its initial element there at that iteration."""
        for p in self.pv:
            v = self.nxt.get(p)
            ph = self.phis[p]
            if v is None or v is ph or v.op not in ('set', 'ite'):
                continue
            pats, ok = set(), True
            for l in leaves(v):
                while l.op == 'set':
                    pats.add(l.args[1])
                    l = l.args[0]
                if l is not ph:
                    ok = False
            if not ok or len(pats) != 1:
                continue
            pat = pats.pop()
            if self.lv not in pat.free or (pat.free & self.phset) or match_index(pat, pat, self.lv) is None:
                continue
            iv = self.init[p]
            if iv.op == 'iter':
                continue
            self.pre.append((TM._idx(ph, pat), idx_any(iv, pat)))
            self.pre.append((mk('size', ph), size(iv)))
        if self.pre:
            self.stop = self.before(self.stop)
            self.nxt = {p: self.before(v) for p, v in self.nxt.items()}
            if self.cond is not TRUE and self.cond is not FALSE:
                self.cond = bdd(self.before(self.cond))

    def name(self, a):
        """Ordering key of a condition that does not depend on how the
        recurrence variables are called."""
        m = self.eng.names
        return subst(a, m).key if (a.free & m.keys()) else a.key

    def scalar(self, v):
        return v.args[2] if v.op == 'iter' else v

    def before(self, v):
        for a, b in self.pre:
            v = replace(v, a, b)
        return v

    def happened(self):
        if self.stop is FALSE:
            return FALSE
        S = bdd(self.stop)
        if self.n is not NULL and not (S.free & self.phset):
            return exists(self.n, self.lv, S)
        if self.n is NULL and self.cond is TRUE:
            return TRUE
        return bdd(mk('atom', self.mu(FALSE, TRUE)))

    def at_stop(self, v):
        """Value v (over lv, phis) at the iteration in which the loop is left."""
        if self.same:
            v = subst(v, self.same)
        v = self.before(v)
        if self.lv not in v.free and not (v.free & self.phset):
            return v
        if self.n is not NULL and not (v.free & self.phset) and not (self.stop.free & self.phset):
            return mk_first(self.n, self.lv, self.stop, v)
        return self.mu(None, v)

    def close(self, p):
        if p in self.closed:
            return self.closed[p]
        ph, iv = self.phis[p], self.init[p]
        if ph in self.same:
            return iv
        nv = self.nxt.get(p)
        if nv is None:
            return iv
        it = None
        if iv.op == 'iter':
            it = iv
            iv = iv.args[2]
            if nv.op != 'iter' or nv.args[:2] != it.args[:2]:
                return mk('unk', 'iter', ph.args[0])
            nv = nv.args[2]
        r = None
        if self.n is not NULL and self.cond is TRUE:
            r = self.simple(ph, iv, nv)
        if r is None:
            r = self.mu(ph if not is_bool(iv) else ph, None)
            if is_bool(iv) or is_bool(nv):
                r = bdd(mk('atom', r))
            if iv.isint and nv.isint:
                r.isint = True
        if it is not None:
            r = mk('iter', it.args[0], it.args[1], r)
        elif ph in TM.SIZES:
            for l in leaves(r):
                if l.op in ('mu', 'first'):
                    TM.SIZES[l] = TM.SIZES[ph]
        self.closed[p] = r
        return r

    def simple(self, ph, iv, nv):
        n, lv = self.n, self.lv
        if nv is ph:
            return iv
        others = (nv.free & self.phset) - {ph}
        if others:
            return None
        # the loop may also stop early; closing then describes normal exit,
        # where no stop condition ever held -- nothing to adapt.
        if ph not in nv.free:
            last = subst(nv, {lv: sub(n, ONE)}) if lv in nv.free else nv
            return ITE(lt(ZERO, n), last, iv) if not _pos(n) else last
        if is_bool(nv):
            at = mk('atom', ph)
            b = bdd(nv)
            if at in atoms_of(b):
                h, l = cofactor(b, at, 1), cofactor(b, at, 0)
                if ph not in h.free and ph not in l.free:
                    if h is TRUE:
                        return OR(bdd(iv), exists(n, lv, l))
                    if l is FALSE:
                        return AND(bdd(iv), NOT(exists(n, lv, NOT(h))))
            return None
        ls = leaves(nv)
        # guard conditions must not read the recurrence itself
        for a in atoms_of(nv):
            if ph in a.free:
                return None
        # conditional overwrite by an invariant value
        non = [l for l in ls if l is not ph]
        if len(non) == 1 and ph not in non[0].free and lv not in non[0].free:
            c = map_leaves(nv, lambda x: FALSE if x is ph else TRUE)
            return ITE(exists(n, lv, c), non[0], iv)
        # running minimum / maximum
        for k in ('min', 'max'):
            if all(l is ph or (l.op == k and ph in l.args) for l in ls) and not is_bool(nv):
                def rest(x):
                    if x is ph:
                        return EMPTY
                    return mk('seq', *[y for y in x.args if y is not ph])
                if any(ph in y.free for l in ls if l is not ph for y in l.args if y is not ph):
                    break
                body = map_leaves(nv, rest)
                return TM.minmax(k, iv, TM.extremum(k, bigcat(n, lv, body)))
        # appends
        def strip(x):
            if x is ph:
                return EMPTY
            if x.op == 'cat' and x.args[0] is ph:
                r = EMPTY
                for q in x.args[1:]:
                    r = cat(r, q)
                return r
            return None
        if all(strip(l) is not None for l in ls):
            body = map_leaves(nv, strip)
            if ph not in body.free:
                return cat(iv, bigcat(n, lv, body))
            return None
        # numeric accumulation
        if all(l.op in ('poly', 'phi', 'num') for l in ls):
            d = sub(nv, ph)
            if ph not in d.free:
                return add(iv, sum_bound(n, lv, d))
        # element updates
        return self.upd(ph, iv, nv, ls)

    def upd(self, ph, iv, nv, ls):
        n, lv = self.n, self.lv
        sets = [l for l in ls if l is not ph]
        if not sets:
            return None
        if all(l.op == 'set' for l in sets):
            # chain of sets on the same index
            pats = {l.args[1] for l in sets}
            if any(l.args[0] is not ph for l in sets):
                return self.multi_set(ph, iv, nv, ls)
            if len(pats) != 1:
                return None
            pat = pats.pop()
            if ph in pat.free:
                return None
            cur = TM._idx(ph, pat)
            body = map_leaves(nv, lambda l: cur if l is ph else l.args[2])
            if lv in pat.free:
                body = replace(body, cur, idx_any(iv, pat))
                if ph in body.free:
                    return None
                if match_index(pat, pat, lv) is None:
                    return None
                return mapupd(iv, n, lv, pat, body)
            # invariant outer index: recurse on the element
            ph2 = fresh_phi('el')
            b2 = replace(body, cur, ph2)
            if ph in b2.free:
                return None
            r = self.simple_sub(ph2, idx_any(iv, pat), b2)
            return setidx(iv, pat, r) if r is not None else None
        if all(l.op == 'fset' for l in sets):
            names = {l.args[1] for l in sets}
            if len(names) == 1 and all(l.args[0] is ph for l in sets):
                nm = names.pop()
                cur = fld(ph, nm)
                body = map_leaves(nv, lambda l: cur if l is ph else l.args[2])
                ph2 = fresh_phi('fl')
                b2 = replace(body, cur, ph2)
                if ph in b2.free:
                    return None
                r = self.simple_sub(ph2, fld(iv, nm), b2)
                return fset(iv, nm, r) if r is not None else None
        return None

    def multi_set(self, ph, iv, nv, ls):
        """set chains writing several distinct invariant/pattern positions."""
        return None

    def simple_sub(self, ph2, iv2, b2):
        old = self.phset
        self.phset = self.phset | {ph2}
        try:
            if ph2 not in b2.free and self.lv not in b2.free:
                return ITE(lt(ZERO, self.n), b2, iv2)
            return self.simple(ph2, iv2, b2)
        finally:
            self.phset = old

    # ---- canonical recursion terms
    def mu(self, out_n, out_s):
        """out_n: value on normal exit (over phis); out_s: value at a stop."""
        phis = []
        for p in self.pv:
            if p in self.nxt:
                iv, nv = self.init[p], self.nxt[p]
                if iv.op == 'iter':
                    iv, nv = iv.args[2], (nv.args[2] if nv.op == 'iter' else nv)
                phis.append((self.phis[p], iv, nv))
        return mk_mu(self.n, self.lv, self.cond, self.stop, phis, out_n, out_s)


def _pos(n):
    return n.op == 'num' and n.args[0] > 0


def idx_any(c, i):
    return lift(mx_idx, [c, i])


def mx_idx(a, b):
    if b.op == 'tag':
        return blk_get(a, b)
    if a.op == 'mat':
        return mat_idx(a, b)
    if a.op == 'poly' and all(len(m) == 1 and m[0][1] == 1 for m in topoly(a)):
        # element of a linear combination of matrices / vectors
        r = ZERO
        for m, c in topoly(a).items():
            r = add(r, mul(num(c), mx_idx(m[0][0], b)))
        return r
    if a.op == 'idx' and a.args[1].op == 'tag':
        # element of a block / row / column / segment
        g = a.args[1].args
        m = a.args[0]
        if g[0] == 'seg' and b.op != 'ij':
            return mx_idx(m, add(g[1], b))
        if g[0] == 'row':
            return mx_idx(m, mk('ij', g[1], b.args[1] if b.op == 'ij' else b))
        if g[0] == 'col':
            return mx_idx(m, mk('ij', b.args[0] if b.op == 'ij' else b, g[1]))
        if g[0] == 'blk':
            if b.op == 'ij':
                return mx_idx(m, mk('ij', add(g[1], b.args[0]), add(g[2], b.args[1])))
            if g[3] is ONE:
                return mx_idx(m, mk('ij', g[1], add(g[2], b)))
            if g[4] is ONE:
                return mx_idx(m, mk('ij', add(g[1], b), g[2]))
    if a.op == 'call' and a.args[0] == 'T':
        if b.op == 'ij':
            return mx_idx(a.args[1], mk('ij', b.args[1], b.args[0]))
    if a.op == 'call' and a.args[0] == 'constmat' and len(a.args) == 4:
        return a.args[3]
    if a.op == 'call' and a.args[0] == 'rot2' and b.op == 'ij' and all(x.op == 'num' for x in b.args):
        r, c = b.args
        if r is c:
            return TM.call('cos', a.args[1])
        s_ = TM.call('sin', a.args[1])
        return s_ if c is ZERO else neg(s_)
    if a.op in ('set', 'mapupd') and b.op in ('ij', 'num', 'lv'):
        pass
    return TM._idx(a, b)


def replace(t, old, new):
    """Replace every occurrence of subterm old by new."""
    memo = {}

    def go(x):
        if x is old:
            return new
        if not (old.free <= x.free):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'poly':
                r = TM._subst_poly(x, go)
            else:
                r = TM.rebuild(x, TM._map_args(x.args, go))
            memo[x] = r
        return r
    return go(t)


def mk_first(n, lv, stop, v):
    if v.nl > 1 and v.nl <= 16 and not any(lv in a.free for a in atoms_of(v)):
        return map_leaves(v, lambda x: x if lv not in x.free else mk_first(n, lv, stop, x))
    h, (s, b) = TM.bind(lv, bdd(stop), v)
    t = TM._mkh(h, 'first', n, h, s, b)
    t.isint = v.isint
    t.nonneg = v.nonneg
    return t


def mk_mu(n, lv, cond, stop, phis, out_n, out_s):
    """Canonical recursion term; phis = [(phi, init, next)]."""
    # values that every step keeps are those of the start
    kept = {p: i for p, i, x in phis if x is p and not is_bool(i) and i.op != 'iter'}
    if kept:
        f = lambda t: t if t is None or not (t.free & kept.keys()) else subst(t, kept)
        phis = [(p, i, f(x)) for p, i, x in phis if p not in kept]
        cond, stop, out_n, out_s = (bdd(f(t)) if t is not None and is_bool(t) else f(t) for t in (cond, stop, out_n, out_s))
    if n is not NULL and cond is TRUE and out_n is not None and out_n is not NULL and lv not in out_n.free and \
            not any(p in t.free for p, i, x in phis for t in (stop, out_n) + ((out_s,) if out_s is not None else ())):
        if stop is FALSE:
            return out_n
        if out_s is not None and out_s is not NULL:
            return ITE(exists(n, lv, stop), mk_first(n, lv, stop, out_s), out_n)
    byphi = {p: (i, x) for p, i, x in phis}
    on = out_n if out_n is not None else NULL
    os_ = out_s if out_s is not None else NULL
    # dependency closure
    need = set()
    st = [cond, stop, on, os_]
    while st:
        t = st.pop()
        for f in t.free:
            if f in byphi and f not in need:
                need.add(f)
                st.append(byphi[f][1])
    S = [p for p, i, x in phis if p in need]
    col = {p: byphi[p][0].key for p in S}
    lvc = mk('phic', 'LV')
    lvc.isint = True
    lvc.nonneg = True
    # equal starts: refine by the recurrences until nothing splits any more
    for _ in range(min(len(S), 5) + 1):
        count = {}
        for p in S:
            count[col[p]] = count.get(col[p], 0) + 1
        tied = [p for p in S if count[col[p]] > 1]
        if not tied:
            break
        m = {}
        for p in S:
            c = mk('phic', col[p])
            c.isint = p.isint
            c.nonneg = p.nonneg
            m[p] = c
        m[lv] = lvc
        col2 = dict(col)
        memo = {}
        for p in tied:
            col2[p] = hashlib.blake2b((col[p] + subst(byphi[p][1], m, memo).key).encode(), digest_size=12).hexdigest()
        same = len(set(col2.values())) == len(set(col.values()))
        col = col2
        if same and _ > 0:
            break
    # positions of colours in outputs break remaining ties consistently
    order = sorted(set(col.values()))
    # order by colour; congruent recurrences share one slot
    H = 1 + max([t.h for t in (n, cond, stop, on, os_)] + [max(byphi[p][0].h, byphi[p][1].h) for p in S] + [0])
    m = {lv: bvar(H)}
    rep = {}
    for p in S:
        k = order.index(col[p])
        b = mk('bphi', H, k, 1 if p.isint else 0, 1 if p.nonneg else 0)
        b.isint = p.isint
        b.nonneg = p.nonneg
        m[p] = b
        rep.setdefault(k, p)
    memo = {}
    eqs = tuple((byphi[rep[k]][0], subst(byphi[rep[k]][1], m, memo)) for k in range(len(order)))
    t = mk('mu', n, H, subst(cond, m, memo), subst(stop, m, memo), eqs, subst(on, m, memo), subst(os_, m, memo))
    t.h = max(t.h, H)
    return t


def unbind_mu(t, args=None, raw=False):
    """mu term -> (n, lv, cond, stop, [(phi, init, next)], out_n, out_s) with fresh variables."""
    n, H, cond, stop, eqs, on, os_ = args or t.args
    v = fresh_lv()
    # collect the state slots occurring in the bound part
    slots = {}
    for x in (cond, stop, on, os_) + tuple(nx for _, nx in eqs):
        for y in TM.subterms(x):
            if y.op == 'bphi' and y.args[0] == H:
                slots[y.args[1]] = y
    phs = {}
    for k in range(len(eqs)):
        p = fresh_phi('m%d' % k)
        b = slots.get(k)
        if b is not None:
            p.isint, p.nonneg = b.isint, b.nonneg
        phs[k] = p

    def op(x):
        return open_mu(x, H, v, phs, raw)
    return (n, v, op(cond), op(stop), [(phs[k], i, op(nx)) for k, (i, nx) in enumerate(eqs)], op(on), op(os_))


def open_mu(t, H, v, phs, raw=False):
    # raw: inner recursion terms are put in normal form by the binding that follows
    memo = {}
    bv = bvar(H)

    def has(x):
        k = (x, 'mu', H)
        r = TM._bv_cache.get(k)
        if r is None:
            if x.op == 'bphi' and x.args[0] == H or x is bv:
                r = True
            elif x.op in TM.BINDERS and TM._bh(x) == H:
                r = any(has(y) for y in TM._outer(x))
            else:
                r = any(has(y) for y in TM._walk_direct(x.args))
            TM._bv_cache[k] = r
        return r

    def go(x):
        if x is bv:
            return v
        if x.op == 'bphi' and x.args[0] == H:
            return phs[x.args[1]]
        if not has(x):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'poly':
                r = TM._subst_poly(x, go)
            else:
                a = TM._map_outer(x, go) if x.op in TM.BINDERS and TM._bh(x) == H else TM._map_args(x.args, go)
                if raw and x.op == 'mu':
                    r = mk('mu', *a)
                    r.h = max(r.h, x.args[1])
                    r.isint = r.isint or x.isint
                    r.nonneg = r.nonneg or x.nonneg
                else:
                    r = TM.rebuild(x, a)
            memo[x] = r
        return r
    return go(t)


def _rebuild_mu(t, args):
    n, v, cond, stop, phis, on, os_ = unbind_mu(t, args, True)
    r = mk_mu(n, v, subst_bool(cond), subst_bool(stop), phis, on, os_)
    return r


def _rebuild_first(t, args):
    n, h, s, b = args
    v = fresh_lv()
    return mk_first(n, v, subst_bool(TM.subst_bv(s, h, v)), TM.subst_bv(b, h, v))


TM.REBUILD['mu'] = _rebuild_mu
TM.REBUILD['first'] = _rebuild_first
