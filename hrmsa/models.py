"""Models of the library operations the repository uses.

Everything not modelled here is an uninterpreted operation on its argument
values; objects passed by non-const reference are havocked as a function of the
call (so equal calls still give equal results)."""
from .terms import *
from . import terms as TM
from .engine import (LV, Out, num_, mkmat, mat_dims, entry, ij, idx_any, State)
from fractions import Fraction

SEQS = {'std::vector', 'std::list', 'std::deque', 'std::array'}
IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::launder'}
PURE1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round', 'sinh', 'cosh', 'tanh',
         'cbrt', 'trunc', 'log10', 'log2'}
INTRES = {'floor_int', 'distance', 'count'}


class Args:
    """Lazily evaluated call arguments."""

    def __init__(self, en, e, fr, st):
        self.en, self.e, self.fr, self.st = en, e, fr, st
        self.a = e['a']
        self.c = {}

    def __len__(self):
        return len([a for a in self.a if a is None or a.get('k') != 'default'])

    def v(self, n):
        if n not in self.c:
            self.c[n] = self.en.rv(self.a[n], self.fr, self.st)
        x = self.c[n]
        if isinstance(x, LV):
            return self.en.read(self.st, x)
        return x

    def lv(self, n):
        """location if there is one, else value"""
        if n not in self.c:
            l = self.en.lv(self.a[n], self.fr, self.st)
            self.c[n] = l if l is not None else self.en.rv(self.a[n], self.fr, self.st)
        return self.c[n]

    def vs(self):
        return [self.v(i) for i in range(len(self.a))]

    def t(self, n):
        return self.en.ety(self.fr, self.a[n])


def elem_type(t, fr, n=0):
    a = t.get('a') or []
    if len(a) > n and a[n] and 't' in a[n]:
        return fr.tu['types'][a[n]['t']]
    return {'k': 'other', 's': '?'}


def is_seq(t):
    return t.get('r') in SEQS


def strip(en, fr, t):
    return en.unref(fr, t)


# ------------------------------------------------------------------ construction
def build(en, t, args, fr, st, e):
    """Value of T(args...) for already evaluated values."""
    k = t['k']
    if k in ('int', 'float', 'bool', 'enum', 'ptr'):
        return args[0] if args else ZERO
    if k != 'rec':
        return call('ctor', *args)
    r = t['r']
    if r in SEQS:
        if not args:
            return EMPTY
        et = elem_type(t, fr)
        a0 = args[0]
        if len(args) == 1:
            if a0.isint or a0.op == 'num':
                return mk_rep(a0, en.default(et, fr))
            return a0
        if args[0].op == 'iter' and args[1].op == 'iter':
            return slice_(en, st, args[0], args[1])
        return mk_rep(args[0], args[1])
    if r == 'std::pair':
        if len(args) == 2:
            return pair(*args)
        return args[0] if args else en.default(t, fr)
    if r == 'std::tuple':
        v = UNDEF
        for n, x in enumerate(args):
            v = fset(v, 't%d' % n, x)
        return v
    if r == 'std::basic_string':
        return args[0] if args else mk('str', '')
    if r == 'std::complex':
        return pair(args[0], args[1] if len(args) > 1 else ZERO) if args else pair(ZERO, ZERO)
    if r in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
        return args[0] if args else NULL
    if r == 'std::function':
        return args[0] if args else NULL
    if r == 'std::optional':
        return args[0] if args else NULL
    if r.startswith('Eigen::'):
        at = [en.ety(fr, x) for x in e['a']] if isinstance(e, dict) and len(e.get('a') or ()) == len(args) else None
        return eigen_build(en, t, args, fr, st, at)
    if r.startswith('std::chrono::'):
        return args[0] if args else ZERO
    if r == 'ompl::base::RealVectorBounds' and len(args) == 1 and args[0].op in ('num', 'poly', 'in', 'fld') and \
            (args[0].op == 'num' or args[0].isint):
        return fset(fset(UNDEF, 'low', mk_rep(args[0], ZERO)), 'high', mk_rep(args[0], ZERO))
    if r.startswith('fcl::') and st is not None:
        # the geometry as it is now: nothing alters it afterwards
        args = [en.content(st, a) for a in args]
    u = t.get('u')
    if u and u in en.P.cls:
        best = None
        for m in en.P.cls[u].methods:
            ent = en.P.cls[u].tu['fns'][m['fn']]
            if ent.get('ctor') == 'other' and ent['u'] in en.P.fns:
                fn = en.P.fns[ent['u']]
                if len(fn.j['params']) >= len(args) and (best is None or len(fn.j['params']) < len(best.j['params'])):
                    best = fn
        if best is not None:
            en.acts += 1
            lv = LV((('L', en.acts, 'obj'),))
            en.construct(lv, best, list(args), fr, st, e)
            return en.read_path(st, lv.path)
        if len(args) == 1:
            return args[0]
        return en.default(t, fr)
    if r.startswith('__gnu_cxx') or r.startswith('std::_List_') or r.startswith('std::_Rb'):
        return args[0] if args else UNDEF
    if r.startswith('std::allocator') or r == 'std::less':
        return mk('void')
    return call('ctor:' + short_type(t), *args)


def short_type(t):
    return t['r']


def mk_rep(n, v):
    if n is ZERO:
        return EMPTY
    if n.op == 'ite':
        return map_leaves(n, lambda m: mk_rep(m, v))
    if n.op == 'num' and n.args[0] <= 4:
        return mkseq(*([v] * int(n.args[0])))
    if v.nl > 1:
        return lift(lambda x: mk('rep', n, x), [v])
    return mk('rep', n, v)


def static_dims(t, fr, d=0):
    """Fixed dimensions of an Eigen expression type, if discoverable."""
    if d > 6 or not t or t.get('k') != 'rec':
        return None
    r = t.get('r', '')
    a = t.get('a') or []
    if r in ('Eigen::Matrix', 'Eigen::Array') and len(a) >= 3:
        if 'i' in (a[1] or {}) and 'i' in (a[2] or {}):
            x, y = a[1]['i'], a[2]['i']
            return (x if x >= 0 else None, y if y >= 0 else None)
        return None
    if r == 'Eigen::Block' and len(a) >= 3 and 'i' in (a[1] or {}) and 'i' in (a[2] or {}):
        x, y = a[1]['i'], a[2]['i']
        return (x if x >= 0 else None, y if y >= 0 else None)
    if r == 'Eigen::VectorBlock' and len(a) >= 2 and 'i' in (a[1] or {}):
        x = a[1]['i']
        return (x if x >= 0 else None, 1)
    if r == 'Eigen::Transpose':
        q = static_dims(elem_type(t, fr), fr, d + 1)
        return (q[1], q[0]) if q else None
    if r == 'Eigen::Product' and len(a) >= 2:
        p = static_dims(elem_type(t, fr, 0), fr, d + 1)
        q = static_dims(elem_type(t, fr, 1), fr, d + 1)
        return (p[0], q[1]) if p and q else None
    if r == 'Eigen::CwiseNullaryOp':
        return static_dims(elem_type(t, fr, 1), fr, d + 1)
    if r in ('Eigen::CwiseBinaryOp',):
        return static_dims(elem_type(t, fr, 1), fr, d + 1) or static_dims(elem_type(t, fr, 2), fr, d + 1)
    if r == 'Eigen::CwiseUnaryOp':
        return static_dims(elem_type(t, fr, 1), fr, d + 1)
    if r in ('Eigen::Inverse', 'Eigen::NoAlias', 'Eigen::MatrixWrapper', 'Eigen::ArrayWrapper', 'Eigen::DenseBase',
             'Eigen::MatrixBase', 'Eigen::PlainObjectBase', 'Eigen::DenseCoeffsBase', 'Eigen::Ref', 'Eigen::Map'):
        return static_dims(elem_type(t, fr, 0), fr, d + 1)
    if r in ('Eigen::Quaternion',):
        return None
    return None


def full_dims(t, fr):
    d = static_dims(t, fr)
    if d and d[0] is not None and d[1] is not None and d[0] * d[1] <= 36:
        return d
    return None


def is_vec(t, fr):
    d = static_dims(t, fr)
    return bool(d) and (d[1] == 1 or d[0] == 1)


def rot_angle(m):
    """Angle of a plane rotation matrix."""
    def g(x):
        if x.op == 'call' and x.args[0] == 'rot2':
            return x.args[1]
        return TM.call('atan2', entry(x, 2, 2, 1, 0), entry(x, 2, 2, 0, 0))
    return lift(g, [m])


def eigen_build(en, t, args, fr, st=None, at=None):
    r = t['r']
    if r in ('Eigen::Matrix', 'Eigen::Array'):
        d = static_dims(t, fr)
        if len(args) == 2 and (args[1] is UNDEF or at and str(at[1].get('r', '')).endswith('PrivateType')):
            args = args[:1]
        if not args:
            return en.default(t, fr)
        fixed = d and d[0] is not None and d[1] is not None
        if fixed:
            n = d[0] * d[1]
            if len(args) == n and n > 1:
                return mkmat(d[0], d[1], [num_(a) for a in args])
            if len(args) == 1 and args[0].op == 'iter' and n <= 16:
                v, i = en.read(st, it_lv(args[0])), args[0].args[2]
                return mkmat(d[0], d[1], [idx_any(v, add(i, num(k))) for k in range(n)])
            if len(args) == 1:
                return asmat(args[0], at[0], fr) if at and at[0] and at[0].get('r') in DIAGS else args[0]
        if len(args) == 1:
            a = args[0]
            if at and at[0] and at[0].get('r') in DIAGS:
                return asmat(a, at[0], fr)
            if a.op == 'num' or a.isint:
                return call('umat', a, ONE)
            return a
        if len(args) == 2:
            return call('umat', *args)
        return call('ctor:' + r, *args)
    if r == 'Eigen::Quaternion':
        if len(args) == 4:
            v = UNDEF
            for n, x in zip('wxyz', args):
                v = fset(v, n, num_(x))
            return v
        if not args:
            return UNDEF
        return lift(as_quat, [args[0]])
    if r in ('Eigen::Rotation2D',):
        if not args:
            return UNDEF
        if at and str(at[0].get('r', '')).startswith('Eigen::') and at[0].get('r') != 'Eigen::Rotation2D':
            return rot_angle(args[0])
        return args[0]
    if r == 'Eigen::DiagonalMatrix':
        # held as the vector of its diagonal
        return UNDEF if not args else args[0] if len(args) == 1 else mkmat(len(args), 1, [num_(a) for a in args])
    if r == 'Eigen::AngleAxis':
        if len(args) == 2:
            return fset(fset(UNDEF, 'angle', num_(args[0])), 'axis', args[1])
        if args and at and at[0].get('r') == r:
            return args[0]
        return call('angleaxis', args[0]) if args else UNDEF
    if r in SVDS:
        return call('svd', args[0]) if args and args[0].op != 'num' else UNDEF
    if r == 'Eigen::Map':
        return call('eigenmap', *[a for a in args if a.op != 'void'])
    if not args:
        return UNDEF
    return call('ctor:' + r, *args)


SVDS = ('Eigen::JacobiSVD', 'Eigen::BDCSVD')


def as_quat(a):
    if a.op == 'call' and a.args[0] in ('quat', 'UnitRandom', 'slerp', 'qnormalized', 'qmul', 'qinv'):
        return a
    if a.op == 'fset':
        return a
    if a.op in ('in', 'idx', 'fld', 'mu', 'first') and getattr(a, '_q', False):
        return a
    return mk('call', 'quat', a)


def ext_ctor(en, e, f, t, fr, st):
    r = t.get('r', '')
    A = Args(en, e, fr, st)
    if r == 'std::allocator':
        return mk('void')
    if e.get('list') and r in SEQS and len(e['a']) >= 1 and e['a'][0]['k'] == 'list':
        return en.rv(e['a'][0], fr, st)
    if e.get('zero') and not e['a']:
        if r.startswith('Eigen'):
            return en.default(t, fr)
        return en.default(t, fr)
    if not e['a']:
        if r in ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_stringstream', 'std::basic_ostringstream',
                 'std::initializer_list'):
            return EMPTY
        v = en.default(t, fr)
        if v.op == 'call' and v.args[0].startswith('default:'):
            return v
        return v
    if r == 'Eigen::Quaternion' and len(e['a']) == 1:
        a = A.v(0)
        s = A.t(0)
        if s.get('r') in ('Eigen::Quaternion', 'Eigen::QuaternionBase'):
            return a
        return lift(lambda x: x if x.op == 'call' and x.args[0] == 'UnitRandom' else mk('call', 'quat', x), [a])
    if r in ('std::basic_ofstream', 'std::basic_ifstream'):
        a = A.v(0)
        return mk('seq', call('file', a)) if r == 'std::basic_ofstream' else call('open', a)
    if r == 'std::basic_istringstream':
        return call('open', A.v(0))
    vals = [A.v(i) for i in range(len(e['a']))]
    # drop defaulted allocators
    vals = [v for v in vals if v.op != 'void']
    # conversions between shared_ptr / functions / iterators
    v = build(en, t, vals, fr, st, e)
    if v.op == 'call' and str(v.args[0]).startswith('ctor:') and not r.startswith('Eigen') and not r.startswith('std::'):
        en.emit('ext', fr, st, e.get('l'), name=r + '::ctor', obj=None, olv=None, args=vals, res=v)
        havoc_args(en, f, A, st, fr, e, v, vals)
    return v


# ------------------------------------------------------------------ iterators
def iter_(lv, i):
    return mk('iter', lv.path, lv.pr, i)


def it_lv(it):
    return LV(it.args[0], it.args[1])


def slice_(en, st, a, b):
    v = en.read(st, it_lv(a))
    lo, hi = a.args[2], b.args[2]
    if lo is ZERO and hi is size(v):
        return v
    return call('slice', v, lo, hi)


def obj_lv(en, e, fr, st, olv=None, ov=None):
    if olv is not None:
        return olv
    if e.get('arrow'):
        return en.ptrlv(e['o'], fr, st)
    l = en.lv(e['o'], fr, st)
    if l is None:
        l = en.temp(st, ov if ov is not None else en.rv(e['o'], fr, st))
    return l


# ------------------------------------------------------------------ dispatcher
def ext_call(en, e, f, fr, st, olv=None, ov=None):
    q, n = f['q'], f['n']
    A = Args(en, e, fr, st)
    method = f.get('m') in ('c', 'n') and e.get('o') is not None
    if method:
        o = obj_lv(en, e, fr, st, olv, ov)
        ot = en.ety(fr, e['o'])
        if e.get('arrow'):
            ot = en.unref(fr, ot)
            if ot['k'] == 'ptr':
                ot = fr.tu['types'][ot['to']]
        r = method_call(en, e, f, fr, st, o, ot, A)
        if r is not NotImplemented:
            return r
        return generic(en, e, f, fr, st, o, A)
    r = free_call(en, e, f, fr, st, A)
    if r is not NotImplemented:
        return r
    return generic(en, e, f, fr, st, None, A)


def generic(en, e, f, fr, st, o, A):
    q = f['q']
    pk = f['p']
    vals = []
    for i in range(len(e['a'])):
        k = pk[i] if i < len(pk) else 'v'
        if k in ('r', 'R', 'c'):
            A.lv(i)
        vals.append(A.v(i))
    # what a pointer to storage of the analysed code refers to, not its address
    args = [en.content(st, v, roots=('H', 'L', 'P')) for v in vals]
    ovv = None
    if o is not None:
        ovv = en.content(st, en.read(st, o))
        args = [ovv] + args
    rt = en.ty(fr, e.get('t', -1)) if e.get('t') is not None else {'k': 'other'}
    name = q
    res = call(name, *args)
    ut = en.unref(fr, rt)
    if ut['k'] == 'bool':
        res = atomize(res)
    else:
        res = en.flag(res, ut)
    en.emit('ext', fr, st, e.get('l'), name=q, obj=ovv, olv=o, args=vals, res=res,
            lvs=[A.c.get(i) if isinstance(A.c.get(i), LV) else None for i in range(len(e['a']))])
    if o is not None and f.get('m') == 'n' and not const_like(f):
        en.write(fr, st, o, call(q + '!', *args), e.get('l'), quiet=False)
    havoc_args(en, f, A, st, fr, e, res, args)
    if ut['k'] == 'void':
        return mk('void')
    return res


CONSTLIKE = {'begin', 'end', 'get', 'operator->', 'operator*', 'getSpaceInformation', 'getStateSpace', 'as',
             'getSubspace', 'getStates', 'getSolutionPath', 'getState', 'vertex', 'point', 'base', 'rows', 'cols', 'getMotionValidator', 'getVertex'}


def const_like(f):
    return f['n'] in CONSTLIKE


def havoc_args(en, f, A, st, fr, e, res, args):
    pk = f['p']
    for i in range(len(e['a'])):
        k = pk[i] if i < len(pk) else 'v'
        x = A.c.get(i)
        if k == 'r' and isinstance(x, LV):
            en.write(fr, st, x, call('out%d:%s' % (i, f['q']), *args), e.get('l'))
        elif k == 'p':
            v = x if isinstance(x, T) else (en.read(st, x) if isinstance(x, LV) else None)
            if v is not None and v.op == 'ptr':
                en.write(fr, st, LV(*v.args), call('out%d:%s' % (i, f['q']), *args), e.get('l'))


# ------------------------------------------------------------------ planner library
STATE_FIELDS = {'getX': 'x', 'getY': 'y', 'getZ': 'z', 'getYaw': 'yaw', 'rotation': 'rotation'}
STATE_SETTERS = {'setX': ('x',), 'setY': ('y',), 'setZ': ('z',), 'setYaw': ('yaw',), 'setXY': ('x', 'y'),
                 'setXYZ': ('x', 'y', 'z')}


def ompl_method(en, q, cls, n, e, fr, st, o, A):
    line = e.get('l')
    na = len(e['a'])
    if n == 'as' and cls in ('ompl::base::State', 'ompl::base::StateSpace', 'ompl::base::CompoundState') and not na:
        return o.ptr()
    if cls.endswith('::StateType'):
        if n in STATE_FIELDS and not na:
            return o.f(STATE_FIELDS[n])
        if n in STATE_SETTERS and na == len(STATE_SETTERS[n]):
            for k, f in enumerate(STATE_SETTERS[n]):
                en.write(fr, st, o.f(f), A.v(k), line)
            return mk('void')
    if cls == 'ompl::base::ScopedState':
        if n in ('operator->', 'get') and not na:
            return o.f('state').ptr()
        if n == 'operator*' and not na:
            return o.f('state')
    if cls == 'ompl::base::RealVectorBounds' and n in ('setLow', 'setHigh'):
        l = o.f(n[3:].lower())
        if na == 2:
            en.write(fr, st, l.i(A.v(0)), A.v(1), line)
        else:
            en.write(fr, st, l, mk_rep(size(en.read(st, l)), A.v(0)), line)
        return mk('void')
    if cls == 'ompl::base::CompoundStateSpace' and n == 'getSubspace' and na == 1 and A.v(0).op == 'num' and \
            o.path and isinstance(o.path[0], tuple) and o.path[0][0] == 'H':
        return o.f('part%s' % (A.v(0).args[0],)).ptr()
    if cls == 'ompl::geometric::SimpleSetup' and n == 'getSpaceInformation':
        return o.f('info').ptr()
    if cls == 'ompl::geometric::PathGeometric' and n == 'getStateCount':
        return size(call('ompl::geometric::PathGeometric::getStates', en.read(st, o)))
    return NotImplemented


# ------------------------------------------------------------------ methods
def method_call(en, e, f, fr, st, o, ot, A):
    q, n = f['q'], f['n']
    cls = q.rsplit('::', 1)[0]
    rd = lambda: en.read(st, o)
    line = e.get('l')

    if cls == 'fcl::CollisionResult' and n in ('isCollision', 'numContacts') and not e['a']:
        v = rd()
        if v.op == 'call' and v.args[0] == 'contacts':
            return v.args[1] if n == 'numContacts' else lt(ZERO, v.args[1])
        if v.op == 'call' and len(v.args) == 1 and v.args[0].startswith('ctor:'):
            return ZERO if n == 'numContacts' else FALSE
    if cls.startswith('ompl::'):
        r = ompl_method(en, q, cls, n, e, fr, st, o, A)
        if r is not NotImplemented:
            return r
    # smart pointers and iterators -------------------------------------------
    if n == 'operator->':
        v = rd()
        if v.op == 'iter':
            return mk('ptr', v.args[0], v.args[1] + (('i', v.args[2]),))
        if cls.startswith('std::'):
            return v
        return v if v.op in ('ptr', 'in') else NotImplemented
    if n == 'get' and ('shared_ptr' in cls or 'unique_ptr' in cls):
        return rd()
    if n in ('operator bool',) and 'shared_ptr' in cls:
        return truthy(rd())
    if n == 'operator*' and not e['a']:
        v = rd()
        if v.op == 'iter':
            return it_lv(v).i(v.args[2])
        if v.op in ('ptr', 'in') or 'shared_ptr' in cls or 'unique_ptr' in cls:
            return en.deref(st, v)
        return NotImplemented
    if n == 'reset' and ('shared_ptr' in cls or 'unique_ptr' in cls):
        v = A.v(0) if e['a'] else NULL
        en.write(fr, st, o, v, line)
        return mk('void')
    if cls.startswith('__gnu_cxx') or cls.startswith('std::_List') or cls.startswith('std::_Rb'):
        v = rd()
        if v.op == 'iter':
            if n in ('operator++', 'operator--'):
                d = ONE if n.endswith('++') else num(-1)
                en.write(fr, st, o, mk('iter', v.args[0], v.args[1], add(v.args[2], d)), line, quiet=True)
                return v if e['a'] else o
            if n in ('operator+', 'operator-') and e['a']:
                return en.iter_arith(n[-1], v, A.v(0), e)
            if n in ('operator+=', 'operator-='):
                d = A.v(0)
                d = d if n == 'operator+=' else neg(d)
                en.write(fr, st, o, mk('iter', v.args[0], v.args[1], add(v.args[2], d)), line, quiet=True)
                return o
            if n == 'operator[]':
                return it_lv(v).i(add(v.args[2], A.v(0)))
            if n == 'base':
                return v
            if n in ('operator==', 'operator!='):
                return en.compare(n[8:], v, A.v(0))
        if v.op == 'ite' and all(x.op == 'iter' for x in leaves(v)):
            if n == 'operator+':
                return en.unk('iter', e)
        if n in ('operator==', 'operator!='):
            return en.compare(n[8:], v, A.v(0))

    # sequences ---------------------------------------------------------------
    if cls in SEQS or cls in ('std::_Vector_base',):
        r = seq_method(en, e, f, fr, st, o, ot, A, n, rd, line)
        if r is not NotImplemented:
            return r
    if cls in ('std::map', 'std::unordered_map'):
        if n == 'operator[]' or n == 'at':
            return o.i(A.v(0))
        if n == 'clear':
            en.write(fr, st, o, EMPTY, line)
            return mk('void')
        if n == 'size':
            return size(rd())
        if n == 'empty':
            return eq(size(rd()), ZERO)
        if n == 'count':
            return call('count', rd(), A.v(0))
    if cls in ('std::basic_string',):
        if n in ('c_str', 'data', 'str'):
            return rd()
        if n in ('size', 'length'):
            return size(rd())
        if n == 'empty':
            return eq(rd(), mk('str', ''))
        if n in ('operator[]', 'at'):
            return o.i(A.v(0))
        if n in ('operator=', 'assign') and len(e['a']) == 1:
            en.write(fr, st, o, A.v(0), line)
            return o
        if n == 'clear':
            en.write(fr, st, o, mk('str', ''), line)
            return mk('void')
        if n in ('operator+=', 'append', 'push_back'):
            en.write(fr, st, o, call('strcat', rd(), A.v(0)), line)
            return o
        if n == 'compare' and len(e['a']) == 1:
            return call('strcmp', rd(), A.v(0))
    if cls in ('std::pair', 'std::tuple') and n == 'operator=':
        en.write(fr, st, o, A.v(0), line)
        return o
    if n == 'operator=' and len(e['a']) == 1 and (cls.startswith('std::') or cls.startswith('__gnu')):
        v = A.v(0)
        if cls in ('std::shared_ptr', 'std::unique_ptr', 'std::function', 'std::complex', 'std::optional') or \
                cls.startswith('std::chrono') or cls in SEQS or cls in ('std::map', 'std::set', 'std::_List_iterator') or True:
            en.write(fr, st, o, v, line)
            return o
    if cls == 'std::complex' and n in ('real', 'imag') and not e['a']:
        return fld(rd(), 'first' if n == 'real' else 'second')
    if cls == 'std::optional':
        if n in ('has_value', 'operator bool'):
            return truthy(rd())
        if n in ('value', 'operator*'):
            return rd()
    # chrono --------------------------------------------------------------------
    if cls.startswith('std::chrono'):
        if n == 'count':
            return rd()
        if n in ('operator+=', 'operator-='):
            en.write(fr, st, o, (add if n == 'operator+=' else sub)(rd(), A.v(0)), line)
            return o
        if n == 'time_since_epoch':
            return rd()
    # streams -------------------------------------------------------------------
    if n == 'operator<<' and ('stream' in cls):
        return stream_out(en, e, fr, st, o, A.v(0) if e['a'] else mk('void'))
    if n == 'close' and 'stream' in cls:
        return mk('void')
    if n == 'open' and cls == 'std::basic_ofstream':
        en.write(fr, st, o, mk('seq', call('file', A.v(0))), line)
        return mk('void')
    if n == 'str' and 'stream' in cls and not e['a']:
        return call('sstr', rd())
    if cls == 'std::function' and n == 'operator()':
        v = rd()
        args = [A.lv(i) for i in range(len(e['a']))]
        r = en.apply(v, args, fr, st, e)
        if r is not None:
            return r
        return call('indirect', v, *A.vs())
    if cls == 'std::function' and n == 'operator bool':
        return truthy(rd())
    # Eigen -------------------------------------------------------------------
    if cls.startswith('Eigen::'):
        return eigen_method(en, e, f, fr, st, o, ot, A, cls, n, rd, line)
    return NotImplemented


def stream_out(en, e, fr, st, o, v):
    if o is not None and not o.pr and isinstance(o.path[0], tuple) and o.path[0][0] == 'G':
        return o            # console output
    old = en.read(st, o)
    if v.op == 'fnref':
        v = mk('str', '\n') if v.args[1].endswith('endl') else mk('str', '')
    en.emit('out', fr, st, e.get('l'), olv=o, v=v)
    if old is UNDEF or old.op in ('seq', 'cat', 'bigcat', 'mu', 'phi', 'rep', 'ite', 'set', 'in'):
        en.write(fr, st, o, append(EMPTY if old is UNDEF else old, v), e.get('l'))
    else:
        en.write(fr, st, o, append(old, v), e.get('l'))
    return o


def seq_method(en, e, f, fr, st, o, ot, A, n, rd, line):
    if n == 'size':
        return size(rd())
    if n == 'empty':
        return eq(size(rd()), ZERO)
    if n in ('operator[]', 'at'):
        i = A.v(0)
        en.emit('index', fr, st, line, olv=o, i=i, cv=rd(), at=n == 'at')
        return o.i(i)
    if n == 'front':
        en.emit('index', fr, st, line, olv=o, i=ZERO, cv=rd(), at=False)
        return o.i(ZERO)
    if n == 'back':
        i = sub(size(rd()), ONE)
        en.emit('index', fr, st, line, olv=o, i=i, cv=rd(), at=False)
        return o.i(i)
    if n in ('begin', 'cbegin'):
        return iter_(o, ZERO)
    if n in ('end', 'cend'):
        return iter_(o, size(rd()))
    if n in ('rbegin', 'rend', 'crbegin', 'crend'):
        return call(n, rd())
    if n == 'data':
        return iter_(o, ZERO)
    if n in ('push_back', 'emplace_back'):
        et = elem_type(ot, fr)
        if len(e['a']) == 1 and (n == 'push_back' or same_type(A.t(0), et) or et['k'] != 'rec'):
            v = A.v(0)
            v = en.flag(v, et)
        else:
            vals = [A.v(i) for i in range(len(e['a']))]
            v = build(en, et, vals, fr, st, e)
        en.emit('push', fr, st, line, olv=o, v=v)
        en.write(fr, st, o, append(rd(), v), line)
        return o.i(sub(size(rd()), ONE)) if n == 'emplace_back' else mk('void')
    if n in ('push_front', 'emplace_front'):
        v = A.v(0)
        en.emit('push', fr, st, line, olv=o, v=v)
        en.write(fr, st, o, cat(mkseq(v), rd()), line)
        return mk('void')
    if n == 'pop_back':
        def pop(v):
            if v.op == 'seq' and v.args:
                return mk('seq', *v.args[:-1])
            if v.op == 'cat' and v.args[-1].op == 'seq':
                r = EMPTY
                for p in v.args[:-1]:
                    r = cat(r, p)
                return cat(r, mk('seq', *v.args[-1].args[:-1]))
            return mk('call', 'pop', v)
        en.write(fr, st, o, lift(pop, [rd()]), line)
        return mk('void')
    if n == 'clear':
        en.write(fr, st, o, EMPTY, line)
        return mk('void')
    if n == 'reserve' or n == 'shrink_to_fit':
        return mk('void')
    if n == 'capacity':
        return call('capacity', rd())
    if n == 'resize':
        k = A.v(0)
        v = A.v(1) if len(e['a']) > 1 and e['a'][1].get('k') != 'default' else en.default(elem_type(ot, fr), fr)
        old = rd()

        def rs(x):
            if x is EMPTY:
                return mk_rep(k, v)
            if size(x) is k:
                return x
            if k is ZERO:
                return EMPTY
            if x.op == 'seq' and k.op == 'num':
                m = int(k.args[0])
                return mk('seq', *(list(x.args[:m]) + [v] * (m - len(x.args))))
            if x.op == 'call' and x.args[0] == 'resize' and x.args[3] is v and False:
                return x
            return mk('call', 'resize', x, k, v)
        en.write(fr, st, o, map_leaves(old, rs), line)
        return mk('void')
    if n == 'assign':
        if len(e['a']) == 2:
            a, b = A.v(0), A.v(1)
            v = slice_(en, st, a, b) if a.op == 'iter' and b.op == 'iter' else mk_rep(a, b)
        else:
            v = A.v(0)
        en.write(fr, st, o, v, line)
        return mk('void')
    if n == 'operator=':
        v = A.v(0)
        en.write(fr, st, o, v, line)
        return o
    if n == 'swap' and len(e['a']) == 1:
        p = A.lv(0)
        if isinstance(p, LV):
            a, b = rd(), en.read(st, p)
            en.write(fr, st, o, b, line)
            en.write(fr, st, p, a, line)
            return mk('void')
    if n == 'insert':
        pos = A.v(0)
        old = rd()
        if len(e['a']) == 3:
            a, b = A.v(1), A.v(2)
            if a.op == 'iter' and b.op == 'iter':
                new = slice_(en, st, a, b)
            else:
                new = mk_rep(a, b)
        elif len(e['a']) == 2:
            x = A.v(1)
            new = x if A.t(1).get('r') == 'std::initializer_list' else mkseq(x)
        else:
            return NotImplemented
        if pos.op == 'iter' and pos.args[2] is size(old):
            en.write(fr, st, o, cat(old, new), line)
        elif pos.op == 'iter' and pos.args[2] is ZERO:
            en.write(fr, st, o, cat(new, old), line)
        else:
            p = pos.args[2] if pos.op == 'iter' else pos
            en.write(fr, st, o, call('insert', old, p, new), line)
        en.emit('push', fr, st, line, olv=o, v=new, many=True)
        return pos
    if n == 'erase':
        vals = A.vs()
        ks = [v.args[2] if v.op == 'iter' else v for v in vals]
        en.write(fr, st, o, call('erase', rd(), *ks), line)
        return vals[0]
    if n == 'fill' and len(e['a']) == 1:
        en.write(fr, st, o, mk_rep(size(rd()), A.v(0)), line)
        return mk('void')
    if n in ('operator==', 'operator!='):
        c = eq(rd(), A.v(0))
        return c if n == 'operator==' else NOT(c)
    if n == 'sort':
        return NotImplemented
    if n == 'reverse':
        en.write(fr, st, o, rev(rd()), line)
        return mk('void')
    return NotImplemented


def same_type(a, b):
    return a.get('s', '').replace('const ', '') == b.get('s', '').replace('const ', '')


# ------------------------------------------------------------------ Eigen
def scal_like(t):
    return t.get('k') in ('float', 'int', 'bool', 'enum')


def has_mat(v):
    return any(x.op == 'mat' for x in leaves(v))


def ew(en, op, x, y, dx, dy):
    """Element-wise combination when one operand is explicit."""
    d = dx or dy

    def g(a, b):
        if (a.op == 'mat' or b.op == 'mat') and d and d[0] and d[1]:
            r, c = d
            try:
                return mkmat(r, c, [op(entry(a, r, c, i, j), entry(b, r, c, i, j)) for i in range(r) for j in range(c)])
            except IndexError:
                pass
        return op(a, b)
    return lift(g, [x, y])


def mat_scale(s, m):
    def g(a, b):
        if b.op == 'mat':
            return mkmat(b.args[0], b.args[1], [mul(a, x) for x in b.args[2:]])
        return mul(a, b)
    return lift(g, [s, m])


def mdim(t, d):
    """Dimensions of a matrix value, when they are small and known."""
    if t.op == 'mat':
        return t.args[0], t.args[1]
    if t.op == 'call' and t.args[0] in ('rot2', 'rotmat'):
        return (2, 2) if t.args[0] == 'rot2' else (3, 3)
    return d


DIAGS = ('Eigen::DiagonalMatrix', 'Eigen::DiagonalWrapper', 'Eigen::DiagonalBase')


def asmat(v, t, fr):
    """Operand of a matrix expression: a diagonal matrix written out."""
    r = t.get('r') if t else None
    if r == 'Eigen::AngleAxis':
        return aarot(v)
    if r == 'Eigen::Quaternion':
        return rotmat(v)
    if r == 'Eigen::Rotation2D':
        return call('rot2', v)
    if r not in DIAGS:
        return v
    n = None
    if r == 'Eigen::DiagonalMatrix':
        a = t.get('a') or []
        if len(a) > 1 and 'i' in (a[1] or {}) and a[1]['i'] > 0:
            n = a[1]['i']
    else:
        d = full_dims(elem_type(t, fr), fr)
        n = d and d[0] * d[1]

    def g(x):
        if n and n <= 6:
            return mkmat(n, n, [idx_any(x, num(i)) if i == j else ZERO for i in range(n) for j in range(n)])
        return mk('call', 'diag', x)
    return lift(g, [v])


def aarot(v):
    return call('aarot', fld(v, 'angle'), fld(v, 'axis'))


def mmul(x, y, dx=None, dy=None):
    def fac(t):
        return list(t.args[1:]) if t.op == 'call' and t.args[0] == 'mmul' else [t]

    def scal(t):
        """split numeric coefficient"""
        if t.op == 'poly':
            p = topoly(t)
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1:
                    return c, m[0][0]
        return Fraction(1), t

    def ident(t):
        if t.op == 'call' and t.args[0] == 'eye':
            return True
        return t.op == 'mat' and t.args[0] == t.args[1] and all(
            e is (ONE if k // t.args[0] == k % t.args[0] else ZERO) for k, e in enumerate(t.args[2:]))

    def g(a, b):
        if ident(a):
            return b
        if ident(b):
            return a
        da, db = mdim(a, dx), mdim(b, dy)
        if da and db and da[1] == db[0] and da[0] * db[1] * da[1] <= 64 and not large(a, b, da, db):
            R, K, C = da[0], da[1], db[1]
            es = []
            for i in range(R):
                for j in range(C):
                    s = ZERO
                    for k in range(K):
                        s = add(s, mul(entry(a, R, K, i, k), entry(b, K, C, k, j)))
                    es.append(s)
            return mk('mat', R, C, *es)
        ca, a = scal(a)
        cb, b = scal(b)
        r = mk('call', 'mmul', *(fac(a) + fac(b)))
        return r if ca * cb == 1 else mul(num(ca * cb), r)
    return lift(g, [x, y])


def large(a, b, da, db):
    """Does writing out the product of two matrices take long polynomials?"""
    if da[0] != 4:
        return False
    m = lambda x: len(topoly(x)) if x.op == 'poly' else 1
    ma = [[m(entry(a, *da, i, k)) for k in range(da[1])] for i in range(da[0])]
    mb = [[m(entry(b, *db, k, j)) for j in range(db[1])] for k in range(db[0])]
    return any(sum(x * mb[k][j] for k, x in enumerate(r)) > 40 for r in ma for j in range(db[1]))


def transpose(x):
    def g(a):
        if a.op == 'call' and a.args[0] == 'T':
            return a.args[1]
        d = mdim(a, None)
        if d and a.op != 'mat':
            R, C = d
            return mk('mat', C, R, *[entry(a, R, C, i, j) for j in range(C) for i in range(R)])
        if a.op == 'mat':
            R, C = a.args[0], a.args[1]
            return mkmat(C, R, [a.args[2 + i * C + j] for j in range(C) for i in range(R)])
        if a.op == 'call' and a.args[0] == 'mmul':
            return mk('call', 'mmul', *[transpose(z) for z in reversed(a.args[1:])])
        return mk('call', 'T', a)
    return lift(g, [x])


def rotmat(q):
    def g(x):
        if x.op == 'call' and x.args[0] == 'qinv':
            return transpose(mk('call', 'rotmat', x.args[1]))
        return mk('call', 'rotmat', x)
    return lift(g, [q])


def inverse(x):
    def g(a):
        if a.op == 'call' and a.args[0] in ('rotmat', 'rot2'):
            return transpose(a)
        if a.op == 'call' and a.args[0] == 'inv':
            return a.args[1]
        if a.op == 'mat' and a.args[0] == 2 and a.args[1] == 2:
            p, q, r, t = a.args[2:]
            d = TM.sub(mul(p, t), mul(q, r))
            return mkmat(2, 2, [div(x, d) for x in (t, mul(num(-1), q), mul(num(-1), r), p)])
        return mk('call', 'inv', a)
    return lift(g, [x])


def identity(en, e, fr, d):
    if d:
        return mk('mat', d[0], d[1], *[ONE if i == j else ZERO for i in range(d[0]) for j in range(d[1])])
    return None


def sorted_call(name, a, b):
    return lift(lambda x, y: mk('call', name, *sorted((x, y), key=lambda t: t.key)), [a, b])


def tag(*a):
    return mk('tag', *a)


VIEWS = {'Eigen::' + x for x in ('Block', 'VectorBlock', 'Transpose', 'Diagonal', 'Reverse', 'ArrayWrapper', 'MatrixWrapper',
                                 'Map', 'TriangularView', 'CwiseUnaryView', 'IndexedView', 'Reshaped', 'VectorwiseOp')}
MUTATORS = {'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator<<', 'setZero', 'setOnes',
            'setConstant', 'setRandom', 'setIdentity', 'fill', 'swap', 'normalize', 'reverseInPlace', 'setLinSpaced'}


def across(x, v):
    """A vector added to every column (or row)."""
    def f(a, b):
        if a.op == 'call' and a.args[0] in ('colwise', 'rowwise') and len(a.args) == 2:
            return mk('call', 'colplus' if a.args[0] == 'colwise' else 'rowplus', a.args[1], b)
        return mk('call', 'colplus', a, b)
    return lift(f, [x, v])


def eigen_method(en, e, f, fr, st, o, ot, A, cls, n, rd, line):
    na = len(e['a'])
    rt = en.ety(fr, e)
    d = full_dims(ot, fr)
    sd = static_dims(ot, fr)
    if cls in SVDS or cls == 'Eigen::SVDBase':
        if n == 'compute':
            en.write(fr, st, o, call('svd', A.v(0)), line)
            return o
        if n in ('matrixU', 'matrixV', 'singularValues') and na == 0:
            return call('svd.' + n, rd())
    # element access
    if n in ('operator()', 'coeff', 'coeffRef') or (n == 'operator[]'):
        if na == 2:
            i, j = A.v(0), A.v(1)
            if d and d[1] == 1 or (sd and sd[1] == 1):
                return o.i(i)
            if sd and sd[0] == 1:
                return o.i(j)
            return o.i(TM.ij(i, j))
        if na == 1:
            return o.i(A.v(0))
    if n in ('x', 'y', 'z', 'w') and na == 0:
        if 'Quaternion' in cls:
            return o.f(n)
        return o.i(num('xyzw'.index(n)))
    if n == 'vec' and 'Quaternion' in cls:
        return call('qvec', rd())
    if 'Quaternion' in cls or 'RotationBase' in cls or cls in ('Eigen::AngleAxis', 'Eigen::Rotation2D'):
        orr = ot.get('r', '')
        if n == 'operator=' and na == 1:
            v = A.v(0)
            if 'Rotation2D' in orr and A.t(0).get('r') != 'Eigen::Rotation2D':
                v = rot_angle(v)
            if 'Quaternion' in orr and A.t(0).get('r') not in ('Eigen::Quaternion', 'Eigen::QuaternionBase'):
                v = lift(lambda x: mk('call', 'quat', x), [v])
            en.write(fr, st, o, v, line)
            return o
        if 'AngleAxis' in orr:
            if n in ('angle', 'axis') and na == 0:
                return o.f(n)
            if n in ('toRotationMatrix', 'matrix'):
                return aarot(rd())
            if n in ('inverse',):
                v = rd()
                return fset(v, 'angle', neg(fld(v, 'angle')))
            if n == 'operator*' and na == 1:
                return mmul(aarot(rd()), asmat(A.v(0), A.t(0), fr), (3, 3), full_dims(A.t(0), fr))
            return NotImplemented
        if n in ('toRotationMatrix', 'matrix'):
            if 'Rotation2D' in orr:
                return call('rot2', rd())
            return rotmat(rd())
        if n == 'angle':
            if 'Rotation2D' in orr:
                return o
            return NotImplemented
        if n == 'angularDistance':
            return sorted_call('angdist', rd(), A.v(0))
        if n == 'slerp':
            return call('slerp', rd(), A.v(0), A.v(1))
        if n in ('inverse', 'conjugate'):
            if 'Rotation2D' in orr:
                return neg(rd())
            return call('qinv', rd())
        if n == 'normalized' or n == 'normalize':
            v = call('qnormalized', rd())
            if n == 'normalized':
                return v
            en.write(fr, st, o, v, line)
            return mk('void')
        if n == 'operator*' and na == 1:
            if 'Rotation2D' in orr:
                if A.t(0).get('r') == 'Eigen::Rotation2D':
                    return add(rd(), A.v(0))
                return mmul(call('rot2', rd()), asmat(A.v(0), A.t(0), fr), None, full_dims(A.t(0), fr))
            if A.t(0).get('r') in ('Eigen::Quaternion',):
                return call('qmul', rd(), A.v(0))
            return mmul(rotmat(rd()), asmat(A.v(0), A.t(0), fr), None, full_dims(A.t(0), fr))
        if n == 'setIdentity':
            v = UNDEF
            for k, x in zip('wxyz', (ONE, ZERO, ZERO, ZERO)):
                v = fset(v, k, x)
            en.write(fr, st, o, v, line)
            return o
        if n == 'coeffs':
            return call('qcoeffs', rd())
        if n == 'dot':
            return sorted_call('qdot', rd(), A.v(0))
        if n == 'isApprox':
            return NotImplemented
    # sub-blocks
    if n in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows',
             'bottomRows', 'leftCols', 'rightCols', 'row', 'col', 'head', 'tail', 'segment', 'middleRows', 'middleCols'):
        rdm = static_dims(rt, fr) or (None, None)
        vals = [A.v(i) for i in range(na)]
        R = num(d[0]) if d else (num(sd[0]) if sd and sd[0] is not None else rows(rd()))
        C = num(d[1]) if d else (num(sd[1]) if sd and sd[1] is not None else cols(rd()))
        h = num(rdm[0]) if rdm[0] is not None else None
        w = num(rdm[1]) if rdm[1] is not None else None
        if n == 'row':
            if sd and sd[1] == 1:
                return o.i(tag('seg', vals[0], ONE))
            return o.i(tag('row', vals[0])) if not d else o.i(tag('blk', vals[0], ZERO, ONE, C))
        if n == 'col':
            if sd and sd[1] == 1:
                return o
            return o.i(tag('col', vals[0])) if not d else o.i(tag('blk', ZERO, vals[0], R, ONE))
        if n in ('head', 'tail', 'segment'):
            N = mul(R, C) if not (sd and sd[1] == 1) else R
            if n == 'segment':
                s0, k = vals[0], (vals[1] if len(vals) > 1 else h if h is not None else w)
            else:
                k = vals[0] if vals else (h if (h is not None and h is not ONE) or w is None else w)
                s0 = ZERO if n == 'head' else sub(N, k)
            if k is None:
                return NotImplemented
            return o.i(tag('seg', s0, k))
        if n == 'block':
            r0, c0 = vals[0], vals[1]
            hh, ww = (vals[2], vals[3]) if len(vals) == 4 else (h, w)
        elif n in ('topRows', 'bottomRows'):
            hh = vals[0] if vals else h
            ww, c0 = C, ZERO
            r0 = ZERO if n == 'topRows' else sub(R, hh)
        elif n in ('leftCols', 'rightCols'):
            ww = vals[0] if vals else w
            hh, r0 = R, ZERO
            c0 = ZERO if n == 'leftCols' else sub(C, ww)
        elif n in ('middleRows', 'middleCols'):
            return NotImplemented
        else:
            hh, ww = (vals[0], vals[1]) if len(vals) == 2 else (h, w)
            if hh is None or ww is None:
                return NotImplemented
            r0 = ZERO if n.startswith('top') else sub(R, hh)
            c0 = ZERO if n.endswith('LeftCorner') else sub(C, ww)
        if hh is None or ww is None:
            return NotImplemented
        if d and r0 is ZERO and c0 is ZERO and hh is R and ww is C:
            return o
        return o.i(tag('blk', r0, c0, hh, ww))
    if n in ('rows', 'cols') and na == 0:
        k = 0 if n == 'rows' else 1
        if sd and sd[k] is not None:
            return num(sd[k])
        return rows(rd()) if n == 'rows' else cols(rd())
    if n == 'size' and na == 0:
        if d:
            return num(d[0] * d[1])
        v = rd()
        if sd and sd[1] == 1:
            return rows(v)
        return mul(rows(v), cols(v))
    # assignment
    if n == 'operator=' and na == 1:
        v = A.v(0)
        if ot.get('r') not in DIAGS:
            v = asmat(v, A.t(0), fr)
        v = coerce(v, ot, fr)
        en.write(fr, st, o, v, line)
        return o
    if n in ('noalias', 'array', 'matrix', 'eval', 'derived', 'toDenseMatrix', 'finished', 'asDiagonal', 'cast', 'real',
             'const_cast_derived', 'diagonal') and na == 0:
        if n == 'diagonal' and cls != 'Eigen::DiagonalMatrix':
            return call('diagonal', rd())
        if n == 'toDenseMatrix':
            return asmat(rd(), ot, fr)
        if n == 'diagonal':
            return o
        return o
    if cls == 'Eigen::VectorwiseOp' and n in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator=') and na == 1:
        x = e.get('o')
        while isinstance(x, dict) and x.get('k') in ('cast', 'paren', 'temp', 'mat') and isinstance(x.get('e'), dict):
            x = x['e']
        if n in ('operator+=', 'operator-=') and isinstance(x, dict) and isinstance(x.get('o'), dict):
            l = en.lv(x['o'], fr, st)
            if l is not None:
                v = A.v(0)
                en.write(fr, st, l, across(rd(), mat_scale(num(-1), v) if n == 'operator-=' else v), line)
                return mk('void')
        return NotImplemented
    if n in MUTATORS and ot.get('r') in VIEWS and len(o.path) == 1 and o.path[0][0] == 'L' and o.path[0][2:] == ('t',):
        # a part of something that is not kept track of
        return NotImplemented
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        v = A.v(0)
        x = rd()
        k = n[8]
        dv = full_dims(A.t(0), fr)
        if k in '+-':
            z = ew(en, add if k == '+' else sub, x, v, d, None)
        elif k == '*':
            z = mat_scale(v, x) if scal_like(A.t(0)) else mmul(x, v, d, dv)
        else:
            z = mat_scale(div(ONE, v), x)
        en.write(fr, st, o, z, line)
        return o
    if n in ('setZero', 'setOnes', 'setIdentity', 'setConstant'):
        vals = A.vs()
        if n == 'setIdentity':
            v = identity(en, e, fr, d) or call('eye', *vals)
        else:
            x = ZERO if n == 'setZero' else ONE if n == 'setOnes' else vals[-1]
            v = mkmat(d[0], d[1], [x] * (d[0] * d[1])) if d else call('constmat', *(
                vals if n != 'setConstant' else vals[:-1]), x)
        en.write(fr, st, o, v, line)
        return o
    if n == 'resize':
        vals = A.vs()
        k = vals + ([ONE] if len(vals) == 1 else [])
        x = rd()
        if any(y.op in ('poly', 'mat') or y.op == 'call' and y.args[0] != 'umat' for y in leaves(x)):
            # entries stay, column by column, when their number does
            en.write(fr, st, o, call('reshape', x, *k), line)
            return mk('void')
        en.write(fr, st, o, call('umat', *k), line)
        return mk('void')
    # column-wise / row-wise arithmetic
    if cls == 'Eigen::VectorwiseOp' and n in ('operator+', 'operator-') and na == 1:
        v = A.v(0)
        return across(rd(), mat_scale(num(-1), v) if n == 'operator-' else v)
    # arithmetic
    if n in ('operator+', 'operator-') and na == 1:
        return ew(en, add if n == 'operator+' else sub, rd(), A.v(0), d, full_dims(A.t(0), fr))
    if n == 'operator-' and na == 0:
        return mat_scale(num(-1), rd())
    if n == 'operator*' and na == 1:
        y = A.v(0)
        if scal_like(A.t(0)):
            return mat_scale(y, rd())
        if cls.startswith('Eigen::Array'):
            return sorted_call('ewmul', rd(), y)
        if cls in DIAGS:
            return mmul(asmat(rd(), ot, fr), asmat(y, A.t(0), fr), None, full_dims(A.t(0), fr))
        return mmul(rd(), asmat(y, A.t(0), fr), d, full_dims(A.t(0), fr))
    if n == 'operator/' and na == 1:
        y = A.v(0)
        if scal_like(A.t(0)):
            return mat_scale(div(ONE, y), rd())
        return call('ewdiv', rd(), y)
    if n in ('cwiseProduct',):
        return sorted_call('ewmul', rd(), A.v(0))
    if n in ('cwiseQuotient',):
        return call('ewdiv', rd(), A.v(0))
    if n == 'transpose' and na == 0:
        return transpose(rd())
    if n == 'inverse' and na == 0:
        return inverse(rd())
    # factorisations are only used to solve linear systems
    if n in ('colPivHouseholderQr', 'fullPivHouseholderQr', 'householderQr', 'partialPivLu', 'fullPivLu', 'lu',
             'ldlt', 'llt') and na == 0:
        return rd()
    if n == 'solve' and na == 1:
        return mmul(inverse(rd()), A.v(0), full_dims(ot, fr), full_dims(A.t(0), fr))
    if n == 'dot' and na == 1:
        return sorted_call('dot', rd(), A.v(0))
    if n == 'cross' and na == 1:
        return call('cross', rd(), A.v(0))
    if n in ('norm', 'squaredNorm', 'stableNorm') and na == 0:
        r = TM.norm(rd())
        return r if n != 'squaredNorm' else mul(r, r)
    if n in ('normalized', 'normalize') and na == 0:
        v = call('normalized', rd())
        if n == 'normalized':
            return v
        en.write(fr, st, o, v, line)
        return mk('void')
    if n in ('pow', 'abs', 'cos', 'sin', 'sign', 'sqrt', 'square', 'exp', 'cwiseAbs'):
        if n == 'pow':
            return call('ewpow', rd(), A.v(0))
        return call('ew' + {'cwiseAbs': 'abs'}.get(n, n), rd())
    if n == 'determinant' and na == 0:
        return TM.determinant(rd())
    if n in ('minCoeff', 'maxCoeff', 'sum', 'prod', 'mean', 'trace', 'determinant') and na == 0:
        return call(n, rd())
    # comma initialisation
    if n == 'operator<<' and na == 1:
        v = A.v(0)
        comma_write(en, fr, st, o, ot, [v], line)
        return mk('comma', o.path, o.pr, v)
    if n == 'operator,' and na == 1:
        c = rd()
        if c.op != 'comma':
            return NotImplemented
        v = A.v(0)
        items = list(c.args[2:]) + [v]
        tgt = LV(c.args[0], c.args[1])
        # type of the target: template argument of CommaInitializer
        tt = elem_type(ot, fr)
        comma_write(en, fr, st, tgt, tt, items, line)
        return mk('comma', c.args[0], c.args[1], *items)
    if n in ('colwise', 'rowwise') and na == 0:
        return call(n, rd())
    if f.get('m') == 'c':
        vals = A.vs()
        return en.flag(call('E.' + n, rd(), *vals), rt)
    return NotImplemented


def coerce(v, ot, fr):
    """Assignment into a fixed-size matrix: explicit form when available."""
    def g(x):
        if x.op == 'call' and x.args[0] == 'fill':
            d = full_dims(ot, fr)
            if d and len(x.args) - 1 == d[0] * d[1]:
                return mkmat(d[0], d[1], list(x.args[1:]))
        return x
    return lift(g, [v])


def comma_write(en, fr, st, o, ot, items, line):
    d = full_dims(ot, fr)
    if d is None and o.pr and o.pr[-1][0] == 'i' and o.pr[-1][1].op == 'tag':
        a = o.pr[-1][1].args
        if a[0] == 'blk' and a[3].op == 'num' and a[4].op == 'num':
            d = (int(a[3].args[0]), int(a[4].args[0]))
        elif a[0] == 'seg' and a[2].op == 'num':
            d = (int(a[2].args[0]), 1)
    if d and len(items) < d[0] * d[1] and all(scalarish(i) for i in items):
        return
    if d and len(items) == d[0] * d[1]:
        v = lift(lambda *xs: mkmat(d[0], d[1], list(xs)), [num_(i) for i in items])
        en.write(fr, st, o, v, line)
    else:
        en.write(fr, st, o, call('fill', *items), line, quiet=True)


def scalarish(i):
    return i.op in ('num', 'poly', 'in', 'idx', 'fld', 'call', 'b', 'ite', 'min', 'max', 'lv', 'phi', 'mu', 'undef')


def rows(v):
    def g(x):
        if x.op == 'mat':
            return num(x.args[0])
        if x.op == 'set' or x.op == 'mapupd':
            return g(x.args[0])
        if x.op == 'call' and x.args[0] in ('umat', 'constmat') and len(x.args) >= 3:
            return x.args[1]
        if x.op == 'call' and x.args[0] == 'mmul':
            return rows(x.args[1])
        if x.op == 'call' and x.args[0] == 'E.eigenvalues':
            return rows(x.args[1])
        if x.op == 'idx' and x.args[1].op == 'tag':
            a = x.args[1].args
            if a[0] == 'blk':
                return a[3]
            if a[0] == 'seg':
                return a[2]
            if a[0] == 'row':
                return ONE
            if a[0] == 'col':
                return rows(x.args[0])
        r = mk('call', 'rows', x)
        r.isint = True
        r.nonneg = True
        return r
    return lift(g, [v])


def cols(v):
    def g(x):
        if x.op == 'mat':
            return num(x.args[1])
        if x.op == 'set' or x.op == 'mapupd':
            return g(x.args[0])
        if x.op == 'call' and x.args[0] in ('umat', 'constmat') and len(x.args) >= 3:
            return x.args[2]
        if x.op == 'call' and x.args[0] == 'mmul':
            return cols(x.args[-1])
        if x.op == 'call' and x.args[0] == 'E.eigenvalues':
            return ONE
        if x.op == 'idx' and x.args[1].op == 'tag':
            a = x.args[1].args
            if a[0] == 'blk':
                return a[4]
            if a[0] in ('seg', 'col'):
                return ONE
            if a[0] == 'row':
                return cols(x.args[0])
        r = mk('call', 'cols', x)
        r.isint = True
        r.nonneg = True
        return r
    return lift(g, [v])


# ------------------------------------------------------------------ free functions
def rev(v):
    def g(x):
        if x.op == 'seq':
            return mk('seq', *reversed(x.args))
        if x.op == 'rep':
            return x
        if x.op == 'rev':
            return x.args[0]
        if x.op == 'bigcat':
            n, var, body = TM.unbind(x)
            if body.op == 'seq' and len(body.args) == 1:
                return bigcat(n, var, subst(body, {var: sub(sub(n, ONE), var)}))
        if x.op == 'cat':
            r = EMPTY
            for p in reversed(x.args):
                r = cat(r, rev(p))
            return r
        return mk('rev', x)
    return lift(g, [v])


def powr(a, b):
    def g(x, y):
        if y.op == 'num':
            k = y.args[0]
            if k.denominator == 1 and abs(k) <= 8:
                return power(x, int(k))
            if k == Fraction(1, 2):
                return msqrt(x)
        return mk('call', 'pow', x, y)
    return lift(g, [a, b])


def msqrt(x):
    def g(a):
        if a.op == 'num':
            import math
            n, d = a.args[0].numerator, a.args[0].denominator
            if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return num(Fraction(math.isqrt(n), math.isqrt(d)))
        r = mk('call', 'sqrt', a)
        r.nonneg = True
        return r
    return lift(g, [x])


def algo(en, e, fr, st, a, b, bodyfn):
    """Run bodyfn over the elements of iterator range [a, b)."""
    return en.range_loop(fr, st, it_lv(a), ('algo', id(e)), e.get('l'), bodyfn, lo=a.args[2], hi=b.args[2])


def local(en, st, v, tag_):
    en.acts += 1
    p = (('L', en.acts, tag_),)
    en.write_path(st, p, v)
    return p


def upd_state(st, o):
    if o.st is None:
        return
    st.mem = o.st.mem


def astar(en, e, fr, st, A):
    """Graph search: predecessor and distance tables are functions of the graph,
    the root, the heuristic values, the visitor and the remaining options; the
    visitor's exception is raised or not as a function of the same."""
    g, s, hf, opt = A.v(0), A.v(1), A.v(2), A.v(3)
    n = call('boost::num_vertices', g)
    n.isint = n.nonneg = True
    v = TM.fresh_lv()
    hv = en.apply(hf, [v], fr, st.fork(), e)
    if hv is None:
        hv = hf
    elif isinstance(hv, LV):
        hv = en.read(st, hv)
    h = TM.bigcat(n, v, TM.mkseq(hv))
    rest, tabs = [], {}
    x = opt
    while x.op == 'call' and len(x.args) >= 2:
        nm = str(x.args[0]).rsplit('::', 1)[-1]
        val = x.args[-1]
        if nm in ('predecessor_map', 'distance_map', 'visitor'):
            tabs[nm] = val
        else:
            rest.append(mk('opt', nm, val))
        if len(x.args) == 2:
            break
        x = x.args[1]
    if 'visitor' in tabs:
        rest.append(tabs['visitor'])
    sig = [g, s, h] + rest
    for nm in ('predecessor_map', 'distance_map'):
        if nm in tabs:
            it = [y for y in TM.subterms(tabs[nm]) if y.op == 'iter']
            if len(it) == 1 and it[0].args[2] is ZERO:
                en.write(fr, st, it_lv(it[0]), call('astar:' + nm, *sig), e.get('l'), quiet=True)
            else:
                en.unknown.append(('property map', e.get('l')))
                rest.append(tabs[nm])
    res = call('boost::astar_search', *sig)
    en.emit('ext', fr, st, e.get('l'), name='boost::astar_search', obj=None, olv=None, args=sig, res=res, lvs=[])
    return mk('void')


def free_call(en, e, f, fr, st, A):
    q, n = f['q'], f['n']
    na = len(e['a'])
    line = e.get('l')
    std = q.startswith('std::') or '::' not in q or q.startswith('__')
    if q in IDENT:
        return A.lv(0)
    if q in ('std::make_shared', 'std::make_unique'):
        t = en.ety(fr, e)
        et = elem_type(t, fr)
        vals = [A.lv(i) for i in range(na)]
        en.heap += 1
        root = ('H', en.heap)
        lv = LV((root,))
        en.emit('new', fr, st, line, t=et.get('r'), lv=lv, smart=True)
        if et.get('u') and et['u'] in en.P.cls:
            en.objcls[(root,)] = et['u']
            best = pick_ctor(en, et['u'], na, A, fr)
            if best is not None:
                en.construct(lv, best, vals, fr, st, e)
                return lv.ptr()
        vv = [A.v(i) for i in range(na)]
        v = build(en, et, vv, fr, st, e)
        if v.op == 'call' and str(v.args[0]).startswith('ctor:'):
            en.emit('ext', fr, st, line, name=et['r'] + '::ctor', obj=None, olv=lv, args=vv, res=v)
        en.write_path(st, lv.path, v)
        return lv.ptr()
    if q in ('std::make_pair',):
        return pair(A.v(0), A.v(1))
    if q in ('boost::get', 'boost::num_vertices', 'boost::num_edges', 'boost::vertices', 'boost::edges'):
        return call(q, *[A.v(i) for i in range(na)])
    if q == 'ompl::base::operator+' and na == 2:
        en.heap += 1
        lv = LV((('H', en.heap),))
        en.write_path(st, lv.path, call(q, *[en.content(st, A.v(i)) for i in (0, 1)]))
        return lv.ptr()
    if q == 'fcl::collide' and na == 4:
        a, b = (en.content(st, A.v(i), roots=('H', 'L', 'P')) for i in (0, 1))
        A.lv(2), A.lv(3)
        r = en.flag(call(q, a, b, A.v(2), A.v(3)), {'k': 'int', 'u': 1})
        en.emit('ext', fr, st, line, name=q, obj=None, olv=None, args=[A.v(i) for i in range(4)], res=r)
        if isinstance(A.c.get(3), LV):
            en.write(fr, st, A.c[3], mk('call', 'contacts', r), line)
        return r
    if q == 'boost::astar_search':
        return astar(en, e, fr, st, A)
    if q in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
        v = UNDEF
        for k in range(na):
            v = fset(v, 't%d' % k, A.v(k))
        return v
    if q == 'std::get' and na == 1:
        targs = f.get('a') or []
        if targs and targs[0] and 'i' in targs[0]:
            k = targs[0]['i']
            x = A.lv(0)
            t = A.t(0)
            nm = ('first', 'second')[k] if t.get('r') == 'std::pair' else 't%d' % k
            if t.get('r') == 'std::array':
                return x.i(num(k)) if isinstance(x, LV) else idx(x, num(k))
            return x.f(nm) if isinstance(x, LV) else fld(x, nm)
    if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend'):
        x = A.lv(0)
        if not isinstance(x, LV):
            x = en.temp(st, x)
        return iter_(x, ZERO) if 'begin' in n else iter_(x, size(en.read(st, x)))
    if q == 'std::size':
        return size(A.v(0))
    if q == 'std::empty':
        return eq(size(A.v(0)), ZERO)
    if q in ('std::next', 'std::prev') and na >= 1:
        it = A.v(0)
        k = A.v(1) if na > 1 and e['a'][1].get('k') != 'default' else ONE
        if it.op == 'iter':
            return en.iter_arith('+' if n == 'next' else '-', it, k, e)
    if q == 'std::advance':
        l = A.lv(0)
        it = en.read(st, l) if isinstance(l, LV) else l
        if it.op == 'iter' and isinstance(l, LV):
            en.write(fr, st, l, en.iter_arith('+', it, A.v(1), e), line, quiet=True)
            return mk('void')
    if q == 'std::distance':
        a, b = A.v(0), A.v(1)
        if a.op == 'iter' and b.op == 'iter' and a.args[:2] == b.args[:2]:
            return sub(b.args[2], a.args[2])
    if q == 'std::back_inserter':
        x = A.lv(0)
        if isinstance(x, LV):
            return mk('backins', x.path, x.pr)
    if q == 'std::swap' and na == 2:
        a, b = A.lv(0), A.lv(1)
        if isinstance(a, LV) and isinstance(b, LV):
            x, y = en.read(st, a), en.read(st, b)
            en.write(fr, st, a, y, line)
            en.write(fr, st, b, x, line)
            return mk('void')
    # numbers
    if n.startswith('__builtin_inf') or n.startswith('__builtin_huge'):
        return mk('call', 'INFINITY')
    if n.startswith('__builtin_nan'):
        return mk('call', 'NAN')
    if q in ('std::abs', 'std::norm', 'std::real', 'std::imag') and na == 1 and (A.t(0) or {}).get('r') == 'std::complex':
        a, b = fld(A.v(0), 'first'), fld(A.v(0), 'second')
        if n in ('real', 'imag'):
            return a if n == 'real' else b
        r = add(mul(a, a), mul(b, b))
        return r if n == 'norm' else TM.call('sqrt', r)
    if std:
        if n in ('fabs', 'abs', 'fabsf') and na == 1:
            return fabs(num_(A.v(0)))
        if n in ('fmin', 'fmax') and na == 2:
            return minmax(n[1:], A.v(0), A.v(1))
        if q in ('std::min', 'std::max'):
            if na == 2:
                return minmax(n, A.v(0), A.v(1))
            if na == 1:
                v = A.v(0)
                if v.op == 'seq' and v.args:
                    r = v.args[0]
                    for x in v.args[1:]:
                        r = minmax(n, r, x)
                    return r
        if q == 'std::clamp' and na == 3:
            return minmax('min', minmax('max', A.v(0), A.v(1)), A.v(2))
        if n == 'pow' and na == 2 and not q.startswith('Eigen'):
            return powr(A.v(0), A.v(1))
        if n == 'sqrt' and na == 1:
            return msqrt(A.v(0))
        if n in PURE1 and na == 1:
            return call(n, A.v(0))
        if n in ('atan2', 'fmod', 'hypot', 'copysign') and na == 2:
            return call(n, A.v(0), A.v(1))
        if n in ('isnan', 'isinf', 'isfinite') and na == 1:
            return atomize(call(n, A.v(0)))
        if n in ('rand', 'time', 'clock'):
            return en.flag(call(n), en.ety(fr, e))
        if n in ('srand',):
            return mk('void')
        if n in ('printf', 'puts', 'perror', 'exit_'):
            return mk('void')
        if n.startswith('__builtin_nan'):
            return mk('call', 'NAN')
        if n.startswith('__builtin_inf') or n.startswith('__builtin_huge'):
            return mk('call', 'INFINITY')
    if q == 'std::numeric_limits::infinity':
        return mk('call', 'INFINITY')
    if q in ('std::numeric_limits::max', 'std::numeric_limits::epsilon', 'std::numeric_limits::min',
             'std::numeric_limits::lowest'):
        t = en.ety(fr, e)
        if t['k'] == 'float':
            import sys
            v = {'max': sys.float_info.max, 'epsilon': sys.float_info.epsilon, 'min': sys.float_info.min,
                 'lowest': -sys.float_info.max}[n]
            return num(v)
        return en.flag(mk('call', 'limits:' + n + ':' + t.get('s', '')), t)
    if q == 'std::numeric_limits::quiet_NaN':
        return mk('call', 'NAN')
    if q in ('std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::_V2::system_clock::now',
             'std::chrono::high_resolution_clock::now') or (q.startswith('std::chrono') and n == 'now'):
        p = (('E', 'clock'),)
        c = st.mem.get(p, ZERO)
        c.isint = True
        en.write_path(st, p, add(c, ONE))
        r = mk('call', 'now', c)
        en.emit('now', fr, st, line, k=c)
        return r
    if q == 'std::chrono::duration_cast':
        return A.v(0)
    if q in ('std::operator-', 'std::operator+') and na == 2 and \
            all((A.t(k) or {}).get('r') == 'std::complex' for k in (0, 1)):
        f = sub if q[-1] == '-' else add
        a, b = A.v(0), A.v(1)
        return pair(f(fld(a, 'first'), fld(b, 'first')), f(fld(a, 'second'), fld(b, 'second')))
    if q in ('std::operator-', 'std::chrono::operator-') and na == 2:
        a, b = A.v(0), A.v(1)
        if a.op == 'iter' or b.op == 'iter':
            return en.iter_arith('-', a, b, e)
        t = A.t(0)
        if t.get('r', '').startswith('std::chrono'):
            return sub(a, b)
    if q in ('__gnu_cxx::operator-', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<',
             'std::operator==', 'std::operator!=', 'std::operator<', '__gnu_cxx::operator>', 'std::operator>',
             '__gnu_cxx::operator<=', '__gnu_cxx::operator>=') and na == 2:
        a, b = A.v(0), A.v(1)
        if n == 'operator-':
            return en.iter_arith('-', a, b, e)
        if n in ('operator==', 'operator!=') or a.op == 'iter':
            if is_bool(a) or a.op != 'fset':
                return en.compare(n[8:], a, b, e)
    if q == 'std::operator+' and na == 2:
        if A.t(0).get('r') == 'std::basic_string' or A.t(1).get('r') == 'std::basic_string':
            return call('strcat', A.v(0), A.v(1))
    if q in ('std::to_string',):
        return call('to_string', A.v(0))
    if q in ('std::operator<<',) and na == 2:
        o = A.lv(0)
        if isinstance(o, LV):
            return stream_out(en, e, fr, st, o, A.v(1))
    if q == 'std::setprecision' or q == 'std::setw':
        return mk('str', '')
    # Eigen free operators
    if q == 'Eigen::operator*' and na == 2:
        ta, tb = A.t(0), A.t(1)
        if scal_like(ta):
            return mat_scale(A.v(0), A.v(1))
        if scal_like(tb):
            return mat_scale(A.v(1), A.v(0))
        return mmul(asmat(A.v(0), ta, fr), asmat(A.v(1), tb, fr), full_dims(ta, fr), full_dims(tb, fr))
    if q.startswith('Eigen::') and n in ('Identity', 'Zero', 'Constant', 'Ones', 'UnitRandom', 'LinSpaced', 'UnitX',
                                         'UnitY', 'UnitZ', 'FromTwoVectors'):
        vals = A.vs()
        t = en.ety(fr, e)
        d = full_dims(t, fr)
        if 'Quaternion' in q:
            if n == 'Identity':
                v = UNDEF
                for k, x in zip('wxyz', (ONE, ZERO, ZERO, ZERO)):
                    v = fset(v, k, x)
                return v
            if n == 'UnitRandom':
                en.emit('rand', fr, st, line, name=n)
                return mk('call', 'UnitRandom')
            return call(n, *vals)
        if n == 'Identity':
            return identity(en, e, fr, d) or call('eye', *vals)
        if n in ('Zero', 'Ones', 'Constant'):
            x = ZERO if n == 'Zero' else ONE if n == 'Ones' else vals[-1]
            if d:
                return mkmat(d[0], d[1], [x] * (d[0] * d[1]))
            dims = vals[:-1] if n == 'Constant' else vals
            if len(dims) == 1:
                dims = [dims[0], ONE]
            return call('constmat', *dims, x)
        if n in ('UnitX', 'UnitY', 'UnitZ') and d:
            k = 'XYZ'.index(n[-1])
            return mkmat(d[0], d[1], [ONE if i == k else ZERO for i in range(d[0] * d[1])])
        return call(n, *vals)
    if q == 'Eigen::pow' and na == 2:
        return call('ewpow', A.v(0), A.v(1))
    if q.startswith('std::'):
        r = algorithm(en, e, f, fr, st, A, n, na, line)
        if r is not NotImplemented:
            return r
    return NotImplemented


def pick_ctor(en, u, na, A, fr):
    best = None
    score = -1
    k = en.P.cls[u]
    for m in k.methods:
        ent = k.tu['fns'][m['fn']]
        if not ent.get('ctor') or ent['u'] not in en.P.fns:
            continue
        fn = en.P.fns[ent['u']]
        ps = fn.j['params']
        if len(ps) < na:
            continue
        if ent.get('ctor') == 'copy' and na != 1:
            continue
        s = 10 - (len(ps) - na)
        for i in range(na):
            pt = fn.tu['types'][ps[i]['t']]
            while pt['k'] in ('ref', 'rref'):
                pt = fn.tu['types'][pt['to']]
            at = A.t(i)
            if pt.get('r') and pt.get('r') == at.get('r'):
                s += 2
            if pt['k'] == at['k']:
                s += 1
        if s > score:
            score, best = s, fn
    if best is not None and best.ent.get('ctor') == 'copy':
        return None
    return best


def pred_of(en, fv, el, fr, x, e, cls=None):
    r = en.apply(fv, [el], fr, x, e, cls=cls)
    if r is None:
        return None
    if isinstance(r, LV):
        r = en.read(x, r)
    return truthy(r)


def algorithm(en, e, f, fr, st, A, n, na, line):
    if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count_if', 'count', 'for_each') and na >= 2:
        a, b = A.v(0), A.v(1)
        if a.op != 'iter' or b.op != 'iter' or a.args[:2] != b.args[:2]:
            return NotImplemented
        fl = A.lv(2)
        fv = en.read(st, fl) if isinstance(fl, LV) else fl
        if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'for_each', 'count_if') and \
                fv.op not in ('closure', 'fnref', 'ptr') and not A.t(2).get('u'):
            return NotImplemented
        res = local(en, st, FALSE if n in ('any_of', 'all_of', 'none_of') else
                    (b.args[2] if n.startswith('find') else ZERO), 'algo')
        if n.startswith('find'):
            pos = local(en, st, a.args[2], 'pos')

        def body(x, el):
            o = Out(x)
            if n == 'for_each':
                en.apply(fv, [el], fr, x, e)
                return o
            if n in ('find', 'count'):
                c = en.compare('==', en.read(x, el), fv)
            else:
                c = pred_of(en, fv, el, fr, x, e, A.t(2).get('u'))
                if c is None:
                    en.unknown.append(('predicate', line))
                    c = bdd(mk('atom', mk('unk', 'predicate', len(en.unknown))))
            if n in ('all_of', 'find_if_not'):
                c = NOT(c)
            c = en.simpc(c, x)
            s1 = x.fork(c)
            s2 = x.fork(NOT(c))
            if n in ('count_if', 'count'):
                en.write_path(s1, res, add(en.read_path(s1, res), ONE))
                o.st = en.merge(x, [s1, s2])
                return o
            if s1.pc is not FALSE:
                if n.startswith('find'):
                    en.write_path(s1, res, el.pr[-1][1])
                else:
                    en.write_path(s1, res, TRUE)
                o.brks.append(s1)
            o.st = s2 if s2.pc is not FALSE else None
            return o
        o = algo(en, e, fr, st, a, b, body)
        upd_state(st, o)
        r = en.read_path(st, res)
        for k in (res,):
            st.mem.pop(k, None)
        if n in ('all_of', 'none_of'):
            return NOT(r)
        if n.startswith('find'):
            r.isint = True
            return mk('iter', a.args[0], a.args[1], r)
        if n == 'for_each':
            return mk('void')
        return r
    if n in ('transform', 'copy', 'copy_if', 'generate', 'fill', 'fill_n', 'copy_n') and na >= 2:
        if n == 'fill':
            a, b = A.v(0), A.v(1)
            if a.op == 'iter' and b.op == 'iter' and a.args[:2] == b.args[:2]:
                l = it_lv(a)
                v = en.read(st, l)
                if a.args[2] is ZERO and b.args[2] is size(v):
                    en.write(fr, st, l, mk_rep(size(v), A.v(2)), line)
                    return mk('void')
            return NotImplemented
        if n in ('generate', 'fill_n', 'copy_n'):
            return NotImplemented
        a, b = A.v(0), A.v(1)
        if a.op != 'iter' or b.op != 'iter' or a.args[:2] != b.args[:2]:
            return NotImplemented
        two = n == 'transform' and na == 5
        a2 = A.v(2) if two else None
        out = A.v(3 if two else 2)
        fl = A.lv(na - 1) if n != 'copy' else None
        fv = None
        if fl is not None:
            fv = en.read(st, fl) if isinstance(fl, LV) else fl
        if out.op not in ('backins', 'iter'):
            return NotImplemented

        def body(x, el):
            o = Out(x)
            args = [el]
            if two:
                args.append(it_lv(a2).i(add(a2.args[2], sub(el.pr[-1][1], a.args[2]))))
            if n == 'transform':
                v = en.apply(fv, args, fr, x, e)
                if isinstance(v, LV):
                    v = en.read(x, v)
                if v is None:
                    v = en.unk('transform', e)
            else:
                v = en.read(x, el)

            def put(s):
                if out.op == 'backins':
                    l = LV(out.args[0], out.args[1])
                    en.emit('push', fr, s, line, olv=l, v=v)
                    en.write(fr, s, l, append(en.read(s, l), v), line)
                else:
                    l = it_lv(out).i(add(out.args[2], sub(el.pr[-1][1], a.args[2])))
                    en.write(fr, s, l, v, line)
            if n == 'copy_if':
                c = en.simpc(pred_of(en, fv, el, fr, x, e), x)
                s1, s2 = x.fork(c), x.fork(NOT(c))
                put(s1)
                o.st = en.merge(x, [s1, s2])
            else:
                put(x)
            return o
        o = algo(en, e, fr, st, a, b, body)
        upd_state(st, o)
        return out if out.op == 'backins' else mk('iter', out.args[0], out.args[1], add(out.args[2], sub(b.args[2], a.args[2])))
    if n in ('accumulate', 'inner_product') and na >= 3:
        a, b = A.v(0), A.v(1)
        if a.op != 'iter' or b.op != 'iter' or a.args[:2] != b.args[:2]:
            return NotImplemented
        ip = n == 'inner_product'
        init = A.v(3 if ip else 2)
        c2 = A.v(2) if ip else None
        if ip and na > 4:
            return NotImplemented
        fv = None
        if not ip and na > 3:
            fl = A.lv(3)
            fv = en.read(st, fl) if isinstance(fl, LV) else fl
        res = local(en, st, init, 'acc')

        def body(x, el):
            cur = en.read_path(x, res)
            v = en.read(x, el)
            if ip:
                w = en.read(x, it_lv(c2).i(add(c2.args[2], sub(el.pr[-1][1], a.args[2]))))
                nv = add(cur, mul(v, w))
            elif fv is not None:
                nv = en.apply(fv, [cur, v], fr, x, e)
                if isinstance(nv, LV):
                    nv = en.read(x, nv)
                if nv is None:
                    nv = en.unk('accumulate', e)
            else:
                nv = add(num_(cur), num_(v))
            en.write_path(x, res, nv)
            return Out(x)
        o = algo(en, e, fr, st, a, b, body)
        upd_state(st, o)
        return st.mem.pop(res)
    if n in ('sort', 'stable_sort') and na >= 2:
        a, b = A.v(0), A.v(1)
        if a.op != 'iter' or b.op != 'iter' or a.args[:2] != b.args[:2]:
            return NotImplemented
        l = it_lv(a)
        v = en.read(st, l)
        s0, s1 = mk('sarg', 0), mk('sarg', 1)
        if na > 2:
            fl = A.lv(2)
            fv = en.read(st, fl) if isinstance(fl, LV) else fl
            t = st.fork()
            c = en.apply(fv, [s0, s1], fr, t, e)
            if c is None:
                if fv.op == 'call' and 'greater' in str(fv.args[0]):
                    c = lt(s1, s0)
                else:
                    c = en.unk('comparator', e)
            if isinstance(c, LV):
                c = en.read(t, c)
        else:
            c = lt(s0, s1)
        if a.args[2] is ZERO and b.args[2] is size(v):
            def so(x):
                if x is EMPTY or (x.op == 'seq' and len(x.args) == 1):
                    return x
                return mk('sort', x, c)
            r = lift(so, [v])
        else:
            r = call('sortrange', v, a.args[2], b.args[2], c)
        en.write(fr, st, l, r, line)
        return mk('void')
    if n == 'reverse' and na == 2:
        a, b = A.v(0), A.v(1)
        if a.op == 'iter' and b.op == 'iter' and a.args[:2] == b.args[:2]:
            l = it_lv(a)
            v = en.read(st, l)
            if a.args[2] is ZERO and b.args[2] is size(v):
                en.write(fr, st, l, rev(v), line)
                return mk('void')
        return NotImplemented
    if n in ('min_element', 'max_element') and na >= 2:
        a, b = A.v(0), A.v(1)
        if a.op == 'iter' and b.op == 'iter' and na == 2:
            r = call(n, slice_(en, st, a, b))
            r.isint = True
            return mk('iter', a.args[0], a.args[1], add(a.args[2], r))
    if n == 'iota' and na == 3:
        a, b = A.v(0), A.v(1)
        if a.op == 'iter' and b.op == 'iter' and a.args[2] is ZERO:
            l = it_lv(a)
            v = en.read(st, l)
            if b.args[2] is size(v):
                lv = fresh_lv()
                en.write(fr, st, l, bigcat(size(v), lv, mkseq(add(A.v(2), lv))), line)
                return mk('void')
    return NotImplemented
