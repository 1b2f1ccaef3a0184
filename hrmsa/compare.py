"""Equality of canonical terms and classification of a mismatch.

Two values are compared by identity of their canonical terms.  When they are not
identical the mismatch is *decisive* only if every differing part lies in the
fragment for which the normal form is complete enough to tell behaviours apart
(arithmetic over the same inputs, conditions, lists, calls of the same
functions).  A mismatch that involves a construct the analysis does not
understand, or two recurrences of different shape, is *undetermined*: it is
recorded in the evidence and never reported as a violation.
"""
import re
from fractions import Fraction
from itertools import permutations

from . import terms as TM
from .terms import T, mk, show, bdd, AND, NOT, TRUE, FALSE, ZERO

# library functions whose meaning the term algebra fixes (same name = same value,
# different name = different value)
KNOWN = {
    'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'pow', 'exp', 'log', 'abs', 'floor', 'ceil', 'trunc',
    'round', 'fmod', 'INFINITY', 'NEG_INF', 'NAN', 'isnan', 'T', 'inv', 'det', 'rot2', 'resize', 'constmat', 'PI',
    'maxseq', 'minseq', 'deref', 'quat2mat', 'mat2quat', 'slerp', 'rot2angle', 'conj', 'normalized', 'ofn', 'raises',
    'now', 'itereq', 'angdist', 'UnitRandom', 'srand', 'rotmat', 'quat', 'qmul', 'qinv',
    'qnormalized', 'aaangle', 'eye', 'umat', 'rows', 'cols', 'svd', 'svd.matrixU', 'svd.matrixV',
    'svd.singularValues', 'diag', 'angleaxis', 'aarot', 'reshape',
    'fcl::collide', 'contacts', 'fcl::CollisionObject::setTransform', 'fcl::BVHModel::beginModel',
    'fcl::BVHModel::addSubModel', 'fcl::BVHModel::endModel', 'ctor:fcl::Ellipsoid', 'ctor:fcl::CollisionObject',
    'E.eigenvalues', 'callable', 'pointing', 'ctor:ompl::base::BridgeTestValidStateSampler', 'ctor:ompl::base::GaussianValidStateSampler',
    'ctor:ompl::base::MaximizeClearanceValidStateSampler', 'ctor:ompl::base::ObstacleBasedValidStateSampler',
    'ctor:ompl::base::PlannerData', 'ctor:ompl::base::RealVectorStateSpace', 'ctor:ompl::base::SE2StateSpace',
    'ctor:ompl::base::SE3StateSpace', 'ctor:ompl::base::ScopedState', 'ctor:ompl::base::UniformValidStateSampler',
    'ctor:ompl::geometric::EST', 'ctor:ompl::geometric::KPIECE1', 'ctor:ompl::geometric::LazyPRM',
    'ctor:ompl::geometric::PRM', 'ctor:ompl::geometric::RRT', 'ctor:ompl::geometric::RRTConnect',
    'ctor:ompl::geometric::SBL', 'ctor:ompl::geometric::SimpleSetup', 'ompl::base::CompoundStateSpace::getSubspace',
    'ompl::base::MaximizeClearanceValidStateSampler::setNrImproveAttempts',
    'ompl::base::MotionValidator::getCheckedMotionCount', 'ompl::base::MotionValidator::getValidMotionCount',
    'ompl::base::PlannerData::getEdges', 'ompl::base::PlannerData::getSpaceInformation',
    'ompl::base::PlannerData::getVertex', 'ompl::base::PlannerData::numEdges', 'ompl::base::PlannerData::numVertices',
    'ompl::base::PlannerDataVertex::getState', 'ompl::base::PlannerStatus::operator bool',
    'ompl::base::RealVectorStateSpace::setBounds', 'ompl::base::SE2StateSpace::setBounds',
    'ompl::base::SE3StateSpace::setBounds', 'ompl::base::ScopedState::enforceBounds',
    'ompl::base::ScopedState::operator=', 'ompl::base::SpaceInformation::getMotionValidator',
    'ompl::base::SpaceInformation::probabilityOfValidState',
    'ompl::base::SpaceInformation::setValidStateSamplerAllocator',
    'ompl::base::SpaceInformation::setStateValidityCheckingResolution', 'ompl::base::operator<<',
    'ompl::base::operator+', 'ompl::base::operator>>', 'ompl::geometric::PathGeometric::getStates',
    'ompl::geometric::PathGeometric::interpolate', 'ompl::geometric::SimpleSetup::getLastPlanComputationTime',
    'ompl::geometric::SimpleSetup::getPlannerData', 'ompl::geometric::SimpleSetup::getSolutionPath',
    'ompl::geometric::SimpleSetup::getStateSpace', 'ompl::geometric::SimpleSetup::setPlanner',
    'ompl::geometric::SimpleSetup::setStartAndGoalStates', 'ompl::geometric::SimpleSetup::setup',
    'ompl::geometric::SimpleSetup::setStateValidityChecker', 'ompl::geometric::SimpleSetup::clear',
    'ompl::geometric::SimpleSetup::simplifySolution', 'ompl::geometric::SimpleSetup::solve',
    'ompl::base::StateSpace::getMaximumExtent', 'ompl::geometric::SimpleSetup::clearStartStates',
    'ompl::base::PlannerData::getIncomingEdges', 'fcl::CollisionObject::getAABB', 'fcl::AABB::overlap',
    'KDL::operator*', 'KDL::Rotation::operator*', 'KDL::RigidBodyInertia::operator=', 'KDL::Tree::operator=', 'initXml',
    'KDL::RigidBodyInertia::getRotationalInertia', 'KDL::Rotation::GetQuaternion', 'KDL::Rotation::Quaternion',
    'KDL::RotationalInertia::Zero', 'KDL::Tree::addSegment', 'KDL::TreeFkSolverPos_recursive::JntToCart',
    'KDL::Vector::Zero', 'ctor:KDL::Frame', 'ctor:KDL::Joint', 'ctor:KDL::RigidBodyInertia',
    'ctor:KDL::RotationalInertia', 'ctor:KDL::Segment', 'ctor:KDL::Tree', 'ctor:KDL::TreeFkSolverPos_recursive',
    'ctor:KDL::Vector', 'ctor:tinyxml2::XMLDocument', 'tinyxml2::XMLDocument::LoadFile',
    'tinyxml2::XMLDocument::Parse', 'urdf::ModelInterface::getRoot',
    'ctor:fcl::CollisionRequest', 'ctor:fcl::CollisionResult', 'fcl::CollisionResult::isCollision',
}
KNOWN_PREFIX = ('astar:', 'boost::', 'limits:', 'default:', 'ctor:boost::', 'ompl::RNG', 'ctor:ompl::RNG')


PLAIN_OPS = {'num', 'poly', 'in', 'idx', 'fld', 'call', 'size', 'phi', 'bphi', 'lv', 'bv', 'lt0', 'eq0',
             'str', 'enum', 'b'}


BOUND_OPS = {'bphi', 'bv', 'phi', 'lv'}


class Undetermined(Exception):
    pass


class Diff:
    __slots__ = ('cube', 'want', 'have', 'where')

    def __init__(self, cube, want, have, where):
        self.cube = cube
        self.want = want
        self.have = have
        self.where = where

    def text(self, n=400):
        c = ''
        if self.cube:
            c = ' when ' + ' and '.join(('' if v else 'not ') + cut(show(a), 160) for a, v in self.cube[:4])
        w = ' at ' + '/'.join(self.where) if self.where else ''
        return 'reference %s, code %s%s%s' % (cut(show(self.want), n), cut(show(self.have), n), w, c)


def cut(s, n):
    return s if len(s) <= n else s[:n] + '…'


def calls_of(t):
    return {x.args[0] for x in TM.subterms(t) if x.op == 'call' and isinstance(x.args[0], str)}


def plain_reason(t, known):
    """None when t lies in the decidable fragment, else why not."""
    for x in TM.subterms(t):
        if x.op in ('unk', 'havoc'):
            return 'construct not understood: %s' % (x.args[0],)
        if x.op == 'call' and isinstance(x.args[0], str):
            n = x.args[0]
            if n not in known:
                from .interp import bare
                n = bare(n, KNOWN_PREFIX)
            if n not in known and n not in KNOWN and not n.startswith(KNOWN_PREFIX):
                return 'library call without a model: %s' % n
        if x.op in ('phi', 'lv', 'bphi') and False:
            return 'open recurrence'
    return None


# ---------------------------------------------------- linear consistency of cubes
def lin(atom):
    """atom -> (kind, {monomial: coeff}) for linear reasoning."""
    if atom.op in ('lt0', 'eq0'):
        return TM.topoly(atom.args[0]), atom.args[0].isint
    return None


def feasible(cube, cap=400):
    """Fourier-Motzkin consistency of the arithmetic literals of a cube."""
    ineq = []          # (poly, strict): poly < 0 / <= 0
    eqs = []
    neq = []
    for a, v in cube:
        if a.op == 'lt0':
            p = TM.topoly(a.args[0])
            isint = a.args[0].isint
            if v:
                if isint:
                    p = TM.poly_add(p, {(): Fraction(1)})
                    ineq.append((p, False))
                else:
                    ineq.append((p, True))
            else:
                ineq.append(({m: -c for m, c in p.items()}, False))
        elif a.op == 'eq0':
            p = TM.topoly(a.args[0])
            if v:
                eqs.append(p)
            else:
                neq.append(p)
        elif a.op == 'ite' or a.op == 'b':
            continue
    # non-negativity of counted quantities and magnitudes
    mons = set()
    for p, s in ineq:
        mons |= set(p)
    for p in eqs + neq:
        mons |= set(p)
    for m in mons:
        if m != () and all(x.nonneg or e % 2 == 0 for x, e in m):
            ineq.append(({m: Fraction(-1)}, False))
    for p in eqs:
        ineq.append((p, False))
        ineq.append(({m: -c for m, c in p.items()}, False))
    base = list(ineq)
    if not fm(base, cap):
        return False
    for p in neq:
        q = {m: -c for m, c in p.items()}
        if not fm(base + [(p, True)], cap) and not fm(base + [(q, True)], cap):
            return False
    return True


def fm(ineq, cap):
    cons = {}
    for p, s in ineq:
        key = tuple(sorted(((m, c) for m, c in p.items() if c != 0), key=lambda mc: TM._mkey(mc[0])))
        cons[key] = cons.get(key, False) or s
    while True:
        for key, s in cons.items():
            if all(m == () for m, c in key):
                v = sum(c for m, c in key)
                if v > 0 or (v == 0 and s):
                    return False
        vs = {}
        for key in cons:
            for m, c in key:
                if m != ():
                    u = vs.setdefault(m, [0, 0])
                    u[0 if c > 0 else 1] += 1
        if not vs:
            return True
        m = min(vs, key=lambda x: vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1])
        if vs[m][0] * vs[m][1] > cap:
            return True
        pos, neg_, rest = [], [], {}
        for key, s in cons.items():
            d = dict(key)
            c = d.get(m)
            if not c:
                rest[key] = rest.get(key, False) or s
            elif c > 0:
                pos.append((d, s))
            else:
                neg_.append((d, s))
        for d, s in pos:
            for e, r in neg_:
                k1, k2 = d[m], -e[m]
                q = {}
                for x, c in d.items():
                    q[x] = q.get(x, 0) + c * k2
                for x, c in e.items():
                    q[x] = q.get(x, 0) + c * k1
                q.pop(m, None)
                key = tuple(sorted(((x, c) for x, c in q.items() if c != 0), key=lambda mc: TM._mkey(mc[0])))
                # normalise scale
                if key:
                    f = abs(key[-1][1])
                    key = tuple((x, TM.qdiv(c, f)) for x, c in key)
                rest[key] = rest.get(key, False) or (s or r)
        cons = rest
        if len(cons) > cap:
            return True


def boundary(cube):
    """Equalities implied by a cube (x<=y and y<=x): list of polynomials == 0."""
    les = []
    for a, v in cube:
        if a.op == 'lt0' and not v:
            les.append({m: -c for m, c in TM.topoly(a.args[0]).items()})
        if a.op == 'eq0' and v:
            yield TM.topoly(a.args[0])
    for i, p in enumerate(les):
        for q in les[i + 1:]:
            if TM.poly_add(p, q) == {}:
                yield p
    # same up to scale
            else:
                k = TM._ratio(p, q)
                if k is not None and k < 0:
                    yield p


def apply_eq(p, t):
    """Rewrite t under polynomial equality p == 0 by solving for one atom."""
    from .engine import replace
    for m, c in sorted(p.items(), key=lambda mc: TM._mkey(mc[0]), reverse=True):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op != 'den':
            a = m[0][0]
            rest = {k: TM.qdiv(-v, c) for k, v in p.items() if k != m}
            r = TM.frompoly(rest)
            if TM.contains(r, lambda x: x is a):
                continue
            return replace(t, a, r)
    return t


def consistent(cube):
    """False when the equalities of a cube contradict its other conditions."""
    eqs = list(boundary(cube))[:4]
    lits = list(cube)
    for p in eqs:
        out, seen = [], {}
        for a, v in lits:
            r = apply_eq(p, a)
            if r is a:
                out.append((a, v))
            elif r is TRUE or r is FALSE:
                if (r is TRUE) != v:
                    return False
                continue
            elif r.op in ('lt0', 'eq0'):
                out.append((r, v))
            else:
                for x, w in TM.forced(r if v else TM.NOT(r)).items():
                    out.append((x, bool(w)))
        for a, v in out:
            if seen.setdefault(a, v) != v:
                return False
        lits = out
    return not eqs or feasible(lits)


# ------------------------------------------------------------------ differences
class Cmp:
    def __init__(self, known=(), pre=TRUE, rewrite=None, limit=4000):
        self.known = set(known)
        self.pre = pre
        self.rewrite = rewrite
        self.diffs = []
        self.limit = limit
        self.steps = 0
        self.memo = {}

    def run(self, want, have):
        """[] when equal, list of Diff otherwise."""
        self.diffs = []
        if self.rewrite:
            want, have = self.rewrite(want), self.rewrite(have)
        self.walk(want, have, (), ())
        return self.diffs

    def decide(self, want, have):
        if want.free or have.free:
            raise Undetermined('value of a loop outside of it')
        try:
            return self.decide_paths(want, have)
        except Undetermined as e:
            if self.pre is TRUE:
                try:
                    ds = self.localise(want, have)
                except Undetermined:
                    ds = None
                if ds:
                    return ds
            raise e

    def localise(self, want, have):
        """The two values are one context around few differing plain values:
        substituting the reference's parts for the code's gives the reference."""
        from .engine import replace
        if self.rewrite:
            want, have = self.rewrite(want), self.rewrite(have)

        def walk(a, b, where, out, seen):
            if a is b or (a, b) in seen or len(out) > 12:
                return
            seen.add((a, b))
            if a.op != b.op or len(a.args) != len(b.args) or a.op == 'poly' or \
                    not args(a.args, b.args, where, out, seen):
                out.append((a, b, where))

        def args(p, q, where, out, seen):
            if isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q):
                    return False
                ok = [args(x, y, where, out, seen) for x, y in zip(p, q)]
                return all(ok)
            if isinstance(p, T) and isinstance(q, T):
                walk(p, q, where + (p.args[0],) if p.op == 'call' else where, out, seen)
                return True
            return p == q

        def plain(x, y):
            return x.op not in BOUND_OPS and y.op not in BOUND_OPS and x.op in PLAIN_OPS and y.op in PLAIN_OPS and not rational_equal(x, y) and \
                not plain_reason(x, self.known) and not plain_reason(y, self.known) and \
                has_mu(x) == has_mu(y) and clamps(x) == clamps(y)
        # the parts only one side has, by kind, the smallest first
        A, B = set(TM.subterms(want)), set(TM.subterms(have))
        ua = [x for x in A - B if x.op != 'ite']
        ub = [x for x in B - A if x.op != 'ite']
        if len(ua) > 600 or len(ub) > 600:
            return None
        size = {x: sum(1 for _ in TM.subterms(x)) for x in ua + ub}
        ua.sort(key=lambda x: (size[x], x.key))
        by = {}
        for y in sorted(ub, key=lambda y: (size[y], y.key)):
            by.setdefault((y.op, len(y.args)), []).append(y)
        cand, tried = [], 0
        for x in ua:
            for y in by.get((x.op, len(x.args)), ())[:6]:
                out = []
                walk(x, y, (), out, set())
                tried += 1
                if 0 < len(out) <= 3 and all(plain(p, q) for p, q, w in out):
                    c = [(p, q) for p, q, w in out]
                    if c not in [k for k, _ in cand]:
                        cand.append((c, out))
            if len(cand) > 12 or tried > 400:
                break
        for c, out in cand[:12]:
            h = have
            try:
                for x, y in c:
                    h = replace(h, y, x)
            except (KeyError, IndexError, TypeError):
                # a value of another recursion term put where it has no meaning
                continue
            if h is want:
                return [Diff((), x, y, tuple(str(k) for k in w[-3:])) for x, y, w in out]
        return None

    def decide_paths(self, want, have):
        """run(), retried with minimum/maximum expanded into conditions."""
        und = None
        try:
            ds = self.run(want, have)
            if not ds:
                return []
        except Undetermined as e:
            und, ds = e, None
        w2, h2 = expand(want), expand(have)
        if w2 is not want or h2 is not have:
            try:
                d2 = self.run(w2, h2)
            except Undetermined as e:
                raise und or e
            if not d2 or ds is None:
                return d2
        if ds is None:
            raise und
        return ds

    def add(self, cube, a, b, where):
        if not consistent(cube):
            return
        if self.pre is not TRUE:
            p = self.pre
            for x, v in cube:
                p = TM.cofactor(p, x, 1 if v else 0)
            if p is FALSE:
                return
            lits = list(TM.forced(p).items())
            if not feasible(list(cube) + lits):
                return
        self.diffs.append(Diff(cube, a, b, where))

    def walk(self, a, b, cube, where):
        if a is b:
            return
        self.steps += 1
        if self.steps > self.limit:
            raise Undetermined('comparison too large')
        if a.op == 'ite' or b.op == 'ite':
            return self.walk_ite(a, b, cube, where)
        if cube:
            eqs = list(boundary(cube))
            for p in eqs:
                a2, b2 = apply_eq(p, a), apply_eq(p, b)
                if a2 is b2:
                    return
        self.walk_leaf(a, b, cube, where)

    def walk_ite(self, a, b, cube, where):
        lits = dict(cube)
        tops = [x.args[0] for x in (a, b) if x.op == 'ite']
        at = min(tops, key=lambda x: x.key)
        if at in lits:
            v = 1 if lits[at] else 0
            return self.walk(TM.cof(a, at, v), TM.cof(b, at, v), cube, where)
        for v in (1, 0):
            x, y = TM.cof(a, at, v), TM.cof(b, at, v)
            if x is y:
                continue
            c2 = cube + ((at, bool(v)),)
            if not feasible(c2):
                continue
            self.walk(x, y, c2, where)

    def walk_leaf(self, a, b, cube, where):
        """Descend into equal constructors, record minimal differing pairs."""
        if a.op != b.op or a.op in ('num', 'b', 'in', 'lv', 'bv', 'phi', 'str', 'enum'):
            return self.leafdiff(a, b, cube, where)
        op = a.op
        if op in ('poly', 'lt0', 'eq0'):
            return self.leafdiff(a, b, cube, where)
        if op in ('bigcat', 'ex', 'sum'):
            n1, v1, b1 = TM.unbind(a)
            n2, v2, b2 = TM.unbind(b)
            b2 = TM.subst(b2, {v2: v1})
            self.walk(n1, n2, cube, where + ('count',))
            if n1 is n2 or b1 is not b2:
                rng = ()
                self.walk(b1, b2, cube + ((TM.mk('lt0', TM.sub(v1, n1)), True),) if n1.op != 'num' else cube,
                          where + ('element',))
            return
        if op == 'mapupd':
            n1, v1, p1, b1 = TM.unbind_map(a)
            n2, v2, p2, b2 = TM.unbind_map(b)
            m = {v2: v1}
            self.walk(a.args[0], b.args[0], cube, where + ('base',))
            self.walk(n1, n2, cube, where + ('count',))
            self.walk(p1, TM.subst(p2, m), cube, where + ('index',))
            self.walk(b1, TM.subst(b2, m), cube, where + ('element',))
            return
        if op == 'first':
            return self.walk_first(a, b, cube, where)
        if op == 'mu':
            return self.walk_mu(a, b, cube, where)
        if op == 'seq':
            if len(a.args) != len(b.args):
                return self.leafdiff(a, b, cube, where)
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                self.walk(x, y, cube, where + ('[%d]' % i,))
            return
        if op == 'cat':
            return self.walk_cat(a, b, cube, where)
        if op == 'call':
            if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                return self.leafdiff(a, b, cube, where)
            n = str(a.args[0]).split('::')[-1]
            for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
                if isinstance(x, T) and isinstance(y, T):
                    self.walk(x, y, cube, where + ('%s#%d' % (n, i),))
                elif x != y:
                    return self.leafdiff(a, b, cube, where)
            return
        if op == 'fset':
            fa, ba = fields(a)
            fb, bb = fields(b)
            for f in sorted(set(fa) | set(fb)):
                x = fa.get(f) or TM.fld(ba, f)
                y = fb.get(f) or TM.fld(bb, f)
                self.walk(x, y, cube, where + (f,))
            if ba is not bb and ba is not TM.UNDEF and bb is not TM.UNDEF:
                self.walk(ba, bb, cube, where)
            return
        sa, sb = a.args, b.args
        if len(sa) != len(sb):
            return self.leafdiff(a, b, cube, where)
        for x, y in zip(sa, sb):
            if isinstance(x, T) and isinstance(y, T):
                self.walk(x, y, cube, where + (op,) if op in ('idx', 'size') else where)
            elif x != y:
                return self.leafdiff(a, b, cube, where)

    def walk_cat(self, a, b, cube, where):
        pa, pb = list(a.args), list(b.args)
        i = 0
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0)
            pb.pop(0)
            i += 1
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop()
            pb.pop()
        if len(pa) == len(pb) and all(x.op == y.op for x, y in zip(pa, pb)):
            for k, (x, y) in enumerate(zip(pa, pb)):
                self.walk(x, y, cube, where + ('part %d' % (i + k),))
            return
        j = lambda ps: ps[0] if len(ps) == 1 else (mk('cat', *ps) if ps else TM.EMPTY)
        self.leafdiff(j(pa), j(pb), cube, where + ('part %d' % i,))

    def walk_first(self, a, b, cube, where):
        n1, h1, s1, b1 = a.args
        n2, h2, s2, b2 = b.args
        v = TM.fresh_lv()
        f = lambda t, h: TM.subst_bv(t, h, v)
        self.walk(n1, n2, cube, where + ('count',))
        self.walk(f(s1, h1), f(s2, h2), cube, where + ('found-when',))
        self.walk(f(b1, h1), f(b2, h2), cube, where + ('found',))

    def walk_mu(self, a, b, cube, where):
        from .engine import unbind_mu
        n1, v1, c1, s1, p1, on1, os1 = unbind_mu(a)
        n2, v2, c2, s2, p2, on2, os2 = unbind_mu(b)
        if len(p1) != len(p2) or (n1 is TM.NULL) != (n2 is TM.NULL):
            raise Undetermined('recurrences of different shape')
        k = len(p1)
        best = None
        if (on1 is TM.NULL) != (on2 is TM.NULL) or (os1 is TM.NULL) != (os2 is TM.NULL):
            raise Undetermined('recurrences followed up to different exits')
        perms = list(permutations(range(k))) if k <= 4 else [tuple(range(k))]
        save = self.diffs
        for pm in perms:
            m = {v2: v1}
            ok = True
            for i in range(k):
                q1, q2 = p1[i][0], p2[pm[i]][0]
                if q1.isint != q2.isint and False:
                    ok = False
                m[q2] = q1
            self.diffs = []
            try:
                self.walk(n1, n2, cube, where + ('loop count',))
                self.walk(c1, TM.subst(c2, m), cube, where + ('loop condition',))
                self.walk(s1, TM.subst(s2, m), cube, where + ('loop exit',))
                for i in range(k):
                    self.walk(p1[i][1], p2[pm[i]][1], cube, where + ('loop start',))
                    self.walk(p1[i][2], TM.subst(p2[pm[i]][2], m), cube, where + ('loop step',))
                self.walk(on1, TM.subst(on2, m), cube, where + ('loop result',))
                self.walk(os1, TM.subst(os2, m), cube, where + ('loop result',))
            except Undetermined as e:
                d = None
                why = e
            else:
                d = self.diffs
            if d is not None and (best is None or len(d) < len(best)):
                best = d
            if best == []:
                break
        self.diffs = save
        if best is None:
            raise Undetermined('recurrences of different shape: %s' % why)
        if not best:
            return
        # a recurrence mismatch is decisive only when it is local
        for d in best:
            sh = {shape(d.want), shape(d.have)} - {'state'}
            if len(sh) > 1 or len(best) > 8:
                raise Undetermined('recurrences differ in shape: %s' % d.text(120))
        self.diffs = self.diffs + best

    def leafdiff(self, a, b, cube, where):
        if rational_equal(a, b):
            return
        if a.op != b.op and 'bigcat' in (a.op, b.op):
            # a list given element by element against a list given as a whole
            for x, y in ((a, b), (b, a)):
                if x.op == 'bigcat' and y.op not in ('seq', 'cat', 'rep', 'bigcat', 'num', 'poly'):
                    n, v, e = TM.unbind(x)
                    if e.op != 'seq' or len(e.args) != 1:
                        raise Undetermined('lists of different make')
                    sx, sy = n, TM.size(y)
                    if sx is not sy:
                        raise Undetermined('lists of different make')
                    return self.walk(*((e.args[0], TM.idx(y, v)) if x is a else (TM.idx(y, v), e.args[0])), cube,
                                     where + ('element',))
        for t in (a, b):
            r = plain_reason(t, self.known)
            if r:
                raise Undetermined(r)
        # an element of a list that was put together: which part it is in is not decided by the normal form
        A, B = set(TM.subterms(a)), set(TM.subterms(b))
        for x in A ^ B:
            if x.op == 'size' and x.args[0].op == 'call' and x.args[0].args[0].startswith(('after:', 'out')):
                raise Undetermined('length of a list after a call')
            if x.op == 'idx' and x.args[0].op in ('cat', 'bigcat', 'mapupd', 'set', 'sort', 'rev'):
                raise Undetermined('element of a list that was put together')
        # a general recurrence against anything else
        for x, y in ((a, b), (b, a)):
            if x.op in ('mu', 'first') and y.op != x.op:
                raise Undetermined('recurrence against closed form')
        ma, mb = has_mu(a), has_mu(b)
        if ma or mb:
            if {m for m in ma} != {m for m in mb}:
                raise Undetermined('recurrence inside differing value')
        for l, v in cube:
            r = plain_reason(l, self.known)
            if r:
                raise Undetermined('condition: ' + r)
            if has_mu(l):
                pass
        self.add(cube, a, b, where)


def in_range(*ts):
    """Positions used in an input list are positions of its elements, also after more were appended."""
    from .engine import replace
    used, built = set(), []
    for t in ts:
        for x in TM.subterms(t):
            if x.op == 'idx' and x.args[1].op != 'num' and not x.args[1].free:
                if x.args[0].op in ('fld', 'in', 'idx'):
                    used.add((x.args[0], x.args[1]))
                elif x.args[0].op == 'cat':
                    built.append(x)
    for x in built:
        l = x.args[0].args[0]
        if (l, x.args[1]) in used:
            y = TM.idx(l, x.args[1])
            ts = tuple(replace(t, x, y) for t in ts)
    return ts


def expand(t):
    """min/max -> conditional values."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not isinstance(x, T):
            return x
        if x.op in ('min', 'max') and len(x.args) <= 3:
            ys = [go(y) for y in x.args]
            r = ys[0]
            for y in ys[1:]:
                r = TM.lift(lambda a, b: raw_ite(TM.lt(a, b), a, b) if x.op == 'min' else raw_ite(TM.lt(a, b), b, a),
                            [r, y])
        elif not TM.contains(x, lambda y: y.op in ('min', 'max')):
            r = x
        elif x.op == 'poly':
            r = TM._subst_poly(x, go)
        else:
            r = TM.rebuild(x, TM._map_args(x.args, go))
        memo[x] = r
        return r

    def raw_ite(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        save = TM._as_minmax
        TM._as_minmax = lambda *_: None
        TM._ite_cache.clear()
        try:
            return TM.ITE(c, a, b)
        finally:
            TM._as_minmax = save
            TM._ite_cache.clear()
    save = TM._as_minmax
    TM._as_minmax = lambda *_: None
    TM._ite_cache.clear()
    TM._cof_cache.clear()
    try:
        return go(t)
    finally:
        TM._as_minmax = save
        TM._ite_cache.clear()
        TM._cof_cache.clear()


def clamps(t):
    return {x for x in TM.subterms(t) if x.op in ('min', 'max', 'ite') or x.op == 'call' and x.args[0] == 'abs'}


def has_mu(t):
    return {x for x in TM.subterms(t) if x.op in ('mu', 'first')}


def shape(t):
    if t.op in ('num', 'poly', 'idx', 'fld', 'in', 'lv', 'bv', 'size', 'min', 'max'):
        return 'value'
    if t.op in ('phi', 'bphi'):
        return 'state'
    if t.op == 'call':
        return 'value'
    if t.op in ('lt0', 'eq0', 'eq', 'atom', 'ex', 'b', 'ite'):
        return 'cond'
    if t.op in ('seq', 'cat', 'bigcat', 'rep', 'sort', 'rev', 'set', 'mapupd'):
        return 'list'
    return t.op


def fields(t):
    fs = {}
    while t.op == 'fset':
        fs.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return fs, t


def rational_equal(a, b):
    """Equality of rational functions by clearing denominators."""
    if a.op not in ('poly', 'num', 'idx', 'fld', 'in', 'call') or b.op not in ('poly', 'num', 'idx', 'fld', 'in', 'call'):
        return False
    if a.op not in ('poly',) and b.op not in ('poly',):
        return False
    p = TM.poly_sub(TM.topoly(a), TM.topoly(b))
    for _ in range(6):
        if not p:
            return True
        den = None
        for m in p:
            for x, e in m:
                if e < 0:
                    den = (x, -e)
                    break
            if den:
                break
        if den is None:
            return not p
        x, e = den
        q = TM.topoly(TM.power(x.args[0], e)) if x.op == 'den' else TM.topoly(TM.power(x, e))
        # multiply every monomial, cancelling x^-e exactly
        r = {}
        for m, c in p.items():
            ex = dict(m)
            k = ex.pop(x, 0)
            rest = tuple(sorted(ex.items(), key=lambda ae: ae[0].key))
            if k < 0:
                base = TM.topoly(TM.power(x.args[0] if x.op == 'den' else x, k + e)) if k + e else {(): Fraction(1)}
            else:
                base = TM.poly_mul(q, TM.topoly(TM.power(x.args[0] if x.op == 'den' else x, k)) if k else {(): Fraction(1)})
            r = TM.poly_add(r, TM.poly_mul({rest: c}, base))
        p = r
    return not p


def retuned(want, have):
    """(reference bound, code bound) where the two terms differ only in a fractional bound some conditions compare with."""
    def bounds(t):
        r = {}
        for x in TM.subterms(t):
            if x.op == 'lt0' and x.args[0].op == 'poly':
                p = TM.topoly(x.args[0])
                if not any(a.op == 'bphi' or any(y.op == 'bphi' for y in TM.subterms(a)) for m in p for a, e in m):
                    r[x] = p
        return r
    A, B = bounds(want), bounds(have)
    left = [x for x in A if x not in B]
    right = {}
    for x in B:
        if x not in A:
            right.setdefault(frozenset((m, c) for m, c in B[x].items() if m != ()), []).append(x)
    m, pair = {}, None
    for x in left:
        ys = right.get(frozenset((k, c) for k, c in A[x].items() if k != ()), [])
        if len(ys) != 1:
            continue
        c, d = A[x].get((), 0), B[ys[0]].get((), 0)
        if not c or not d or (c == int(c) and d == int(d)) or (c > 0) != (d > 0):
            continue
        m[x] = ys[0]
        pair = pair or (float(abs(c)), float(abs(d)))
    if not m:
        return None
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = TM._subst_poly(x, go) if x.op == 'poly' else TM.rebuild(x, TM._map_args(x.args, go))
        return r
    try:
        return pair if go(want) is have else None
    except (KeyError, TypeError, ValueError, RecursionError):
        return None
