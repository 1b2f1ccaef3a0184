"""Shared anchors of the property rules."""
C2 = 'hrm::planners::HRM2D'
K2 = 'hrm::planners::HRM2DKC'
C3 = 'hrm::planners::HRM3D'
CP = 'hrm::planners::ProbHRM3D'
HW = 'hrm::planners::HighwayRoadMap'
FS = 'hrm::FreeSpaceComputator'

# repository functions that stay uninterpreted unless they are the function under
# analysis (each is decided by its own obligations)
BOUND = (
    'intersectHorizontalLinePolygon2D', 'intersectVerticalLineMesh3D', 'intersectLineMesh3D',
    'intersectLineTriangle3D', 'isIntersectSegPolygon2D', 'isPtInPoly', 'getMeshFromParamSurface', 'getMeshFromSQ',
    'getMesh', 'getMinkSum2D', 'getMinkSum3D', 'getOriginShape', 'minkSum', 'getTFE2D', 'getTFE3D', 'getMVCE2D',
    'getMVCE3D', 'vectorEuclidean', 'interpolateCompoundSE3Rn', 'interpolateSE3', 'interpolateRn', 'interpolateSlerp',
    'isPtInCFree', 'isSameSliceTransitionFree', 'isMultiSliceTransitionFree', 'setTransform', 'robotTF', 'computeTFE',
    'bridgeSlice', 'bridgeVertex', 'addMiddleVertex', 'isCollision', 'unions', 'intersects', 'complements',
    'computeSweepLineFreeSegment', 'enhanceFreeSegment', 'computeCSpaceBoundary', 'computeCSpaceBoundaryMesh',
    'computeIntersectionInterval', 'computeFreeSegment', 'sweepLineProcess', 'generateVertices', 'connectOneSlice2D',
    'connectOneSlice3D', 'constructOneSlice', 'connectMultiSlice', 'connectExistSlice', 'sampleOrientations',
    'sampleSO3', 'search', 'buildRoadmap', 'refineExistRoadmap', 'getNearestNeighborsOnGraph', 'getSolutionPath',
    'getInterpolatedSolutionPath', 'setup', 'updateFreeSpaceRobot', 'exponentialFunction',
    'exponentialFunctionMatrixForm', 'getTransform', 'treeFromFile', 'setCollisionObjectFromSQ', 'getBoundary3D',
    'getBoundaryFromMatrix', 'getBodyShapes', 'isEllipseSeparated', 'isEllipsoidSeparated',
    'isStateValid', 'transformRobot', 'isSeparated', 'getSolution', 'setPlanner', 'setValidStateSampler',
    'setCollisionObject', 'setStateSpace', 'setStartAndGoalState', 'getRootsPolynomial', 'addChildrenToTree',
    'treeFromUrdfModel', 'treeFromXml',
)


def template(c, q, name, targ):
    """Member function `name` of the class template `q` instantiated for `targ`."""
    from ..load import AnalysisBroken

    def find():
        fs = [f for f in c.P.byq.get(q + '::' + name, []) if targ in f.usr]
        if not fs:
            raise AnalysisBroken('%s<%s>::%s not found' % (q, targ, name))
        return fs[0]
    return find


def method(c, q, name, nparams=None):
    return lambda: c.method(q, name, None, nparams)


def usr(c, q, targ=None):
    from ..load import AnalysisBroken
    try:
        return c.cls(q, targ).usr
    except AnalysisBroken:
        return None


def overload(c, q, name, frag):
    from ..load import AnalysisBroken
    fs = [f for f in c.P.byq.get(q + '::' + name, []) if frag in f.usr]
    if not fs:
        raise AnalysisBroken('%s::%s(%s) not found' % (q, name, frag))
    return fs[0]


def monic(t):
    """Polynomials handed to the root finder have the same roots up to a factor."""
    from .. import terms as TM
    from ..engine import replace, mkseq
    for x in [x for x in TM.subterms(t) if x.op == 'call' and x.args[0] == 'getRootsPolynomial' and len(x.args) == 2]:
        k = TM.size(x.args[1])
        if k.op == 'num' and 0 < k.args[0] <= 8:
            es = [TM.idx(x.args[1], TM.num(i)) for i in range(int(k.args[0]))]
            t = replace(t, x, TM.call(x.args[0], mkseq(*[TM.div(e, es[0]) for e in es])))
    return t


def sized(**dims):
    """Rewrite for parameters of declared run-time length: P0=6 means the first parameter has six entries."""
    def go(t):
        from .. import terms as TM
        from ..engine import replace
        for x in [x for x in TM.subterms(t) if x.op == 'call' and x.args[0] == 'rows' and x.args[1].op == 'in']:
            p = x.args[1].args[0]
            if len(p) == 1 and p[0][0] == 'P' and 'P%d' % p[0][1] in dims:
                t = replace(t, x, TM.num(dims['P%d' % p[0][1]]))
        return t
    return go
