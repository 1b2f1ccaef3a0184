"""Registry of reference-model obligations.

Each entry decides that one function of the repository computes, for every
input, the values a short independent reference function (spec/*.cpp) computes
for the named observables.  Property rules pick the obligations that make up
the property."""
from .rules.common import *

GROUPS_2D = ['p2d']
GROUPS_3D = ['p2d', 'p3d']


class Ob:
    def __init__(self, name, find, spec, outs, src, cls=None, groups=None, **kw):
        self.name, self.find, self.spec, self.outs, self.src, self.cls = name, find, spec, outs, src, cls
        self.groups = groups or GROUPS_3D
        self.kw = kw


ALL = {}


def add(name, find, spec, outs, src, cls=None, groups=None, **kw):
    assert name not in ALL, name
    ALL[name] = Ob(name, find, spec, outs, src, cls, groups, **kw)


def m(q, name, np=None):
    return lambda c: method(c, q, name, np)


def tm(name, targ, q=HW):
    return lambda c: template(c, q, name, targ)


def fn(q, np=None, targ=None):
    return lambda c: (lambda: c.fn(q, np, targ))


def mu(q, name, frag):
    """Overload of a member function, by a part of its signature."""
    return lambda c: (lambda: overload(c, q, name, frag))


def fu(q, frag):
    return lambda c: (lambda: overload(c, *q.rsplit('::', 1), frag))


# ------------------------------------------------------------- planner core
for d, t, q, gr in (('2D', 'SuperEllipse', C2, GROUPS_2D), ('3D', 'SuperQuadrics', C3, GROUPS_3D)):
    def h(ob, name, spec, outs):
        add(ob + d, tm(name, t), spec + '<' + t, outs, 'highway', q, gr)
    h('plan', 'plan', 'plan', ['this.res_'])
    h('build', 'buildRoadmap', 'build', ['this'])
    h('refine', 'refineExistRoadmap', 'refine', ['this'])
    h('search', 'search', 'searchGraph', ['this.res_'])
    h('solution', 'getSolutionPath', 'solution', ['ret', 'this'])
    h('detour', 'bridgeVertex', 'detour', ['this.res_'])
    h('connect', 'connectOneSlice2D', 'connectSlice', ['this.res_'])

MADE = ['this.robot_', 'this.arena_', 'this.obs_', 'this.start_', 'this.goal_', 'this.param_', 'this.isRobotRigid_',
        'this.freeSpacePtr_', 'this.res_']
# ------------------------------------------------------------- free space
for d, t, gr in (('2D', 'SuperEllipse', GROUPS_2D), ('3D', 'SuperQuadrics', GROUPS_3D)):
    k = 'hrm::FreeSpace' + d
    add('line' + d, tm('computeSweepLineFreeSegment', t, FS), 'lineFree<' + t, ['ret'], 'freespace', k, gr)
    add('segments' + d, tm('computeFreeSegment', t, FS), 'freeSegment<' + t, ['this.segment_'], 'freespace', k, gr)
    add('enhance' + d, tm('enhanceFreeSegment', t, FS), 'enhance<' + t, ['this.segment_'], 'freespace', k, gr)
    add('crossings' + d, m(k, 'computeIntersectionInterval'), 'intersect' + d, ['this.intersect_'], 'freespace', k, gr)

    add('setup' + d, tm('setup', t, FS), 'setup<' + t, ['this.intersect_', 'this.lowBound_', 'this.upBound_'],
        'freespace', k, gr)
    add('bounds' + d, tm('computeCSpaceBoundary', t, FS), 'cSpaceBoundary<' + t, ['this'], 'freespace', k, gr)
    add('makeFree' + d, tm('FreeSpaceComputator', t, FS), 'MadeFree::MadeFree<' + t,
        ['this.robot_', 'this.arena_', 'this.obstacle_'], 'freespace', k, gr)
add('meshes3D', m('hrm::FreeSpace3D', 'computeCSpaceBoundaryMesh'), 'boundaryMesh3D', ['this.cSpaceBoundaryMesh_'],
    'freespace', 'hrm::FreeSpace3D', GROUPS_3D)
add('makePlanner2D', tm('HighwayRoadMap', 'SuperEllipse'), 'makePlanner<SuperEllipse', MADE[:-2] + ['this.res_', 'this.isRefine_'], 'highway', C2, GROUPS_2D)
add('makePlanner3D', tm('HighwayRoadMap', 'SuperQuadrics'), 'makePlanner<SuperQuadrics', MADE[:-2] + ['this.res_', 'this.isRefine_'], 'highway', C3,
    GROUPS_3D)
add('reached', fn('hrm::planners::AStarGoalVisitor::examine_vertex'), 'reached', ['throws'], 'hrm2d', None,
    GROUPS_2D + ['astar'])

for n in ('unions', 'intersects', 'complements'):
    add(n, fn('hrm::Interval::' + n), n, ['ret'], 'interval', None, GROUPS_2D)

# ------------------------------------------------------------- HRM2D, HRM2DKC
for ob, name, outs in (
        ('slice2D', 'constructOneSlice', ['this']), ('headings2D', 'sampleOrientations', ['this']),
        ('freeSpaceRobot2D', 'updateFreeSpaceRobot', ['this']), ('sweep2D', 'sweepLineProcess', ['this']),
        ('vertices2D', 'generateVertices', ['this']), ('multi2D', 'connectMultiSlice', ['this.res_']),
        ('exist2D', 'connectExistSlice', ['this.res_']), ('bridge2D', 'bridgeSlice', ['this']),
        ('same2D', 'isSameSliceTransitionFree', ['ret']), ('motion2D', 'isMultiSliceTransitionFree', ['ret']),
        ('point2D', 'isPtInCFree', ['ret']), ('nearest2D', 'getNearestNeighborsOnGraph', ['ret']),
        ('transform2D', 'setTransform', ['this']), ('tfe2D', 'computeTFE', ['P2'])):
    add(ob, m(C2, name), ob, outs, 'hrm2d', C2, GROUPS_2D)
add('freeSpaceRobotKC', m(K2, 'updateFreeSpaceRobot'), 'freeSpaceRobotKC', ['this.freeSpacePtr_'], 'hrm2d', K2,
    GROUPS_2D)
add('multiKC', m(K2, 'connectMultiSlice'), 'multiKC', ['this.res_'], 'hrm2d', K2, GROUPS_2D)

add('middleKC', m(K2, 'addMiddleVertex'), 'middleKC', ['ret'], 'hrm2d', K2, GROUPS_2D)
add('make2D', m(C2, 'HRM2D'), 'make2D', MADE, 'hrm2d', C2, GROUPS_2D)
add('segmentsOf2D', m(C2, 'getFreeSegmentOneSlice'), 'segmentsOf2D', ['ret', 'this'], 'hrm2d', C2, GROUPS_2D)

# ------------------------------------------------------------- HRM3D
add('make3D', m(C3, 'HRM3D'), 'make3D', MADE, 'hrm3d', C3, GROUPS_3D)
add('segmentsOf3D', m(C3, 'getFreeSegmentOneSlice'), 'segmentsOf3D', ['ret', 'this'], 'hrm3d', C3, GROUPS_3D)
add('meshOfSlice', m(C3, 'getSliceBoundaryMesh'), 'meshOfSlice', ['ret'], 'hrm3d', C3, GROUPS_3D)
add('boundOfSlice', m(C3, 'getSliceBoundary'), 'boundOfSlice', ['ret'], 'hrm3d', C3, GROUPS_3D)
for ob, name, outs in (
        ('slice3D', 'constructOneSlice', ['this']), ('orientations3D', 'sampleOrientations', ['this']),
        ('so3D', 'sampleSO3', ['this']),
        ('freeSpaceRobot3D', 'updateFreeSpaceRobot', ['this']), ('sweep3D', 'sweepLineProcess', ['this']),
        ('vertices3D', 'generateVertices', ['this']), ('planes3D', 'connectOneSlice3D', ['this']),
        ('multi3D', 'connectMultiSlice', ['this.res_']),
        ('exist3D', 'connectExistSlice', ['this.res_']), ('bridge3D', 'bridgeSlice', ['this']),
        ('interpolated3D', 'getInterpolatedSolutionPath', ['ret', 'this']),
        ('same3D', 'isSameSliceTransitionFree', ['ret']), ('motion3D', 'isMultiSliceTransitionFree', ['ret']),
        ('point3D', 'isPtInCFree', ['ret']), ('nearest3D', 'getNearestNeighborsOnGraph', ['ret']),
        ('transform3D', 'setTransform', ['this']), ('tfe3D', 'computeTFE', ['P2'])):
    add(ob, m(C3, name), ob, outs, 'hrm3d', C3, GROUPS_3D)

# ------------------------------------------------------------- ProbHRM3D and the ablated planner
for ob, name, outs in (
        ('planProb', 'plan', ['this.res_', 'this.param_']), ('orientationsProb', 'sampleOrientations', ['this']),
        ('multiProb', 'connectMultiSlice', ['this.res_']), ('verticesProb', 'generateVertices', ['this']),
        ('transformProb', 'setTransform', ['this']), ('tfeProb', 'computeTFE', ['P2'])):
    add(ob, m(CP, name), ob, outs, 'prob', CP, GROUPS_3D)
AB = 'hrm::planners::HRM3DAblation'
for suf, t in (('R', '@S@HRM3D'), ('P', '@S@ProbHRM3D')):
    for ob, name, outs in (('motionAbl', 'isMultiSliceTransitionFree', ['ret']),
                           ('bridgeAbl', 'bridgeSlice', ['this']), ('objectsAbl', 'setCollisionObject', ['this'])):
        add(ob + suf, tm(name, t + '@F', AB), ob + '<' + t + '>', outs, 'prob', None, ['p2d', 'p3d', 'abl'])
add('tfeAblR', tm('computeTFE', '@S@HRM3D@F@computeTFE#&1$@N@Eigen', AB), 'tfeAbl<@S@HRM3D>', ['P2'], 'prob', None,
    ['p2d', 'p3d', 'abl'])
add('tfeAblP', tm('computeTFE', '@S@ProbHRM3D@F@computeTFE#&1$@N@std', AB), 'tfeAblProb', ['P2'], 'prob', None,
    ['p2d', 'p3d', 'abl'])


# ------------------------------------------------------------- multi-body robots
M2, M3 = 'hrm::MultiBodyTree2D', 'hrm::MultiBodyTree3D'
for ob, q, name, outs in (
        ('addBody2D', M2, 'addBody', ['this']), ('place2D', M2, 'robotTF', ['this']), ('mink2D', M2, 'minkSum', ['ret']),
        ('shapes3D', M3, 'getBodyShapes', ['ret']), ('addBody3D', M3, 'addBody', ['this']),
        ('mink3D', M3, 'minkSum', ['ret'])):
    add(ob, m(q, name), ob, outs, 'body', q, GROUPS_3D)
add('place3D', m(M3, 'robotTF', 1), 'place3D', ['this'], 'body', M3)
add('placeTree3D', mu(M3, 'robotTF', 'ParseURDF'), 'placeTree3D', ['this'], 'body', M3)
add('placeFile3D', mu(M3, 'robotTF', 'basic_string'), 'placeFile3D', ['this'], 'body', M3)


# ------------------------------------------------------------- shapes
SE, SQ = 'hrm::SuperEllipse', 'hrm::SuperQuadrics'
GEO = ['p2d', 'p3d', 'geo']
add('expfun', fn('hrm::exponentialFunction'), 'expfun', ['ret'], 'geom', None, GEO)
add('euclidean', fn('hrm::vectorEuclidean'), 'euclidean', ['ret'], 'geom', None, GROUPS_2D)
add('inPoly', fn('hrm::isPtInPoly'), 'inPoly', ['ret'], 'geom', None, GROUPS_2D)
add('origin2D', m(SE, 'getOriginShape'), 'origin2D', ['ret'], 'geom', SE, GROUPS_2D)
add('makeEllipse', m(SE, 'SuperEllipse', 5), 'makeEllipse', ['this'], 'geom', SE, GROUPS_2D)
add('sum2D', m(SE, 'getMinkSum2D'), 'ellipseSum', ['ret'], 'geom', SE, GROUPS_2D)
add('expmat', fn('hrm::exponentialFunctionMatrixForm'), 'expmat', ['ret'], 'geom', None, GEO)
add('makeQuadric', m(SQ, 'SuperQuadrics', 5), 'makeQuadric', ['this'], 'geom', SQ, GEO)
add('origin3D', m(SQ, 'getOriginShape'), 'origin3D', ['ret'], 'geom', SQ, GEO)
add('sum3D', m(SQ, 'getMinkSum3D'), 'quadricSum', ['ret'], 'geom', SQ, GEO)
for n, k, q in (('ellipseAxes', SE, 'setSemiAxis'), ('ellipseExponent', SE, 'setEpsilon'),
                ('ellipseAt', SE, 'setPosition'), ('ellipseTurn', SE, 'setAngle'), ('quadricAxes', SQ, 'setSemiAxis'),
                ('quadricExponent', SQ, 'setEpsilon'), ('quadricAt', SQ, 'setPosition'),
                ('quadricTurn', SQ, 'setQuaternion'), ('quadricSamples', SQ, 'setQuatSamples')):
    add(n, m(k, q), n, ['this'], 'geom', k, GEO)
for n, q in (('mvce2D', 'getMVCE2D'), ('mvce3D', 'getMVCE3D'), ('tightFit2D', 'getTFE2D'), ('tightFit3D', 'getTFE3D'),
             ('interpRn', 'interpolateRn'), ('interpSlerp', 'interpolateSlerp'), ('interpAxis', 'interpolateAngleAxis'),
             ('interpSE3', 'interpolateSE3'), ('interpCompound', 'interpolateCompoundSE3Rn')):
    add(n, fn('hrm::' + q), n, ['ret'], 'geom', None, GEO)
for n, q, outs in (
        ('lineMesh', 'intersectLineMesh3D', ['ret']), ('verticalMesh', 'intersectVerticalLineMesh3D', ['ret']),
        ('lineTriangle', 'intersectLineTriangle3D', ['ret', 'P4']), ('segPolygon', 'isIntersectSegPolygon2D', ['ret']),
        ('linePolygon', 'intersectHorizontalLinePolygon2D', ['ret']), ('gridMesh', 'getMeshFromParamSurface', ['ret']),
        ('columns', 'getBoundaryFromMatrix', ['ret']), ('boundary', 'getBoundary3D', ['ret']),
        ('meshOfShape', 'getMeshFromSQ', ['ret'])):
    # a Line3D is a point and a direction: six entries
    add(n, fn('hrm::' + q), n, outs, 'lineint', None, GEO, **(dict(rewrite=sized(P0=6)) if 'Line' in q and '3D' in q else {}))

for k, u, g in (('Quadrics', '&1$@N@hrm@S@SuperQuadrics', 'Quadric'), ('Ellipses', '&1$@N@hrm@S@SuperEllipse', 'Ellipse')):
    add('collide' + k, fu('hrm::isCollision', u), 'collide' + k, ['ret'], 'coll', None, GEO)
    add('modelOf' + g, fu('hrm::setCollisionObjectFromSQ', u), 'modelOf' + g, ['ret'], 'coll', None, GEO)

add('separated2D', fn('hrm::isEllipseSeparated'), 'separated2D', ['ret'], 'sep', None, GEO, rewrite=monic)
add('separated3D', fn('hrm::isEllipsoidSeparated'), 'separated3D', ['ret'], 'sep', None, GEO, rewrite=monic)
add('polynomialRoots', fn('hrm::getRootsPolynomial'), 'polynomialRoots', ['ret'], 'sep', None, GEO)


# ------------------------------------------------------------- sampling-based planners
OI = 'hrm::planners::ompl_interface::'
OMPL = ['p2d', 'p3d', 'ompl']
for c_, n in (('OMPL2D', 'planar'), ('OMPL3D', 'spatial'), ('OMPL3DArticulated', 'jointed')):
    for name, spec, outs in (('setVectorFromState', 'Vector', ['ret']), ('setStateFromVector', 'State', ['P1']),
                             ('setStateSpace', 'Space', ['this']), ('transformRobot', 'Robot', ['ret']),
                             ('setCollisionObject', 'Models', ['this']), ('isSeparated', 'Free', ['ret']),
                             ('getSolution', 'Result', ['this'])):
        if n != 'jointed' or spec in ('Vector', 'State', 'Space', 'Robot'):
            add(n + spec, m(OI + c_, name), n + spec, outs, 'ompl', OI + c_, OMPL)
for d, t in (('2D', 'SuperEllipse'), ('3D', 'SuperQuadrics')):
    for n, q, outs in (('valid', 'isStateValid', ['ret']), ('prepare', 'setup', ['this']), ('planOnce', 'plan', ['this', 'ret']),
                       ('choosePlanner', 'setPlanner', ['this']), ('chooseSampler', 'setValidStateSampler', ['this']),
                       ('endStates', 'setStartAndGoalState', ['this'])):
        add(n + d, tm(q, t, OI + 'OMPLInterface'), n + '<' + t, outs, 'ompl', OI + 'OMPL' + d, OMPL)


for d, t in (('2D', 'MultiBodyTree2D'), ('3D', 'MultiBodyTree3D')):
    add('makeOmpl' + d, tm('OMPLInterface', t, OI + 'OMPLInterface'), 'MadeOmpl::MadeOmpl<' + t,
        ['this.robot_', 'this.arena_', 'this.lowBound_', 'this.highBound_', 'this.obstacle_'], 'ompl', OI + 'OMPL' + d, OMPL)
MADE_OMPL = ['this.robot_', 'this.arena_', 'this.lowBound_', 'this.highBound_', 'this.obstacle_']
add('makePlanar', m(OI + 'OMPL2D', 'OMPL2D', 5), 'MadePlanar::MadePlanar', MADE_OMPL, 'ompl', OI + 'OMPL2D', OMPL)
add('makeSpatial', m(OI + 'OMPL3D', 'OMPL3D', 6), 'MadeSpatial::MadeSpatial', MADE_OMPL + ['this.obsMesh_'], 'ompl',
    OI + 'OMPL3D', OMPL)
add('makeJointed', m(OI + 'OMPL3DArticulated', 'OMPL3DArticulated', 7), 'MadeJointed::MadeJointed',
    MADE_OMPL + ['this.obsMesh_', 'this.urdfFile_'], 'ompl', OI + 'OMPL3DArticulated', OMPL)
add('jointedTree', m(OI + 'OMPL3DArticulated', 'OMPL3DArticulated', 7), 'makeJointed',
    ['this.kdl_', 'this.numJoint_'], 'ompl', OI + 'OMPL3DArticulated', OMPL)


# ------------------------------------------------------------- robot descriptions
KP, KDL = 'kdl_parser::', ['p3d', 'kdl']
for n, frag in (('kdlVector', 'Vector3'), ('kdlRotation', 'S@Rotation#'), ('kdlFrame', 'Pose'), ('kdlJoint', 'shared_ptr>#$@N@urdf@S@Joint#'),
                ('kdlInertia', 'Inertial')):
    add(n, fu(KP + 'toKdl', frag), n, ['ret'], 'kdl', None, KDL)
add('kdlBranch', fn(KP + 'addChildrenToTree'), 'kdlBranch', ['ret', 'P1'], 'kdl', None, KDL, recursive=True)
for n, q in (('kdlTree', 'treeFromUrdfModel'), ('kdlFromXml', 'treeFromXml'), ('kdlFromFile', 'treeFromFile'),
             ('kdlFromText', 'treeFromString')):
    add(n, fn(KP + q), n, ['ret', 'P1'], 'kdl', None, KDL)
PU = 'hrm::ParseURDF'
add('robotOfTree', mu(PU, 'ParseURDF', 'Tree'), 'RobotOfTree::RobotOfTree', ['this.kdlTree_'], 'kdl', PU, KDL)
add('robotOfFile', mu(PU, 'ParseURDF', 'basic_string'), 'RobotOfFile::RobotOfFile', ['this.kdlTree_'], 'kdl', PU, KDL)
add('poseOfBody', m(PU, 'getTransform'), 'poseOfBody', ['ret'], 'kdl', PU, KDL)


# ------------------------------------------------------------- accessors
# name, class (instance fragment), method, field
def field(name, q, meth, path, groups, targ=None):
    assert name not in ALL, name
    o = Ob(name, m(q, meth, 0) if targ is None else tm(meth, targ, q), None, None, None, None, groups)
    o.path = path
    ALL[name] = o


ACCESS = {}


def fields(key, q, groups, targ=None, **kw):
    ACCESS.setdefault(key, [])
    for meth, path in kw.items():
        n = '%s%s.%s' % (q.rsplit('::', 1)[-1], ':' + targ if targ else '', meth)
        field(n, q, meth, path, groups, targ)
        ACCESS[key].append(n)


for t in ('SuperEllipse', 'SuperQuadrics'):
    fields('ompl', OI + 'OMPLInterface', OMPL, t, getSolutionPath='path_', getInterpolatedSolutionPath='path_interp_',
           isSolved='isSolved_', getPlanningTime='totalTime_', getNumCollisionChecks='numCollisionChecks_',
           getNumValidStates='numValidStates_', getValidStatePercent='validSpace_', getNumVertex='numGraphVertex_',
           getNumEdges='numGraphEdges_', getPathLength='lengthPath_', getVertices='vertex_', getEdges='edge_')
    fields('hrm', HW, GROUPS_3D, t, getPlanningResult='res_', getPlannerParameters='param_', getRobot='robot_',
           getArena='arena_', getObstacle='obs_', getCSpaceBoundary='sliceBoundAll_', getStart='start_', getGoal='goal_')
    fields('free', FS, GROUPS_3D, t, getCSpaceBoundary='cSpaceBoundary_')
for t in ('2D', '3D'):
    fields('body', 'hrm::MultiBodyTree' + t, GROUPS_3D, None, getBase='base_', getLinks='link_', getTF='tf_')
fields('shape', SE, GROUPS_3D, None, getSemiAxis='semiAxis_', getEpsilon='epsilon_', getPosition='position_', getAngle='angle_',
       getNum='num_')
fields('shape', SQ, GROUPS_3D, None, getSemiAxis='semiAxis_', getEpsilon='epsilon_', getPosition='position_',
       getQuaternion='quat_', getNum='Num_', getNumParam='num_')


fields('urdf', PU, KDL, None, getKDLTree='kdlTree_')


# ------------------------------------------------------------- use
def sources(names):
    return sorted({ALL[n].src for n in names} - {None})


def groups(names):
    g = []
    for n in names:
        for x in ALL[n].groups:
            if x not in g:
                g.append(x)
    return g


def queue(c, names):
    for n in names:
        o = ALL[n]
        if o.spec is None:
            c.getter(n, o.find(c), o.path)
            continue
        c.ref(n, o.find(c), o.spec, o.outs, usr(c, o.cls) if o.cls else None, BOUND, **o.kw)
