"""Property table: which obligations make up each property.

OBS lists registry obligations (hrmsa/obs.py); a module hrmsa/rules/pXX.py with
run(c) adds property-specific queries (GROUPS and SPEC name what it needs)."""
from . import obs

REF = ('for every input, the named observables of each listed function have the same canonical value as in an '
       'independently written reference function; the values come from an abstract interpretation of the source '
       '(gated values, all paths joined, loops closed or summarised, callees inlined or verified separately)')

# functions a guarantee rests on, by topic
LINES = ['lineMesh', 'verticalMesh', 'lineTriangle', 'segPolygon', 'linePolygon']
MESH = ['gridMesh', 'columns', 'boundary', 'meshOfShape']
BODY = ['addBody2D', 'place2D', 'mink2D', 'shapes3D', 'addBody3D', 'mink3D', 'place3D', 'placeTree3D', 'placeFile3D']
INTERP = ['interpRn', 'interpSlerp', 'interpAxis', 'interpSE3', 'interpCompound']
SHAPES = ['expfun', 'expmat', 'origin2D', 'origin3D', 'sum2D', 'sum3D', 'makeEllipse', 'makeQuadric', 'ellipseAxes',
          'ellipseExponent', 'ellipseAt', 'ellipseTurn', 'quadricAxes', 'quadricExponent', 'quadricAt', 'quadricTurn',
          'quadricSamples']
FIT = ['mvce2D', 'mvce3D', 'tightFit2D', 'tightFit3D']
FREE = ['line2D', 'line3D', 'segments2D', 'segments3D', 'enhance2D', 'enhance3D', 'crossings2D', 'crossings3D',
        'setup2D', 'setup3D']
SCENE = ['bounds2D', 'bounds3D', 'makeFree2D', 'makeFree3D', 'meshes3D']
MAKE = ['makePlanner2D', 'makePlanner3D', 'make2D', 'make3D']
VIEW = ['segmentsOf2D', 'segmentsOf3D', 'meshOfSlice', 'boundOfSlice']
SETS = ['unions', 'intersects', 'complements']
POSE = ['transform2D', 'transform3D', 'transformProb']

OMPLNEW = ['makeOmpl2D', 'makeOmpl3D']

PROPS = {
    'P01': dict(obs=['connect2D', 'connect3D', 'detour2D', 'detour3D', 'multi2D', 'exist2D', 'multiKC',
                     'planes3D', 'multi3D', 'exist3D', 'multiProb', 'euclidean']),
    'P02': dict(obs=['connect2D', 'connect3D', 'detour2D', 'detour3D', 'multi2D', 'exist2D', 'multiKC',
                     'planes3D', 'multi3D', 'exist3D', 'multiProb', 'middleKC']),
    'P03': dict(obs=['motion2D', 'point2D', 'motion3D', 'point3D', 'motionAblR', 'motionAblP', 'objectsAblR',
                     'objectsAblP', 'inPoly', 'verticalMesh', 'lineMesh', 'lineTriangle', 'linePolygon',
                     'interpCompound'] + POSE),
    'P04': dict(obs=['same2D', 'same3D', 'segPolygon', 'lineMesh', 'lineTriangle']),
    'P05': dict(obs=['slice2D', 'freeSpaceRobot2D', 'freeSpaceRobotKC', 'vertices2D', 'build2D', 'build3D',
                     'slice3D', 'freeSpaceRobot3D', 'vertices3D', 'verticesProb', 'orientations3D',
                     'orientationsProb', 'planProb'] + POSE + SCENE + ['place2D', 'place3D', 'placeTree3D',
                                                                      'mink2D', 'mink3D']),
    'P06': dict(obs=['refine2D', 'refine3D', 'slice2D', 'slice3D', 'exist2D', 'exist3D', 'sweep2D', 'sweep3D',
                     'vertices2D', 'vertices3D', 'verticesProb', 'plan2D', 'plan3D', 'planProb', 'setup2D',
                     'setup3D'] + VIEW),
    'P07': dict(obs=FREE + SETS + ['linePolygon', 'verticalMesh', 'lineTriangle', 'sweep2D', 'sweep3D'] + MAKE),
    'P08': dict(obs=SETS),
    'P09': dict(obs=['search2D', 'search3D', 'reached', 'euclidean', 'solution2D', 'solution3D']),
    'P10': dict(obs=['plan2D', 'plan3D', 'planProb', 'refine2D', 'refine3D', 'solution2D', 'solution3D', 'search2D', 'search3D',
                     'interpolated3D', 'reached'] + MAKE + INTERP + obs.ACCESS['hrm']),
    'P11': dict(obs=['plan2D', 'plan3D', 'planProb', 'refine2D', 'refine3D']),
    'P12': dict(obs=BODY + obs.ACCESS['body'] + POSE + ['tfe2D', 'bridge2D', 'tfe3D', 'bridge3D', 'tfeProb', 'setup2D', 'setup3D']),
    'P13': dict(obs=INTERP + POSE + ['vertices2D', 'vertices3D', 'verticesProb', 'slice2D', 'slice3D', 'motion2D',
                                     'motion3D', 'nearest2D', 'nearest3D', 'orientationsProb', 'interpolated3D',
                                     'solution2D', 'solution3D', 'tfeProb', 'multiProb', 'placeTree3D']
                + [a + b for a in ('planar', 'spatial', 'jointed') for b in ('Vector', 'State', 'Robot')]),
    'P14': dict(obs=[a + b for a in ('planar', 'spatial', 'jointed') for b in ('Vector', 'State', 'Space', 'Robot')]
                + ['endStates2D', 'endStates3D', 'makePlanar', 'makeSpatial', 'makeJointed', 'jointedTree'] + OMPLNEW),
    'P15': dict(obs=['prepare2D', 'prepare3D', 'valid2D', 'valid3D', 'choosePlanner2D', 'choosePlanner3D',
                     'chooseSampler2D', 'chooseSampler3D', 'planarSpace', 'spatialSpace', 'jointedSpace', 'planarRobot',
                     'spatialRobot', 'jointedRobot', 'planarFree', 'spatialFree', 'planarModels', 'spatialModels',
                     'planOnce2D', 'planOnce3D', 'endStates2D', 'endStates3D'] + OMPLNEW),
    'P16': dict(obs=['planOnce2D', 'planOnce3D', 'endStates2D', 'endStates3D', 'planarResult', 'spatialResult', 'planarVector', 'spatialVector',
                     'jointedVector'] + obs.ACCESS['ompl']),
    'P17': dict(obs=['collideQuadrics', 'collideEllipses', 'modelOfQuadric', 'modelOfEllipse', 'planarModels',
                     'spatialModels', 'planarFree', 'spatialFree', 'planarRobot', 'spatialRobot', 'jointedRobot',
                     'motionAblR', 'motionAblP', 'objectsAblR', 'objectsAblP', 'meshOfShape'] + POSE
                + ['placeTree3D']),
    'P18': dict(obs=['separated2D', 'separated3D', 'polynomialRoots', 'objectsAblR', 'objectsAblP']),
    'P19': dict(obs=INTERP + ['interpolated3D', 'motion2D', 'motion3D']),
    'P21': dict(obs=[]),
    'P23': dict(obs=LINES + ['crossings2D', 'crossings3D', 'point2D', 'point3D', 'same2D', 'same3D', 'complements',
                     'connect2D', 'connect3D', 'enhance2D', 'enhance3D', 'planes3D', 'multiKC', 'multiProb',
                     'interpolated3D']),
    'P22': dict(obs=[]),
    'P24': dict(obs=SCENE + MAKE + OMPLNEW + ['planarModels', 'spatialModels', 'objectsAblR', 'objectsAblP', 'solution2D',
                     'solution3D'] + obs.ACCESS['hrm'] + obs.ACCESS['ompl'] + obs.ACCESS['body'] + obs.ACCESS['shape']),
    'P25': dict(obs=['bridgeAblR', 'bridgeAblP', 'tfeAblR', 'tfeAblP', 'objectsAblR', 'objectsAblP',
                     'freeSpaceRobotKC', 'multiKC', 'transformProb', 'tfeProb', 'multiProb', 'planProb', 'verticesProb',
                     'jointedVector', 'jointedState', 'jointedSpace', 'jointedRobot']),
    'P26': dict(obs=['headings2D', 'sweep2D', 'motion2D', 'sweep3D', 'so3D', 'orientations3D', 'orientationsProb',
                     'motion3D', 'tfe2D', 'tfe3D', 'makeQuadric', 'origin2D', 'sum2D', 'tightFit2D', 'tightFit3D',
                     'make2D', 'make3D'] + INTERP),
    'P27': dict(obs=['tfe2D', 'bridge2D', 'tfe3D', 'bridge3D', 'tfeProb', 'bridgeAblR', 'bridgeAblP', 'tfeAblR', 'tfeAblP'] + FIT),
    'P28': dict(obs=SCENE + ['mink2D', 'mink3D', 'bridge2D', 'bridge3D', 'sum2D', 'sum3D', 'expfun', 'expmat',
                             'crossings2D', 'crossings3D']),
    'P29': dict(obs=['nearest2D', 'nearest3D', 'search2D', 'search3D', 'euclidean']),
    'P30': dict(obs=MESH + ['meshes3D', 'lineMesh', 'verticalMesh', 'lineTriangle', 'bridge3D', 'makeQuadric']),
    'P31': dict(obs=['kdlVector', 'kdlRotation', 'kdlFrame', 'kdlJoint', 'kdlInertia', 'kdlBranch', 'kdlTree',
                     'kdlFromXml', 'kdlFromFile', 'kdlFromText', 'robotOfTree', 'robotOfFile', 'poseOfBody',
                     'placeTree3D', 'placeFile3D'] + obs.ACCESS['urdf']),
    'P32': dict(obs=SHAPES + obs.ACCESS['shape']),
    'P36': dict(obs=LINES + ['crossings2D', 'crossings3D', 'same2D', 'same3D']),
}

NA = {
    'P33': 'a numerical fact about the construction of minimum-volume ellipsoids (eigenvalues of products of matrices); '
           'no dataflow or structural argument bounds it for every pair of ellipsoids',
    'P34': 'a liveness / completeness statement about sampling density against scene geometry; it quantifies over '
           'runtime resolution and clearance that no sound static argument bounds',
    'P35': 'the motion test samples finitely many poses; whether the continuous motion between samples is free depends '
           'on runtime geometry, and the tests of the samples themselves are decided by P03, P04 and P27',
}
