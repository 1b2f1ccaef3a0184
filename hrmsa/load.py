"""Extraction driver and the merged, type-resolved program."""
import json
import os
import subprocess
import sys
import tempfile
import shutil
import glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HRM_REPO', '/repo')

BASE_FLAGS = ['-std=c++17', '-fno-access-control', '-DNDEBUG', '-w', '-ferror-limit=0',
              '-isystem', '/usr/include/ompl-1.5', '-isystem', '/usr/include/eigen3',
              '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor vanished, parse error)."""


def build_extractor():
    pre = os.path.join(VERIF, 'extractor', 'bin', 'hrmx')
    src = os.path.join(VERIF, 'extractor', 'hrmx.cpp')
    stamp = os.path.join(VERIF, 'extractor', 'bin', 'hrmx.sha256')
    import hashlib
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.access(pre, os.X_OK) and os.path.exists(stamp) and open(stamp).read().strip() == h:
        r = subprocess.run([pre], capture_output=True)
        if r.returncode == 2:
            return pre
    out = os.path.join(VERIF, 'build')
    b = os.path.join(out, 'hrmx')
    subprocess.run(['bash', os.path.join(VERIF, 'extractor', 'build.sh'), out], check=True)
    return b


# groups of translation units; each group is parsed as one unit (fast) and, if
# that does not compile on its own, file by file.
GROUPS = {
    'p2d': ['planners/HighwayRoadMap', 'planners/HRM2D', 'planners/HRM2DKC', 'datastructure/FreeSpace2D',
            'datastructure/Interval', 'datastructure/MultiBodyTree2D', 'geometry/LineIntersection',
            'geometry/PointInPoly', 'geometry/SuperEllipse', 'geometry/TightFitEllipsoid', 'util/DistanceMetric'],
    'p3d': ['planners/HRM3D', 'planners/ProbHRM3D', 'datastructure/FreeSpace3D', 'datastructure/MultiBodyTree3D',
            'geometry/SuperQuadrics', 'util/InterpolateSE3', 'util/ParseURDF'],
    'geo': ['geometry/MeshGenerator', 'util/EllipsoidSeparation', 'util/EllipsoidSQCollisionFCL',
            'util/ExponentialFunction', 'util/Parse2dCsvFile'],
    'abl': ['@ablation'],
    'astar': ['@astar'],
    'ompl': ['@ompl'],
    'kdl': ['util/external/kdl_parser/src/kdl_parser/kdl_parser'],
}
STUBS = {
    '@ablation': '''#include "hrm/planners/HRM3D.h"
#include "hrm/planners/ProbHRM3D.h"
#include "hrm/planners/HRM3DAblation.h"
using AblP = hrm::planners::HRM3DAblation<hrm::planners::ProbHRM3D>;
using AblR = hrm::planners::HRM3DAblation<hrm::planners::HRM3D>;
AblP* hrmsa_make_ablp(const hrm::MultiBodyTree3D& r, const std::string u, const std::vector<hrm::SuperQuadrics>& a,
  const std::vector<hrm::SuperQuadrics>& o, const hrm::PlanningRequest& q) { return new AblP(r, u, a, o, q); }
AblR* hrmsa_make_ablr(const hrm::MultiBodyTree3D& r, const std::vector<hrm::SuperQuadrics>& a,
  const std::vector<hrm::SuperQuadrics>& o, const hrm::PlanningRequest& q) { return new AblR(r, a, o, q); }
''',
    '@astar': '''#include "hrm/planners/HRM2D.h"
template void hrm::planners::AStarGoalVisitor<hrm::planners::Vertex>::examine_vertex(
  hrm::planners::Vertex, const hrm::planners::AdjGraph&);
''',
    '@ompl': '''#include "planners/ompl_interface/OMPL2D.cpp"
#include "planners/ompl_interface/OMPL3D.cpp"
#include "planners/ompl_interface/OMPL3DArticulated.cpp"
#include "hrm/planners/ompl_interface/OMPLInterface.h"
template class hrm::planners::ompl_interface::OMPLInterface<hrm::MultiBodyTree2D, hrm::SuperEllipse>;
template class hrm::planners::ompl_interface::OMPLInterface<hrm::MultiBodyTree3D, hrm::SuperQuadrics>;
''',
}


def flags(inc):
    r = REPO
    return (['-I' + inc, '-I' + r, '-I' + r + '/include', '-I' + r + '/src',
             '-I' + r + '/src/util/external/kdl_parser/include',
             '-I' + VERIF + '/spec'] + BASE_FLAGS)


def _extract(hrmx, tmp, name, text, inc, roots):
    src = os.path.join(tmp, name + '.cpp')
    out = os.path.join(tmp, name + '.json')
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run([hrmx] + ['--root=' + x for x in roots] + ['-o', out, src, '--'] + flags(inc),
                       capture_output=True, text=True)
    if not os.path.exists(out):
        raise AnalysisBroken('extractor failed on %s: %s' % (name, r.stderr[-2000:]))
    d = json.load(open(out))
    d['stderr'] = r.stderr
    return d


def drop_errors(d):
    """A reference function that no longer type-checks against the current
    declarations is dropped (its obligations become undetermined)."""
    import re
    lines = {}
    for m in re.finditer(r'^(/[^:\n]*):(\d+):\d+: (?:fatal )?error:', d['stderr'], re.M):
        lines.setdefault(os.path.realpath(m.group(1)), []).append(int(m.group(2)))
    sp = os.path.realpath(os.path.join(VERIF, 'spec')) + os.sep
    if not lines or any(not f.startswith(sp) for f in lines):
        return False
    starts = {}
    for f in d['functions']:
        starts.setdefault(os.path.realpath(f['file']), []).append(f['l'])
    bad = set()
    for f, ls in lines.items():
        st = sorted(starts.get(f, []))
        for l in ls:
            le = [x for x in st if x <= l]
            if le:
                bad.add((f, le[-1]))
    d['dropped'] = sorted('%s:%d' % b for b in bad)
    d['functions'] = [f for f in d['functions'] if (os.path.realpath(f['file']), f['l']) not in bad]
    return True


def extract(groups, spec=None):
    """groups: list of GROUPS keys; spec: list of extra C++ files (under
    /verif/spec) parsed as one unit with the repository's headers."""
    hrmx = build_extractor()
    tmp = tempfile.mkdtemp(prefix='hrmsa.')
    try:
        inc = os.path.join(tmp, 'inc')
        os.makedirs(os.path.join(inc, 'hrm'))
        with open(os.path.join(inc, 'hrm', 'config.h'), 'w') as f:
            for m in ('RESOURCES_PATH', 'CONFIG_PATH', 'BENCHMARK_DATA_PATH', 'SOLUTION_DETAILS_PATH'):
                f.write('#define %s "%s"\n' % (m, m))
        roots = [REPO, VERIF + '/spec', tmp]
        jobs = []
        for g in groups:
            text = ''
            for p in GROUPS[g]:
                if p.startswith('@'):
                    text += STUBS[p]
                else:
                    f = REPO + '/src/' + p + '.cpp'
                    if not os.path.exists(f):
                        continue        # moved: found with the other sources below
                    text += '#include "%s.cpp"\n' % p
            jobs.append((g, text, [GROUPS[g]]))
        # sources added next to the known ones are analysed too
        known = {p for g in GROUPS.values() for p in g} | {
            'planners/ompl_interface/' + n for n in ('OMPL2D', 'OMPL3D', 'OMPL3DArticulated')}
        extra = []
        for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
            p = os.path.relpath(f, REPO + '/src')[:-4]
            if p not in known and p != 'util/GeomUtils' and not p.startswith(('test/', 'util/external/')):
                extra.append(p)
        if groups and extra:
            jobs.append(('extra', ''.join('#include "%s.cpp"\n' % p for p in extra), [extra]))
        for s in spec or []:
            jobs.append(('spec_' + os.path.basename(s).replace('.', '_'), '#include "%s"\n' % s, None))

        def run(j):
            d = _extract(hrmx, tmp, j[0], j[1], inc, roots)
            if d['errors'] and j[2] and not any(p.startswith('@') for p in j[2][0]):
                ds = []
                for p in j[2][0]:
                    if not os.path.exists(REPO + '/src/' + p + '.cpp'):
                        continue
                    x = _extract(hrmx, tmp, p.replace('/', '_'), '#include "%s.cpp"\n' % p, inc, roots)
                    if x['errors'] and j[0] == 'extra':
                        continue        # not part of the build
                    if x['errors']:
                        raise AnalysisBroken('parse errors in %s\n%s' % (p, x['stderr'][-1500:]))
                    ds.append(x)
                return ds
            if d['errors'] and j[2] is None and drop_errors(d):
                return [d]
            if d['errors']:
                raise AnalysisBroken('parse errors in %s\n%s' % (j[0], d['stderr'][-3000:]))
            return [d]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, jobs))
        return Program([d for ds in res for d in ds])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Fn:
    __slots__ = ('usr', 'q', 'name', 'tu', 'j', 'cls', 'file', 'line', 'ent')

    def __init__(self, usr, ent, tu, j):
        self.usr = usr
        self.ent = ent
        self.q = ent['q']
        self.name = ent['n']
        self.tu = tu
        self.j = j
        self.cls = ent.get('cu')
        self.file = j['file']
        self.line = j['l']

    def loc(self):
        return '%s:%d' % (self.file.replace(REPO + '/', ''), self.line)


class Cls:
    __slots__ = ('usr', 'q', 'tu', 'j', 'bases', 'fields', 'methods', 't')


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.fns = {}
        self.byq = {}
        self.cls = {}
        self.clsq = {}
        self.globals = {}
        for n, d in enumerate(tus):
            d['n'] = n
            for f in d['fns']:
                if f['u'].startswith('L#'):
                    f['u'] = '%d%s' % (n, f['u'])
                if f.get('cu', '').startswith('L#'):
                    f['cu'] = '%d%s' % (n, f['cu'])
            for t in d['types']:
                if t and t.get('u', '0') and str(t.get('u', '')).startswith('L#'):
                    t['u'] = '%d%s' % (n, t['u'])
            for f in d['functions']:
                u = f['u']
                if u.startswith('L#'):
                    u = '%d%s' % (n, u)
                if u in self.fns:
                    continue
                fn = Fn(u, d['fns'][f['fn']], d, f)
                self.fns[u] = fn
                self.byq.setdefault(fn.q, []).append(fn)
            for c in d['classes']:
                u = c['u']
                if u.startswith('L#'):
                    u = '%d%s' % (n, u)
                if u in self.cls:
                    continue
                k = Cls()
                k.usr = u
                k.q = c['q']
                k.tu = d
                k.j = c
                k.t = d['types'][c['t']].get('s', c['q'])
                k.bases = [b.get('u') for b in c['bases']]
                k.fields = c['fields']
                k.methods = c['methods']
                self.cls[u] = k
                self.clsq.setdefault(k.q, []).append(k)
            for g in d['globals']:
                self.globals.setdefault(g['q'], (d, g))
        self._vt = {}

    # ---- classes
    def linear(self, u):
        """Class and all its (repository) bases, most derived first."""
        out = []
        st = [u]
        while st:
            x = st.pop(0)
            if x in out or x not in self.cls:
                continue
            out.append(x)
            st.extend(b for b in self.cls[x].bases if b)
        return out

    def derived(self, u):
        return [c for c in self.cls if u in self.linear(c)]

    def vtable(self, u):
        """overridden usr -> final overrider usr for concrete class u."""
        if u in self._vt:
            return self._vt[u]
        vt = {}
        for c in reversed(self.linear(u)):
            k = self.cls[c]
            for m in k.methods:
                e = k.tu['fns'][m['fn']]
                mu = e['u']
                if e.get('v'):
                    vt[mu] = mu
                    for o in m['over']:
                        seen = {o}
                        # everything currently resolving to o, and o itself
                        for a, b in list(vt.items()):
                            if b == o or a == o:
                                vt[a] = mu
                        vt[o] = mu
        self._vt[u] = vt
        return vt

    def cls1(self, q, targs=None):
        cs = self.clsq.get(q, [])
        if targs is not None:
            cs = [c for c in cs if targs in c.t.replace(' ', '')]
        if len(cs) != 1:
            raise AnalysisBroken('class %s %s: %d definitions found' % (q, targs or '', len(cs)))
        return cs[0]

    def find_method(self, cusr, name, nparams=None):
        """Most derived definition of method `name` for class cusr."""
        for c in self.linear(cusr):
            k = self.cls[c]
            for m in k.methods:
                e = k.tu['fns'][m['fn']]
                if e['n'] == name and (nparams is None or len(e['p']) == nparams):
                    f = self.fns.get(e['u'])
                    if f:
                        return f
        return None

    def fields_of(self, cusr):
        out = []
        for c in reversed(self.linear(cusr)):
            k = self.cls[c]
            for f in k.fields:
                out.append((k, f))
        return out
