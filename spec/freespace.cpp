// Reference model: free segments of a slice (P05, P07, P23, P28).
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"

namespace spec {
using namespace hrm;

// one row per sweep line, one column per (body, object) pair
template <class R, class O>
void setup(FreeSpaceComputator<R, O>& self, const unsigned int numLine, const double low, const double upp) {
    self.lowBound_ = low;
    self.upBound_ = upp;
    const size_t bodies = self.robot_.getNumLinks() + 1;
    const std::vector<Coordinate> rowLow(bodies * self.arena_.size(), low);
    const std::vector<Coordinate> rowUpp(bodies * self.arena_.size(), upp);
    const std::vector<Coordinate> rowObs(bodies * self.obstacle_.size(), NAN);
    self.intersect_.arenaLow.resize(numLine, rowLow);
    self.intersect_.arenaUpp.resize(numLine, rowUpp);
    self.intersect_.obstacleLow.resize(numLine, rowObs);
    self.intersect_.obstacleUpp.resize(numLine, rowObs);
}

// every arena part shrunk and every obstacle grown by every body
template <class R, class O>
void cSpaceBoundary(FreeSpaceComputator<R, O>& self) {
    std::vector<BoundaryPoints> ar;
    std::vector<BoundaryPoints> ob;
    for (size_t i = 0; i < self.arena_.size(); ++i) {
        const std::vector<BoundaryPoints> m = self.robot_.minkSum(self.arena_[i], -1);
        ar.insert(ar.end(), m.begin(), m.end());
    }
    for (size_t i = 0; i < self.obstacle_.size(); ++i) {
        const std::vector<BoundaryPoints> m = self.robot_.minkSum(self.obstacle_[i], +1);
        ob.insert(ob.end(), m.begin(), m.end());
    }
    self.cSpaceBoundary_.arena = ar;
    self.cSpaceBoundary_.obstacle = ob;
}

template <class R, class O>
std::vector<Interval> lineFree(FreeSpaceComputator<R, O>& self, const Eigen::Index& k) {
    std::vector<Interval> inside;
    std::vector<Interval> blocked;
    const auto& aL = self.intersect_.arenaLow.at(k);
    const auto& aU = self.intersect_.arenaUpp.at(k);
    const auto& oL = self.intersect_.obstacleLow.at(k);
    const auto& oU = self.intersect_.obstacleUpp.at(k);
    for (size_t j = 0; j < aL.size(); ++j) {
        if (std::isnan(aL[j]) || std::isnan(aU[j])) {
            continue;
        }
        inside.push_back(Interval(aL[j], aU[j]));
    }
    for (size_t j = 0; j < oL.size(); ++j) {
        if (std::isnan(oL[j]) || std::isnan(oU[j])) {
            continue;
        }
        blocked.push_back(Interval(oL[j], oU[j]));
    }
    const std::vector<Interval> all = Interval::intersects(inside);
    const std::vector<Interval> bad = Interval::unions(blocked);
    return Interval::complements(all, bad);
}

// the three lists of a line are recorded together, the middle is the mean
template <class R, class O>
void freeSegment(FreeSpaceComputator<R, O>& self, const std::vector<Coordinate>& ty) {
    FreeSegment2D seg;
    seg.ty = ty;
    for (size_t i = 0; i < ty.size(); ++i) {
        const std::vector<Interval> free = self.computeSweepLineFreeSegment(i);
        std::vector<Coordinate> lo;
        std::vector<Coordinate> up;
        std::vector<Coordinate> mid;
        for (const Interval& f : free) {
            lo.push_back(f.s());
            up.push_back(f.e());
            mid.push_back(0.5 * (f.s() + f.e()));
        }
        seg.xL.push_back(lo);
        seg.xU.push_back(up);
        seg.xM.push_back(mid);
    }
    self.segment_ = seg;
    self.enhanceFreeSegment();
}

// an extra vertex where the end of a neighbouring line's segment projects into
// a segment on the far side of its middle point
template <class R, class O>
void enhance(FreeSpaceComputator<R, O>& self) {
    FreeSegment2D s = self.segment_;
    const auto add = [&s](size_t line, double x) {
        s.xU[line].push_back(x);
        s.xL[line].push_back(x);
        s.xM[line].push_back(x);
    };
    for (size_t i = 0; i + 1 < self.segment_.ty.size(); ++i) {
        for (size_t a = 0; a < self.segment_.xM[i].size(); ++a) {
            for (size_t b = 0; b < self.segment_.xM[i + 1].size(); ++b) {
                if (s.xM[i][a] < s.xL[i + 1][b] && s.xU[i][a] >= s.xL[i + 1][b]) {
                    add(i, s.xL[i + 1][b]);
                } else if (s.xM[i][a] > s.xU[i + 1][b] && s.xL[i][a] <= s.xU[i + 1][b]) {
                    add(i, s.xU[i + 1][b]);
                }
                if (s.xM[i + 1][b] < s.xL[i][a] && s.xU[i + 1][b] >= s.xL[i][a]) {
                    add(i + 1, s.xL[i][a]);
                } else if (s.xM[i + 1][b] > s.xU[i][a] && s.xL[i + 1][b] <= s.xU[i][a]) {
                    add(i + 1, s.xU[i][a]);
                }
            }
        }
        std::sort(s.xL[i].begin(), s.xL[i].end());
        std::sort(s.xU[i].begin(), s.xU[i].end());
        std::sort(s.xM[i].begin(), s.xM[i].end());
    }
    self.segment_ = s;
}

#define INST(R, O)                                                                              \
    template void setup<R, O>(FreeSpaceComputator<R, O>&, unsigned, double, double);             \
    template void cSpaceBoundary<R, O>(FreeSpaceComputator<R, O>&);                              \
    template std::vector<Interval> lineFree<R, O>(FreeSpaceComputator<R, O>&, const Eigen::Index&); \
    template void freeSegment<R, O>(FreeSpaceComputator<R, O>&, const std::vector<Coordinate>&); \
    template void enhance<R, O>(FreeSpaceComputator<R, O>&);
INST(MultiBodyTree2D, SuperEllipse)
INST(MultiBodyTree3D, SuperQuadrics)

// crossing interval of every boundary with every sweep line
void intersect2D(FreeSpace2D& self, const std::vector<std::vector<Coordinate>>& tLine) {
    const std::vector<Coordinate>& y = tLine.at(0);
    for (size_t i = 0; i < y.size(); ++i) {
        for (size_t j = 0; j < self.cSpaceBoundary_.arena.size(); ++j) {
            const std::vector<double> x = intersectHorizontalLinePolygon2D(y[i], self.cSpaceBoundary_.arena[j]);
            double lo = self.lowBound_;
            double up = self.upBound_;
            if (x.size() >= 2) {
                lo = std::fmin(self.lowBound_, std::fmin(x[0], x[1]));
                up = std::fmax(self.upBound_, std::fmax(x[0], x[1]));
            }
            self.intersect_.arenaLow[i][j] = lo;
            self.intersect_.arenaUpp[i][j] = up;
        }
        for (size_t j = 0; j < self.cSpaceBoundary_.obstacle.size(); ++j) {
            const std::vector<double> x = intersectHorizontalLinePolygon2D(y[i], self.cSpaceBoundary_.obstacle[j]);
            double lo = NAN;
            double up = NAN;
            if (x.size() >= 2) {
                lo = std::fmin(x[0], x[1]);
                up = std::fmax(x[0], x[1]);
            }
            self.intersect_.obstacleLow[i][j] = lo;
            self.intersect_.obstacleUpp[i][j] = up;
        }
    }
}

void intersect3D(FreeSpace3D& self, const std::vector<std::vector<Coordinate>>& tLine) {
    const double x = tLine.at(0).back();
    const std::vector<Coordinate>& y = tLine.at(1);
    for (size_t i = 0; i < y.size(); ++i) {
        Line3D line(6);
        line << x, y[i], 0.0, 0.0, 0.0, 1.0;
        for (size_t j = 0; j < self.cSpaceBoundary_.arena.size(); ++j) {
            const std::vector<Point3D> p = intersectVerticalLineMesh3D(line, self.cSpaceBoundaryMesh_.arena[j]);
            double lo = self.lowBound_;
            double up = self.upBound_;
            if (p.size() >= 2) {
                lo = std::fmin(self.lowBound_, std::fmin(p[0](2), p[1](2)));
                up = std::fmax(self.upBound_, std::fmax(p[0](2), p[1](2)));
            }
            self.intersect_.arenaLow[i][j] = lo;
            self.intersect_.arenaUpp[i][j] = up;
        }
        for (size_t j = 0; j < self.cSpaceBoundary_.obstacle.size(); ++j) {
            const std::vector<Point3D> p = intersectVerticalLineMesh3D(line, self.cSpaceBoundaryMesh_.obstacle[j]);
            double lo = NAN;
            double up = NAN;
            if (p.size() >= 2) {
                lo = std::fmin(p[0](2), p[1](2));
                up = std::fmax(p[0](2), p[1](2));
            }
            self.intersect_.obstacleLow[i][j] = lo;
            self.intersect_.obstacleUpp[i][j] = up;
        }
    }
}

void boundaryMesh3D(FreeSpace3D& self, const BoundaryInfo& bound) {
    std::vector<MeshMatrix> ar;
    std::vector<MeshMatrix> ob;
    const size_t bodies = 1 + self.robot_.getNumLinks();
    for (size_t i = 0; i < bound.arena.size(); ++i) {
        ar.push_back(getMeshFromParamSurface(bound.arena[i], self.arena_.at(i / bodies).getNumParam()));
    }
    for (size_t i = 0; i < bound.obstacle.size(); ++i) {
        ob.push_back(getMeshFromParamSurface(bound.obstacle[i], self.obstacle_.at(i / bodies).getNumParam()));
    }
    self.cSpaceBoundaryMesh_.arena = ar;
    self.cSpaceBoundaryMesh_.obstacle = ob;
}

// the computator refers to the scene and keeps its own robot
template <class R, class O>
struct MadeFree {
    MadeFree(const R& robot, const std::vector<O>& arena, const std::vector<O>& obstacle)
        : robot_(robot), arena_(arena), obstacle_(obstacle) {}
    R robot_;
    const std::vector<O>& arena_;
    const std::vector<O>& obstacle_;
};
template struct MadeFree<MultiBodyTree2D, SuperEllipse>;
template struct MadeFree<MultiBodyTree3D, SuperQuadrics>;
}  // namespace spec
