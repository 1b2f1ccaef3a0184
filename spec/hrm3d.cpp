// Reference model: rigid and articulated planner in space.
#include <ctime>

#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/util/InterpolateSE3.h"

namespace spec {
using namespace hrm;
using namespace hrm::planners;
using Conf = std::vector<Coordinate>;
using Quat = Eigen::Quaterniond;

void slice3D(HRM3D& self, const Index k) {
    self.currentSliceIdx_ = k;
    if (self.isRobotRigid_) {
        const Quat q = self.q_.at(k);
        self.setTransform({0.0, 0.0, 0.0, q.w(), q.x(), q.y(), q.z()});
    } else {
        self.setTransform(self.v_.at(k));
    }
    if (self.isRefine_) {
        self.freeSpacePtr_->setCSpaceBoundary(self.sliceBoundAll_.at(k));
        self.freeSpacePtr_->setCSpaceBoundaryMesh(self.sliceBoundMeshAll_.at(k));
        self.sliceBound_ = self.sliceBoundAll_.at(k);
        self.sliceBoundMesh_ = self.sliceBoundMeshAll_.at(k);
    } else {
        self.updateFreeSpaceRobot();
        self.freeSpacePtr_->computeCSpaceBoundary();
        self.sliceBound_ = self.freeSpacePtr_->getCSpaceBoundary();
        self.freeSpacePtr_->computeCSpaceBoundaryMesh(self.sliceBound_);
        self.sliceBoundMesh_ = self.freeSpacePtr_->getCSpaceBoundaryMesh();
        self.sliceBoundAll_.push_back(self.sliceBound_);
        self.sliceBoundMeshAll_.push_back(self.sliceBoundMesh_);
    }
    self.sweepLineProcess();
    self.connectOneSlice3D(self.freeSegOneSlice_);
}

void orientations3D(HRM3D& self) { self.sampleSO3(); }

void so3D(HRM3D& self) {
    srand(unsigned(std::time(nullptr)));
    const std::vector<Quat> given = self.robot_.getBase().getQuatSamples();
    if (!given.empty()) {
        self.q_ = given;
        self.param_.numSlice = given.size();
        return;
    }
    self.q_.resize(self.param_.numSlice);
    for (size_t i = 0; i < self.param_.numSlice; ++i) {
        self.q_[i] = Quat::UnitRandom();
    }
}

void freeSpaceRobot3D(HRM3D& self) { self.freeSpacePtr_->setRobot(self.robot_); }

// lines evenly over the x and y limits, all four ends included; intervals along z
void sweep3D(HRM3D& self) {
    const auto& b = self.param_.boundaryLimits;
    self.freeSpacePtr_->setup(self.param_.numLineY, b[4], b[5]);
    Conf ty;
    for (size_t i = 0; i < self.param_.numLineY; ++i) {
        ty.push_back(b[2] + (b[3] - b[2]) * static_cast<double>(i) / (static_cast<double>(self.param_.numLineY) - 1.0));
    }
    FreeSegment3D all;
    for (size_t i = 0; i < self.param_.numLineX; ++i) {
        all.tx.push_back(b[0] + (b[1] - b[0]) * static_cast<double>(i) / (static_cast<double>(self.param_.numLineX) - 1.0));
        self.freeSpacePtr_->computeIntersectionInterval({all.tx, ty});
        self.freeSpacePtr_->computeFreeSegment(ty);
        all.freeSegmentYZ.push_back(self.freeSpacePtr_->getFreeSegment());
    }
    self.freeSegOneSlice_.tx = all.tx;
    self.freeSegOneSlice_.freeSegmentYZ = all.freeSegmentYZ;
}

void vertices3D(HRM3D& self, const Coordinate tx, const FreeSegment2D& seg) {
    const Quat q = self.robot_.getBase().getQuaternion();
    std::vector<Index> plane;
    for (size_t i = 0; i < seg.ty.size(); ++i) {
        plane.push_back(self.res_.graphStructure.vertex.size());
        for (size_t j = 0; j < seg.xM[i].size(); ++j) {
            self.res_.graphStructure.vertex.push_back({tx, seg.ty[i], seg.xM[i][j], q.w(), q.x(), q.y(), q.z()});
        }
    }
    self.numVertex_.plane = plane;
    self.numVertex_.line.push_back(plane);
}

void planes3D(HRM3D& self, const FreeSegment3D& seg) {
    auto& g = self.res_.graphStructure;
    self.numVertex_.line.clear();
    self.numVertex_.startId = g.vertex.size();
    for (size_t i = 0; i < seg.tx.size(); ++i) {
        self.generateVertices(seg.tx[i], seg.freeSegmentYZ[i]);
        self.connectOneSlice2D(seg.freeSegmentYZ[i]);
    }
    self.numVertex_.slice = g.vertex.size();
    for (size_t i = 0; i < seg.tx.size() - 1; ++i) {
        for (size_t j = 0; j < seg.freeSegmentYZ[i].ty.size(); ++j) {
            for (size_t k = 0; k < seg.freeSegmentYZ[i].xM[j].size(); ++k) {
                for (size_t l = 0; l < seg.freeSegmentYZ[i + 1].xM[j].size(); ++l) {
                    const Index a = self.numVertex_.line[i][j] + k;
                    const Index c = self.numVertex_.line[i + 1][j] + l;
                    if (!self.isSameSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                        self.bridgeVertex(a, c);
                        continue;
                    }
                    g.edge.push_back(std::make_pair(a, c));
                    g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
                }
            }
        }
    }
}

// every slice with the nearest slice before it
void multi3D(HRM3D& self) {
    if (self.vertexIdx_.size() == 1) {
        return;
    }
    const auto& b = self.param_.boundaryLimits;
    auto& g = self.res_.graphStructure;
    const double gapX = 2.0 * (b[1] - b[0]) / static_cast<double>(self.param_.numLineX);
    const double gapY = 2.0 * (b[3] - b[2]) / static_cast<double>(self.param_.numLineY);
    for (size_t i = 0; i < self.vertexIdx_.size(); ++i) {
        double best = INFINITY;
        int near = 0;
        for (size_t j = 0; j != i && j < self.param_.numSlice; ++j) {
            if (self.q_[i].angularDistance(self.q_[j]) < best) {
                best = self.q_[i].angularDistance(self.q_[j]);
                near = static_cast<int>(j);
            }
        }
        Index from = self.vertexIdx_[i].startId;
        const Index e1 = self.vertexIdx_[i].slice;
        const Index e0 = self.vertexIdx_[near].slice;
        self.computeTFE(self.q_[i], self.q_[near], self.tfe_);
        self.bridgeSlice();
        for (size_t a = self.vertexIdx_[near].startId; a < e0; ++a) {
            for (size_t c = from; c < e1; ++c) {
                if (std::fabs(g.vertex[a][0] - g.vertex[c][0]) > gapX ||
                    std::fabs(g.vertex[a][1] - g.vertex[c][1]) > gapY ||
                    !self.isMultiSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                    continue;
                }
                g.edge.push_back(std::make_pair(a, c));
                g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
                from = c;
                break;
            }
        }
    }
}

void exist3D(HRM3D& self, const Index k) {
    const auto& b = self.param_.boundaryLimits;
    auto& g = self.res_.graphStructure;
    const double gapX = 2.0 * std::fabs(b[1] - b[0]) / static_cast<double>(self.param_.numLineX);
    const double gapY = 2.0 * std::fabs(b[3] - b[2]) / static_cast<double>(self.param_.numLineY);
    const Index e0 = self.vertexIdx_.at(k).slice;
    const VertexIdx& old = self.vertexIdxAll_.back().at(k);
    Index from = old.startId;
    for (size_t a = self.vertexIdx_.at(k).startId; a < e0; ++a) {
        for (size_t c = from; c < old.slice; ++c) {
            if (std::fabs(g.vertex[a][0] - g.vertex[c][0]) > gapX ||
                std::fabs(g.vertex[a][1] - g.vertex[c][1]) > gapY ||
                !self.isSameSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                continue;
            }
            g.edge.push_back(std::make_pair(a, c));
            g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
            from = c;
            break;
        }
    }
}

// each solved segment gets its share of steps, its two ends included
std::vector<Conf> interpolated3D(HRM3D& self, const unsigned int num) {
    const auto& path = self.res_.solutionPath.solvedPath;
    const double step =
        self.res_.solutionPath.cost / (static_cast<double>(num) * (static_cast<double>(path.size()) - 1.0));
    std::vector<Conf> res;
    for (size_t i = 0; i < path.size() - 1; ++i) {
        int n = 0;
        if (step > 0.0) {
            n = static_cast<int>(vectorEuclidean(path[i], path[i + 1]) / step);
        }
        for (const Conf& v : interpolateCompoundSE3Rn(path[i], path[i + 1], n)) {
            res.push_back(v);
        }
    }
    return res;
}

// one sum per obstacle with each body's bounding shape centred at the origin
void bridge3D(HRM3D& self) {
    std::vector<std::vector<MeshMatrix>> all;
    for (size_t i = 0; i < self.tfe_.size(); ++i) {
        self.tfe_[i].setPosition({0.0, 0.0, 0.0});
    }
    for (size_t i = 0; i < self.tfe_.size(); ++i) {
        std::vector<MeshMatrix> bd;
        for (size_t k = 0; k < self.obs_.size(); ++k) {
            bd.push_back(getMeshFromParamSurface(self.obs_[k].getMinkSum3D(self.tfe_[i], +1),
                                                 self.obs_[k].getNumParam()));
        }
        all.push_back(bd);
    }
    self.bridgeSliceBound_ = all;
}

bool same3D(HRM3D& self, const Conf& v1, const Conf& v2) {
    const Point3D a{v1[0], v1[1], v1[2]};
    const Point3D b{v2[0], v2[1], v2[2]};
    Line3D line(6);
    line.head(3) = a;
    line.tail(3) = (b - a).normalized();
    for (const MeshMatrix& ob : self.sliceBoundMesh_.obstacle) {
        for (const Point3D& p : intersectLineMesh3D(line, ob)) {
            if ((p - a).dot(p - b) < 0) {
                return false;
            }
        }
    }
    return true;
}

// every pose, the base and every link
bool motion3D(HRM3D& self, const Conf& v1, const Conf& v2) {
    for (const Conf& v : interpolateCompoundSE3Rn(v1, v2, self.param_.numPoint)) {
        self.setTransform(v);
        bool free = self.isPtInCFree(0, self.robot_.getBase().getPosition());
        for (size_t j = 0; free && j < self.robot_.getNumLinks(); ++j) {
            free = self.isPtInCFree(j + 1, self.robot_.getLinks()[j].getPosition());
        }
        if (!free) {
            return false;
        }
    }
    return true;
}

bool point3D(HRM3D& self, const Index k, const std::vector<double>& v) {
    Line3D up(6);
    up << v[0], v[1], v[2], 0, 0, 1;
    for (const MeshMatrix& ob : self.bridgeSliceBound_.at(k)) {
        const auto x = intersectVerticalLineMesh3D(up, ob);
        if (x.size() >= 2 && std::fmin(x[0][2], x[1][2]) < v[2] && v[2] < std::fmax(x[0][2], x[1][2])) {
            return false;
        }
    }
    return true;
}

std::vector<Vertex> nearest3D(HRM3D& self, const Conf& v, const Index k, const double radius) {
    const auto& all = self.res_.graphStructure.vertex;
    const auto& b = self.param_.boundaryLimits;
    const Quat own(v[3], v[4], v[5], v[6]);
    double best = own.angularDistance(self.q_[0]);
    Quat near = self.q_[0];
    for (const Quat& q : self.q_) {
        if (own.angularDistance(q) < best) {
            best = own.angularDistance(q);
            near = q;
        }
    }
    std::vector<Quat> slices;
    for (const Quat& q : self.q_) {
        if (near.angularDistance(q) < radius) {
            slices.push_back(q);
        }
        if (slices.size() >= k) {
            break;
        }
    }
    std::vector<Vertex> res;
    for (const Quat& q : slices) {
        size_t id = all.size();
        double dist = INFINITY;
        for (size_t i = 0; i < all.size(); ++i) {
            const double d = vectorEuclidean(v, all[i]);
            const Quat at(all[i][3], all[i][4], all[i][5], all[i][6]);
            if (q.angularDistance(at) < 1e-6 && d < dist) {
                dist = d;
                id = i;
            }
        }
        if (id != all.size() &&
            std::fabs(v[0] - all[id][0]) < radius * (b[1] - b[0]) / static_cast<double>(self.param_.numLineX) &&
            std::fabs(v[1] - all[id][1]) < radius * (b[3] - b[2]) / static_cast<double>(self.param_.numLineY)) {
            res.push_back(id);
        }
    }
    return res;
}

void transform3D(HRM3D& self, const Conf& v) {
    const Eigen::Matrix3d r = Quat(v[3], v[4], v[5], v[6]).toRotationMatrix();
    SE3Transform g;
    g << r(0, 0), r(0, 1), r(0, 2), v[0], r(1, 0), r(1, 1), r(1, 2), v[1], r(2, 0), r(2, 1), r(2, 2), v[2], 0.0, 0.0,
        0.0, 1.0;
    self.robot_.robotTF(g);
}

// bounding ellipsoid of every body between its own two end orientations
void tfe3D(HRM3D& self, const Quat& a, const Quat& b, std::vector<SuperQuadrics>& tfe) {
    std::vector<SuperQuadrics> all;
    all.push_back(getTFE3D(self.robot_.getBase().getSemiAxis(), a, b, self.param_.numPoint,
                           self.robot_.getBase().getNumParam()));
    for (size_t i = 0; i < self.robot_.getNumLinks(); ++i) {
        const Eigen::Matrix3d own = self.robot_.getTF().at(i).topLeftCorner(3, 3);
        const SuperQuadrics& link = self.robot_.getLinks().at(i);
        all.push_back(getTFE3D(link.getSemiAxis(), Quat(a.toRotationMatrix() * own), Quat(b.toRotationMatrix() * own),
                               self.param_.numPoint, link.getNumParam()));
    }
    tfe = all;
}

void make3D(HRM3D& self, const MultiBodyTree3D& robot, const std::vector<SuperQuadrics>& arena,
            const std::vector<SuperQuadrics>& obs, const PlanningRequest& req) {
    self.robot_ = robot;
    self.arena_ = arena;
    self.obs_ = obs;
    self.start_ = req.start;
    self.goal_ = req.goal;
    self.param_ = req.parameters;
    self.isRobotRigid_ = req.isRobotRigid;
    self.res_ = PlanningResult();
    self.freeSpacePtr_ = std::make_shared<FreeSpace3D>(self.robot_, self.arena_, self.obs_);
    self.freeSpacePtr_->setup(req.parameters.numLineY, req.parameters.boundaryLimits[4],
                              req.parameters.boundaryLimits[5]);
}

const FreeSegment3D& segmentsOf3D(HRM3D& self, const BoundaryInfo* bound) {
    self.sliceBound_ = *bound;
    self.freeSpacePtr_->setCSpaceBoundary(*bound);
    self.freeSpacePtr_->computeCSpaceBoundaryMesh(*bound);
    self.sliceBoundMesh_ = self.freeSpacePtr_->getCSpaceBoundaryMesh();
    self.sweepLineProcess();
    return self.freeSegOneSlice_;
}

const BoundaryMesh& meshOfSlice(const HRM3D& self, const Index k) { return self.sliceBoundMeshAll_.at(k); }

const BoundaryInfo& boundOfSlice(const HRM3D& self, const Index k) { return self.sliceBoundAll_.at(k); }
}  // namespace spec
