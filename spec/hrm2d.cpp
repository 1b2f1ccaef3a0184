// Reference model: rigid and articulated planner in the plane.
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/PointInPoly.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"

namespace spec {
using namespace hrm;
using namespace hrm::planners;
using Conf = std::vector<Coordinate>;

// the robot is posed for the slice before anything is computed from it
void slice2D(HRM2D& self, const Index k) {
    self.setTransform({0.0, 0.0, self.headings_.at(k)});
    if (self.isRefine_) {
        self.freeSpacePtr_->setCSpaceBoundary(self.sliceBoundAll_.at(k));
        self.sliceBound_ = self.sliceBoundAll_.at(k);
    } else {
        self.updateFreeSpaceRobot();
        self.freeSpacePtr_->computeCSpaceBoundary();
        self.sliceBound_ = self.freeSpacePtr_->getCSpaceBoundary();
        self.sliceBoundAll_.push_back(self.sliceBound_);
    }
    self.sweepLineProcess();
    self.generateVertices(0.0, self.freeSegOneSlice_);
    self.connectOneSlice2D(self.freeSegOneSlice_);
}

// headings evenly from -pi to pi, both included
void headings2D(HRM2D& self) {
    const double n = static_cast<double>(self.param_.numSlice);
    for (size_t i = 0; i < self.param_.numSlice; ++i) {
        const double k = static_cast<double>(i);
        self.headings_.push_back(self.param_.numSlice > 1 ? -PI + 2.0 * PI * k / (n - 1.0) : -PI);
    }
}

void freeSpaceRobot2D(HRM2D& self) { self.freeSpacePtr_->setRobot(self.robot_); }

// lines evenly over the y limits, both included; intervals along x
void sweep2D(HRM2D& self) {
    const auto& b = self.param_.boundaryLimits;
    self.freeSpacePtr_->setup(self.param_.numLineY, b[0], b[1]);
    Conf ty;
    for (size_t i = 0; i < self.param_.numLineY; ++i) {
        ty.push_back(b[2] + (b[3] - b[2]) * static_cast<double>(i) / (static_cast<double>(self.param_.numLineY) - 1.0));
    }
    self.freeSpacePtr_->computeIntersectionInterval({ty});
    self.freeSpacePtr_->computeFreeSegment(ty);
    self.freeSegOneSlice_ = self.freeSpacePtr_->getFreeSegment();
}

void vertices2D(HRM2D& self, const Coordinate, const FreeSegment2D& seg) {
    std::vector<Index> plane;
    self.numVertex_.startId = self.res_.graphStructure.vertex.size();
    for (size_t i = 0; i < seg.ty.size(); ++i) {
        plane.push_back(self.res_.graphStructure.vertex.size());
        for (size_t j = 0; j < seg.xM[i].size(); ++j) {
            self.res_.graphStructure.vertex.push_back({seg.xM[i][j], seg.ty[i], self.robot_.getBase().getAngle()});
        }
    }
    self.numVertex_.plane = plane;
    self.numVertex_.line = {plane};
}

// neighbouring slices, the last one with the first
void multi2D(HRM2D& self) {
    if (self.vertexIdx_.size() == 1) {
        return;
    }
    const auto& b = self.param_.boundaryLimits;
    auto& g = self.res_.graphStructure;
    const double gap = 2.0 * std::fabs(b[3] - b[2]) / static_cast<double>(self.param_.numLineY);
    for (size_t i = 0; i < self.vertexIdx_.size(); ++i) {
        const bool last = i == self.param_.numSlice - 1;
        if (last && self.param_.numSlice == 2) {
            break;
        }
        const size_t j = last ? 0 : i + 1;
        const Index e0 = self.vertexIdx_.at(i).slice;
        Index from = self.vertexIdx_.at(j).startId;
        const Index e1 = self.vertexIdx_.at(j).slice;
        self.computeTFE(self.headings_[i], self.headings_[j], self.tfe_);
        self.bridgeSlice();
        for (size_t a = self.vertexIdx_.at(i).startId; a < e0; ++a) {
            for (size_t c = from; c < e1; ++c) {
                if (std::fabs(g.vertex[a][1] - g.vertex[c][1]) > gap ||
                    !self.isMultiSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                    continue;
                }
                g.edge.push_back(std::make_pair(a, c));
                g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
                from = c;
                break;
            }
        }
    }
}

void exist2D(HRM2D& self, const Index k) {
    const auto& b = self.param_.boundaryLimits;
    auto& g = self.res_.graphStructure;
    const double gap = 2.0 * std::fabs(b[3] - b[2]) / static_cast<double>(self.param_.numLineY);
    const Index e0 = self.vertexIdx_.at(k).slice;
    const VertexIdx& old = self.vertexIdxAll_.back().at(k);
    Index from = old.startId;
    for (size_t a = self.vertexIdx_.at(k).startId; a < e0; ++a) {
        for (size_t c = from; c < old.slice; ++c) {
            if (std::fabs(g.vertex[a][1] - g.vertex[c][1]) > gap ||
                !self.isSameSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                continue;
            }
            g.edge.push_back(std::make_pair(a, c));
            g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
            from = c;
            break;
        }
    }
}

// one sum per obstacle with each body's bounding shape centred at the origin
void bridge2D(HRM2D& self) {
    std::vector<BoundaryInfo> all;
    for (size_t i = 0; i < self.tfe_.size(); ++i) {
        self.tfe_[i].setPosition({0.0, 0.0});
    }
    for (size_t i = 0; i < self.tfe_.size(); ++i) {
        BoundaryInfo bd;
        for (size_t k = 0; k < self.obs_.size(); ++k) {
            bd.obstacle.push_back(self.obs_[k].getMinkSum2D(self.tfe_[i], +1));
        }
        all.push_back(bd);
    }
    self.bridgeSliceBound_ = all;
}

bool same2D(HRM2D& self, const Conf& v1, const Conf& v2) {
    for (const BoundaryPoints& ob : self.sliceBound_.obstacle) {
        if (isIntersectSegPolygon2D(std::make_pair(v1, v2), ob)) {
            return false;
        }
    }
    return true;
}

// every pose, the base and every link
bool motion2D(HRM2D& self, const Conf& v1, const Conf& v2) {
    for (size_t i = 0; i < self.param_.numPoint; ++i) {
        const double t = static_cast<double>(i) / (static_cast<double>(self.param_.numPoint) - 1.0);
        Conf v;
        for (size_t j = 0; j < v1.size(); ++j) {
            v.push_back(v1[j] + t * (v2[j] - v1[j]));
        }
        self.setTransform(v);
        bool free = self.isPtInCFree(0, self.robot_.getBase().getPosition());
        for (size_t j = 0; free && j < self.robot_.getNumLinks(); ++j) {
            free = self.isPtInCFree(j + 1, self.robot_.getLinks()[j].getPosition());
        }
        if (!free) {
            return false;
        }
    }
    return true;
}

bool point2D(HRM2D& self, const Index k, const Conf& v) {
    for (const BoundaryPoints& ob : self.bridgeSliceBound_.at(k).obstacle) {
        const std::vector<double> x = intersectHorizontalLinePolygon2D(v[1], ob);
        if (x.size() >= 2 && std::fmin(x[0], x[1]) < v[0] && v[0] < std::fmax(x[0], x[1])) {
            return false;
        }
    }
    return true;
}

std::vector<Vertex> nearest2D(HRM2D& self, const Conf& v, const Index k, const double radius) {
    const auto& all = self.res_.graphStructure.vertex;
    const auto& b = self.param_.boundaryLimits;
    double best = INFINITY;
    double heading = 0.0;
    for (size_t i = 0; i < all.size(); ++i) {
        if (std::fabs(v[2] - all[i][2]) < best) {
            best = std::fabs(v[2] - all[i][2]);
            heading = all[i][2];
        }
    }
    std::vector<double> slices;
    for (const double h : self.headings_) {
        if (std::fabs(heading - h) < radius) {
            slices.push_back(h);
        }
        if (slices.size() >= k) {
            break;
        }
    }
    std::vector<Vertex> res;
    for (const double h : slices) {
        size_t id = all.size();
        double dist = INFINITY;
        for (size_t i = 0; i < all.size(); ++i) {
            const double d = vectorEuclidean(v, all[i]);
            if (std::fabs(all[i][2] - h) < EPSILON && d < dist) {
                dist = d;
                id = i;
            }
        }
        if (id != all.size() &&
            std::fabs(v[1] - all[id][1]) < radius * (b[3] - b[2]) / static_cast<double>(self.param_.numLineY)) {
            res.push_back(id);
        }
    }
    return res;
}

void transform2D(HRM2D& self, const Conf& v) {
    const double c = std::cos(v[2]);
    const double s = std::sin(v[2]);
    SE2Transform g;
    g << c, -s, v[0], s, c, v[1], 0.0, 0.0, 1.0;
    self.robot_.robotTF(g);
}

// bounding ellipse of every body between its own two end orientations
void tfe2D(HRM2D& self, const double a, const double b, std::vector<SuperEllipse>& tfe) {
    std::vector<SuperEllipse> all;
    all.push_back(getTFE2D(self.robot_.getBase().getSemiAxis(), a, b, self.param_.numPoint,
                           self.robot_.getBase().getNum()));
    for (size_t i = 0; i < self.robot_.getNumLinks(); ++i) {
        const Eigen::Rotation2Dd own(Eigen::Matrix2d(self.robot_.getTF().at(i).topLeftCorner(2, 2)));
        const Eigen::Rotation2Dd first(Eigen::Rotation2Dd(a).toRotationMatrix() * own);
        const Eigen::Rotation2Dd second(Eigen::Rotation2Dd(b).toRotationMatrix() * own);
        const SuperEllipse& link = self.robot_.getLinks().at(i);
        all.push_back(getTFE2D(link.getSemiAxis(), first.angle(), second.angle(), uint(self.param_.numPoint),
                               link.getNum()));
    }
    tfe = all;
}

// ------------------------------------------------- kinematics of containment
void freeSpaceRobotKC(HRM2DKC& self) {
    SuperEllipse big = self.robot_.getBase();
    const std::vector<double> a = big.getSemiAxis();
    const double k = 1 + self.inflationFactor_;
    big.setSemiAxis({k * a.at(0), k * a.at(1)});
    const MultiBodyTree2D robot(big);
    self.freeSpacePtr_->setRobot(robot);
}

void multiKC(HRM2DKC& self) {
    auto& g = self.res_.graphStructure;
    Index next = g.vertex.size();
    Index first = 0;
    for (size_t i = 0; i < self.param_.numSlice; ++i) {
        const bool last = i == self.param_.numSlice - 1;
        const Index end = self.vertexIdx_.at(i).slice;
        const Index from = last ? 0 : end;
        const Index to = last ? self.vertexIdx_.at(0).slice : self.vertexIdx_.at(i + 1).slice;
        for (size_t a = first; a < end; ++a) {
            for (size_t b = from; b < to; ++b) {
                const Conf mid = self.addMiddleVertex(g.vertex[a], g.vertex[b]);
                if (mid.empty()) {
                    continue;
                }
                g.edge.push_back(std::make_pair(a, next));
                g.edge.push_back(std::make_pair(b, next));
                g.weight.push_back(vectorEuclidean(g.vertex[a], mid));
                g.weight.push_back(vectorEuclidean(g.vertex[b], mid));
                g.vertex.push_back(mid);
                ++next;
                break;
            }
        }
        first = end;
    }
}

// a random point between the ends counts when it lies in the free polyhedron around both
Conf middleKC(HRM2DKC& self, Conf a, Conf b) {
    for (size_t trial = 0; trial < self.param_.numPoint; trial++) {
        Conf p;
        Conf fromA;
        Conf fromB;
        for (size_t i = 0; i < a.size(); ++i) {
            p.push_back(b[i] + rand() * (a[i] - b[i]) / RAND_MAX);
            fromA.push_back(p[i] - a[i]);
            fromB.push_back(p[i] - b[i]);
        }
        if (isPtInPoly(self.polyhedronVertex_, fromA) && isPtInPoly(self.polyhedronVertex_, fromB)) {
            return p;
        }
    }
    return {};
}

// the problem is taken over as given; the lines run along y, so the intervals are limited in x
void make2D(HRM2D& self, const MultiBodyTree2D& robot, const std::vector<SuperEllipse>& arena,
            const std::vector<SuperEllipse>& obs, const PlanningRequest& req) {
    self.robot_ = robot;
    self.arena_ = arena;
    self.obs_ = obs;
    self.start_ = req.start;
    self.goal_ = req.goal;
    self.param_ = req.parameters;
    self.isRobotRigid_ = req.isRobotRigid;
    self.res_ = PlanningResult();
    self.freeSpacePtr_ = std::make_shared<FreeSpace2D>(self.robot_, self.arena_, self.obs_);
    self.freeSpacePtr_->setup(req.parameters.numLineY, req.parameters.boundaryLimits[0],
                              req.parameters.boundaryLimits[1]);
}

const FreeSegment2D& segmentsOf2D(HRM2D& self, const BoundaryInfo& bound) {
    self.freeSpacePtr_->setCSpaceBoundary(bound);
    self.sliceBound_ = bound;
    self.sweepLineProcess();
    return self.freeSegOneSlice_;
}

// reaching the goal, and nothing else, ends the graph search
void reached(AStarGoalVisitor<Vertex>& self, Vertex u, const AdjGraph& g) {
    if (u == self.goal_) {
        throw AStarFoundGoal();
    }
}
}  // namespace spec
