// Reference model: articulated planner in space, and the ablated planner.
#include <ctime>

#include "hrm/planners/HRM3DAblation.h"
#include "hrm/planners/ProbHRM3D.h"
#include "hrm/util/InterpolateSE3.h"
#include "ompl/util/RandomNumbers.h"

namespace spec {
using namespace hrm;
using namespace hrm::planners;
using Conf = std::vector<Coordinate>;
using Quat = Eigen::Quaterniond;

void planProb(ProbHRM3D& self, const double limit) {
    auto& time = self.res_.planningTime;
    self.param_.numSlice = 0;
    do {
        const auto t0 = Clock::now();
        self.sampleOrientations();
        self.constructOneSlice(self.param_.numSlice);
        self.numVertex_.slice = self.res_.graphStructure.vertex.size();
        self.vertexIdx_.push_back(self.numVertex_);
        if (!self.isRefine_) {
            self.param_.numSlice = self.param_.numSlice + 1;
        }
        if (self.param_.numSlice > 1) {
            self.connectMultiSlice();
        }
        time.buildTime = time.buildTime + Durationd(Clock::now() - t0).count();
        const auto t1 = Clock::now();
        self.search();
        time.searchTime = time.searchTime + Durationd(Clock::now() - t1).count();
        time.totalTime = time.buildTime + time.searchTime;
        if (self.param_.numSlice % 60 == 0 && self.vertexIdxAll_.size() < self.param_.numPoint) {
            self.refineExistRoadmap(limit);
        }
    } while (!self.res_.solved && time.totalTime < limit);
    if (!self.res_.solved) {
        return;
    }
    self.res_.solutionPath.solvedPath = self.getSolutionPath();
    self.res_.solutionPath.interpolatedPath = self.getInterpolatedSolutionPath(self.param_.numPoint);
}

// the first slice is the start's, the second the goal's, then random ones
void orientationsProb(ProbHRM3D& self) {
    srand(unsigned(std::time(nullptr)));
    ompl::RNG rng;
    const size_t n = self.param_.numSlice;
    const unsigned int joints = self.kdl_->getKDLTree().getNrOfJoints();
    const Conf* from = n == 0 ? &self.start_ : n == 1 ? &self.goal_ : nullptr;
    const Quat q = from ? Quat(from->at(3), from->at(4), from->at(5), from->at(6)) : Quat::UnitRandom();
    self.q_.push_back(q);
    Conf config{0.0, 0.0, 0.0, q.w(), q.x(), q.y(), q.z()};
    for (size_t i = 0; i < joints; ++i) {
        config.push_back(from ? from->at(7 + i) : rng.uniformReal(-self.maxJointAngle_, self.maxJointAngle_));
    }
    self.v_.push_back(config);
}

// the newest slice with the nearest earlier one
void multiProb(ProbHRM3D& self) {
    const size_t n = self.param_.numSlice;
    if (n == 1) {
        return;
    }
    const auto& b = self.param_.boundaryLimits;
    auto& g = self.res_.graphStructure;
    const double gapX = 2.0 * (b[1] - b[0]) / static_cast<double>(self.param_.numLineX);
    const double gapY = 2.0 * (b[3] - b[2]) / static_cast<double>(self.param_.numLineY);
    double best = INFINITY;
    Index near = 0;
    for (size_t i = 0; i + 1 < n; ++i) {
        if (vectorEuclidean(self.v_.back(), self.v_[i]) < best) {
            best = vectorEuclidean(self.v_.back(), self.v_[i]);
            near = i;
        }
    }
    Index from = self.vertexIdx_[n - 1].startId;
    const Index e1 = self.vertexIdx_[n - 1].slice;
    const Index e0 = self.vertexIdx_[near].slice;
    const Index s0 = self.vertexIdx_[near].startId;
    self.computeTFE(self.v_.back(), self.v_[near], self.tfe_);
    self.bridgeSlice();
    for (size_t a = s0; a < e0; ++a) {
        for (size_t c = from; c < e1; ++c) {
            if (std::fabs(g.vertex[a][0] - g.vertex[c][0]) > gapX ||
                std::fabs(g.vertex[a][1] - g.vertex[c][1]) > gapY ||
                !self.isMultiSliceTransitionFree(g.vertex[a], g.vertex[c])) {
                continue;
            }
            g.edge.push_back(std::make_pair(a, c));
            g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[c]));
            from = c;
            break;
        }
    }
}

// base pose from the line and the robot, joints from the slice
void verticesProb(ProbHRM3D& self, const Coordinate tx, const FreeSegment2D& seg) {
    const Conf& config = self.v_.at(self.currentSliceIdx_);
    const Quat q = self.robot_.getBase().getQuaternion();
    std::vector<Index> plane;
    for (size_t i = 0; i < seg.ty.size(); ++i) {
        plane.push_back(self.res_.graphStructure.vertex.size());
        for (size_t j = 0; j < seg.xM[i].size(); ++j) {
            Conf v{tx, seg.ty[i], seg.xM[i][j], q.w(), q.x(), q.y(), q.z()};
            for (size_t k = 7; k < config.size(); ++k) {
                v.push_back(config[k]);
            }
            self.res_.graphStructure.vertex.push_back(v);
        }
    }
    self.numVertex_.plane = plane;
    self.numVertex_.line.push_back(plane);
}

void transformProb(ProbHRM3D& self, const Conf& v) {
    const Eigen::Matrix3d r = Quat(v[3], v[4], v[5], v[6]).toRotationMatrix();
    SE3Transform g;
    g << r(0, 0), r(0, 1), r(0, 2), v[0], r(1, 0), r(1, 1), r(1, 2), v[1], r(2, 0), r(2, 1), r(2, 2), v[2], 0.0, 0.0,
        0.0, 1.0;
    const unsigned int n = self.kdl_->getKDLTree().getNrOfJoints();
    Eigen::VectorXd joints(n);
    for (unsigned int i = 0; i < n; ++i) {
        joints(i) = v[7 + i];
    }
    self.robot_.robotTF(self.urdfFile_, g, joints);
}

// every body of the robot over all poses of the motion
void tfeProb(ProbHRM3D& self, const Conf& v1, const Conf& v2, std::vector<SuperQuadrics>& tfe) {
    const std::vector<Conf> poses = interpolateCompoundSE3Rn(v1, v2, self.param_.numPoint);
    self.setTransform(v1);
    std::vector<SuperQuadrics> all = self.robot_.getBodyShapes();
    for (size_t k = 0; k < poses.size(); ++k) {
        self.setTransform(poses[k]);
        const std::vector<SuperQuadrics> now = self.robot_.getBodyShapes();
        for (size_t i = 0; i < self.robot_.getNumLinks() + 1; ++i) {
            all[i] = getMVCE3D(all[i].getSemiAxis(), now[i].getSemiAxis(), all[i].getQuaternion(),
                               now[i].getQuaternion(), now[i].getNumParam());
        }
    }
    std::vector<SuperQuadrics> res;
    for (size_t i = 0; i < self.robot_.getNumLinks() + 1; ++i) {
        res.push_back(all[i]);
    }
    tfe = res;
}

// ------------------------------------------------------------------ ablation
template <class Planner>
bool motionAbl(HRM3DAblation<Planner>& self, const Conf& v1, const Conf& v2) {
    for (const Conf& v : interpolateCompoundSE3Rn(v1, v2, self.param_.numPoint)) {
        self.setTransform(v);
        for (size_t i = 0; i < self.obs_.size(); ++i) {
            bool hit = isCollision(self.robot_.getBase(), self.objRobot_[0], self.obs_[i], self.objObs_[i]);
            for (size_t j = 0; !hit && j < self.robot_.getNumLinks(); ++j) {
                hit = isCollision(self.robot_.getLinks()[j], self.objRobot_[j + 1], self.obs_[i], self.objObs_[i]);
            }
            if (hit) {
                return false;
            }
        }
    }
    return true;
}

template <class Planner>
void bridgeAbl(HRM3DAblation<Planner>& self) {
    self.bridgeSliceBound_ = std::vector<std::vector<MeshMatrix>>();
}

template <class Planner>
void tfeAbl(HRM3DAblation<Planner>&, const Quat&, const Quat&, std::vector<SuperQuadrics>& tfe) {
    tfe = std::vector<SuperQuadrics>();
}

void tfeAblProb(HRM3DAblation<ProbHRM3D>&, const Conf&, const Conf&, std::vector<SuperQuadrics>& tfe) {
    tfe = std::vector<SuperQuadrics>();
}

// one object per body and per obstacle, in order, with its own shape
template <class Planner>
void objectsAbl(HRM3DAblation<Planner>& self) {
    const auto ellipsoid = [](const std::vector<double>& a) {
        return fcl::CollisionObjectd(
            std::shared_ptr<fcl::CollisionGeometry<double>>(new fcl::Ellipsoidd(a.at(0), a.at(1), a.at(2))));
    };
    self.objRobot_.push_back(ellipsoid(self.robot_.getBase().getSemiAxis()));
    for (size_t i = 0; i < self.robot_.getLinks().size(); ++i) {
        self.objRobot_.push_back(ellipsoid(self.robot_.getLinks()[i].getSemiAxis()));
    }
    for (size_t i = 0; i < self.obs_.size(); ++i) {
        const SuperQuadrics& ob = self.obs_[i];
        const bool round = std::fabs(ob.getEpsilon()[0] - 1.0) < 1e-6 && std::fabs(ob.getEpsilon()[1] - 1.0) < 1e-6;
        if (round) {
            self.objObs_.push_back(ellipsoid(ob.getSemiAxis()));
        } else {
            self.objObs_.push_back(setCollisionObjectFromSQ(ob));
        }
    }
}

template bool motionAbl(HRM3DAblation<ProbHRM3D>&, const Conf&, const Conf&);
template bool motionAbl(HRM3DAblation<HRM3D>&, const Conf&, const Conf&);
template void bridgeAbl(HRM3DAblation<ProbHRM3D>&);
template void bridgeAbl(HRM3DAblation<HRM3D>&);
template void tfeAbl(HRM3DAblation<HRM3D>&, const Quat&, const Quat&, std::vector<SuperQuadrics>&);
template void objectsAbl(HRM3DAblation<ProbHRM3D>&);
template void objectsAbl(HRM3DAblation<HRM3D>&);
}  // namespace spec
