// Reference: planning with the sampling-based planners of the library.
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/base/spaces/SE2StateSpace.h>
#include <ompl/base/spaces/SE3StateSpace.h>

#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"

namespace spec {
using namespace hrm;
using namespace hrm::planners::ompl_interface;
namespace base = ompl::base;
namespace geometric = ompl::geometric;
using Vec = std::vector<Coordinate>;

// ---------------------------------------------------------------- conversions
Vec planarVector(const OMPL2D&, const base::State* state) {
    const auto* s = state->as<base::SE2StateSpace::StateType>();
    return {s->getX(), s->getY(), s->getYaw()};
}

Vec spatialVector(const OMPL3D&, const base::State* state) {
    const auto* s = state->as<base::SE3StateSpace::StateType>();
    const auto& q = s->rotation();
    return {s->getX(), s->getY(), s->getZ(), q.w, q.x, q.y, q.z};
}

void planarState(const OMPL2D& p, const Vec* v,
                 base::ScopedState<base::CompoundStateSpace>* state) {
    base::ScopedState<base::SE2StateSpace> s(p.ss_->getStateSpace());
    s->setX((*v)[0]);
    s->setY((*v)[1]);
    s->setYaw((*v)[2]);
    s.enforceBounds();
    s >> *state;
}

void spatialState(const OMPL3D& p, const Vec* v,
                  base::ScopedState<base::CompoundStateSpace>* state) {
    base::ScopedState<base::SE3StateSpace> s(p.ss_->getStateSpace());
    s->setXYZ((*v)[0], (*v)[1], (*v)[2]);
    s->rotation().w = (*v)[3];
    s->rotation().x = (*v)[4];
    s->rotation().y = (*v)[5];
    s->rotation().z = (*v)[6];
    s.enforceBounds();
    s >> *state;
}

void jointedState(const OMPL3DArticulated& p, const Vec* v,
                  base::ScopedState<base::CompoundStateSpace>* state) {
    const auto* whole = p.ss_->getStateSpace()->as<base::CompoundStateSpace>();
    base::ScopedState<base::SE3StateSpace> s(whole->getSubspace(0));
    s->setXYZ((*v)[0], (*v)[1], (*v)[2]);
    s->rotation().w = (*v)[3];
    s->rotation().x = (*v)[4];
    s->rotation().y = (*v)[5];
    s->rotation().z = (*v)[6];
    s.enforceBounds();
    s >> *state;
    base::ScopedState<base::RealVectorStateSpace> joints(
        whole->getSubspace(1));
    for (unsigned int k = 0; k < p.numJoint_; k++) {
        joints->values[k] = (*v)[7 + k];
    }
    joints.enforceBounds();
    joints >> *state;
}

Vec jointedVector(const OMPL3DArticulated& p, const base::State* state) {
    base::ScopedState<base::CompoundStateSpace> all(p.ss_->getStateSpace());
    all = state->as<base::CompoundState>();
    const auto* whole = p.ss_->getStateSpace()->as<base::CompoundStateSpace>();
    base::ScopedState<base::SE3StateSpace> s(whole->getSubspace(0));
    s << all;
    base::ScopedState<base::RealVectorStateSpace> joints(
        whole->getSubspace(1));
    joints << all;
    Vec v(7 + p.numJoint_);
    v[0] = s->getX();
    v[1] = s->getY();
    v[2] = s->getZ();
    v[3] = s->rotation().w;
    v[4] = s->rotation().x;
    v[5] = s->rotation().y;
    v[6] = s->rotation().z;
    for (unsigned int k = 0; k < p.numJoint_; k++) {
        v[7 + k] = joints->values[k];
    }
    return v;
}

// ---------------------------------------------------------------- state spaces
void planarSpace(OMPL2D& p, const Vec& low, const Vec& high) {
    base::RealVectorBounds limits(2);
    for (int k = 0; k < 2; k++) {
        limits.setLow(k, low[k]);
    }
    for (int k = 0; k < 2; k++) {
        limits.setHigh(k, high[k]);
    }
    auto space = std::make_shared<base::SE2StateSpace>();
    space->setBounds(limits);
    p.ss_ = std::make_shared<geometric::SimpleSetup>(space);
}

void spatialSpace(OMPL3D& p, const Vec& low, const Vec& high) {
    base::RealVectorBounds limits(3);
    for (int k = 0; k < 3; k++) {
        limits.setLow(k, low[k]);
    }
    for (int k = 0; k < 3; k++) {
        limits.setHigh(k, high[k]);
    }
    auto space = std::make_shared<base::SE3StateSpace>();
    space->setBounds(limits);
    p.ss_ = std::make_shared<geometric::SimpleSetup>(space);
}

void jointedSpace(OMPL3DArticulated& p, const Vec& low, const Vec& high) {
    base::StateSpacePtr pose = std::make_shared<base::SE3StateSpace>();
    base::StateSpacePtr joints =
        std::make_shared<base::RealVectorStateSpace>(p.numJoint_);
    base::StateSpacePtr space = pose + joints;
    base::RealVectorBounds limits(3);
    for (int k = 0; k < 3; k++) {
        limits.setLow(k, low[k]);
    }
    for (int k = 0; k < 3; k++) {
        limits.setHigh(k, high[k]);
    }
    base::RealVectorBounds turns(p.numJoint_);
    for (unsigned int k = 0; k < p.numJoint_; k++) {
        turns.setLow(k, -p.maxJointAngle_);
        turns.setHigh(k, p.maxJointAngle_);
    }
    auto* both = space->as<base::CompoundStateSpace>();
    both->getSubspace(0)->as<base::SE3StateSpace>()->setBounds(limits);
    both->getSubspace(1)->as<base::RealVectorStateSpace>()->setBounds(turns);
    p.ss_ = std::make_shared<geometric::SimpleSetup>(space);
}

// ---------------------------------------------------------------- robot
MultiBodyTree2D planarRobot(const OMPL2D& p, const base::State* state) {
    const Vec v = p.setVectorFromState(state);
    SE2Transform pose = SE2Transform::Identity();
    pose(0, 0) = std::cos(v[2]);
    pose(0, 1) = -std::sin(v[2]);
    pose(1, 0) = std::sin(v[2]);
    pose(1, 1) = std::cos(v[2]);
    pose(0, 2) = v[0];
    pose(1, 2) = v[1];
    MultiBodyTree2D robot = p.robot_;
    robot.robotTF(pose);
    return robot;
}

SE3Transform poseOf(const Vec& v) {
    SE3Transform pose = SE3Transform::Identity();
    pose.topLeftCorner(3, 3) =
        Eigen::Quaterniond(v[3], v[4], v[5], v[6]).toRotationMatrix();
    for (int k = 0; k < 3; k++) {
        pose(k, 3) = v[k];
    }
    return pose;
}

MultiBodyTree3D spatialRobot(const OMPL3D& p, const base::State* state) {
    MultiBodyTree3D robot = p.robot_;
    robot.robotTF(poseOf(p.setVectorFromState(state)));
    return robot;
}

MultiBodyTree3D jointedRobot(const OMPL3DArticulated& p,
                             const base::State* state) {
    const Vec v = p.setVectorFromState(state);
    Eigen::VectorXd joints(p.numJoint_);
    for (unsigned int k = 0; k < p.numJoint_; k++) {
        joints(k) = v[7 + k];
    }
    MultiBodyTree3D robot = p.robot_;
    robot.robotTF(p.urdfFile_, poseOf(v), joints);
    return robot;
}

// ---------------------------------------------------------------- collisions
void planarModels(OMPL2D& p) {
    p.objRobot_.push_back(setCollisionObjectFromSQ(p.robot_.getBase()));
    for (const auto& link : p.robot_.getLinks()) {
        p.objRobot_.push_back(setCollisionObjectFromSQ(link));
    }
    for (const auto& thing : p.obstacle_) {
        p.objObs_.push_back(setCollisionObjectFromSQ(thing));
    }
}

fcl::CollisionObject<double> ellipsoid(const SuperQuadrics& s) {
    return fcl::CollisionObject<double>(
        std::shared_ptr<fcl::CollisionGeometry<double>>(
            new fcl::Ellipsoid<double>(s.getSemiAxis()[0], s.getSemiAxis()[1],
                                       s.getSemiAxis()[2])));
}

void spatialModels(OMPL3D& p) {
    p.objRobot_.push_back(ellipsoid(p.robot_.getBase()));
    for (const auto& link : p.robot_.getLinks()) {
        p.objRobot_.push_back(ellipsoid(link));
    }
    for (const auto& thing : p.obstacle_) {
        const auto& eps = thing.getEpsilon();
        const bool round =
            std::fabs(eps[0] - 1.0) < 1e-6 && std::fabs(eps[1] - 1.0) < 1e-6;
        p.objObs_.push_back(round ? ellipsoid(thing)
                                  : setCollisionObjectFromSQ(thing));
    }
}

bool planarHit(const OMPL2D& p, const SuperEllipse& body, size_t b, size_t o) {
    const SuperEllipse& thing = p.obstacle_[o];
    if (std::fabs(thing.getEpsilon() - 1.0) < 1e-6) {
        return !isEllipseSeparated(body, thing);
    }
    return isCollision(body, p.objRobot_[b], thing, p.objObs_[o]);
}

bool planarFree(const OMPL2D& p, const MultiBodyTree2D& robot) {
    for (size_t o = 0; o < p.obstacle_.size(); o++) {
        if (planarHit(p, robot.getBase(), 0, o)) {
            return false;
        }
        for (size_t b = 0; b < robot.getNumLinks(); b++) {
            if (planarHit(p, robot.getLinks()[b], b + 1, o)) {
                return false;
            }
        }
    }
    return true;
}

bool spatialFree(const OMPL3D& p, const MultiBodyTree3D& robot) {
    for (size_t o = 0; o < p.obstacle_.size(); o++) {
        const SuperQuadrics& thing = p.obstacle_[o];
        if (isCollision(robot.getBase(), p.objRobot_[0], thing,
                        p.objObs_[o])) {
            return false;
        }
        for (size_t b = 0; b < robot.getNumLinks(); b++) {
            if (isCollision(robot.getLinks()[b], p.objRobot_[b + 1], thing,
                            p.objObs_[o])) {
                return false;
            }
        }
    }
    return true;
}

// ---------------------------------------------------------------- planning
template <class R, class O>
bool valid(const OMPLInterface<R, O>& p, const base::State* state) {
    return p.isSeparated(p.transformRobot(state));
}

template <class R, class O>
void prepare(OMPLInterface<R, O>& p, const Index planner, const Index sampler) {
    p.setStateSpace(p.lowBound_, p.highBound_);
    OMPLInterface<R, O>* self = &p;
    p.ss_->setStateValidityChecker([self](const base::State* state) {
        return self->isStateValid(state);
    });
    p.ss_->getSpaceInformation()->setStateValidityCheckingResolution(0.01);
    p.setCollisionObject();
    p.setPlanner(planner);
    p.setValidStateSampler(sampler);
    p.ss_->setup();
}

template <class R, class O>
bool planOnce(OMPLInterface<R, O>& p, const Vec& start, const Vec& goal,
              const double limit) {
    p.isSolved_ = false;
    p.lengthPath_ = 0;
    p.path_ = {};
    p.path_interp_ = {};
    if (!p.ss_) {
        return false;
    }
    p.ss_->clear();
    p.setStartAndGoalState(start, goal);
    const base::PlannerStatus told = p.ss_->solve(limit);
    p.totalTime_ = p.ss_->getLastPlanComputationTime();
    if (told && p.totalTime_ < limit) {
        p.lengthPath_ = p.ss_->getSolutionPath().getStates().size();
        p.isSolved_ = true;
    }
    p.getSolution();
    return true;
}

template <class R, class O>
void choosePlanner(OMPLInterface<R, O>& p, const Index id) {
    const auto& info = p.ss_->getSpaceInformation();
    switch (id) {
        case 0:
            p.ss_->setPlanner(std::make_shared<geometric::PRM>(info));
            break;
        case 1:
            p.ss_->setPlanner(std::make_shared<geometric::LazyPRM>(info));
            break;
        case 2:
            p.ss_->setPlanner(std::make_shared<geometric::RRT>(info));
            break;
        case 3:
            p.ss_->setPlanner(std::make_shared<geometric::RRTConnect>(info));
            break;
        case 4:
            p.ss_->setPlanner(std::make_shared<geometric::EST>(info));
            break;
        case 5:
            p.ss_->setPlanner(std::make_shared<geometric::SBL>(info));
            break;
        case 6:
            p.ss_->setPlanner(std::make_shared<geometric::KPIECE1>(info));
            break;
        default:
            break;
    }
}

template <class S>
base::ValidStateSamplerPtr sampler(const base::SpaceInformation* info) {
    return std::make_shared<S>(info);
}

template <class R, class O>
void chooseSampler(OMPLInterface<R, O>& p, const Index id) {
    const auto& info = p.ss_->getSpaceInformation();
    if (id == 0) {
        info->setValidStateSamplerAllocator(
            [](const base::SpaceInformation* si) {
                return sampler<base::UniformValidStateSampler>(si);
            });
    }
    if (id == 1) {
        info->setValidStateSamplerAllocator(
            [](const base::SpaceInformation* si) {
                return sampler<base::GaussianValidStateSampler>(si);
            });
    }
    if (id == 2) {
        info->setValidStateSamplerAllocator(
            [](const base::SpaceInformation* si) {
                return sampler<base::ObstacleBasedValidStateSampler>(si);
            });
    }
    if (id == 3) {
        info->setValidStateSamplerAllocator(
            [](const base::SpaceInformation* si) -> base::ValidStateSamplerPtr {
                auto s =
                    std::make_shared<base::MaximizeClearanceValidStateSampler>(
                        si);
                s->setNrImproveAttempts(5);
                return s;
            });
    }
    if (id == 4) {
        info->setValidStateSamplerAllocator(
            [](const base::SpaceInformation* si) {
                return sampler<base::BridgeTestValidStateSampler>(si);
            });
    }
    p.ss_->setup();
}

template <class R, class O>
void endStates(OMPLInterface<R, O>& p, const Vec& start, const Vec& goal) {
    base::ScopedState<base::CompoundStateSpace> a(p.ss_->getStateSpace());
    p.setStateFromVector(&start, &a);
    a.enforceBounds();
    base::ScopedState<base::CompoundStateSpace> b(p.ss_->getStateSpace());
    p.setStateFromVector(&goal, &b);
    b.enforceBounds();
    p.ss_->setStartAndGoalStates(a, b);
}

template bool valid(const OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const base::State*);
template bool valid(const OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const base::State*);
template void prepare(OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const Index, const Index);
template void prepare(OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const Index, const Index);
template bool planOnce(OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const Vec&, const Vec&, const double);
template bool planOnce(OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const Vec&, const Vec&, const double);
template void choosePlanner(OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const Index);
template void choosePlanner(OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const Index);
template void chooseSampler(OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const Index);
template void chooseSampler(OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const Index);
template void endStates(OMPLInterface<MultiBodyTree2D, SuperEllipse>&, const Vec&, const Vec&);
template void endStates(OMPLInterface<MultiBodyTree3D, SuperQuadrics>&, const Vec&, const Vec&);

// ---------------------------------------------------------------- results
template <class P>
void graphOf(P& p) {
    base::PlannerData data(p.ss_->getSpaceInformation());
    p.ss_->getPlannerData(data);
    p.numGraphVertex_ = data.numVertices();
    p.numGraphEdges_ = data.numEdges();
    p.vertex_.clear();
    for (unsigned int k = 0; k < p.numGraphVertex_; k++) {
        p.vertex_.push_back(p.setVectorFromState(data.getVertex(k).getState()));
    }
    p.edge_.clear();
    for (unsigned int k = 0; k < p.numGraphVertex_; k++) {
        std::vector<unsigned int> ends;
        data.getEdges(k, ends);
        for (unsigned int e : ends) {
            p.edge_.push_back({k, e});
        }
    }
    const auto& checker = data.getSpaceInformation()->getMotionValidator();
    p.numCollisionChecks_ = checker->getCheckedMotionCount();
    p.numValidStates_ = checker->getValidMotionCount();
    p.validSpace_ =
        p.ss_->getSpaceInformation()->probabilityOfValidState(1000);
}

template <class P>
void pathsOf(P& p, const unsigned int samples) {
    geometric::PathGeometric path = p.ss_->getSolutionPath();
    for (auto* s : path.getStates()) {
        p.path_.push_back(p.setVectorFromState(s));
    }
    path.interpolate(samples);
    for (auto* s : path.getStates()) {
        p.path_interp_.push_back(p.setVectorFromState(s));
    }
}

void planarResult(OMPL2D& p) {
    if (p.isSolved_) {
        p.ss_->simplifySolution();
        p.lengthPath_ = p.ss_->getSolutionPath().getStates().size();
        pathsOf(p, 200);
    }
    p.totalTime_ = p.ss_->getLastPlanComputationTime();
    graphOf(p);
}

void spatialResult(OMPL3D& p) {
    if (p.isSolved_) {
        try {
            p.ss_->simplifySolution();
            pathsOf(p, 50);
        } catch (ompl::Exception&) {
        }
    }
    graphOf(p);
}

// ---------------------------------------------------------------- construction
template <class R, class O>
struct MadeOmpl {
    MadeOmpl(const std::vector<double>& low, const std::vector<double>& high, const R& robot,
             const std::vector<O>& arena, const std::vector<O>& obstacle)
        : robot_(robot), arena_(arena), lowBound_(low), highBound_(high), obstacle_(obstacle) {}
    R robot_;
    std::vector<O> arena_;
    const std::vector<double>& lowBound_;
    const std::vector<double>& highBound_;
    std::vector<O> obstacle_;
};
template struct MadeOmpl<MultiBodyTree2D, SuperEllipse>;
template struct MadeOmpl<MultiBodyTree3D, SuperQuadrics>;

struct MadePlanar {
    MadePlanar(const Vec& low, const Vec& high, const MultiBodyTree2D& robot, const std::vector<SuperEllipse>& arena,
               const std::vector<SuperEllipse>& obstacle)
        : robot_(robot), arena_(arena), lowBound_(low), highBound_(high), obstacle_(obstacle) {}
    MultiBodyTree2D robot_;
    std::vector<SuperEllipse> arena_;
    const Vec& lowBound_;
    const Vec& highBound_;
    std::vector<SuperEllipse> obstacle_;
};

struct MadeSpatial {
    MadeSpatial(const Vec& low, const Vec& high, const MultiBodyTree3D& robot,
                const std::vector<SuperQuadrics>& arena, const std::vector<SuperQuadrics>& obstacle,
                const std::vector<Mesh>& meshes)
        : robot_(robot), arena_(arena), lowBound_(low), highBound_(high), obstacle_(obstacle), obsMesh_(meshes) {}
    MultiBodyTree3D robot_;
    std::vector<SuperQuadrics> arena_;
    const Vec& lowBound_;
    const Vec& highBound_;
    std::vector<SuperQuadrics> obstacle_;
    const std::vector<Mesh>& obsMesh_;
};

struct MadeJointed {
    MadeJointed(const Vec& low, const Vec& high, const MultiBodyTree3D& robot, const std::string& file,
                const std::vector<SuperQuadrics>& arena, const std::vector<SuperQuadrics>& obstacle,
                const std::vector<Mesh>& meshes)
        : robot_(robot), arena_(arena), lowBound_(low), highBound_(high), obstacle_(obstacle), obsMesh_(meshes),
          urdfFile_(file) {}
    MultiBodyTree3D robot_;
    std::vector<SuperQuadrics> arena_;
    const Vec& lowBound_;
    const Vec& highBound_;
    std::vector<SuperQuadrics> obstacle_;
    const std::vector<Mesh>& obsMesh_;
    const std::string urdfFile_;
};

void makeJointed(OMPL3DArticulated& p, const Vec& low, const Vec& high, const MultiBodyTree3D& robot,
                 const std::string& file, const std::vector<SuperQuadrics>& arena,
                 const std::vector<SuperQuadrics>& obstacles, const std::vector<Mesh>&) {
    p.robot_ = robot;
    p.arena_ = arena;
    p.obstacle_ = obstacles;
    const_cast<std::string&>(p.urdfFile_) = file;
    p.kdl_ = std::make_shared<ParseURDF>(file);
    p.numJoint_ = p.kdl_->getKDLTree().getNrOfJoints();
    p.setStateSpace(low, high);
}
}  // namespace spec
