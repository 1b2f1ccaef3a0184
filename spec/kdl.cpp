// Reference: from a robot description to a kinematic tree, and the pose of a body.
#include <iostream>
#include "kdl_parser/kdl_parser.hpp"
#include "kdl_parser/model.h"
#include "hrm/util/ParseURDF.h"

namespace kdl_parser {
KDL::Vector toKdl(urdf::Vector3 v);
KDL::Rotation toKdl(urdf::Rotation r);
KDL::Frame toKdl(urdf::Pose p);
KDL::Joint toKdl(const urdf::JointSharedPtr& jnt);
KDL::RigidBodyInertia toKdl(const urdf::InertialSharedPtr& i);
bool addChildrenToTree(const urdf::LinkConstSharedPtr& root, KDL::Tree& tree);
}  // namespace kdl_parser

namespace spec {
using namespace kdl_parser;

KDL::Vector kdlVector(urdf::Vector3 v) { return KDL::Vector(v.x, v.y, v.z); }

KDL::Rotation kdlRotation(urdf::Rotation r) { return KDL::Rotation::Quaternion(r.x, r.y, r.z, r.w); }

KDL::Frame kdlFrame(urdf::Pose p) { return KDL::Frame(kdlRotation(p.rotation), kdlVector(p.position)); }

KDL::Joint kdlJoint(const urdf::JointSharedPtr& j) {
    if (j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::CONTINUOUS || j->type == urdf::Joint::PRISMATIC) {
        const KDL::Frame at = kdlFrame(j->parent_to_joint_origin_transform);
        const KDL::Vector axis = at.M * kdlVector(j->axis);
        if (j->type == urdf::Joint::PRISMATIC) {
            return KDL::Joint(j->name, at.p, axis, KDL::Joint::TransAxis);
        }
        return KDL::Joint(j->name, at.p, axis, KDL::Joint::RotAxis);
    }
    return KDL::Joint(j->name, KDL::Joint::None);
}

KDL::RigidBodyInertia kdlInertia(const urdf::InertialSharedPtr& i) {
    const KDL::Frame at = kdlFrame(i->origin);
    const KDL::RotationalInertia own(i->ixx, i->iyy, i->izz, i->ixy, i->ixz, i->iyz);
    const KDL::RigidBodyInertia turned = at.M * KDL::RigidBodyInertia(0, KDL::Vector::Zero(), own);
    return KDL::RigidBodyInertia(i->mass, at.p, turned.getRotationalInertia());
}

bool kdlBranch(const urdf::LinkConstSharedPtr& link, KDL::Tree& tree) {
    const auto& joint = link->parent_joint;
    KDL::RigidBodyInertia inertia(0);
    if (link->inertial) {
        inertia = toKdl(link->inertial);
    }
    tree.addSegment(
        KDL::Segment(link->name, toKdl(joint), toKdl(joint->parent_to_joint_origin_transform), inertia),
        joint->parent_link_name);
    for (size_t k = 0; k < link->child_links.size(); k++) {
        if (!addChildrenToTree(link->child_links[k], tree)) {
            return false;
        }
    }
    return true;
}

bool kdlTree(const urdf::ModelInterface& model, KDL::Tree& tree) {
    const auto root = model.getRoot();
    if (!root) {
        return false;
    }
    tree = KDL::Tree(root->name);
    for (size_t k = 0; k < root->child_links.size(); k++) {
        if (!addChildrenToTree(root->child_links[k], tree)) {
            return false;
        }
    }
    return true;
}

bool kdlFromXml(const tinyxml2::XMLDocument* doc, KDL::Tree& tree) {
    urdf::Model model;
    if (!model.initXml(doc)) {
        return false;
    }
    return treeFromUrdfModel(model, tree);
}

bool kdlFromFile(const std::string& file, KDL::Tree& tree) {
    tinyxml2::XMLDocument doc;
    doc.LoadFile(file.c_str());
    return treeFromXml(&doc, tree);
}

bool kdlFromText(const std::string& text, KDL::Tree& tree) {
    tinyxml2::XMLDocument doc;
    doc.Parse(text.c_str());
    return treeFromXml(&doc, tree);
}

// ---------------------------------------------------------------- the parsed robot
struct RobotOfTree {
    RobotOfTree(const KDL::Tree& tree) : kdlTree_(tree) {}
    KDL::Tree kdlTree_;
};

struct RobotOfFile {
    RobotOfFile(const std::string& file) { kdl_parser::treeFromFile(file, kdlTree_); }
    KDL::Tree kdlTree_;
};

hrm::SE3Transform poseOfBody(hrm::ParseURDF& p, const KDL::JntArray& joints, const std::string& body) {
    KDL::Frame at;
    KDL::TreeFkSolverPos_recursive solver(p.kdlTree_);
    solver.JntToCart(joints, at, body);
    Eigen::Quaterniond q;
    at.M.GetQuaternion(q.x(), q.y(), q.z(), q.w());
    hrm::SE3Transform g = Eigen::Matrix4d::Identity();
    g.topLeftCorner(3, 3) = q.toRotationMatrix();
    g.topRightCorner(3, 1) = Eigen::Vector3d(at.p.data[0], at.p.data[1], at.p.data[2]);
    return g;
}
}  // namespace spec
