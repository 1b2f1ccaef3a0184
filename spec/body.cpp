// Reference model: multi-body robots.
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"

namespace spec {
using namespace hrm;

void addBody2D(MultiBodyTree2D& self, const SuperEllipse& link) {
    const double c = std::cos(link.getAngle());
    const double s = std::sin(link.getAngle());
    SE2Transform g;
    g << c, -s, link.getPosition()[0], s, c, link.getPosition()[1], 0, 0, 1;
    self.tf_.push_back(g);
    self.link_.push_back(link);
    self.numLinks_ += 1;
}

static void put2D(SuperEllipse& body, const Eigen::Matrix3d& g) {
    body.setAngle(std::atan2(g(1, 0), g(0, 0)));
    body.setPosition({g(0, 2), g(1, 2)});
}

void place2D(MultiBodyTree2D& self, const Eigen::Matrix3d& g) {
    put2D(self.base_, g);
    for (size_t i = 0; i < self.numLinks_; i++) {
        put2D(self.link_.at(i), g * self.tf_.at(i));
    }
}

// one boundary per body; those of the links are moved to the origin of the base
std::vector<BoundaryPoints> mink2D(const MultiBodyTree2D& self, const SuperEllipse& s1, const Indicator k) {
    std::vector<BoundaryPoints> out{s1.getMinkSum2D(self.base_, k)};
    const Eigen::Matrix2d rot = Eigen::Rotation2Dd(self.base_.getAngle()).toRotationMatrix();
    for (size_t i = 0; i < self.numLinks_; i++) {
        const Eigen::Matrix2d r = rot * self.tf_.at(i).topLeftCorner(2, 2);
        const Point2D offset = rot * self.tf_.at(i).topRightCorner(2, 1);
        SuperEllipse body = self.link_.at(i);
        body.setAngle(std::atan2(r(1, 0), r(0, 0)));
        out.push_back(s1.getMinkSum2D(body, k).colwise() - offset);
    }
    return out;
}

std::vector<SuperQuadrics> shapes3D(MultiBodyTree3D& self) {
    std::vector<SuperQuadrics> all{self.base_};
    for (size_t i = 0; i < self.link_.size(); i++) {
        all.push_back(self.link_[i]);
    }
    return all;
}

void addBody3D(MultiBodyTree3D& self, const SuperQuadrics& link) {
    SE3Transform g = SE3Transform::Identity();
    g.topLeftCorner<3, 3>() = link.getQuaternion().toRotationMatrix();
    for (int i = 0; i < 3; i++) {
        g(i, 3) = link.getPosition()[i];
    }
    self.tf_.push_back(g);
    self.link_.push_back(link);
    self.numLinks_ += 1;
}

static void put3D(SuperQuadrics& body, const Eigen::Matrix4d& g) {
    const Eigen::Matrix3d r = g.topLeftCorner<3, 3>();
    body.setQuaternion(Eigen::Quaterniond(r));
    body.setPosition({g(0, 3), g(1, 3), g(2, 3)});
}

void place3D(MultiBodyTree3D& self, const Eigen::Matrix4d& g) {
    put3D(self.base_, g);
    for (size_t i = 0; i < self.numLinks_; i++) {
        put3D(self.link_.at(i), g * self.tf_.at(i));
    }
}

// link i+1 of the description carries body i
void placeTree3D(MultiBodyTree3D& self, ParseURDF kdl, const Eigen::Matrix4d& g, const Eigen::VectorXd& joints) {
    KDL::JntArray q;
    q.data = joints;
    put3D(self.base_, g);
    for (size_t i = 0; i < self.numLinks_; i++) {
        const SE3Transform t = kdl.getTransform(q, "body" + std::to_string(i + 1));
        put3D(self.link_.at(i), g * t * self.tf_.at(i));
    }
}

void placeFile3D(MultiBodyTree3D& self, const std::string& file, const Eigen::Matrix4d& g,
                 const Eigen::VectorXd& joints) {
    ParseURDF tree(file);
    self.robotTF(tree, g, joints);
}

std::vector<BoundaryPoints> mink3D(const MultiBodyTree3D& self, const SuperQuadrics& s1, const Indicator k) {
    std::vector<BoundaryPoints> out{s1.getMinkSum3D(self.base_, k)};
    for (size_t i = 0; i < self.numLinks_; i++) {
        const std::vector<double>& p = self.link_.at(i).getPosition();
        out.push_back(s1.getMinkSum3D(self.link_.at(i), k).colwise() - Point3D(p[0], p[1], p[2]));
    }
    return out;
}
}  // namespace spec
