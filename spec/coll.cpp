// Reference: collision queries of posed shapes.
#include "hrm/util/EllipsoidSQCollisionFCL.h"

namespace spec {
using hrm::SuperEllipse;
using hrm::SuperQuadrics;
using Object = fcl::CollisionObject<double>;
using Shape = std::shared_ptr<fcl::CollisionGeometry<double>>;

bool touch(Object& a, Object& b) {
    fcl::CollisionRequest<double> ask;
    fcl::CollisionResult<double> told;
    fcl::collide(&a, &b, ask, told);
    return told.isCollision();
}

bool collideQuadrics(const SuperQuadrics& a, Object ma, const SuperQuadrics& b,
                     Object mb) {
    const Eigen::Vector3d pa(a.getPosition()[0], a.getPosition()[1],
                             a.getPosition()[2]);
    const Eigen::Vector3d pb(b.getPosition()[0], b.getPosition()[1],
                             b.getPosition()[2]);
    ma.setTransform(a.getQuaternion().toRotationMatrix(), pa);
    mb.setTransform(b.getQuaternion().toRotationMatrix(), pb);
    return touch(ma, mb);
}

Eigen::Matrix3d about(double angle) {
    const Eigen::Vector3d up(0.0, 0.0, 1.0);
    return Eigen::Quaterniond(Eigen::AngleAxis<double>(angle, up))
        .toRotationMatrix();
}

bool collideEllipses(const SuperEllipse& a, Object ma, const SuperEllipse& b,
                     Object mb) {
    const Eigen::Vector3d pa(a.getPosition()[0], a.getPosition()[1], 0.1);
    const Eigen::Vector3d pb(b.getPosition()[0], b.getPosition()[1], 0.1);
    ma.setTransform(about(a.getAngle()), pa);
    mb.setTransform(about(b.getAngle()), pb);
    return touch(ma, mb);
}

Object meshModel(const SuperQuadrics& s) {
    const hrm::Mesh mesh = hrm::getMeshFromSQ(s);
    auto model = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
    model->beginModel();
    model->addSubModel(mesh.vertices, mesh.triangles);
    model->endModel();
    return Object(Shape(model));
}

Object modelOfQuadric(const SuperQuadrics& s) {
    const bool round = std::fabs(s.getEpsilon()[0] - 1.0) < 1e-6 &&
                       std::fabs(s.getEpsilon()[1] - 1.0) < 1e-6;
    if (!round) {
        return meshModel(s);
    }
    return Object(Shape(new fcl::Ellipsoid<double>(
        s.getSemiAxis()[0], s.getSemiAxis()[1], s.getSemiAxis()[2])));
}

Object modelOfEllipse(const SuperEllipse& s) {
    if (std::fabs(s.getEpsilon() - 1.0) < 1e-6) {
        return Object(Shape(new fcl::Ellipsoid<double>(
            s.getSemiAxis()[0], s.getSemiAxis()[1], 0.1)));
    }
    const SuperQuadrics flat({s.getSemiAxis()[0], s.getSemiAxis()[1], 0.1},
                             {0.1, s.getEpsilon()}, {0.0, 0.0, 0.0},
                             Eigen::Quaterniond::Identity(), 10);
    return meshModel(flat);
}
}  // namespace spec
