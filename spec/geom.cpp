// Reference model: superellipses, superquadrics, enclosing ellipsoids.
#include "hrm/geometry/PointInPoly.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/DistanceMetric.h"
#include "hrm/util/ExponentialFunction.h"
#include "hrm/util/InterpolateSE3.h"

namespace spec {
using namespace hrm;

// signed power of the cosine (or sine)
double expfun(const double theta, const double power, const bool isSine) {
    const double v = isSine ? std::sin(theta) : std::cos(theta);
    return sgn(v) * std::pow(std::fabs(v), power);
}

Distance euclidean(const std::vector<Coordinate>& a, const std::vector<Coordinate>& b) {
    double sum = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        sum += (a[i] - b[i]) * (a[i] - b[i]);
    }
    return std::sqrt(sum);
}

// a point lies in a union of simplices when its barycentric coordinates in one are all in [0,1]
bool inPoly(PolyCSpace poly, const std::vector<double>& pt) {
    const Eigen::Vector4d p(pt[0], pt[1], pt[2], 1);
    for (size_t i = 0; i < poly.matrixInverse.size(); i++) {
        const Eigen::Matrix4d inv = Eigen::Map<Eigen::Matrix4d, Eigen::Unaligned>(poly.matrixInverse[i].data(), 4, 4);
        const Eigen::Vector4d alpha = inv * p;
        if (alpha.minCoeff() >= 0 && alpha.maxCoeff() <= 1) {
            return true;
        }
    }
    return false;
}

// boundary of a superellipse: closed, num_ points from angle 0 to 2 pi
BoundaryPoints origin2D(const SuperEllipse& self) {
    BoundaryPoints canon(2, self.num_);
    Eigen::MatrixXd centre(2, self.num_);
    for (int i = 0; i < int(self.num_); i++) {
        const double th = 2 * PI * i / (double(self.num_) - 1);
        canon(0, i) = self.semiAxis_.at(0) * exponentialFunction(th, self.epsilon_, false);
        canon(1, i) = self.semiAxis_.at(1) * exponentialFunction(th, self.epsilon_, true);
        centre(0, i) = self.position_.at(0);
        centre(1, i) = self.position_.at(1);
    }
    const Eigen::Rotation2Dd rot(self.angle_);
    return rot.matrix() * canon + centre;
}

void makeEllipse(SuperEllipse& self, std::vector<double> semiAxis, const double epsilon,
                 std::vector<double> position, const double angle, const Index num) {
    self.semiAxis_ = semiAxis;
    self.epsilon_ = epsilon;
    self.position_ = position;
    self.angle_ = angle;
    self.num_ = num;
}

// boundary of the Minkowski sum (k=1) or difference (k=-1) of a superellipse with an ellipse,
// by its closed form: boundary point plus the ellipse's support point in the direction of the normal
BoundaryPoints ellipseSum(const SuperEllipse& self, const SuperEllipse& other, const Indicator k) {
    const double a = self.semiAxis_.at(0);
    const double b = self.semiAxis_.at(1);
    const double r = fmin(a, b);
    const Eigen::Rotation2Dd rot1(self.angle_);
    const Eigen::Rotation2Dd rot2(other.angle_);
    Eigen::DiagonalMatrix<double, 2> shrink;
    shrink.diagonal() = Eigen::Array2d(other.semiAxis_.at(0) / r, other.semiAxis_.at(1) / r);
    const Eigen::Matrix2d tinv = rot2.matrix() * shrink * rot2.matrix().transpose();

    Eigen::MatrixXd grad(2, self.num_);
    for (int i = 0; i < int(self.num_); i++) {
        const double th = 2 * PI * i / (double(self.num_) - 1);
        grad(0, i) = 2 / (a * self.epsilon_) * exponentialFunction(th, 2 - self.epsilon_, false);
        grad(1, i) = 2 / (b * self.epsilon_) * exponentialFunction(th, 2 - self.epsilon_, true);
    }
    Eigen::Matrix<double, 2, 1> ones;
    ones << 1, 1;
    return self.getOriginShape() +
           (k * r * tinv * tinv * rot1 * grad).cwiseQuotient(ones * (tinv * rot1 * grad).colwise().norm());
}

// signed power of the cosines (or sines) of a matrix of angles
Eigen::MatrixXd expmat(const Eigen::MatrixXd& theta, const double power, const bool isSine) {
    if (isSine) {
        const Eigen::MatrixXd v = theta.array().sin();
        return v.array().sign().cwiseProduct(v.array().abs().pow(power));
    }
    const Eigen::MatrixXd v = theta.array().cos();
    return v.array().sign().cwiseProduct(v.array().abs().pow(power));
}

void makeQuadric(SuperQuadrics& self, std::vector<double> semiAxis, std::vector<double> epsilon,
                 std::vector<double> position, const Eigen::Quaterniond& quat, const Index num) {
    self.semiAxis_ = semiAxis;
    self.epsilon_ = epsilon;
    self.position_ = position;
    self.quat_ = quat;
    self.num_ = num;
    self.Num_ = num * num;
    self.qSample_.clear();
    const Eigen::Index n = num;
    self.eta_ = Eigen::RowVectorXd::LinSpaced(n, -HALF_PI - EPSILON, HALF_PI + EPSILON).replicate(n, 1);
    self.omega_ = Eigen::VectorXd::LinSpaced(n, -PI - EPSILON, PI + EPSILON).replicate(1, n);
}

BoundaryPoints origin3D(const SuperQuadrics& self) {
    const Eigen::Index n = self.num_;
    const Eigen::Index total = self.Num_;
    const Eigen::MatrixXd ceta = exponentialFunctionMatrixForm(self.eta_, self.epsilon_.at(0), false);
    const Eigen::MatrixXd seta = exponentialFunctionMatrixForm(self.eta_, self.epsilon_.at(0), true);
    const Eigen::MatrixXd comega = exponentialFunctionMatrixForm(self.omega_, self.epsilon_.at(1), false);
    const Eigen::MatrixXd somega = exponentialFunctionMatrixForm(self.omega_, self.epsilon_.at(1), true);
    Eigen::MatrixXd x = self.semiAxis_.at(0) * ceta.cwiseProduct(comega);
    Eigen::MatrixXd y = self.semiAxis_.at(1) * ceta.cwiseProduct(somega);
    Eigen::MatrixXd z = self.semiAxis_.at(2) * seta.cwiseProduct(Eigen::MatrixXd::Constant(n, n, 1.0));
    x.resize(1, total);
    y.resize(1, total);
    z.resize(1, total);
    BoundaryPoints canon(3, total);
    canon.row(0) = x;
    canon.row(1) = y;
    canon.row(2) = z;
    const Eigen::Vector3d centre(self.position_.at(0), self.position_.at(1), self.position_.at(2));
    return (self.quat_.toRotationMatrix() * canon).colwise() + centre;
}

BoundaryPoints quadricSum(const SuperQuadrics& self, const SuperQuadrics& other, const Indicator k) {
    const Eigen::Index n = self.num_;
    const Eigen::Index total = self.Num_;
    const Eigen::MatrixXd ceta = exponentialFunctionMatrixForm(self.eta_, 2 - self.epsilon_.at(0), false);
    const Eigen::MatrixXd seta = exponentialFunctionMatrixForm(self.eta_, 2 - self.epsilon_.at(0), true);
    const Eigen::MatrixXd comega = exponentialFunctionMatrixForm(self.omega_, 2 - self.epsilon_.at(1), false);
    const Eigen::MatrixXd somega = exponentialFunctionMatrixForm(self.omega_, 2 - self.epsilon_.at(1), true);
    Eigen::MatrixXd x = ceta.cwiseProduct(comega) / self.semiAxis_.at(0);
    Eigen::MatrixXd y = ceta.cwiseProduct(somega) / self.semiAxis_.at(1);
    Eigen::MatrixXd z = seta.cwiseProduct(Eigen::MatrixXd::Constant(n, n, 1.0)) / self.semiAxis_.at(2);
    x.resize(1, total);
    y.resize(1, total);
    z.resize(1, total);
    Eigen::MatrixXd grad(3, total);
    grad.row(0) = x;
    grad.row(1) = y;
    grad.row(2) = z;

    Eigen::DiagonalMatrix<double, 3> diag;
    diag.diagonal() = Eigen::Array3d(other.semiAxis_.at(0), other.semiAxis_.at(1), other.semiAxis_.at(2));
    const Eigen::Matrix3d rot1 = self.quat_.toRotationMatrix();
    const Eigen::Matrix3d rot2 = other.quat_.toRotationMatrix();
    const Eigen::Matrix3d tinv = rot2 * diag * rot2.transpose();
    return self.getOriginShape() +
           (k * tinv * tinv * rot1 * grad)
               .cwiseQuotient(Eigen::MatrixXd::Constant(3, 1, 1) * (tinv * rot1 * grad).colwise().norm());
}

// minimum-volume ellipse around two concentric ellipses: shrink b to a sphere, extend the other's
// axes to its radius, stretch back
SuperEllipse mvce2D(const std::vector<double>& a, const std::vector<double>& b, const double thetaA,
                    const double thetaB, const Index num) {
    const Eigen::Matrix2d rotA = Eigen::Rotation2Dd(thetaA).matrix();
    const Eigen::Matrix2d rotB = Eigen::Rotation2Dd(thetaB).matrix();
    const double r = fmin(b[0], b[1]);
    Eigen::DiagonalMatrix<double, 2> shrink;
    Eigen::DiagonalMatrix<double, 2> shapeA;
    Eigen::DiagonalMatrix<double, 2> shapeC;
    shrink.diagonal() = Eigen::Array2d(r / b[0], r / b[1]);
    shapeA.diagonal() = Eigen::Array2d(pow(a[0], -2), pow(a[1], -2));
    const Eigen::Matrix2d t = rotB * shrink * rotB.transpose();
    const Eigen::Matrix2d prime = t.inverse() * (rotA * shapeA * rotA.transpose()) * t.inverse();
    Eigen::JacobiSVD<Eigen::Matrix2d> svd(prime, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const Eigen::Array2d axes = svd.singularValues().array().pow(-0.5);
    const Eigen::Array2d grown(std::max(axes(0), r), std::max(axes(1), r));
    shapeC.diagonal() = grown.pow(-2);
    const Eigen::Matrix2d c = t * svd.matrixU() * shapeC * svd.matrixU().transpose() * t;
    Eigen::JacobiSVD<Eigen::Matrix2d> svdC(c, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const double angle = atan2(svdC.matrixU()(1, 0), svdC.matrixU()(0, 0));
    const Eigen::Array2d semi = svdC.singularValues().array().pow(-0.5);
    return SuperEllipse({semi(0), semi(1)}, 1, {0, 0}, angle, num);
}

SuperQuadrics mvce3D(const std::vector<double>& a, const std::vector<double>& b, const Eigen::Quaterniond& quatA,
                     const Eigen::Quaterniond& quatB, const Index num) {
    const Eigen::Matrix3d rotA = quatA.toRotationMatrix();
    const Eigen::Matrix3d rotB = quatB.toRotationMatrix();
    const double r = fmin(b[0], fmin(b[1], b[2]));
    Eigen::DiagonalMatrix<double, 3> shrink;
    Eigen::DiagonalMatrix<double, 3> shapeA;
    Eigen::DiagonalMatrix<double, 3> shapeC;
    shrink.diagonal() = Eigen::Array3d(r / b[0], r / b[1], r / b[2]);
    shapeA.diagonal() = Eigen::Array3d(pow(a[0], -2.0), pow(a[1], -2.0), pow(a[2], -2.0));
    const Eigen::Matrix3d t = rotB * shrink * rotB.transpose();
    const Eigen::Matrix3d prime = t.inverse() * (rotA * shapeA * rotA.transpose()) * t.inverse();
    Eigen::JacobiSVD<Eigen::Matrix3d> svd(prime, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const Eigen::Array3d axes = svd.singularValues().array().pow(-0.5);
    const Eigen::Array3d grown(std::fmax(axes(0), r), std::fmax(axes(1), r), std::fmax(axes(2), r));
    shapeC.diagonal() = grown.pow(-2.0);
    const Eigen::Matrix3d c = t * svd.matrixU() * shapeC * svd.matrixU().transpose() * t;
    Eigen::JacobiSVD<Eigen::Matrix3d> svdC(c, Eigen::ComputeFullU | Eigen::ComputeFullV);
    Eigen::Matrix3d rotC = svdC.matrixU();
    if (rotC.determinant() < 0.0) {
        rotC.col(2) = -rotC.col(2);
    }
    const Eigen::Array3d semi = svdC.singularValues().array().pow(-0.5);
    return SuperQuadrics({semi(0), semi(1), semi(2)}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(rotC), num);
}

// ellipse around the robot body at every sampled heading between the two
SuperEllipse tightFit2D(const std::vector<double>& a, const double thetaA, const double thetaB, const Index numStep,
                        const Index num) {
    SuperEllipse e = getMVCE2D(a, a, thetaA, thetaB, num);
    for (int i = 0; i < int(numStep); i++) {
        const double t = i / (double(numStep) - 1);
        e = getMVCE2D(a, e.getSemiAxis(), (1 - t) * thetaA + t * thetaB, e.getAngle(), num);
    }
    return e;
}

SuperQuadrics tightFit3D(const std::vector<double>& a, const Eigen::Quaterniond& quatA,
                         const Eigen::Quaterniond& quatB, const Index numStep, const Index num) {
    const std::vector<Eigen::Quaterniond> quat = interpolateSlerp(quatA, quatB, numStep);
    SuperQuadrics e = getMVCE3D(a, a, quatA, quatB, num);
    for (size_t i = 1; i < numStep; i++) {
        e = getMVCE3D(a, e.getSemiAxis(), quat.at(i), e.getQuaternion(), num);
    }
    return e;
}

// ------------------------------------------------------------------ interpolation
std::vector<std::vector<Coordinate>> interpRn(const std::vector<Coordinate>& a, const std::vector<Coordinate>& b,
                                              const Index numStep) {
    std::vector<std::vector<Coordinate>> path;
    for (size_t i = 0; i <= numStep; i++) {
        const double t = i / double(numStep);
        std::vector<Coordinate> x;
        for (size_t j = 0; j < a.size(); j++) {
            x.push_back((1 - t) * a[j] + t * b[j]);
        }
        path.push_back(x);
    }
    return path;
}

std::vector<Eigen::Quaterniond> interpSlerp(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b,
                                            const Index numStep) {
    std::vector<Eigen::Quaterniond> path;
    for (size_t i = 0; i <= numStep; i++) {
        path.push_back(a.slerp(i / double(numStep), b));
    }
    return path;
}

std::vector<Eigen::Quaterniond> interpAxis(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b,
                                           const Index numStep) {
    const Eigen::Matrix3d rotA = a.toRotationMatrix();
    const Eigen::Matrix3d rotB = b.toRotationMatrix();
    const Eigen::AngleAxisd full(rotA.transpose() * rotB);
    std::vector<Eigen::Quaterniond> path;
    for (size_t i = 0; i <= numStep; i++) {
        Eigen::AngleAxisd part = full;
        part.angle() = i / double(numStep) * full.angle();
        path.push_back(Eigen::Quaterniond(rotA * part.toRotationMatrix()));
    }
    return path;
}

std::vector<std::vector<Coordinate>> interpSE3(const std::vector<Coordinate>& a, const std::vector<Coordinate>& b,
                                               const Index numStep) {
    const auto quat = interpolateSlerp(Eigen::Quaterniond(a[3], a[4], a[5], a[6]),
                                       Eigen::Quaterniond(b[3], b[4], b[5], b[6]), numStep);
    const auto trans = interpolateRn({a[0], a[1], a[2]}, {b[0], b[1], b[2]}, numStep);
    std::vector<std::vector<Coordinate>> path;
    for (size_t i = 0; i <= numStep; i++) {
        path.push_back({trans[i][0], trans[i][1], trans[i][2], quat[i].w(), quat[i].x(), quat[i].y(), quat[i].z()});
    }
    return path;
}

std::vector<std::vector<Coordinate>> interpCompound(const std::vector<Coordinate>& a,
                                                    const std::vector<Coordinate>& b, const Index numStep) {
    if (numStep == 0) {
        return {a, b};
    }
    if (a.size() == 7) {
        return interpolateSE3(a, b, numStep);
    }
    const auto pose = interpolateSE3(std::vector<Coordinate>(a.begin(), a.begin() + 7),
                                     std::vector<Coordinate>(b.begin(), b.begin() + 7), numStep);
    const auto joint = interpolateRn(std::vector<Coordinate>(a.begin() + 7, a.end()),
                                     std::vector<Coordinate>(b.begin() + 7, b.end()), numStep);
    std::vector<std::vector<Coordinate>> path;
    for (size_t i = 0; i <= numStep; i++) {
        std::vector<Coordinate> x = pose.at(i);
        x.insert(x.end(), joint.at(i).begin(), joint.at(i).end());
        path.push_back(x);
    }
    return path;
}

void ellipseAxes(SuperEllipse& self, const std::vector<double>& v) { self.semiAxis_ = v; }
void ellipseExponent(SuperEllipse& self, const double v) { self.epsilon_ = v; }
void ellipseAt(SuperEllipse& self, const std::vector<double>& v) { self.position_ = v; }
void ellipseTurn(SuperEllipse& self, const double v) { self.angle_ = v; }
void quadricAxes(SuperQuadrics& self, const std::vector<double>& v) { self.semiAxis_ = v; }
void quadricExponent(SuperQuadrics& self, const std::vector<double>& v) { self.epsilon_ = v; }
void quadricAt(SuperQuadrics& self, const std::vector<double>& v) { self.position_ = v; }
void quadricTurn(SuperQuadrics& self, const Eigen::Quaterniond& v) { self.quat_ = v; }
void quadricSamples(SuperQuadrics& self, const std::vector<Eigen::Quaterniond>& v) { self.qSample_ = v; }
}  // namespace spec
