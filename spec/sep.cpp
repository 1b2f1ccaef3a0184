// Reference: algebraic separation test of ellipses and ellipsoids.
#include "hrm/util/EllipsoidSeparation.h"

namespace spec {
using namespace hrm;

// the roots that decide: real and negative
static bool twoDistinctNegative(const std::vector<std::complex<double>>& r) {
    std::vector<size_t> neg;
    for (size_t k = 0; k < r.size(); k++) {
        if (std::fabs(r[k].imag()) < 1e-6 && r[k].real() < 0) {
            neg.push_back(k);
        }
    }
    return neg.size() == 2 && std::abs(r[neg[0]] - r[neg[1]]) > 1e-6;
}

bool separated3D(const SuperQuadrics& e, const SuperQuadrics& f) {
    const auto& s = e.semiAxis_;
    const auto& t = f.semiAxis_;
    Eigen::Matrix4d P = Eigen::Matrix4d::Identity();
    P.topLeftCorner(3, 3) = e.quat_.toRotationMatrix();
    P.topRightCorner(3, 1) = Eigen::Vector3d(e.position_[0], e.position_[1], e.position_[2]);
    Eigen::Matrix4d Q = Eigen::Matrix4d::Identity();
    Q.topLeftCorner(3, 3) = f.quat_.toRotationMatrix();
    Q.topRightCorner(3, 1) = Eigen::Vector3d(f.position_[0], f.position_[1], f.position_[2]);
    Eigen::DiagonalMatrix<double, 4> B;
    B.diagonal() = {1 / (t[0] * t[0]), 1 / (t[1] * t[1]), 1 / (t[2] * t[2]), -1.0};
    const Eigen::Matrix4d rel = Q.inverse() * P;
    const Eigen::Matrix4d b = rel.transpose() * B * rel;
    const double a[4] = {1 / (s[0] * s[0]), 1 / (s[1] * s[1]), 1 / (s[2] * s[2]), -1.0};

    // det(x A - b) by its permutations: the power of x is the number of a's taken
    std::vector<double> c = {0, 0, 0, 0, 0};
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 4; j++) {
            for (int k = 0; k < 4; k++) {
                const int l = 6 - i - j - k;
                if (i == j || i == k || j == k || l < 0 || l > 3 || l == i || l == j || l == k) {
                    continue;
                }
                const int p[4] = {i, j, k, l};
                double sign = 1;
                for (int u = 0; u < 4; u++) {
                    for (int v = u + 1; v < 4; v++) {
                        if (p[u] > p[v]) {
                            sign = -sign;
                        }
                    }
                }
                // product of the four factors (x A - b)(u, p[u]), by power of x
                double q[5] = {sign, 0, 0, 0, 0};
                for (int u = 0; u < 4; u++) {
                    for (int d = 4; d > 0; d--) {
                        q[d] = -b(u, p[u]) * q[d] + (p[u] == u ? a[u] : 0) * q[d - 1];
                    }
                    q[0] *= -b(u, p[u]);
                }
                for (int d = 0; d < 5; d++) {
                    c[4 - d] += q[d];
                }
            }
        }
    }
    return twoDistinctNegative(getRootsPolynomial(c));
}

bool separated2D(const SuperEllipse& e, const SuperEllipse& f) {
    const auto& s = e.semiAxis_;
    const auto& t = f.semiAxis_;
    Eigen::Matrix3d P = Eigen::Matrix3d::Identity();
    P.topLeftCorner(2, 2) = Eigen::Rotation2Dd(e.angle_).toRotationMatrix();
    P.topRightCorner(2, 1) = Eigen::Vector2d(e.position_[0], e.position_[1]);
    Eigen::Matrix3d Q = Eigen::Matrix3d::Identity();
    Q.topLeftCorner(2, 2) = Eigen::Rotation2Dd(f.angle_).toRotationMatrix();
    Q.topRightCorner(2, 1) = Eigen::Vector2d(f.position_[0], f.position_[1]);
    Eigen::DiagonalMatrix<double, 3> B;
    B.diagonal() = {1 / (t[0] * t[0]), 1 / (t[1] * t[1]), -1.0};
    const Eigen::Matrix3d rel = Q.inverse() * P;
    const Eigen::Matrix3d b = rel.transpose() * B * rel;
    const double a[3] = {1 / (s[0] * s[0]), 1 / (s[1] * s[1]), -1.0};

    std::vector<double> c = {0, 0, 0, 0};
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            const int k = 3 - i - j;
            if (i == j || k < 0 || k > 2 || k == i || k == j) {
                continue;
            }
            const int p[3] = {i, j, k};
            double sign = 1;
            for (int u = 0; u < 3; u++) {
                for (int v = u + 1; v < 3; v++) {
                    if (p[u] > p[v]) {
                        sign = -sign;
                    }
                }
            }
            double q[4] = {sign, 0, 0, 0};
            for (int u = 0; u < 3; u++) {
                for (int d = 3; d > 0; d--) {
                    q[d] = -b(u, p[u]) * q[d] + (p[u] == u ? a[u] : 0) * q[d - 1];
                }
                q[0] *= -b(u, p[u]);
            }
            for (int d = 0; d < 4; d++) {
                c[3 - d] += q[d];
            }
        }
    }
    return twoDistinctNegative(getRootsPolynomial(c));
}

// eigenvalues of the companion matrix, after as many zeros
std::vector<std::complex<double>> polynomialRoots(const std::vector<double>& c) {
    const int n = int(c.size()) - 1;
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(n, n);
    M.bottomLeftCorner(n - 1, n - 1) = Eigen::MatrixXd::Identity(n - 1, n - 1);
    for (int k = 0; k < n; k++) {
        M(0, k) = -c[k + 1] / c[0];
    }
    const Eigen::MatrixXcd v = M.eigenvalues();
    std::vector<std::complex<double>> roots(n);
    for (int k = 0; k < n; k++) {
        roots.push_back(v(k));
    }
    return roots;
}
}  // namespace spec
