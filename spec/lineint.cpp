// Reference model: intersections of lines with polygons and triangle meshes, mesh construction.
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"

namespace spec {
using namespace hrm;

static bool fresh(const std::vector<Point3D>& points, const Point3D& p) {
    return points.empty() || (p - points[0]).norm() > 1e-8;
}

// crossings of a line with the faces of a mesh, at most two different ones
std::vector<Point3D> lineMesh(const Line3D& line, const MeshMatrix& shape) {
    std::vector<Point3D> points;
    const Eigen::Vector3d dir(line(3), line(4), line(5));
    for (int k = 0; k < 3; k++) {
        const Eigen::Vector3d axis(k == 0, k == 1, k == 2);
        if (std::fabs(dir.dot(axis)) < 1e-6) {
            if (line(k) > shape.vertices.row(k).maxCoeff() || line(k) < shape.vertices.row(k).minCoeff()) {
                return points;
            }
        }
    }
    Point3D p;
    for (int i = 0; i < shape.faces.rows(); i++) {
        const Eigen::Vector3d a = shape.vertices.col(int(shape.faces(i, 0)));
        const Eigen::Vector3d b = shape.vertices.col(int(shape.faces(i, 1)));
        const Eigen::Vector3d c = shape.vertices.col(int(shape.faces(i, 2)));
        if (intersectLineTriangle3D(line, a, b - a, c - a, p) && fresh(points, p)) {
            points.push_back(p);
        }
        if (points.size() == 2) {
            break;
        }
    }
    return points;
}

static bool outside(const double v, const double a, const double b, const double c) {
    return v < std::fmin(a, std::fmin(b, c)) || v > std::fmax(a, std::fmax(b, c));
}

// the same for a vertical line: a face whose projection cannot contain the line is skipped
std::vector<Point3D> verticalMesh(const Line3D& line, const MeshMatrix& shape) {
    std::vector<Point3D> points;
    for (int k = 0; k < 2; k++) {
        if (line(k) > shape.vertices.row(k).maxCoeff() || line(k) < shape.vertices.row(k).minCoeff()) {
            return points;
        }
    }
    Point3D p;
    for (int i = 0; i < shape.faces.rows(); i++) {
        const int f0 = int(shape.faces(i, 0));
        const int f1 = int(shape.faces(i, 1));
        const int f2 = int(shape.faces(i, 2));
        if (outside(line(0), shape.vertices(0, f0), shape.vertices(0, f1), shape.vertices(0, f2)) ||
            outside(line(1), shape.vertices(1, f0), shape.vertices(1, f1), shape.vertices(1, f2))) {
            continue;
        }
        const Eigen::Vector3d a = shape.vertices.col(f0);
        const Eigen::Vector3d b = shape.vertices.col(f1);
        const Eigen::Vector3d c = shape.vertices.col(f2);
        if (intersectLineTriangle3D(line, a, b - a, c - a, p) && fresh(points, p)) {
            points.push_back(p);
        }
        if (points.size() == 2) {
            break;
        }
    }
    return points;
}

// line through a triangle: crossing with its plane, inside by its two edge coordinates
bool lineTriangle(const Line3D& line, const Eigen::Vector3d& t0, const Eigen::Vector3d& u, const Eigen::Vector3d& v,
                  Point3D& pt) {
    const double tol = 1e-12;
    const Eigen::Vector3d n = u.cross(v).normalized();
    const Eigen::Vector3d from = line.head(3);
    const Eigen::Vector3d dir = line.tail(3);
    const double b = n.dot(dir);
    if (std::fabs(b) <= tol || n.norm() <= tol) {
        return false;
    }
    pt = from - n.dot(from - t0) / b * dir;
    const double uu = u.dot(u);
    const double uv = u.dot(v);
    const double vv = v.dot(v);
    const double wu = u.dot(pt - t0);
    const double wv = v.dot(pt - t0);
    const double d = uv * uv - uu * vv;
    const double s = (uv * wv - vv * wu) / d;
    const double t = (uv * wu - uu * wv) / d;
    if (s < -tol || s > 1 + tol) {
        return false;
    }
    return t >= -tol && s + t <= 1 + tol;
}

// a segment properly crosses some edge of a closed polygon
bool segPolygon(const std::pair<std::vector<double>, std::vector<double>>& seg, const Eigen::Matrix2Xd& shape) {
    const double px = seg.first.at(0);
    const double py = seg.first.at(1);
    for (int i = 0; i < shape.cols(); i++) {
        const int j = i == shape.cols() - 1 ? 0 : i + 1;
        Eigen::Matrix2d a;
        a(0, 0) = seg.second.at(0) - px;
        a(1, 0) = seg.second.at(1) - py;
        a(0, 1) = shape(0, i) - shape(0, j);
        a(1, 1) = shape(1, i) - shape(1, j);
        const Eigen::Vector2d b(shape(0, i) - px, shape(1, i) - py);
        const Eigen::Vector2d x = a.colPivHouseholderQr().solve(b);
        if (x(0) > 0 && x(0) < 1 && x(1) > 0 && x(1) < 1) {
            return true;
        }
    }
    return false;
}

// abscissas where a horizontal line crosses a closed polygon
std::vector<double> linePolygon(const double ty, const Eigen::Matrix2Xd& shape) {
    std::vector<double> points;
    if (ty > shape.row(1).maxCoeff() || ty < shape.row(1).minCoeff()) {
        return points;
    }
    for (int i = 0; i < shape.cols(); i++) {
        const int j = i == shape.cols() - 1 ? 0 : i + 1;
        const double y1 = shape(1, i);
        const double y2 = shape(1, j);
        if (ty < std::fmin(y1, y2) || ty > std::fmax(y1, y2)) {
            continue;
        }
        const double t = (ty - y2) / (y1 - y2);
        if (t >= 0 && t <= 1) {
            const double x = t * shape(0, i) + (1 - t) * shape(0, j);
            if (points.empty() || std::fabs(x - points[0]) > 1e-8) {
                points.push_back(x);
            }
        }
    }
    return points;
}

// two triangles for every cell of the parameter grid
MeshMatrix gridMesh(const BoundaryPoints& surface, const Index n) {
    const Eigen::Index m = Eigen::Index(n) - 1;
    const Eigen::Index cells = m * m;
    Eigen::ArrayXd q(cells);
    for (Eigen::Index i = 0; i < n - 1; i++) {
        q.segment(i * m, m) = Eigen::ArrayXd::LinSpaced(m, double(i * n), double((i + 1) * n - 2));
    }
    MeshMatrix mesh;
    mesh.vertices = surface;
    mesh.faces = Eigen::MatrixXd::Zero(2 * cells, 3);
    mesh.faces.block(0, 0, cells, 1) = q;
    mesh.faces.block(0, 1, cells, 1) = q + Eigen::Index(n);
    mesh.faces.block(0, 2, cells, 1) = q + Eigen::Index(n) + 1;
    mesh.faces.block(cells, 0, cells, 1) = q;
    mesh.faces.block(cells, 1, cells, 1) = q + 1;
    mesh.faces.block(cells, 2, cells, 1) = q + Eigen::Index(n) + 1;
    return mesh;
}

ParametricPoints columns(const BoundaryPoints& m) {
    ParametricPoints p;
    for (int i = 0; i < m.cols(); i++) {
        p.x.push_back(m(0, i));
        p.y.push_back(m(1, i));
        p.z.push_back(m(2, i));
    }
    return p;
}

ParametricPoints boundary(const SuperQuadrics& obj) {
    return getBoundaryFromMatrix(obj.getOriginShape());
}

// mesh of the shape in its own frame
Mesh meshOfShape(const SuperQuadrics& sq) {
    const SuperQuadrics local(sq.getSemiAxis(), sq.getEpsilon(), {0.0, 0.0, 0.0}, Eigen::Quaterniond(1, 0, 0, 0),
                              sq.getNumParam());
    return getMesh(getBoundary3D(local));
}
}  // namespace spec
