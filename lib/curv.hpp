// Curvature tensors computed without any frame convention, and the placements in which they are compared.
#ifndef VP_CURV_HPP
#define VP_CURV_HPP
#include <Eigen/Cholesky>

#include "shapecheck.hpp"

namespace curv {
using geo::P;
using geo::R;
using mg::Surf;

typedef Eigen::Matrix<long double, 3, 3> M3;
typedef Eigen::Matrix<long double, 3, 1> V3;
inline V3 ev(P a) {
    return V3(a.x, a.y, a.z);
}

// shortest rotation of unit vector a to unit vector b
inline M3 turn(P a, P b) {
    V3 c = ev(geo::cross(a, b));
    R d = geo::dot(a, b);
    M3 K;
    K << 0, -c(2), c(1), c(2), 0, -c(0), -c(1), c(0), 0;
    return M3::Identity() + K + K * K / (1 + d);
}

struct Curv {
    R k1, k2;
    P t1;
    bool judged;
};

// normals and curvature tensors of all vertices; false if some of them are not defined well enough to be judged
inline bool tensors(const sc::Truth &T, bool smooth, std::vector<P> &nv, std::vector<M3> &at) {
    const Surf &s = T.s;
    nv.assign(s.n, P());
    for (int i = 0; i < s.n; i++) {
        if (geo::len(T.normal[i]) < 0.05L * T.normalSize[i]) return false;  // no clear normal
        nv[i] = geo::unit(T.normal[i]);
    }
    // tensors as 3x3 matrices: a -> derivative of the normal along a
    at.assign(s.n, M3::Zero());
    std::vector<R> wsum(s.n, 0);
    for (auto &f : s.t) {
        P p[3], n[3], e[3];
        for (int k = 0; k < 3; k++) p[k] = T.p[f[k]], n[k] = nv[f[k]];
        for (int k = 0; k < 3; k++) e[k] = p[(k + 2) % 3] - p[(k + 1) % 3];
        P nf = geo::unit(geo::cross(p[1] - p[0], p[2] - p[0])), u = geo::unit(e[2]), v = geo::cross(nf, u);
        Eigen::Matrix<long double, 6, 3> A;
        Eigen::Matrix<long double, 6, 1> b;
        for (int k = 0; k < 3; k++) {
            R x = geo::dot(e[k], u), y = geo::dot(e[k], v);
            P dn = n[(k + 2) % 3] - n[(k + 1) % 3];
            A.row(2 * k) << x, y, 0;
            A.row(2 * k + 1) << 0, x, y;
            b(2 * k) = geo::dot(dn, u);
            b(2 * k + 1) = geo::dot(dn, v);
        }
        Eigen::Matrix<long double, 3, 3> AtA = A.transpose() * A;
        Eigen::Matrix<long double, 3, 1> x = AtA.ldlt().solve(A.transpose() * b);
        V3 U = ev(u), V = ev(v);
        M3 S = x(0) * U * U.transpose() + x(1) * (U * V.transpose() + V * U.transpose()) + x(2) * V * V.transpose();
        for (int k = 0; k < 3; k++) {
            if (geo::dot(nv[f[k]], nf) < -0.9L) return false;  // no stable rotation
            M3 Q = turn(nv[f[k]], nf);
            R w = sc::Truth::mixed(p[k], p[(k + 1) % 3], p[(k + 2) % 3]);
            at[f[k]] += w * (Q.transpose() * S * Q);
            wsum[f[k]] += w;
        }
    }
    for (int i = 0; i < s.n; i++) {
        if (!(wsum[i] > 1e-9L)) return false;
        at[i] /= wsum[i];
    }
    if (smooth) {
        std::vector<M3> r(s.n);
        R mean = T.edgeSum / T.edges;
        std::set<std::pair<int, int>> es;
        for (auto &x : T.opp) es.insert(x.first), es.insert({ x.first.second, x.first.first });
        std::vector<R> w(s.n, 1);
        r = at;
        for (auto &x : es) {
            int a = x.first, b = x.second;
            if (geo::dot(nv[a], nv[b]) < -0.9L) return false;
            R d = geo::len(T.p[a] - T.p[b]) / mean, g = expl(-d * d / 2);
            M3 Q = turn(nv[a], nv[b]);
            r[a] += g * (Q.transpose() * at[b] * Q);
            w[a] += g;
        }
        for (int i = 0; i < s.n; i++) at[i] = r[i] / w[i];
    }
    return true;
}

// curvatures and the direction of the greater one
inline void principal(const std::vector<P> &nv, const std::vector<M3> &at, std::vector<Curv> &out) {
    for (int i = 0; i < (int)at.size(); i++) {
        P a = fabsl(nv[i].x) < 0.7L ? P(1, 0, 0) : P(0, 1, 0);
        P u = geo::unit(geo::cross(nv[i], a)), v = geo::cross(nv[i], u);
        R e = ev(u).dot(at[i] * ev(u)), f = ev(u).dot(at[i] * ev(v)), g = ev(v).dot(at[i] * ev(v));
        R h = (e + g) / 2, q = sqrtl((e - g) * (e - g) / 4 + f * f);
        R phi = atan2l(2 * f, e - g) / 2;
        Curv c;
        c.k1 = h + q;
        c.k2 = h - q;
        c.t1 = cosl(phi) * u + sinl(phi) * v;
        c.judged = q > 1e-3L * (fabsl(h) + q) && q > 1e-4L;
        out.push_back(c);
    }
}

inline bool reference(const Surf &s, bool smooth, std::vector<Curv> &out) {
    sc::Truth T(s);
    std::vector<P> nv;
    std::vector<M3> at;
    if (!tensors(T, smooth, nv, at)) return false;
    principal(nv, at, out);
    return true;
}

struct Motion {
    double q[9];
    Vec3 t;
    double scale;
};
static const double C = 0.6, S = 0.8;
static const Motion motions[] = {
    { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, Vec3(0.0), 1 },   { { 0, 1, 0, 0, 0, 1, 1, 0, 0 }, Vec3(1.0, 2.0, -1.0), 1 },
    { { C, -S, 0, S, C, 0, 0, 0, 1 }, Vec3(0.0), 1 },  { { 1, 0, 0, 0, C, -S, 0, S, C }, Vec3(-1.0, 0.0, 0.5), 3 },
    { { -1, 0, 0, 0, -1, 0, 0, 0, 1 }, Vec3(0.0), 1 }, { { C, 0, S, 0, 1, 0, -S, 0, C }, Vec3(0.0, 0.0, 2.0), 0.25 },
};
inline Vec3 apply(const Motion &m, const Vec3 &p) {
    return m.scale * (Vec3(m.q[0] * p[0] + m.q[1] * p[1] + m.q[2] * p[2], m.q[3] * p[0] + m.q[4] * p[1] + m.q[5] * p[2], m.q[6] * p[0] + m.q[7] * p[1] + m.q[8] * p[2]) + m.t);
}
inline P rot(const Motion &m, P p) {
    return P(m.q[0] * p.x + m.q[1] * p.y + m.q[2] * p.z, m.q[3] * p.x + m.q[4] * p.y + m.q[5] * p.z, m.q[6] * p.x + m.q[7] * p.y + m.q[8] * p.z);
}
}  // namespace curv
#endif
