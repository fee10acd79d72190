// N02: L0 denoising of every closed mesh, placed, rotated and numbered in every way of the alphabet, gives the same shape.
#include <Eigen/Cholesky>

#include "filt.hpp"
#include "filters/filters.h"
using namespace filt;
using namespace tinymesh;

static std::vector<Surf> list_;
static const double weights[][2] = { { 0.1, 1e-3 }, { 0.0, 1e-3 }, { 1.0, 1e-2 }, { 0.1, 1.0 }, { 0.1, 2e3 } };

static std::vector<Vec3> run(const Surf &s, const double *w, bool defaults) {
    Mesh m(s.p, mg::flat(s));
    Frame fr(m);
    if (defaults)
        denoiseL0Smooth(m);
    else
        denoiseL0Smooth(m, w[0], w[1]);
    vp::add(vp::TRANSITIONS);
    fr.unchanged(m);
    std::vector<Vec3> r = m.getVertices();
    for (auto &p : r)
        for (int d = 0; d < 3; d++)
            if (!std::isfinite(p[d])) vp::fail("a position is not finite");
    return r;
}

struct Motion {
    double q[9];
    Vec3 t;
};
static std::vector<Motion> motions() {
    std::vector<Motion> v;
    const double c = 0.6, s = 0.8;
    v.push_back({ { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, Vec3(3.0, -2.0, 1.0) });
    v.push_back({ { 0, 1, 0, 0, 0, 1, 1, 0, 0 }, Vec3(0.0) });
    v.push_back({ { c, -s, 0, s, c, 0, 0, 0, 1 }, Vec3(0.0) });
    v.push_back({ { 1, 0, 0, 0, c, -s, 0, s, c }, Vec3(-1.0, 5.0, 0.5) });
    v.push_back({ { -1, 0, 0, 0, -1, 0, 0, 0, 1 }, Vec3(0.0) });
    v.push_back({ { c, 0, s, 0, 1, 0, -s, 0, c }, Vec3(0.0, 0.0, 10.0) });
    return v;
}
static Vec3 apply(const Motion &m, const Vec3 &p) {
    return Vec3(m.q[0] * p[0] + m.q[1] * p[1] + m.q[2] * p[2], m.q[3] * p[0] + m.q[4] * p[1] + m.q[5] * p[2], m.q[6] * p[0] + m.q[7] * p[1] + m.q[8] * p[2]) + m.t;
}

typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> Mat;

// the alternating minimisation with dense matrices; false when a decision is too close to call
static bool reference(const Surf &s, R alpha, R beta, std::vector<P> &out) {
    Net N(s, 0);
    const R edge = N.meanEdge();
    struct E {
        int i[4];
    };
    std::vector<E> es;
    R dihed = 0;
    for (auto &x : N.opp) {
        int a = x.first.first, b = x.first.second;
        if (a > b) continue;
        int c = x.second, d = N.opp.at({ b, a });
        es.push_back({ { a, c, b, d } });
        P u = geo::cross(N.p[b] - N.p[a], N.p[c] - N.p[a]), v = geo::cross(N.p[b] - N.p[a], N.p[d] - N.p[a]);
        dihed += atan2l(geo::len(geo::cross(u, v)), geo::dot(u, v));
    }
    dihed /= es.size();
    const int n = s.n, ne = (int)es.size();
    Mat Rm = Mat::Zero(ne, n), D = Mat::Zero(ne, n), p0(n, 3);
    for (int i = 0; i < n; i++) p0(i, 0) = N.p[i].x, p0(i, 1) = N.p[i].y, p0(i, 2) = N.p[i].z;
    N.taubin(0.5L, 0.53L, 3);
    N.flat = false;
    N.check();
    if (N.bad || N.flat) return false;
    for (int e = 0; e < ne; e++) {
        auto *i = es[e].i;
        Rm(e, i[0]) += 1, Rm(e, i[1]) -= 1, Rm(e, i[2]) += 1, Rm(e, i[3]) -= 1;
        P p1 = N.p[i[0]], p2 = N.p[i[1]], p3 = N.p[i[2]], p4 = N.p[i[3]];
        R s1 = geo::area(p1, p2, p3), s2 = geo::area(p1, p3, p4), l2 = geo::dot(p3 - p1, p3 - p1);
        D(e, i[0]) += (s1 * geo::dot(p4 - p3, p3 - p1) + s2 * geo::dot(p1 - p3, p3 - p2)) / (l2 * (s1 + s2));
        D(e, i[1]) += s2 / (s1 + s2);
        D(e, i[2]) += (s1 * geo::dot(p3 - p1, p1 - p4) + s2 * geo::dot(p2 - p1, p1 - p3)) / (l2 * (s1 + s2));
        D(e, i[3]) += s1 / (s1 + s2);
    }
    Mat RtR = Rm.transpose() * Rm, DtD = D.transpose() * D, p = p0;
    const R lambda = 0.02L * edge * edge * dihed, bmax = 1e3L * edge;
    alpha *= edge, beta *= edge;
    for (; beta < bmax; beta *= sqrtl(2), alpha /= 2) {
        if (fabsl(beta / bmax - 1) < 1e-6L) return false;
        Mat y = D * p;
        for (int e = 0; e < ne; e++) {
            R q = y.row(e).squaredNorm(), lim = lambda / beta;
            if (fabsl(q - lim) < 1e-4L * lim) return false;
            if (q < lim) y.row(e).setZero();
        }
        Mat A = Mat::Identity(n, n) + alpha * RtR + beta * DtD, b = p0 + beta * (D.transpose() * y);
        p = A.ldlt().solve(b);
    }
    out.clear();
    for (int i = 0; i < n; i++) out.push_back(P(p(i, 0), p(i, 1), p(i, 2)));
    return true;
}

static void check(const Surf &s) {
    static const std::vector<Motion> mo = motions();
    R size = 0;
    for (auto &p : s.p) size = std::max(size, (R)length(p));
    int wi = 0;
    for (auto &w : weights) {
        const bool first = wi++ == 0;
        std::vector<P> want;
        const bool ok = reference(s, w[0], w[1], want);
        auto match = [&](const std::vector<Vec3> &got, const Motion *m, const std::vector<int> &from, const char *how) {
            if (!ok) return;
            for (size_t i = 0; i < got.size(); i++) {
                P q = want[from[i]];
                if (m) q = P(m->q[0] * q.x + m->q[1] * q.y + m->q[2] * q.z + m->t[0], m->q[3] * q.x + m->q[4] * q.y + m->q[5] * q.z + m->t[1], m->q[6] * q.x + m->q[7] * q.y + m->q[8] * q.z + m->t[2]);
                vp::add(vp::EVALS);
                if (!(geo::len(P(got[i]) - q) <= 1e-4L * (size + geo::len(q)))) vp::fail("weights %g %g, %s: vertex %zu is at (%.9g %.9g %.9g) instead of (%.9Lg %.9Lg %.9Lg)", w[0], w[1], how, i, got[i][0], got[i][1], got[i][2], q.x, q.y, q.z);
            }
            vp::add(vp::TRACES);
        };
        std::vector<int> id, from;
        for (int i = 0; i < s.n; i++) id.push_back(i);
        auto r = run(s, w, false);
        match(r, nullptr, id, "as it is");
        for (auto &p : r) vp::outcome(vp::mixd(vp::mixd(1, std::round(p[0] * 1e3)), std::round(p[1] * 1e3)));
        if (run(s, w, first) != r && ok) match(run(s, w, first), nullptr, id, first ? "default weights" : "again");
        for (auto &m : mo) {
            Surf q = s;
            for (auto &p : q.p) p = apply(m, p);
            match(run(q, w, false), &m, id, "moved");
        }
        for (int k = 1; k < 12; k += first ? 1 : 4) {
            Surf q = shapes::relisted(s, k, from);
            match(run(q, w, false), nullptr, from, "relisted");
        }
        vp::add(vp::STATES);
    }
    vp::sample(s.name);
}

static void setup() {
    const bool th = vp::thorough();
    list_ = meshes(false, th);
    auto fam = shapes::moved("moved", list_, 0.25, th ? 14 : 4);
    vp::group("l0", fam.n, [=](uint64_t c) {
        Surf s;
        if (!fam.make(c, s)) return;
        try {
            check(shapes::ordered(s));
        } catch (const vp::Violation &v) {
            vp::fail("%s: %s", s.name.c_str(), v.what.c_str());
        }
    }, nullptr, 120);
    auto bent = shapes::large(false);
    for (int i = 0; i < 4; i++) {
        bent.push_back(bent[i]);
        for (int k = 0; k < bent[i].n; k++)
            for (int d = 0; d < 3; d++) bent.back().p[k][d] += 0.03 * (((k * 31 + d * 17 + k * k * 7) % 41) - 20) / 20.0;
    }
    auto big = shapes::listed("large", bent);
    vp::group("large", big.n, [=](uint64_t i) {
        Surf s;
        if (big.make(i, s)) check(shapes::ordered(s));
    }, nullptr, 120);
}
VP_MAIN(setup)
