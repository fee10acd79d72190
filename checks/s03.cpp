// S03: implicit fairing against a dense direct solution of the same equation.
#include <Eigen/LU>

#include "filt.hpp"
#include "filters/filters.h"
using namespace filt;
using namespace tinymesh;
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> Mat;

static std::vector<Surf> list_;
static const double strengths[] = { 1.0, 0.0, 0.1, 0.5, 3.0 };

// one step; false when the equation is too badly conditioned for the solver's tolerance to mean anything
static bool fair(Net &N, R eps) {
    Mat A = Mat::Identity(N.n, N.n), X(N.n, 3);
    N.flat = false;
    N.check();
    if (N.flat || N.bad) return false;
    for (int i = 0; i < N.n; i++) {
        R sum = 0, mag = 0;
        for (int j : N.nb[i]) {
            R w = N.cotWeight(i, j);
            sum += w;
            mag += fabsl(w);
        }
        if (fabsl(sum) < 0.05L * mag) return false;
        for (int j : N.nb[i]) A(i, j) -= eps * N.cotWeight(i, j) / sum;
        A(i, i) += eps;
        X(i, 0) = N.p[i].x, X(i, 1) = N.p[i].y, X(i, 2) = N.p[i].z;
    }
    Eigen::FullPivLU<Mat> lu(A);
    if (!lu.isInvertible()) return false;
    Mat inv = lu.inverse();
    if (inv.cwiseAbs().rowwise().sum().maxCoeff() > 1e3L) return false;
    Mat Y = inv * X;
    for (int i = 0; i < N.n; i++) N.p[i] = P(Y(i, 0), Y(i, 1), Y(i, 2));
    return true;
}

static void run(const Surf &s) {
    for (double e : strengths)
        for (int it : { 0, 1, 2 }) {
            Net N(s, 0);
            Mesh m(s.p, mg::flat(s));
            Frame fr(m);
            bool ok = true;
            for (int k = 0; k < it && ok; k++) ok = fair(N, e);
            implicitFairing(m, e, it);
            vp::add(vp::TRANSITIONS);
            fr.unchanged(m);
            if (!ok) continue;
            R tol = it == 0 || e == 0 ? 1e-9L : 2e-4L;
            for (int i = 0; i < N.n; i++) {
                Vec3 g = m.vertex(i)->pos();
                vp::add(vp::EVALS);
                if (!(geo::len(P(g) - N.p[i]) <= tol * (1 + geo::len(N.p[i]))))
                    vp::fail("strength %g, %d iterations: vertex %d is at (%.9g %.9g %.9g) instead of (%.9Lg %.9Lg %.9Lg)", e, it, i, g[0], g[1], g[2], N.p[i].x, N.p[i].y, N.p[i].z);
                vp::outcome(vp::mixd(vp::mixd(2, std::round(g[0] * 1e3)), std::round(g[1] * 1e3)));
            }
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
        }
    Net N(s, 0);
    Mesh m(s.p, mg::flat(s));
    implicitFairing(m);
    if (fair(N, 1))
        for (int i = 0; i < N.n; i++)
            if (!(geo::len(P(m.vertex(i)->pos()) - N.p[i]) <= 2e-4L * (1 + geo::len(N.p[i])))) vp::fail("with default arguments vertex %d is at another place", i);
    vp::sample(s.name);
}

// too large for the dense solution: the new positions have to satisfy the equation
static void residual(const Surf &s) {
    for (double e : strengths)
        for (int it : { 1, 2 }) {
            Mesh m(s.p, mg::flat(s));
            Frame fr(m);
            if (it == 2) implicitFairing(m, e, 1);
            Surf from = s;
            from.p = m.getVertices();
            implicitFairing(m, e, 1);
            vp::add(vp::TRANSITIONS, it);
            fr.unchanged(m);
            Net N(from, 0);
            N.check();
            if (N.flat || N.bad) continue;
            R worst = 0, size = 0;
            int at = 0;
            for (int i = 0; i < N.n; i++) {
                R sum = 0;
                P q(0, 0, 0), x = P(m.vertex(i)->pos());
                for (int j : N.nb[i]) {
                    R w = N.cotWeight(i, j);
                    sum += w;
                    q = q + w * P(m.vertex(j)->pos());
                }
                R d = geo::len(x + (R)e * (x - (1 / sum) * q) - N.p[i]);
                size = std::max(size, geo::len(N.p[i]));
                vp::add(vp::EVALS);
                if (d > worst) worst = d, at = i;
            }
            if (!(worst <= 1e-4L * (1 + size))) vp::fail("strength %g, iteration %d: the equation of vertex %d is off by %.3Lg", e, it, at, worst);
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
        }
    vp::sample(s.name);
}

static void setup() {
    const bool th = vp::thorough();
    list_ = meshes(false, th);
    auto fam = shapes::moved("moved", list_, 0.2);
    const uint64_t chunk = 8;
    vp::group("fairing", (fam.n + chunk - 1) / chunk, [=](uint64_t c) {
        for (uint64_t i = c * chunk; i < std::min(fam.n, (c + 1) * chunk); i++) {
            Surf s;
            if (!fam.make(i, s)) continue;
            try {
                run(shapes::ordered(s));
            } catch (const vp::Violation &v) {
                vp::fail("%s: %s", s.name.c_str(), v.what.c_str());
            }
        }
    }, nullptr, 120);
    auto big = shapes::listed("large", shapes::large(false));
    vp::group("large", big.n, [=](uint64_t i) {
        Surf s;
        if (big.make(i, s)) run(shapes::ordered(s));
    }, nullptr, 120);
    auto huge = shapes::listed("huge", shapes::huge(false));
    vp::group("huge", huge.n, [=](uint64_t i) {
        Surf s;
        if (huge.make(i, s)) residual(shapes::ordered(s));
    }, nullptr, 120);
}
VP_MAIN(setup)
