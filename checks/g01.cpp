// G01: closest point on a triangle.
// Enumerates every non-degenerate triangle with corners in a lattice against every query of a finer,
// larger lattice (so that all regions, all region borders and all orientations occur).
#include "core/triangle.h"
#include "geo.hpp"
#include "vp.hpp"
using namespace tinymesh;
using geo::P;
using geo::R;

struct Frame {
    double s, ox, oy, oz;
};

static void checkOne(const Vec3 &a, const Vec3 &b, const Vec3 &c, const Vec3 &q, double scale) {
    Triangle t(a, b, c);
    Vec3 r = t.closestPoint(q);
    double d = t.distance(q);
    R want = geo::distTri(P(q), P(a), P(b), P(c));
    R got = geo::len(P(q) - P(r));
    R tol = 1e-9L * scale;
    auto where = [&]() {
        return vp::strf("triangle (%g %g %g)(%g %g %g)(%g %g %g) query (%g %g %g) -> (%g %g %g)", a[0], a[1], a[2], b[0],
                        b[1], b[2], c[0], c[1], c[2], q[0], q[1], q[2], r[0], r[1], r[2]);
    };
    if (!geo::finite(r)) vp::fail("not finite: %s", where().c_str());
    if (geo::distTri(P(r), P(a), P(b), P(c)) > tol) vp::fail("result is not on the triangle: %s", where().c_str());
    if (fabsl(got - want) > tol) vp::fail("distance %.12Lg instead of %.12Lg: %s", got, want, where().c_str());
    if (fabsl(d - want) > tol) vp::fail("reported distance %.12g instead of %.12Lg: %s", d, want, where().c_str());
    uint64_t h = 7;
    for (int k = 0; k < 3; k++) h = vp::mixd(h, std::round(r[k] / scale * 1e6));
    vp::outcome(h);
    vp::add(vp::EVALS);
}

static void checkBounds(const Vec3 &a, const Vec3 &b, const Vec3 &c) {
    Bounds3 bb = Triangle(a, b, c).bounds();
    for (int k = 0; k < 3; k++) {
        double lo = std::min(a[k], std::min(b[k], c[k])), hi = std::max(a[k], std::max(b[k], c[k]));
        if (bb.posMin()[k] != lo || bb.posMax()[k] != hi) vp::fail("bounding box wrong along axis %d", k);
    }
}

static Vec3 lat(int i, int n) {
    return Vec3((double)(i % n), (double)(i / n % n), (double)(i / n / n));
}

static void setup() {
    // (a) all triangles of {0,1,2}^3, all queries of {-1,-1/2,...,3}^3 (quick: integer steps)
    static std::vector<Vec3> qa, qb;
    static std::vector<std::array<int, 3>> tb;
    const double step = vp::thorough() ? 0.25 : 0.5;
    for (double x = -1; x <= 3; x += step)
        for (double y = -1; y <= 3; y += step)
            for (double z = -1; z <= 3; z += step) qa.push_back(Vec3(x, y, z));
    static const Frame frames[] = { { 1, 0, 0, 0 }, { 1e-3, 0, 0, 0 }, { 1e3, -5e3, 1e4, 2e3 }, { 1, 100, -200, 50 } };
    auto runA = [](uint64_t i, int fr, const std::vector<Vec3> &q) {
        Vec3 a0 = lat(i % 27, 3), b0 = lat(i / 27 % 27, 3), c0 = lat(i / 729, 3);
        if (geo::area(P(a0), P(b0), P(c0)) == 0) return;
        const Frame &f = frames[fr];
        auto T = [&](const Vec3 &v) { return Vec3(v[0] * f.s + f.ox, v[1] * f.s + f.oy, v[2] * f.s + f.oz); };
        const Vec3 a = T(a0), b = T(b0), c = T(c0);
        double scale = f.s + 1e-3 * (std::abs(f.ox) + std::abs(f.oy) + std::abs(f.oz));
        checkBounds(a, b, c);
        for (const Vec3 &p : q) checkOne(a, b, c, T(p), scale);
        if (i % 5003 == 1) vp::sample(vp::strf("triangle #%llu of {0,1,2}^3, frame %d, %zu queries", (unsigned long long)i, fr, q.size()));
    };
    auto dA = [](uint64_t i) {
        return vp::strf("triangle with lattice corners %d %d %d", (int)(i % 27), (int)(i / 27 % 27), (int)(i / 729));
    };
    vp::group("lattice3", 27 * 27 * 27, [runA](uint64_t i) { runA(i, 0, qa); }, dA);
    for (int fr = 1; fr < 4; fr++)
        vp::group(vp::strf("lattice3-frame%d", fr), 27 * 27 * 27, [runA, fr](uint64_t i) { runA(i, fr, qa); }, dA);
    // (b) obtuse and needle shapes: all triangles of a planar 5x5 lattice, in each of the three axis planes
    for (double x = -2; x <= 6; x += 1)
        for (double y = -2; y <= 6; y += 1)
            for (double z = 0; z <= 1; z += 1) qb.push_back(Vec3(x, y, z));
    vp::group(
        "planar5", 25 * 25 * 25 * 3,
        [](uint64_t i) {
            int ax = i % 3;
            i /= 3;
            auto T = [&](double x, double y, double z) {
                return ax == 0 ? Vec3(x, y, z) : ax == 1 ? Vec3(z, x, y) : Vec3(y, z, x);
            };
            int a = i % 25, b = i / 25 % 25, c = i / 625;
            Vec3 pa = T(a % 5, a / 5, 0), pb = T(b % 5, b / 5, 0), pc = T(c % 5, c / 5, 0);
            if (geo::area(P(pa), P(pb), P(pc)) == 0) return;
            checkBounds(pa, pb, pc);
            for (const Vec3 &p : qb) checkOne(pa, pb, pc, T(p[0] + 0.5, p[1], p[2]), 1.0);
        },
        [](uint64_t i) { return vp::strf("planar triangle #%llu", (unsigned long long)i); });
}
VP_MAIN(setup)
