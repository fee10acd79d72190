// V02: angles, cotangents, obtuse test, dihedral angles and rotations on lattice points.
#include "core/utils.h"
#include "core/vec.h"
#include "geo.hpp"
#include "vp.hpp"
using geo::P;
using geo::R;
using vp::fail;

static const double PI = 3.14159265358979323846;
static std::vector<Vec3> pts, dirs, units;
struct Frame {
    double s, x, y, z;
};
static const Frame frames[] = { { 1, 0, 0, 0 }, { 1e-3, 0, 0, 0 }, { 250, -1000, 500, 2000 }, { 0.37, 0.11, -0.23, 0.05 } };

static std::string show(const Vec3 &v) {
    return vp::strf("(%g %g %g)", v[0], v[1], v[2]);
}
static void near(const char *what, double got, R want, double tol, const std::string &args) {
    vp::add(vp::EVALS);
    if (!(fabsl(got - want) <= tol * (1 + fabsl(want)))) fail("%s is %.12g instead of %.12Lg for %s", what, got, want, args.c_str());
    vp::outcome(vp::mixd(1, std::round((double)want * 1e6)));
}
static Vec3 put(const Vec3 &p, const Frame &f) {
    return Vec3(f.s * p[0] + f.x, f.s * p[1] + f.y, f.s * p[2] + f.z);
}

static void triple(const Vec3 &a, const Vec3 &b, const Vec3 &c) {
    if (a == b || b == c || a == c) return;
    auto args = [&] { return show(a) + show(b) + show(c); };
    near("angle", angle(a, b, c), geo::angle(P(a), P(b), P(c)), 1e-7, args());
    R ar = geo::area(P(a), P(b), P(c));
    R la = geo::len(P(b) - P(c)), lb = geo::len(P(a) - P(c)), lc = geo::len(P(a) - P(b));
    if (ar < 1e-3 * std::max(la * la, std::max(lb * lb, lc * lc))) return;
    near("cotangent", cot(a, b, c), geo::cot(P(a), P(b), P(c)), 1e-7, args());
    R big = std::max(geo::angle(P(a), P(b), P(c)), std::max(geo::angle(P(b), P(c), P(a)), geo::angle(P(c), P(a), P(b))));
    if (fabsl(big - PI / 2) > 1e-6) {  // exactly right angles are decided by rounding
        vp::add(vp::EVALS);
        if (obtuse(a, b, c) != (big > PI / 2)) fail("obtuse test wrong for %s", args().c_str());
    }
}

static void quad(const Vec3 &v1, const Vec3 &v2, const Vec3 &v3, const Vec3 &v4) {
    // faces (v1,v2,v3) and (v4,v3,v2) share the edge v2-v3: angle between them seen along the edge
    P e = P(v3) - P(v2);
    R l = geo::len(e);
    if (l == 0) return;
    P u = (1 / l) * e;
    P a = P(v1) - P(v2), b = P(v4) - P(v2);
    P pa = a - geo::dot(a, u) * u, pb = b - geo::dot(b, u) * u;  // across the edge
    if (geo::len(pa) < 1e-3 * l || geo::len(pb) < 1e-3 * l) return;
    R want = atan2l(geo::len(geo::cross(pa, pb)), geo::dot(pa, pb));
    near("dihedral angle", dihedral(v1, v2, v3, v4), want, 1e-6, show(v1) + show(v2) + show(v3) + show(v4));
}

static void properRotation(const EigenMatrix3 &M, const char *what, const std::string &args) {
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            R s = 0;
            for (int k = 0; k < 3; k++) s += (R)M(k, i) * M(k, j);
            if (!(fabsl(s - (i == j)) <= 1e-7)) fail("%s of %s is not orthogonal", what, args.c_str());
        }
    R det = M(0, 0) * ((R)M(1, 1) * M(2, 2) - (R)M(1, 2) * M(2, 1)) - M(0, 1) * ((R)M(1, 0) * M(2, 2) - (R)M(1, 2) * M(2, 0)) +
            M(0, 2) * ((R)M(1, 0) * M(2, 1) - (R)M(1, 1) * M(2, 0));
    if (!(fabsl(det - 1) <= 1e-7)) fail("%s of %s is not a proper rotation", what, args.c_str());
}

static void axisAngle(const Vec3 &axis, int k) {
    const double th = k * PI / 12;
    EigenMatrix3 M = rotationAxisAngle(th, axis);
    auto args = show(axis) + vp::strf(" by %d*15 degrees", k);
    properRotation(M, "axis-angle matrix", args);
    for (auto &d : dirs) {  // split into along and across the axis, turn the part across
        P x(d), u(axis);
        P al = geo::dot(x, u) * u, ac = x - al;
        P want = al + cosl(th) * ac + sinl(th) * geo::cross(u, ac);
        Vec3 got = (Vec3)(M * (EigenVector3)d);
        near("turned x", got[0], want.x, 1e-9, args);
        near("turned y", got[1], want.y, 1e-9, args);
        near("turned z", got[2], want.z, 1e-9, args);
    }
}

static void twoVectors(const Vec3 &a, const Vec3 &b) {
    auto args = show(a) + show(b);
    EigenMatrix3 M;
    try {
        M = rotationFromTwoVectors(a, b);
    } catch (const std::exception &e) {
        fail("no rotation for %s: %s", args.c_str(), e.what());
    }
    properRotation(M, "rotation between", args);
    Vec3 g = (Vec3)(M * (EigenVector3)a);
    P want = (geo::len(P(a)) / geo::len(P(b))) * P(b);
    for (int k = 0; k < 3; k++) near("image component", g[k] / (double)geo::len(P(a)), (k == 0 ? want.x : k == 1 ? want.y : want.z) / geo::len(P(a)), 1e-6, args);
    R th = atan2l(geo::len(geo::cross(P(a), P(b))), geo::dot(P(a), P(b)));
    near("trace", M(0, 0) + M(1, 1) + M(2, 2), 1 + 2 * cosl(th), 1e-6, args);
}

static void setup() {
    const bool th = vp::thorough();
    for (int i = 0; i < 27; i++) pts.push_back(Vec3(i % 3, i / 3 % 3, i / 9));
    std::vector<Vec3> fine;
    for (int i = 0; i < 64; i++) fine.push_back(Vec3(i % 4 * 0.7, i / 4 % 4 - 1, (i / 16) * 1.3));
    static std::vector<Vec3> tp;
    tp = pts;
    tp.insert(tp.end(), fine.begin(), fine.end());
    for (int i = 0; i < 125; i++)
        if (i != 62) dirs.push_back(Vec3(i % 5 - 2, i / 5 % 5 - 2, i / 25 - 2));
    dirs.push_back(Vec3(0.1, 0.2, 0.3));
    dirs.push_back(Vec3(-0.3, -0.6, -0.9));
    dirs.push_back(Vec3(0.7, -1.3, 0.11));
    dirs.push_back(Vec3(-7e-4, 1.3e-3, -1.1e-4));
    dirs.push_back(Vec3(1.0, 1e-5, 0));
    dirs.push_back(Vec3(-1.0, 1e-5, 0));
    for (auto &d : dirs) units.push_back(normalize(d));
    const uint64_t nt = tp.size();
    vp::group("angles", nt * nt, [nt](uint64_t i) {
        for (auto &f : frames)
            for (auto &c : tp) triple(put(tp[i % nt], f), put(tp[i / nt], f), put(c, f));
        vp::add(vp::STATES);
    });
    const uint64_t np = pts.size();
    vp::group("dihedral", np * np, [np, th](uint64_t i) {
        for (int k = 0; k < (th ? 4 : 2); k++)
            for (auto &c : pts)
                for (auto &d : pts) quad(put(pts[i % np], frames[k]), put(pts[i / np], frames[k]), put(c, frames[k]), put(d, frames[k]));
        vp::add(vp::STATES);
        vp::sample("dihedral angles with first points " + show(pts[i % np]) + show(pts[i / np]));
    });
    vp::group("axis-angle", units.size(), [](uint64_t i) {
        for (int k = -26; k <= 26; k++) axisAngle(units[i], k);
        vp::add(vp::STATES);
        vp::sample("axis " + show(units[i]));
    });
    vp::group("two-vectors", dirs.size(), [](uint64_t i) {
        for (auto &b : dirs) {
            twoVectors(dirs[i], b);
            twoVectors(units[i], b);
            twoVectors(units[i], normalize(b));
            twoVectors(dirs[i], -b);
            twoVectors(units[i], normalize(-b));
        }
        vp::add(vp::STATES);
    }, [](uint64_t i) { return show(dirs[i]); });
}
VP_MAIN(setup)
