// G02: nearest-point queries of the spatial index against brute force over all triangles.
#include "core/bvh.h"
#include "geo.hpp"
#include "vp.hpp"
using namespace tinymesh;
using geo::P;
using geo::R;

struct Set {
    std::vector<Vec3> v;
    std::vector<uint32_t> f;
    void tri(const Vec3 &a, const Vec3 &b, const Vec3 &c) {
        uint32_t n = (uint32_t)v.size();
        v.push_back(a);
        v.push_back(b);
        v.push_back(c);
        f.push_back(n);
        f.push_back(n + 1);
        f.push_back(n + 2);
    }
};

static R brute(const Set &s, const Vec3 &q) {
    R d = 1e30L;
    for (size_t i = 0; i < s.f.size(); i += 3)
        d = std::min(d, geo::distTri(P(q), P(s.v[s.f[i]]), P(s.v[s.f[i + 1]]), P(s.v[s.f[i + 2]])));
    return d;
}

static void checkQuery(const BVH &b, const Set &s, const Vec3 &q, double scale = 1.0) {
    R want = brute(s, q);
    Vec3 r = b.closestPoint(q);
    double d = b.distance(q);
    R tol = 1e-9L * scale;
    R got = geo::len(P(r) - P(q));
    if (!geo::finite(r) || !(fabsl(got - want) <= tol))
        vp::fail("query (%g %g %g): point (%g %g %g) at distance %.12Lg, minimum is %.12Lg", q[0], q[1], q[2], r[0], r[1], r[2], got, want);
    if (brute(s, r) > tol) vp::fail("query (%g %g %g): returned point is not on any triangle", q[0], q[1], q[2]);
    if (!(fabsl(d - want) <= tol)) vp::fail("query (%g %g %g): distance %.12g, minimum is %.12Lg", q[0], q[1], q[2], d, want);
    vp::outcome(vp::mixd(vp::mixd(vp::mixd(3, r[0]), r[1]), r[2]));
    vp::add(vp::EVALS);
}

// three small triangle shapes placed at a point
static void place(Set &s, int shape, const Vec3 &o) {
    static const double T[4][9] = { { 0, 0, 0, 1, 0, 0, 0, 1, 0 }, { 0, 0, 0, 0, 1, 0, 0, 0, 1 }, { 0, 0, 0, 0.5, 0.25, 1, 1, 1, 0.25 }, { 0, 0, 0, 3, 0, 1, 0, 0, 1 } };
    const double *t = T[shape];
    s.tri(o + Vec3(t[0], t[1], t[2]), o + Vec3(t[3], t[4], t[5]), o + Vec3(t[6], t[7], t[8]));
}

static std::vector<Vec3> grid(double lo, double hi, double st) {
    std::vector<Vec3> r;
    for (double x = lo; x <= hi + 1e-9; x += st)
        for (double y = lo; y <= hi + 1e-9; y += st)
            for (double z = lo; z <= hi + 1e-9; z += st) r.push_back(Vec3(x, y, z));
    return r;
}

static Set sheet(int nx, int ny, int kind) {
    Set s;
    auto h = [&](int i, int j) {
        switch (kind) {
        case 0: return 0.0;
        case 1: return 0.3 * ((i * 7 + j * 3) % 5);
        case 2: return 0.05 * (i - nx / 2) * (i - nx / 2) + 0.05 * (j - ny / 2) * (j - ny / 2);
        case 3: return (double)((i + j) % 2) * 4.0;
        default: return i * 2.0;
        }
    };
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            Vec3 a(i, j, h(i, j)), b(i + 1, j, h(i + 1, j)), c(i + 1, j + 1, h(i + 1, j + 1)), d(i, j + 1, h(i, j + 1));
            s.tri(a, b, c);
            s.tri(a, c, d);
        }
    return s;
}

static void setup() {
    static const auto q3 = grid(-1.25, 3.75, 1.25);
    static const auto q4 = grid(-1.5, 4.5, 1.5);
    // one to three triangles, every placement on {0,1,2}^3 offsets and shape
    vp::group("place1", 27 * 4, [](uint64_t i) {
        Set s;
        place(s, i % 4, Vec3(i / 4 % 3, i / 12 % 3, i / 36));
        BVH b(s.v, s.f);
        for (auto &q : q3) checkQuery(b, s, q);
    });
    auto offs = [](uint64_t i) { return Vec3((double)(i % 3), (double)(i / 3 % 3), (double)(i / 9 % 3)); };
    vp::group("place2", 108ull * 108, [offs](uint64_t i) {
        Set s;
        for (int k = 0; k < 2; k++, i /= 108) place(s, i % 4, offs(i / 4 % 27));
        BVH b(s.v, s.f);
        for (auto &q : q3) checkQuery(b, s, q);
    });
    vp::group("place3", 54ull * 54 * 54, [offs](uint64_t i) {
        Set s;
        for (int k = 0; k < 3; k++, i /= 54) place(s, i % 2, offs(i / 2 % 27));
        BVH b(s.v, s.f);
        for (auto &q : q4) checkQuery(b, s, q);
    });
    // every subset of a 4x4 (or 4x2x2) arrangement of cells: 1..16 triangles, both build strategies
    for (int lay = 0; lay < 3; lay++)
        vp::group(vp::strf("subset16-%d", lay), 65536, [lay](uint64_t m) {
            if (!m) return;
            Set s;
            for (int k = 0; k < 16; k++)
                if (m >> k & 1) {
                    Vec3 o = lay == 0 ? Vec3(k % 4, k / 4, 0) : lay == 1 ? Vec3(k % 4, k / 4 % 2, k / 8) : Vec3(0, (k * k) % 23, k % 2);
                    place(s, lay == 2 ? 2 : (k % 3), o);
                }
            BVH b(s.v, s.f);
            static std::vector<Vec3> q[3];
            if (q[lay].empty()) {
                for (double x = -1; x <= 5; x += 2)
                    for (double y = -1; y <= (lay == 2 ? 23 : 5); y += (lay == 2 ? 6 : 2))
                        for (double z = -0.7; z <= 1.5; z += 1.9) q[lay].push_back(Vec3(x + 0.1, y - 0.2, z));
            }
            for (auto &p : q[lay]) checkQuery(b, s, p);
        }, [lay](uint64_t m) { return vp::strf("layout %d cells mask %llx", lay, (unsigned long long)m); });
    // repeated and concentric triangles: n copies of each shape
    vp::group("copies", 40 * 4, [](uint64_t i) {
        Set s;
        int n = 1 + i / 4;
        for (int k = 0; k < n; k++) place(s, i % 4, Vec3(1, 1, 1));
        place(s, (i + 1) % 4, Vec3(3, 0, 0));
        BVH b(s.v, s.f);
        for (auto &q : q3) checkQuery(b, s, q);
    });
    vp::group("concentric", 40, [](uint64_t i) {
        Set s;
        for (int k = 1; k <= (int)i + 1; k++) s.tri(Vec3(-k, -k, -k), Vec3(k, k, k), Vec3(k, -k, 0));
        BVH b(s.v, s.f);
        for (auto &q : grid(-6, 6, 1.5)) checkQuery(b, s, q, 10);
    });
    // larger sheets
    static const int dims[][2] = { { 1, 1 }, { 3, 3 }, { 5, 4 }, { 16, 1 }, { 1, 20 }, { 12, 10 }, { 20, 20 } };
    vp::group("sheets", 7 * 5 * 3, [](uint64_t i) {
        const int *d = dims[i % 7];
        double sc = i / 35 == 0 ? 1.0 : i / 35 == 1 ? 1e-3 : 1e3;
        Set s = sheet(d[0], d[1], i / 7 % 5);
        for (auto &v : s.v) v = Vec3(v[0] * sc, v[1] * sc, v[2] * sc);
        BVH b(s.v, s.f);
        for (double x = -2.3; x < d[0] + 3; x += 1.9)
            for (double y = -2.3; y < d[1] + 3; y += 1.9)
                for (double z = -3; z < 8; z += 2.5) checkQuery(b, s, Vec3(x * sc, y * sc, z * sc), sc * 10);
    });
    // an index rebuilt in place answers for the new triangles only: all ordered pairs/triples of small sets
    static std::vector<Set> small;
    for (int k = 0; k < 12; k++) {
        Set s;
        if (k < 4) place(s, k, Vec3(k, 2 - k, k));
        else if (k < 8) {
            for (int j = 0; j < k; j++) place(s, j % 4, Vec3((j * 3) % 4, j % 3, k - 6));
        } else
            s = sheet(k - 5, 2, k % 4);
        small.push_back(s);
    }
    vp::group("rebuild", 12 * 12 * 12, [](uint64_t i) {
        BVH b(small[i % 12].v, small[i % 12].f);
        const Set &s1 = small[i / 12 % 12], &s2 = small[i / 144];
        b.construct(s1.v, s1.f);
        for (auto &q : q3) checkQuery(b, s1, q);
        b.construct(s2.v, s2.f);
        for (auto &q : q3) checkQuery(b, s2, q);
        BVH c = b;
        b.construct(s1.v, s1.f);
        checkQuery(c, s2, Vec3(1, 2, 3));
    });
}
VP_MAIN(setup)
