// V03: axis-aligned boxes.  Every box reachable by adding lattice points to an empty box, every pair of boxes and every
// probe point, against the set of points that was added.
#include <stdexcept>

#include "core/bounds.h"
#include "vp.hpp"
using namespace tinymesh;
using vp::fail;

static const double grid[4] = { -2, -0.5, 0, 1.5 };
static const double probe[9] = { -3, -2, -1.25, -0.5, -0.25, 0, 0.75, 1.5, 2.25 };

template <int D>
struct Probe {
    typedef Vec<double, D> V;
    typedef Bounds<double, D> B;
    typedef std::array<double, D> A;
    static V vec(const A &a) {
        V v;
        for (int i = 0; i < D; i++) v[i] = a[i];
        return v;
    }
    struct Box {
        A lo, hi;
    };
    static int pow(int b) {
        int r = 1;
        for (int i = 0; i < D; i++) r *= b;
        return r;
    }
    static A point(int k, const double *g, int n) {
        A a;
        for (int i = 0; i < D; i++, k /= n) a[i] = g[k % n];
        return a;
    }
    static std::vector<Box> &boxes() {
        static std::vector<Box> all;
        if (all.empty())
            for (int i = 0; i < pow(4); i++)
                for (int j = 0; j < pow(4); j++) {
                    Box b = { point(i, grid, 4), point(j, grid, 4) };
                    bool ok = true;
                    for (int k = 0; k < D; k++) ok = ok && b.lo[k] <= b.hi[k];
                    if (ok) all.push_back(b);
                }
        return all;
    }
    static std::string show(const Box &b) {
        std::string s = "box";
        for (int i = 0; i < D; i++) s += vp::strf(" [%g,%g]", b.lo[i], b.hi[i]);
        return s;
    }
    static void same(const B &b, const Box &w, const char *how) {
        vp::add(vp::EVALS);
        for (int i = 0; i < D; i++)
            if (b.posMin()[i] != w.lo[i] || b.posMax()[i] != w.hi[i]) fail("%s: [%g,%g] instead of [%g,%g] along axis %d (%s)", how, b.posMin()[i], b.posMax()[i], w.lo[i], w.hi[i], i, show(w).c_str());
    }
    static Box join(const Box &a, const Box &b) {
        Box r = a;
        for (int i = 0; i < D; i++) r.lo[i] = std::min(a.lo[i], b.lo[i]), r.hi[i] = std::max(a.hi[i], b.hi[i]);
        return r;
    }
    static void queries(const Box &w, const B &b) {
        int e = b.maxExtent();
        if (e < 0 || e >= D) fail("%s: longest axis %d", show(w).c_str(), e);
        for (int i = 0; i < D; i++)
            if (w.hi[i] - w.lo[i] > w.hi[e] - w.lo[e]) fail("%s: axis %d is taken for the longest but axis %d is longer", show(w).c_str(), e, i);
        for (int k = 0; k < pow(9); k++) {
            A a = point(k, probe, 9);
            bool in = true;
            for (int i = 0; i < D; i++) in = in && w.lo[i] <= a[i] && a[i] <= w.hi[i];
            vp::add(vp::EVALS);
            if (b.inside(vec(a)) != in) fail("%s: point (%g %g ..) is %s", show(w).c_str(), a[0], a[1], in ? "not inside" : "inside");
            if constexpr (D == 3) {
                long double d2 = 0;
                for (int i = 0; i < D; i++) {
                    long double g = a[i] < w.lo[i] ? (long double)w.lo[i] - a[i] : a[i] > w.hi[i] ? (long double)a[i] - w.hi[i] : 0;
                    d2 += g * g;
                }
                double got = B(b).distance(vec(a));
                if (!(fabsl(got - sqrtl(d2)) <= 1e-12L)) fail("%s: distance of (%g %g %g) is %.12g instead of %.12Lg", show(w).c_str(), a[0], a[1], a[2], got, sqrtl(d2));
                vp::outcome(vp::mixd(5, (double)d2));
            }
        }
        if constexpr (D == 3) {
            double x = w.hi[0] - w.lo[0], y = w.hi[1] - w.lo[1], z = w.hi[2] - w.lo[2];
            if (!(std::fabs(b.area() - 2 * (x * y + y * z + z * x)) <= 1e-12)) fail("%s: area %.12g instead of %.12g", show(w).c_str(), b.area(), 2 * (x * y + y * z + z * x));
        }
    }
    static void setup() {
        const auto &all = boxes();
        // the same box from its corners, from two opposite corners added in either order, and from all corners
        vp::group(vp::strf("boxes%d", D), all.size(), [](uint64_t i) {
            const Box w = boxes()[i];
            B b(vec(w.lo), vec(w.hi));
            same(b, w, "from two corners");
            for (int mask = 0; mask < (1 << D); mask++) {
                A p, q;
                for (int k = 0; k < D; k++) p[k] = mask >> k & 1 ? w.hi[k] : w.lo[k], q[k] = mask >> k & 1 ? w.lo[k] : w.hi[k];
                B c;
                c.merge(vec(p));
                same(c, { p, p }, "one point");
                c.merge(vec(q));
                same(c, w, "two points");
                vp::add(vp::TRANSITIONS, 2);
            }
            queries(w, b);
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
            // adding any point, and joining with any box
            for (int k = 0; k < pow(9); k++) {
                A a = point(k, probe, 9);
                B c = b;
                c.merge(vec(a));
                same(c, join(w, { a, a }), "after adding a point");
                same(b, w, "copied from");
                vp::add(vp::TRANSITIONS);
            }
            for (auto &o : boxes()) {
                B c(vec(o.lo), vec(o.hi));
                same(B::merge(b, c), join(w, o), "joined");
                vp::add(vp::TRANSITIONS);
            }
            same(B::merge(b, B()), w, "joined with an empty box");
            same(B::merge(B(), b), w, "joined to an empty box");
            if (i % 97 == 0) vp::sample(show(w));
        });
        vp::group(vp::strf("empty%d", D), 1, [](uint64_t) {
            for (int k = 0; k < pow(9); k++)
                if (B().inside(vec(point(k, probe, 9)))) fail("an empty box contains a point");
            vp::add(vp::STATES);
        });
        // every sequence of three added points
        vp::group(vp::strf("sequences%d", D), pow(4), [](uint64_t i) {
            A p = point((int)i, grid, 4);
            for (int j = 0; j < pow(4); j++)
                for (int k = 0; k < pow(4); k++) {
                    A q = point(j, grid, 4), r = point(k, grid, 4);
                    B b;
                    for (auto &x : { p, q, r }) b.merge(vec(x));
                    Box w = join(join({ p, p }, { q, q }), { r, r });
                    same(b, w, "three points");
                    for (auto &x : { p, q, r })
                        if (!b.inside(vec(x))) fail("%s: an added point is not inside", show(w).c_str());
                    vp::add(vp::TRANSITIONS, 3);
                    vp::add(vp::TRACES);
                }
        });
    }
};

static void setup() {
    Probe<2>::setup();
    Probe<3>::setup();
}
VP_MAIN(setup)
