// L03: principal curvatures of every closed mesh of the alphabet against tensors computed without any frame convention,
// placed, rotated, scaled and listed in several ways.
#include "curv.hpp"
#include "ops/ops.h"
using namespace tinymesh;
using geo::P;
using geo::R;
using mg::Surf;
using namespace curv;

static void check(const Surf &s, double) {
    std::vector<Curv> want[2];
    bool ok[2] = { reference(s, false, want[0]), reference(s, true, want[1]) };
    R size = 0;
    for (auto &c : want[0]) size = std::max(size, fabsl(c.k1) + fabsl(c.k2));
    for (int w = 0; w < (vp::thorough() ? 12 : 6); w++)
        for (auto &mo : motions) {
            if (w != 0 && &mo - motions != w % 6) continue;
            std::vector<int> from;
            Surf q = shapes::relisted(s, w, from);
            for (auto &p : q.p) p = apply(mo, p);
            Mesh m(q.p, mg::flat(q));
            for (int smooth = 0; smooth < 2; smooth++)
                for (int full = 0; full < 2; full++) {
                    if (!ok[smooth]) continue;
                    EigenVector k1, k2;
                    EigenMatrix t1, t2;
                    if (full) {
                        auto r = getPrincipalCurvaturesWithDerivatives(m, smooth);
                        k1 = std::get<0>(r), k2 = std::get<1>(r), t1 = std::get<4>(r), t2 = std::get<5>(r);
                    } else {
                        auto r = getPrincipalCurvatures(m, smooth);
                        k1 = std::get<0>(r), k2 = std::get<1>(r), t1 = std::get<2>(r), t2 = std::get<3>(r);
                    }
                    vp::add(vp::TRANSITIONS);
                    std::string how = vp::strf("listing %d, motion %d%s", w, (int)(&mo - motions), smooth ? ", smoothed" : "");
                    if (k1.size() != q.n || k2.size() != q.n || t1.rows() != q.n || t2.rows() != q.n) vp::fail("%s: wrong number of values", how.c_str());
                    for (int i = 0; i < q.n; i++) {
                        const Curv &c = want[smooth][from[i]];
                        vp::add(vp::EVALS);
                        const R tol = 1e-6L * (size + fabsl(c.k1) + fabsl(c.k2));
                        if (!(k1(i) >= k2(i))) vp::fail("%s: vertex %d: maximum %.9g is less than minimum %.9g", how.c_str(), i, k1(i), k2(i));
                        if (!(fabsl(k1(i) * mo.scale - c.k1) <= tol) || !(fabsl(k2(i) * mo.scale - c.k2) <= tol))
                            vp::fail("%s: vertex %d: curvatures %.9g %.9g instead of %.9Lg %.9Lg", how.c_str(), i, k1(i), k2(i), c.k1 / mo.scale, c.k2 / mo.scale);
                        P a(t1(i, 0), t1(i, 1), t1(i, 2)), b(t2(i, 0), t2(i, 1), t2(i, 2));
                        Vec3 nn = m.vertex(i)->normal();
                        P n(nn);
                        if (geo::len(a) == 0 && geo::len(b) == 0) {
                            if (c.judged) vp::fail("%s: vertex %d: no directions although the curvatures differ", how.c_str(), i);
                            continue;
                        }
                        if (fabsl(geo::len(a) - 1) > 1e-6L || fabsl(geo::len(b) - 1) > 1e-6L) vp::fail("%s: vertex %d: a direction is not a unit vector", how.c_str(), i);
                        if (fabsl(geo::dot(a, b)) > 1e-6L) vp::fail("%s: vertex %d: directions are not orthogonal", how.c_str(), i);
                        if (fabsl(geo::dot(a, n)) > 1e-6L || fabsl(geo::dot(b, n)) > 1e-6L) vp::fail("%s: vertex %d: a direction is not tangent", how.c_str(), i);
                        if (c.judged && fabsl(fabsl(geo::dot(a, rot(mo, c.t1))) - 1) > 1e-5L) vp::fail("%s: vertex %d: the direction of the maximum is another one", how.c_str(), i);
                        vp::outcome(vp::mixd(vp::mixd(1, std::round((double)c.k1 * 1e4)), std::round((double)c.k2 * 1e4)));
                    }
                    vp::add(vp::TRACES);
                }
        }
}

static void setup() {
    const bool th = vp::thorough();
    auto fam = shapes::standard(th, false);
    sc::groups(fam, { { 1.0, Vec3(0.0) } }, check);
}
VP_MAIN(setup)
