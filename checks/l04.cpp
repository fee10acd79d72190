// L04: derivatives of the principal curvatures, ridges and valleys and the direction field between them, on every closed
// mesh of the alphabet against values computed without any frame convention, placed, scaled and listed in several ways.
#include <Eigen/LU>

#include "curv.hpp"
#include "ops/ops.h"
using namespace tinymesh;
using geo::P;
using geo::R;
using mg::Surf;
using namespace curv;
using vp::fail;
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> MX;

struct Shape {
    bool ok = false;
    std::vector<Curv> c;
    std::vector<R> e1, e2;  // along t1 and along the normal x t1
    R size = 0, esize = 0;
};

static Shape derive(const Surf &s, bool smooth) {
    Shape r;
    sc::Truth T(s);
    std::vector<P> nv;
    std::vector<M3> at;
    if (!tensors(T, smooth, nv, at)) return r;
    principal(nv, at, r.c);
    std::vector<P> t2(s.n);
    for (int i = 0; i < s.n; i++) {
        t2[i] = geo::cross(nv[i], r.c[i].t1);
        r.size = std::max(r.size, fabsl(r.c[i].k1) + fabsl(r.c[i].k2));
    }
    r.e1.assign(s.n, 0);
    r.e2.assign(s.n, 0);
    std::vector<R> wsum(s.n, 0);
    for (auto &f : s.t) {
        P p[3];
        for (int k = 0; k < 3; k++) p[k] = T.p[f[k]];
        P nf = geo::unit(geo::cross(p[1] - p[0], p[2] - p[0])), u = geo::unit(p[1] - p[0]), v = geo::cross(nf, u);
        R II[3][3];
        for (int k = 0; k < 3; k++) {
            M3 Q = turn(nf, nv[f[k]]);
            M3 S = Q.transpose() * at[f[k]] * Q;
            II[k][0] = ev(u).dot(S * ev(u)), II[k][1] = ev(u).dot(S * ev(v)), II[k][2] = ev(v).dot(S * ev(v));
        }
        // symmetric cubic form whose change along every edge is the change of the tensor
        Eigen::Matrix<long double, 9, 4> A;
        Eigen::Matrix<long double, 9, 1> b;
        A.setZero();
        for (int k = 0; k < 3; k++) {
            int from = (k + 1) % 3, to = (k + 2) % 3;
            R x = geo::dot(p[to] - p[from], u), y = geo::dot(p[to] - p[from], v), q = sqrtl(2.0L);
            A(3 * k, 0) = x, A(3 * k, 1) = y, b(3 * k) = II[to][0] - II[from][0];
            A(3 * k + 1, 1) = q * x, A(3 * k + 1, 2) = q * y, b(3 * k + 1) = q * (II[to][1] - II[from][1]);
            A(3 * k + 2, 2) = x, A(3 * k + 2, 3) = y, b(3 * k + 2) = II[to][2] - II[from][2];
        }
        Eigen::Matrix<long double, 4, 4> AtA = A.transpose() * A;
        Eigen::Matrix<long double, 4, 1> c = AtA.ldlt().solve(A.transpose() * b);
        auto form = [&](P d) {
            R x = geo::dot(d, u), y = geo::dot(d, v);
            return c(0) * x * x * x + 3 * c(1) * x * x * y + 3 * c(2) * x * y * y + c(3) * y * y * y;
        };
        R cs = fabsl(c(0)) + fabsl(c(1)) + fabsl(c(2)) + fabsl(c(3));
        r.esize = std::max(r.esize, cs);
        for (int k = 0; k < 3; k++) {
            M3 Q = turn(nv[f[k]], nf);
            auto go = [&](P d) {
                V3 x = Q * ev(d);
                return form(P(x(0), x(1), x(2)));
            };
            R w = sc::Truth::mixed(p[k], p[(k + 1) % 3], p[(k + 2) % 3]);
            r.e1[f[k]] += w * go(r.c[f[k]].t1);
            r.e2[f[k]] += w * go(t2[f[k]]);
            wsum[f[k]] += w;
        }
    }
    for (int i = 0; i < s.n; i++) r.e1[i] /= wsum[i], r.e2[i] /= wsum[i];
    r.ok = true;
    return r;
}

// ridges, valleys and directions; false if a decision is too close to call
struct Field {
    std::vector<int> flag;
    std::vector<P> d;
    std::vector<bool> judged;
    bool some = false;
};

static bool decide(const Surf &s, const Shape &h, double scale, Field &o) {
    sc::Truth T(s);
    auto edge = [&](int a, int b, bool &sure) {
        const Curv &x = h.c[a], &y = h.c[b];
        R da = (x.k1 - x.k2) / scale, db = (y.k1 - y.k2) / scale;
        if (std::min(da, db) < 0.99e-2L) return 0;
        if (std::min(da, db) < 1.01e-2L || !x.judged || !y.judged) return sure = false, 0;
        R ea = h.e1[a], eb = h.e1[b], sgn = geo::dot(x.t1, y.t1);
        const R tiny = 1e-5L * h.esize;
        if (fabsl(sgn) < 1e-4L || fabsl(ea) < tiny || fabsl(eb) < tiny) return sure = false, 0;
        P ta = x.t1, tb = y.t1;
        if (sgn < 0) tb = -1 * tb, eb = -eb;
        if (ea * eb > 0) return 0;
        P d = T.p[b] - T.p[a];
        R la = geo::dot(d, ta) / geo::len(d), lb = -geo::dot(d, tb) / geo::len(d);
        bool close = fabsl(la) < 1e-4L || fabsl(lb) < 1e-4L;
        R ma = x.k1 - fabsl(x.k2), mb = y.k1 - fabsl(y.k2);
        const R kt = 1e-4L * h.size;
        if (close || fabsl(ma) < kt || fabsl(mb) < kt) return sure = false, 0;
        if (ma > 0 && mb > 0 && ea * la > 0 && eb * lb > 0) return -1;
        if (ma < 0 && mb < 0 && ea * la < 0 && eb * lb < 0) return 1;
        return 0;
    };
    const int F = (int)s.t.size();
    std::map<std::pair<int, int>, int> face;
    std::vector<int> kind(F, 0);
    bool sure = true;
    for (int i = 0; i < F; i++) {
        bool ridge = false, valley = false;
        for (int k = 0; k < 3; k++) {
            int a = s.t[i][k], b = s.t[i][(k + 1) % 3], e = edge(a, b, sure);
            face[{ a, b }] = i;
            ridge |= e < 0, valley |= e > 0;
        }
        if (ridge != valley) kind[i] = valley ? 1 : -1;
    }
    if (!sure) return false;
    o.flag.assign(s.n, 0);
    o.d.assign(s.n, P());
    o.judged.assign(s.n, true);
    for (int i = 0; i < F; i++) {
        if (kind[i]) continue;
        int n = 0, at = -1;
        for (int k = 0; k < 3; k++)
            if (kind[face.at({ s.t[i][(k + 1) % 3], s.t[i][k] })]) n++, at = k;
        if (n != 1) continue;
        int a = s.t[i][at], b = s.t[i][(at + 1) % 3], c = s.t[i][(at + 2) % 3], g = face.at({ b, a });
        P e = T.p[b] - T.p[a];
        P d = geo::unit(geo::cross(geo::cross(e, T.p[c] - T.p[a]), e));  // away from the marked neighbour
        for (int v : { a, b }) o.d[v] = o.d[v] + (R)kind[g] * d, o.flag[v]++;
    }
    std::vector<int> row(s.n, -1), col(s.n, -1);
    int nr = 0, nc = 0;
    for (int i = 0; i < s.n; i++) {
        if (o.flag[i]) {
            o.some = true;
            if (geo::len(o.d[i]) < 1e-4L) return false;
            o.d[i] = geo::unit(o.d[i]);
            o.flag[i] = 1;
            col[i] = nc++;
        } else {
            row[i] = nr++;
        }
    }
    if (!o.some || nr == 0) return true;
    // pieces without a ridge or valley have no direction
    std::vector<bool> in(s.n);
    for (int i = 0; i < s.n; i++) in[i] = o.flag[i] != 0;
    for (bool more = true; more;) {
        more = false;
        for (auto &x : T.opp)
            if (in[x.first.first] && !in[x.first.second]) in[x.first.second] = more = true;
    }
    MX L = MX::Zero(nr, nr), B = MX::Zero(nr, 3);
    for (auto &x : T.opp) {
        int a = x.first.first, b = x.first.second;
        if (row[a] < 0 || !in[a]) continue;
        R w = T.edgeWeight(a, b);
        L(row[a], row[a]) += w;
        if (row[b] >= 0) L(row[a], row[b]) -= w;
        else B.row(row[a]) += w * ev(o.d[b]).transpose();
    }
    for (int i = 0; i < s.n; i++)
        if (!in[i]) L(row[i], row[i]) = 1;
    Eigen::FullPivLU<MX> lu(L);
    if (!(lu.rcond() > 1e-6L)) return false;
    MX X = lu.solve(B);
    for (int i = 0; i < s.n; i++)
        if (row[i] >= 0 && in[i]) {
            P d(X(row[i], 0), X(row[i], 1), X(row[i], 2));
            if (geo::len(d) < 1e-4L) o.judged[i] = false;
            else o.d[i] = geo::unit(d);
        }
    return true;
}

static void check(const Surf &s, double) {
    Shape want[2] = { derive(s, false), derive(s, true) };
    for (int w = 0; w < (vp::thorough() ? 12 : 6); w++) {
        const Motion &mo = motions[w % 6];
        std::vector<int> from;
        Surf q = shapes::relisted(s, w, from);
        for (auto &p : q.p) p = apply(mo, p);
        Mesh m(q.p, mg::flat(q));
        for (int smooth = 0; smooth < 2; smooth++) {
            const Shape &h = want[smooth];
            if (!h.ok) continue;
            const std::string how = vp::strf("listing %d%s", w, smooth ? ", smoothed" : "");
            auto r = getPrincipalCurvaturesWithDerivatives(m, smooth);
            const EigenVector &e1 = std::get<2>(r), &e2 = std::get<3>(r);
            const EigenMatrix &t1 = std::get<4>(r), &t2 = std::get<5>(r);
            vp::add(vp::TRANSITIONS);
            if (e1.size() != q.n || e2.size() != q.n) fail("%s: wrong number of values", how.c_str());
            const R sc2 = (R)mo.scale * mo.scale;
            for (int i = 0; i < q.n; i++) {
                const int j = from[i];
                if (!h.c[j].judged) continue;
                vp::add(vp::EVALS);
                P a(t1(i, 0), t1(i, 1), t1(i, 2)), b(t2(i, 0), t2(i, 1), t2(i, 2));
                R sa = geo::dot(a, rot(mo, h.c[j].t1)), sb = geo::dot(b, geo::cross(P(m.vertex(i)->normal()), rot(mo, h.c[j].t1)));
                R wa = sa > 0 ? h.e1[j] : -h.e1[j], wb = sb > 0 ? h.e2[j] : -h.e2[j], tol = 1e-5L * h.esize + 1e-6L * h.size;
                if (!(fabsl(e1(i) * sc2 - wa) <= tol)) fail("%s: vertex %d: derivative of the maximum %.9g instead of %.9Lg", how.c_str(), i, e1(i), wa / sc2);
                if (!(fabsl(e2(i) * sc2 - wb) <= tol)) fail("%s: vertex %d: derivative of the minimum %.9g instead of %.9Lg", how.c_str(), i, e2(i), wb / sc2);
                vp::outcome(vp::mixd(vp::mixd(1, std::round((double)fabsl(wa) * 1e4)), std::round((double)fabsl(wb) * 1e4)));
            }
            Field f;
            const bool sure = decide(s, h, mo.scale, f);
            auto g = getFeatureLineFieldWithFlags(m, smooth);
            EigenMatrix only = getFeatureLineField(m, smooth);
            const EigenMatrix &d = std::get<0>(g);
            const EigenVector &fl = std::get<1>(g);
            vp::add(vp::TRANSITIONS, 2);
            if (d.rows() != q.n || d.cols() != 3 || fl.size() != q.n || only.rows() != q.n) fail("%s: wrong number of directions", how.c_str());
            for (int i = 0; i < q.n; i++) {
                const int j = from[i];
                P x(d(i, 0), d(i, 1), d(i, 2));
                R l = geo::len(x);
                if (fl(i) != 0.0 && fl(i) != 1.0) fail("%s: vertex %d: mark %g", how.c_str(), i, fl(i));
                if (!(geo::len(x - P(only(i, 0), only(i, 1), only(i, 2))) <= 1e-9L)) fail("%s: vertex %d: the field alone differs from the field with marks", how.c_str(), i);
                if (!(l <= 1e-6L) && !(fabsl(l - 1) <= 1e-6L)) fail("%s: vertex %d: direction of length %Lg", how.c_str(), i, l);
                if (!sure) continue;
                vp::add(vp::EVALS);
                if ((fl(i) != 0.0) != (f.flag[j] != 0)) fail("%s: vertex %d is %sbeside a ridge or valley but is %smarked", how.c_str(), i, f.flag[j] ? "" : "not ", fl(i) != 0 ? "" : "not ");
                if (!f.some) {
                    if (l > 1e-6L) fail("%s: vertex %d has a direction without any ridge or valley", how.c_str(), i);
                } else if (f.judged[j] && !(geo::len(x - rot(mo, f.d[j])) <= 1e-4L)) {
                    P y = rot(mo, f.d[j]);
                    fail("%s: vertex %d: direction (%.6Lg %.6Lg %.6Lg) instead of (%.6Lg %.6Lg %.6Lg)", how.c_str(), i, x.x, x.y, x.z, y.x, y.y, y.z);
                }
            }
            vp::add(vp::TRACES);
            if (sure) vp::add(vp::AUX0);
            if (sure && f.some) vp::add(vp::AUX1);
        }
    }
}

static Surf ribbed(int a, int b, int ribs, double depth) {
    Surf s = mg::torusGrid(a, b);
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            double u = 2 * M_PI * i / a + 0.01 * ((i * 7 + j * 5) % 11), v = 2 * M_PI * j / b + 0.01 * ((i * 3 + j * 8) % 13);
            double r = 0.6 + depth * std::cos(ribs * v) + 0.05 * std::sin(2 * u), w = 1.5 + r * std::cos(v);
            s.p[i * b + j] = Vec3(w * std::cos(u), w * std::sin(u), r * std::sin(v));
        }
    s.name += vp::strf("r%d", ribs);
    return s;
}

static void setup() {
    const bool th = vp::thorough();
    auto fam = shapes::standard(th, false);
    std::vector<Surf> rib;
    for (int k : { 2, 3 }) {
        rib.push_back(ribbed(8, 10, k, 0.15));
        if (th) rib.push_back(ribbed(10, 12, k, 0.1)), rib.push_back(ribbed(10, 12, k, 0.2));
    }
    rib.push_back(mg::disjoint(ribbed(7, 9, 2, 0.15), mg::icosahedron(), Vec3(5.0, 0.0, 0.0)));
    fam.push_back(shapes::moved("ribbed", rib, 0.3, th ? 14 : 4));
    sc::groups(fam, { { 1.0, Vec3(0.0) } }, check);
}
VP_MAIN(setup)
