// L01: the three Laplacian matrices of every placed mesh of the alphabet.
#include "ops/ops.h"
#include "shapecheck.hpp"
using namespace sc;
using namespace tinymesh;

static void run(const Surf &s, double) {
    Mesh m(s.p, mg::flat(s));
    Truth t(s);
    const bool closed = t.closed();
    const MeshLaplace types[3] = { MeshLaplace::Adjacent, MeshLaplace::Cotangent, MeshLaplace::Belkin08 };
    const char *names[3] = { "adjacency", "cotangent", "Gaussian" };
    std::vector<std::set<int>> nb(s.n);
    for (auto &x : t.opp) {
        nb[x.first.first].insert(x.first.second);
        nb[x.first.second].insert(x.first.first);
    }
    const R h = t.edgeSum / t.edges;
    for (int k = 0; k < 3; k++) {
        EigenSparseMatrix L = getMeshLaplacian(m, types[k]);
        vp::add(vp::TRANSITIONS);
        if (L.rows() != s.n || L.cols() != s.n) vp::fail("%s matrix is %dx%d for %d vertices", names[k], (int)L.rows(), (int)L.cols(), s.n);
        Eigen::MatrixXd D = Eigen::MatrixXd(L);
        R big = 0;
        for (int i = 0; i < s.n; i++)
            for (int j = 0; j < s.n; j++) {
                if (!std::isfinite(D(i, j)) && (closed || (!t.border[i] && !t.border[j]))) vp::fail("%s entry %d,%d is not finite", names[k], i, j);
                if (std::isfinite(D(i, j))) big = std::max(big, fabsl(D(i, j)));
            }
        for (int i = 0; i < s.n; i++) {
            R sum = 0;
            for (int j = 0; j < s.n; j++) {
                if (i == j) continue;
                if (!nb[i].count(j)) {
                    if (D(i, j) != 0) vp::fail("%s entry %d,%d between vertices that are not adjacent", names[k], i, j);
                    continue;
                }
                // edges along a border have no second triangle: their cotangent entry is not judged
                if (k == 1 && !(t.opp.count({ i, j }) && t.opp.count({ j, i }))) continue;
                R w = k == 0 ? 1 : k == 1 ? t.edgeWeight(i, j) : expl(-geo::dot(t.p[i] - t.p[j], t.p[i] - t.p[j]) / (4 * h)) / (4 * PI * h);
                near(k == 0 ? "adjacency entry in row" : k == 1 ? "cotangent entry in row" : "Gaussian entry in row", i, D(i, j), -w, 1e-8, 1e-3 + big * 1e-3);
                near("mirrored entry in row", i, D(j, i), D(i, j), 1e-9, big);
            }
            for (int j = 0; j < s.n; j++) sum += D(i, j);
            if (closed || k != 1 || !t.border[i]) near(k == 0 ? "adjacency row sum" : k == 1 ? "cotangent row sum" : "Gaussian row sum", i, (double)sum, 0, 1e-10, big);
            if (k == 0) near("valence of vertex", i, D(i, i), nb[i].size(), 1e-12);
        }
        if (closed && k == 1) {
            // Dirichlet energy of the piecewise linear function with values f, for unit and mixed values
            for (int v = 0; v < s.n; v++) {
                Eigen::VectorXd f(s.n);
                for (int j = 0; j < s.n; j++) f(j) = j == v ? 1.0 : (j * 7 + v) % 3 * 0.5;
                R E = 0;
                for (auto &tr : s.t) {
                    P a = t.p[tr[0]], b = t.p[tr[1]], c = t.p[tr[2]];
                    P n = geo::cross(b - a, c - a);
                    R A2 = geo::len(n);
                    P un = (1 / A2) * n;
                    P g = (1 / A2) * ((R)f(tr[0]) * geo::cross(un, c - b) + (R)f(tr[1]) * geo::cross(un, a - c) + (R)f(tr[2]) * geo::cross(un, b - a));
                    E += geo::dot(g, g) * A2 / 2;
                }
                near("Dirichlet energy of function", v, f.dot(D * f), E, 1e-8, big);
            }
        }
    }
    vp::add(vp::TRACES);
}

static void setup() {
    sc::groups(shapes::standard(vp::thorough(), true), { { 1.0, Vec3(0.0) }, { 6.5, Vec3(2.0, 3.0, -1.0) }, { 0.2, Vec3(0.0) } }, run);
}
VP_MAIN(setup)
