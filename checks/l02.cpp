// L02: heat kernel signatures of every small connected closed mesh, Laplacian, number of eigenpairs and of samples.
#include <Eigen/Eigenvalues>

#include "ops/ops.h"
#include "shapecheck.hpp"
using namespace tinymesh;
using geo::R;
using mg::Surf;
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> Mat;
typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> Col;

static void check(const Surf &s, double) {
    Mesh m(s.p, mg::flat(s));
    const int n = s.n;
    static const MeshLaplace kinds[] = { MeshLaplace::Cotangent, MeshLaplace::Adjacent, MeshLaplace::Belkin08 };
    static const char *names[] = { "cotangent", "adjacency", "Gaussian" };
    for (int k = 0; k < 3; k++) {
        EigenSparseMatrix L = getMeshLaplacian(m, kinds[k]);
        Mat D = Eigen::MatrixXd(L).cast<long double>();
        Eigen::SelfAdjointEigenSolver<Mat> es(D);
        const Col lam = es.eigenvalues();
        const Mat U = es.eigenvectors();
        if (lam(0) < -1e-9L || lam(1) < 1e-3L * lam(n - 1)) continue;  // not a Laplacian with one constant mode only
        for (int K : { -1, 0, 1, n, n + 1 }) {
            bool refused = false;
            try {
                getHeatKernelSignatures(L, K, 3);
            } catch (const std::exception &) {
                refused = true;
            }
            vp::add(vp::TRANSITIONS);
            if (!refused) vp::fail("%s: %d eigenpairs of a mesh with %d vertices are accepted", names[k], K, n);
        }
        for (int K = 2; K < n; K++) {
            if (K > 6 && K < n - 2 && !vp::thorough()) continue;
            // a multiple eigenvalue inside the selection needs a full basis of its space, at its end the selection is arbitrary
            bool simple = true;
            for (int i = 0; i < std::min(n - 1, K); i++)
                if (lam(i + 1) - lam(i) < 1e-2L * lam(i + 1)) simple = false;
            if (!simple) continue;
            for (int T : { 1, 2, 3, 7 }) {
                EigenMatrix h;
                try {
                    h = getHeatKernelSignatures(L, K, T);
                } catch (const std::exception &e) {
                    vp::fail("%s, %d eigenpairs, %d samples: refused with \"%s\"", names[k], K, T, e.what());
                }
                vp::add(vp::TRANSITIONS);
                if (h.rows() != n || h.cols() != T) vp::fail("%s, %d eigenpairs, %d samples: result is %d x %d", names[k], K, T, (int)h.rows(), (int)h.cols());
                const R t0 = logl(4 * logl(10) / lam(K - 1)), t1 = logl(4 * logl(10) / lam(1));
                for (int t = 0; t < T; t++) {
                    const R time = expl(T == 1 ? t0 : t0 + t * (t1 - t0) / (T - 1));
                    for (int v = 0; v < n; v++) {
                        R want = 0;
                        for (int i = 0; i < K; i++) want += U(v, i) * U(v, i) * expl(-time * lam(i));
                        vp::add(vp::EVALS);
                        if (!(fabsl(h(v, t) - want) <= 1e-3L * want + 1e-6L)) vp::fail("%s, %d eigenpairs, sample %d of %d: vertex %d has %.9g instead of %.9Lg", names[k], K, t, T, v, (double)h(v, t), want);
                        if (!(h(v, t) > 0) || (t > 0 && h(v, t) > h(v, t - 1) * (1 + 1e-9))) vp::fail("%s, %d eigenpairs, sample %d of %d: vertex %d has %.9g, which is not positive and decreasing", names[k], K, t, T, v, (double)h(v, t));
                        vp::outcome(vp::mixd(k, std::round((double)want * 1e5)));
                    }
                }
                vp::add(vp::TRACES);
            }
        }
    }
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sp;
    for (int n = 4; n <= (th ? 9 : 8); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    sp = shapes::unitSize(sp);
    for (auto &s : shapes::solids()) sp.push_back(s);
    auto big = shapes::large(false);
    for (auto &s : big)
        for (int k = 0; k < s.n; k++) s.p[k] = Vec3(s.p[k][0], s.p[k][1] * 1.3, s.p[k][2] * 1.7);
    for (auto &s : sp)
        for (int k = 0; k < s.n; k++)
            for (int d = 0; d < 3; d++) s.p[k][d] += 0.03 * (((k * 31 + d * 17 + k * k * 7) % 41) - 20) / 20.0;
    std::vector<shapes::Family> fam = { shapes::listed("meshes", sp) };
    fam.push_back(shapes::moved("moved", sp, 0.25));
    fam.push_back(shapes::listed("large", big));
    sc::groups(fam, { { 1.0, Vec3(0.0) }, { 20.0, Vec3(1.0, 2.0, 3.0) } }, check);
}
VP_MAIN(setup)
