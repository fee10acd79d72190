// N01: both normal filters on every closed mesh, kernel width and iteration count, against the definition.
#include "filt.hpp"
#include "filters/filters.h"
using namespace filt;
using namespace tinymesh;

// the kernel has a step at two widths and vanishes at four: values next to them are not judged
static R kernel(R x, R sigma, bool &unsure) {
    R c = 1 / (sqrtl(2 * sc::PI) * sigma);
    if (fabsl(x / sigma - 2) < 1e-6L || fabsl(x / sigma - 4) < 1e-3L) unsure = true;
    if (x < 2 * sigma) return c * expl(-x * x / (sigma * sigma));
    if (x < 4 * sigma) {
        R a = 4 - x / sigma;
        return c * a * a * a * a / (16 * expl(2));
    }
    return 0;
}

// sigmaN < 0: no weight for the difference of normals
static bool denoise(Net &N, R sigmaC, R sigmaN, int iters) {
    const R edge = N.meanEdge();
    const int nf = (int)N.t.size();
    for (int it = 0; it < iters; it++) {
        N.taubin(0.5L, 0.53L, 3);
        N.flat = false;
        N.check();
        if (N.bad || N.flat) return false;
        std::vector<P> nrm(nf), mid(nf), out(nf);
        std::vector<R> ar(nf);
        for (int i = 0; i < nf; i++) {
            P a = N.p[N.t[i][0]], b = N.p[N.t[i][1]], c = N.p[N.t[i][2]];
            nrm[i] = geo::unit(geo::cross(b - a, c - a));
            mid[i] = (1 / 3.0L) * (a + b + c);
            ar[i] = geo::area(a, b, c);
        }
        bool unsure = false;
        for (int i = 0; i < nf; i++) {
            P s;
            R mag = 0;
            for (int k = 0; k < 3; k++) {
                int j = N.face.at({ N.t[i][(k + 1) % 3], N.t[i][k] });
                R w = ar[j] * kernel(geo::len(mid[i] - mid[j]), sigmaC * edge, unsure);
                if (sigmaN > 0) w *= kernel(geo::len(nrm[i] - nrm[j]), sigmaN, unsure);
                s = s + w * nrm[j];
                mag += w;
            }
            R l = geo::len(s);
            if (mag > 0 && l < 1e-3L * mag) return false;  // opposite normals cancel
            if (l > 0) out[i] = (1 / l) * s;
        }
        if (unsure) return false;
        std::vector<P> q = N.p;
        for (int v = 0; v < N.n; v++) {
            P inc;
            R sum = 0;
            for (int i = 0; i < nf; i++)
                if (N.t[i][0] == v || N.t[i][1] == v || N.t[i][2] == v) {
                    sum += ar[i];
                    inc = inc + (ar[i] * geo::dot(out[i], mid[i] - N.p[v])) * out[i];
                }
            q[v] = N.p[v] + (1 / sum) * inc;
        }
        N.p = q;
    }
    N.flat = false;
    N.check();
    return !N.bad;
}

static const double sigmaC[] = { 0.2, 0.1, 0.35, 1.0, 3.0 }, sigmaN[] = { 0.1, 0.3, 1.0 };

static void one(const Surf &s, double scale, double sc_, double sn, int it) {
    Net N(s, 0);
    bool ok = denoise(N, sc_, sn, it);
    Mesh m(s.p, mg::flat(s));
    Frame fr(m);
    if (!ok) return;
    if (sn > 0)
        denoiseNormalBilateral(m, sc_, sn, it);
    else
        denoiseNormalGaussian(m, sc_, it);
    vp::add(vp::TRANSITIONS);
    try {
        fr.unchanged(m);
        for (int i = 0; i < N.n; i++) {
            Vec3 g = m.vertex(i)->pos();
            vp::add(vp::EVALS);
            if (!(geo::len(P(g) - N.p[i]) <= 1e-7L * (scale + geo::len(N.p[i])))) vp::fail("vertex %d is at (%.9g %.9g %.9g) instead of (%.9Lg %.9Lg %.9Lg)", i, g[0], g[1], g[2], N.p[i].x, N.p[i].y, N.p[i].z);
            vp::outcome(vp::mixd(vp::mixd(4, std::round(g[0] * 1e4)), std::round(g[1] * 1e4)));
        }
    } catch (const vp::Violation &v) {
        vp::fail("widths %g %g, %d iterations: %s", sc_, sn, it, v.what.c_str());
    }
    vp::add(vp::TRACES);
}

static void run(const Surf &s, double scale) {
    for (int it : { 0, 1, 2, 5 })
        for (double c : sigmaC) {
            one(s, scale, c, -1, it);
            if (it == 1 || it == 5)
                for (double n : sigmaN) one(s, scale, c, n, it);
        }
    Net N(s, 0), M(s, 0);
    if (denoise(N, 0.2L, -1, 5)) {
        Mesh m(s.p, mg::flat(s));
        denoiseNormalGaussian(m);
        compare(m, N, s, 1e-7L);
    }
    if (denoise(M, 0.2L, 0.1L, 5)) {
        Mesh m(s.p, mg::flat(s));
        denoiseNormalBilateral(m);
        compare(m, M, s, 1e-7L);
    }
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<shapes::Family> fam = { shapes::listed("meshes", meshes(false, th)), shapes::moved("moved", meshes(false, th), 0.25, th ? 26 : 6), shapes::listed("huge", shapes::huge(false)) };
    sc::groups(fam, { { 1.0, Vec3(0.0) }, { 40.0, Vec3(3.0, -1.0, 2.0) } }, run);
}
VP_MAIN(setup)
