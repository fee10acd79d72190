// P01: every parallel loop under every number of threads, with all thread orders up to a bound, and independence of all
// pairs of iterations checked on the recorded memory accesses.
#include <algorithm>
#include <numeric>

#include "filt.hpp"
#include "filters/filters.h"
#include "ops/ops.h"
#include "par_rt.hpp"
#include "remesh/remesh.h"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

struct Call {
    const char *name;
    bool open;  // also for meshes with a border
    std::function<void(Mesh &, std::vector<double> &)> run;
};
static std::vector<Call> calls = {
    { "uniform smoothing", true, [](Mesh &m, std::vector<double> &) { smoothLaplacian(m, 0.7, false, 2); } },
    { "cotangent smoothing", true, [](Mesh &m, std::vector<double> &) { smoothLaplacian(m, 0.5, true, 2); } },
    { "Taubin smoothing", true, [](Mesh &m, std::vector<double> &) { smoothTaubin(m, 0.5, 0.53, 2); } },
    { "Gaussian normal denoising", false, [](Mesh &m, std::vector<double> &) { denoiseNormalGaussian(m, 0.9, 2); } },
    { "bilateral normal denoising", false, [](Mesh &m, std::vector<double> &) { denoiseNormalBilateral(m, 0.9, 0.8, 2); } },
    { "L0 denoising", false, [](Mesh &m, std::vector<double> &) { denoiseL0Smooth(m); } },
    { "implicit fairing", false, [](Mesh &m, std::vector<double> &) { implicitFairing(m, 0.5, 1); } },
    { "simplification", true, [](Mesh &m, std::vector<double> &) { simplifyQEM(m, (int)m.numFaces() * 3 / 4); } },
    { "distances", true, [](Mesh &m, std::vector<double> &o) {
         auto p = m.getVertices();
         for (auto &q : p) q = q * 1.25 + Vec3(0.1, 0.2, 0.3);
         Mesh other(p, m.getVertexIndices());
         auto d = getPerVertexShortestDistances(m, other);
         for (int i = 0; i < (int)d.size(); i++) o.push_back(d(i));
         o.push_back(getHausdorffDistance(m, other));
     } },
    { "Laplacian matrix", false, [](Mesh &m, std::vector<double> &o) {
         auto L = getMeshLaplacian(m, MeshLaplace::Cotangent);
         for (int k = 0; k < L.outerSize(); k++)
             for (EigenSparseMatrix::InnerIterator it(L, k); it; ++it) o.push_back(it.value());
     } },
};

struct Out {
    std::vector<double> v;
    std::vector<uint32_t> idx;
    bool threw = false;
};

static Out run(const Call &c, const Surf &s, uint64_t locks, const par::Plan &p, const char *what, bool record = true) {
    Out o;
    Mesh m(s.p, mg::flat(s));
    filt::lockAll(m, locks);
    par::begin(p, record);
    try {
        c.run(m, o.v);
    } catch (const std::exception &) {
        o.threw = true;
    }
    const par::Report &r = par::end();
    if (r.overflow) throw std::runtime_error("too many accesses in one region");
    if (r.race) fail("%s, %s: %s", c.name, what, r.text);
    if (r.escaped) fail("%s, %s: an error leaves a parallel region, which ends the program", c.name, what);
    for (auto &q : m.getVertices())
        for (int k = 0; k < 3; k++) o.v.push_back(q[k]);
    o.idx = m.getVertexIndices();
    vp::add(vp::TRANSITIONS, r.threads);
    vp::add(vp::STATES, r.regions);
    vp::add(vp::AUX0);
    vp::add(vp::AUX1, r.pairs);
    vp::add(vp::AUX2, r.accesses);
    return o;
}

static void same(const Call &c, const Out &a, const Out &b, const char *what) {
    if (a.threw != b.threw) fail("%s, %s: an error is reported in one schedule only", c.name, what);
    if (a.idx != b.idx || a.v.size() != b.v.size()) fail("%s, %s: the connectivity differs from a sequential run", c.name, what);
    for (size_t i = 0; i < a.v.size(); i++) {
        if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
        if (!(std::fabs(a.v[i] - b.v[i]) <= 1e-9 * (1 + std::fabs(a.v[i])))) fail("%s, %s: a result is %.12g instead of %.12g", c.name, what, b.v[i], a.v[i]);
    }
    vp::add(vp::TRACES);
}

static void explore(const Call &c, const Surf &s, uint64_t locks) {
    par::Plan p;
    Out base = run(c, s, locks, p, "one thread");
    std::vector<int> o;
    uint64_t h = 3;
    for (double d : base.v) h = vp::mixd(h, std::round(d * 1e6));
    vp::outcome(h);
    // all orders of up to three (four) threads
    for (int T = 2; T <= (vp::thorough() ? 5 : 4); T++) {
        o.resize(T);
        std::iota(o.begin(), o.end(), 0);
        do {
            p.threads = T;
            p.order = o.data();
            std::string w = vp::strf("%d threads in order", T);
            for (int i : o) w += vp::strf(" %d", i);
            same(c, base, run(c, s, locks, p, w.c_str()), w.c_str());
        } while (std::next_permutation(o.begin(), o.end()));
    }
    // one thread per iteration: forward, backward, and every thread first and last
    int N = std::max(s.n, (int)s.t.size()) + 2;
    p.threads = 0;
    p.many = N;
    for (int w = 0; w < 2 + 2 * N; w++) {
        o.resize(N);
        std::iota(o.begin(), o.end(), 0);
        if (w == 1) std::reverse(o.begin(), o.end());
        if (w >= 2 && w < 2 + N) std::rotate(o.begin(), o.begin() + (w - 2), o.begin() + (w - 2) + 1);
        if (w >= 2 + N) std::rotate(o.begin() + (w - 2 - N), o.begin() + (w - 2 - N) + 1, o.end());
        p.order = o.data();
        std::string t = w == 0 ? "a thread per iteration" : w == 1 ? "a thread per iteration, backward" : w < 2 + N ? vp::strf("a thread per iteration, %d first", w - 2) : vp::strf("a thread per iteration, %d last", w - 2 - N);
        same(c, base, run(c, s, locks, p, t.c_str()), t.c_str());
    }
    // other thread counts, in order
    for (int T = 5; T < N; T++) {
        p.threads = T;
        p.order = nullptr;
        std::string t = vp::strf("%d threads", T);
        same(c, base, run(c, s, locks, p, t.c_str()), t.c_str());
    }
}

static void setup() {
    const bool th = vp::thorough();
    auto list = std::make_shared<std::vector<std::pair<Surf, bool>>>();
    for (auto &s : filt::meshes(false, false))
        if (s.n <= (th ? 20 : 12)) list->push_back({ s, false });
    for (uint64_t d = 0; d < 16; d++) list->push_back({ shapes::ordered(mg::sheet(2, 2, d, [](int i, int j) { return 0.4 * i * j - 0.3 * j * j; })), true });
    for (uint64_t d : { 0, 85, 170 }) list->push_back({ shapes::ordered(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; })), true });
    vp::group("schedules", list->size() * calls.size() * 2, [list](uint64_t i) {
        const Call &c = calls[i / 2 % calls.size()];
        auto &e = (*list)[i / 2 / calls.size()];
        if (e.second && !c.open) return;
        uint64_t locks = i % 2 ? 0x9249249249249249ull : 0;
        try {
            explore(c, e.first, locks);
        } catch (const vp::Violation &v) {
            fail("%s, locks %llx: %s", e.first.name.c_str(), (unsigned long long)locks, v.what.c_str());
        }
        vp::sample(e.first.name + ", " + c.name);
    }, nullptr, 300);
}
VP_MAIN(setup)
