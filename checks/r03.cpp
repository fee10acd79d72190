// R03: every simplification and remeshing with and without progress messages, under several clocks.
#include <chrono>
#include <random>

#include "filt.hpp"
#include "remesh/remesh.h"
#include "topo.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

// the clock: standing still, one millisecond, one second and one day per reading, and running backwards
static const long long steps[] = { 0, 1, 1000, 86400000, -1 };
static long long stepMs = 0, nowMs = 0;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
    nowMs += stepMs;
    return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(1700000000000ll + nowMs)));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    nowMs += stepMs;
    return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(1700000000000ll + nowMs)));
}

// the random orders: forward or backward
static bool backward = false;
extern "C" bool vp_order(size_t n, size_t *order) {
    for (size_t i = 0; i < n; i++) order[i] = backward ? n - 1 - i : i;
    return true;
}
std::random_device::result_type std::random_device::_M_getval() {
    return 1;
}

struct Result {
    bool threw = false;
    std::string what;
    std::vector<Vec3> p;
    std::vector<uint32_t> f;
};

static Result simplified(const Surf &s, int target, int trials, bool verbose) {
    Result r;
    Mesh m(s.p, mg::flat(s));
    try {
        simplifyQEM(m, target, trials, verbose);
    } catch (const std::exception &e) {
        r.threw = true;
        r.what = e.what();
    }
    r.p = m.getVertices(), r.f = m.getVertexIndices();
    vp::add(vp::TRANSITIONS);
    return r;
}

static Result remeshed(const Surf &s, double lo, double hi, double keep, int iters, bool verbose) {
    Result r;
    Mesh m(s.p, mg::flat(s));
    try {
        remeshTriangular(m, lo, hi, keep, iters, verbose);
    } catch (const std::exception &e) {
        r.threw = true;
        r.what = e.what();
    }
    r.p = m.getVertices(), r.f = m.getVertexIndices();
    vp::add(vp::TRANSITIONS);
    return r;
}

static void same(const Result &a, const Result &b) {
    if (b.threw && !a.threw) fail("with messages an error is reported: %s", b.what.c_str());
    if (a.threw != b.threw) fail("with messages no error is reported");
    if (a.f != b.f || a.p.size() != b.p.size()) fail("with messages the mesh has %d instead of %d triangles or other ones", (int)b.f.size() / 3, (int)a.f.size() / 3);
    for (size_t i = 0; i < a.p.size(); i++)
        if (!(length(a.p[i] - b.p[i]) <= 1e-9 * (1 + length(a.p[i])))) fail("with messages vertex %d is at another place", (int)i);
    vp::add(vp::TRACES);
    vp::outcome(vp::mix(vp::mix(1, a.f.size()), a.p.size()));
}

static std::vector<Surf> list_;

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sp;
    for (int n = 4; n <= (th ? 9 : 8); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    list_ = shapes::unitSize(sp);
    for (auto &s : shapes::solids()) list_.push_back(s);
    for (uint64_t d : mg::masks(9, th ? 9 : 1)) list_.push_back(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; }));
    list_.push_back(mg::sheet(4, 4, 0x5a5a, nullptr));
    list_.push_back(mg::perforated(mg::sheet(6, 6, 0x5a5a5a5a5ull, nullptr), false));
    list_.push_back(shapes::scaled(mg::torusGrid(8, 8), 1e-3));
    for (auto &s : list_) s = shapes::ordered(s);
    vp::group("simplify", list_.size(), [](uint64_t c) {
        const Surf &s = list_[c];
        Mesh m(s.p, mg::flat(s));
        const int F = (int)m.numFaces();
        vp::add(vp::STATES);
        for (int t = -1; t <= F + 1; t++)
            for (int tr : { 0, 1, 2, 10 }) {
                Result quiet = simplified(s, t, tr, false);
                for (long long st : steps) {
                    stepMs = st, nowMs = 0;
                    try {
                        same(quiet, simplified(s, t, tr, true));
                    } catch (const vp::Violation &v) {
                        fail("%s simplified to %d in %d trials, clock step %lld: %s", s.name.c_str(), t, tr, st, v.what.c_str());
                    }
                }
                stepMs = 0;
            }
        vp::sample(s.name);
    }, [](uint64_t i) { return list_[i].name; }, 120);
    vp::group("remesh", list_.size(), [](uint64_t c) {
        const Surf &s = list_[c];
        if (s.n > 30) return;
        vp::add(vp::STATES);
        static const double par[][3] = { { 0.8, 1.333, 0 }, { 1.1, 3.0, 0 }, { 0.5, 1.05, 0 }, { 1.1, 1.6, 1.9 } };
        for (auto &q : par)
            for (int it = 0; it <= 2; it++)
                for (int b = 0; b < 2; b++) {
                    backward = b;
                    try {
                        same(remeshed(s, q[0], q[1], q[2], it, false), remeshed(s, q[0], q[1], q[2], it, true));
                    } catch (const vp::Violation &v) {
                        fail("%s remeshed with %g %g %g, %d iterations, %s order: %s", s.name.c_str(), q[0], q[1], q[2], it, b ? "backward" : "forward", v.what.c_str());
                    }
                }
    }, [](uint64_t i) { return list_[i].name; }, 120);
}
VP_MAIN(setup)
