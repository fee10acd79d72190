// R01: remeshing of small meshes under every order (within a bound on deviations) of its random reorderings.
#include <random>

#include "filt.hpp"
#include "remesh/remesh.h"
#include "topo.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

// ---- the random orders, chosen by a depth-first search with replay ----
struct Search {
    std::vector<int> prefix;
    std::vector<std::pair<int, int>> trail;  // choice, number of options
    int budget = 0, used = 0;
    int choose(int n) {
        int c = 0;
        if (trail.size() < prefix.size()) c = prefix[trail.size()];
        if (c >= n) throw std::runtime_error("search: replay diverged");
        if (c) used++;
        trail.push_back({ c, used - (c ? 1 : 0) < budget ? n : c + 1 });
        return c;
    }
    void begin() {
        trail.clear();
        used = 0;
    }
    bool next() {
        int u = used;
        for (size_t i = trail.size(); i-- > 0;) {
            bool dev = trail[i].first != 0;
            if (dev) u--;
            if (trail[i].first + 1 < trail[i].second && u < budget) {
                prefix.clear();
                for (size_t j = 0; j < i; j++) prefix.push_back(trail[j].first);
                prefix.push_back(trail[i].first + 1);
                return true;
            }
        }
        return false;
    }
};

enum Base { FORWARD, BACKWARD, GENERATOR };
struct Control {
    Base base = GENERATOR;
    Search *search = nullptr;
    const Mesh *mesh = nullptr;
    double lo = 0, hi = 0;  // lengths that make an edge a candidate
    int calls = 0;
    bool asked = false;  // the library asks for orders
    size_t front = 1, full = 4;
    uint32_t seed = 0;
};
static Control ctl;

extern "C" bool vp_order(size_t n, size_t *order) {
    ctl.calls++;
    vp::add(vp::AUX0);
    if (ctl.base == GENERATOR) return false;
    ctl.asked = true;
    std::vector<size_t> first, rest;
    const Mesh &m = *ctl.mesh;
    for (size_t k = 0; k < n; k++) {
        size_t i = ctl.base == FORWARD ? k : n - 1 - k;
        bool cand = false;
        if (n == m.numHalfedges()) {
            double l = m.halfedge((int)i)->length();
            cand = ctl.calls % 2 == 1 ? l >= ctl.hi : l <= ctl.lo;
        }
        (cand ? first : rest).push_back(i);
    }
    // free choice of the first `front` candidates, or of the whole order if there are only a few
    size_t o = 0, front = first.size() <= ctl.full ? first.size() : ctl.front;
    while (!first.empty()) {
        int c = ctl.search && o < front && first.size() > 1 ? ctl.search->choose((int)first.size()) : 0;
        order[o++] = first[c];
        first.erase(first.begin() + c);
    }
    for (size_t i : rest) order[o++] = i;
    return true;
}

std::random_device::result_type std::random_device::_M_getval() {
    return ctl.seed;
}

// ---- one call and its judgement ----
struct Par {
    double lo, hi, keep;
    int iters;
};
// what has to be the same after every order
struct Before {
    std::unique_ptr<topo::Topo> t;
    std::map<ref::Pos, const char *> stay;
};
static void prepare(const Surf &s, uint64_t locks, const Par &q, Before &B0) {
    Mesh m(s.p, mg::flat(s));
    filt::lockAll(m, locks);
    B0.t.reset(new topo::Topo(m, "before"));
    topo::Topo &before = *B0.t;
    auto &stay = B0.stay;
    geo::R sum = 0;
    for (int i = 0; i < (int)m.numHalfedges(); i++) sum += geo::len(geo::P(m.halfedge(i)->src()->pos()) - geo::P(m.halfedge(i)->dst()->pos()));
    ctl.lo = (double)(sum / m.numHalfedges()) * q.lo;
    ctl.hi = (double)(sum / m.numHalfedges()) * q.hi;
    for (auto &l : before.R.loops)
        for (int v : l) stay[ref::key(before.R.pos[v])] = "boundary";
    if (q.keep > 0)
        for (auto &t : before.R.tris)
            for (int k = 0; k < 3; k++) {
                int a = t[k], b = t[(k + 1) % 3], c = t[(k + 2) % 3], d = before.R.opposite(b, a);
                if (d < 0 || a > b) continue;
                geo::P A(before.R.pos[a]), B(before.R.pos[b]), C(before.R.pos[c]), D(before.R.pos[d]);
                geo::P e = geo::unit(B - A), x = C - A, y = D - A;
                x = x - geo::dot(x, e) * e, y = y - geo::dot(y, e) * e;
                if (geo::angle(x, geo::P(0, 0, 0), y) < q.keep - 1e-6)
                    for (int v : { a, b })
                        if (!before.R.boundaryVertex(v)) stay[ref::key(before.R.pos[v])] = "crease";
            }
    for (int v : before.R.locked) stay[ref::key(before.R.pos[v])] = "locked";
}

static void one(const Surf &s, uint64_t locks, const Par &q, const Before &B0) {
    Mesh m(s.p, mg::flat(s));
    filt::lockAll(m, locks);
    const topo::Topo &before = *B0.t;
    auto &stay = B0.stay;
    ctl.mesh = &m;
    ctl.calls = 0;
    if (q.iters < 0) remeshTriangular(m);
    else remeshTriangular(m, q.lo, q.hi, q.keep, q.iters);
    ctl.mesh = nullptr;
    vp::add(vp::TRANSITIONS);
    topo::Topo after(m, "after");
    after.sameAs(before, "after");
    std::map<ref::Pos, int> there;
    for (auto &x : after.R.pos) there[ref::key(x.second)] = x.first;
    for (auto &x : stay) {
        auto it = there.find(x.first);
        if (it == there.end()) fail("a %s vertex was moved or removed", x.second);
        if (!strcmp(x.second, "locked") && !after.R.locked.count(it->second)) fail("a locked vertex is no longer locked");
    }
    vp::add(vp::TRACES);
    uint64_t h = vp::mix(after.triangles, before.triangles);
    for (auto &t : after.R.tris) h = vp::mix(vp::mix(vp::mix(h, t[0]), t[1]), t[2]);
    vp::outcome(h);
}

static void explore(const Surf &s, uint64_t locks, const Par &q, int budget, bool both = true) {
    vp::add(vp::STATES);
    Before B0;
    prepare(s, locks, q, B0);
    for (Base b : { FORWARD, BACKWARD }) {
        if (b == BACKWARD && !both) break;
        Search sr;
        sr.budget = budget;
        ctl.base = b;
        ctl.search = &sr;
        for (;;) {
            sr.begin();
            try {
                one(s, locks, q, B0);
            } catch (const vp::Violation &v) {
                std::string w;
                for (auto &c : sr.trail) w += vp::strf(" %d", c.first);
                fail("%s, locks %llx, short %g, long %g, angle %g, %d iterations, %s order with choices%s: %s", s.name.c_str(), (unsigned long long)locks, q.lo, q.hi, q.keep, q.iters, b == FORWARD ? "forward" : "backward", w.c_str(), v.what.c_str());
            }
            if (!sr.next()) break;
        }
        ctl.search = nullptr;
    }
    // once without the choices being taken over; if the library draws its order in another way, these are the choices
    ctl.base = GENERATOR;
    for (uint32_t seed = 0; seed < (ctl.asked ? 1u : 64u); seed++) {
        ctl.seed = seed;
        try {
            one(s, locks, q, B0);
        } catch (const vp::Violation &v) {
            fail("%s, locks %llx, short %g, long %g, angle %g, %d iterations, seed %u: %s", s.name.c_str(), (unsigned long long)locks, q.lo, q.hi, q.keep, q.iters, seed, v.what.c_str());
        }
    }
}

static const std::vector<Par> params = { { 0.8, 1.333, 0, 1 }, { 0.5, 1.05, 0, 1 }, { 1.1, 3.0, 0, 1 }, { 1.0, 1.2, 0, 1 }, { 0.8, 1.333, 0, 2 }, { 1.1, 1.6, 1.9, 1 }, { 1.1, 1.6, 2.4, 2 }, { 0.9, 1.2, 0, 3 }, { 0.8, 1.333, 0, -1 } };

struct Job {
    Surf s;
    uint64_t locks;
    size_t par;
    int budget;
};

// locks: all sets for meshes of up to lockAllUpTo vertices, otherwise none, every single vertex and two patterns; -1: three sets
static void reg(const std::string &name, const std::vector<Surf> &list, int lockAllUpTo, int budget, const std::vector<size_t> &pars = {}) {
    auto jobs = std::make_shared<std::vector<Job>>();
    for (auto &s0 : list) {
        if (!shapes::wellShaped(s0, 0.005)) continue;
        Surf s = shapes::ordered(s0);
        auto locks = filt::lockSets(s.n, lockAllUpTo);
        if (lockAllUpTo < 0) locks = { 0, 1, 0x5555555555555555ull };
        for (uint64_t l : locks)
            for (size_t p = 0; p < params.size(); p++)
                if (pars.empty() || std::count(pars.begin(), pars.end(), p)) jobs->push_back({ s, l, p, budget });
    }
    vp::group(name, jobs->size(), [jobs](uint64_t i) {
        const Job &j = (*jobs)[i];
        explore(j.s, j.locks, params[j.par], params[j.par].iters == 1 ? j.budget : params[j.par].iters < 0 ? 0 : std::min(j.budget, 1));
        vp::sample(j.s.name);
    }, nullptr, 120);
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sp, op, few;
    for (int n = 4; n <= (th ? 8 : 7); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    sp = shapes::unitSize(sp);
    if (th) {
        reg("spheres", sp, 6, 2);
    } else {
        for (auto &s : sp) (s.n <= 6 ? few : op).push_back(s);
        reg("spheres", few, 0, 2);
        reg("spheres7", op, -1, 2);
        few.clear(), op.clear();
    }
    std::vector<Surf> so;
    for (auto &s : shapes::solids())
        if (s.n <= 22) so.push_back(s);
    reg("solids", so, th ? 0 : -1, 1);
    for (uint64_t d = 0; d < 16; d++) few.push_back(mg::sheet(2, 2, d, [](int i, int j) { return 0.4 * i * j - 0.3 * j * j; }));
    reg("small-sheets", few, th ? 9 : -1, 2);
    for (uint64_t d = 0; d < 512; d++) op.push_back(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; }));
    reg("sheets", op, -1, th ? 1 : 0, { 0, 2, 3, 5 });
    op.clear();
    for (uint64_t d : { 0ull, 0xffffull, 0x5a5aull, 0xa5a5ull }) {
        op.push_back(mg::sheet(4, 4, d, nullptr));
        op.push_back(mg::sheet(4, 4, d, [](int i, int j) { return 0.2 * ((i * 7 + j * 5 + i * j) % 5) - 0.2 * i; }));
    }
    reg("large-sheets", op, -1, th ? 2 : 1, th ? std::vector<size_t>() : std::vector<size_t>{ 0, 2, 5, 8 });
}
VP_MAIN(setup)
