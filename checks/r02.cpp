// R02: simplification of every small mesh to every target.
#include "filt.hpp"
#include "remesh/remesh.h"
#include "topo.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

// trials < 0: the default number
static void one(const Surf &s, int target, int tr, bool flat = false, bool reach = false) {
    Mesh m(s.p, mg::flat(s));
    topo::Topo before(m, "before");
    auto p0 = m.getVertices();
    auto i0 = m.getVertexIndices();
    const int F = (int)m.numFaces();
    bool threw = false;
    try {
        if (tr < 0) simplifyQEM(m, target);
        else simplifyQEM(m, target, tr);
    } catch (const std::exception &) {
        threw = true;
    }
    vp::add(vp::TRANSITIONS);
    topo::Topo after(m, "after");
    if (threw) {
        if (target > 0) fail("an error is reported");
    } else if (target == 0) {
        fail("target 0 is accepted");
    }
    after.sameAs(before, "after");
    const int N = (int)m.numFaces();
    if (N > F) fail("%d faces became %d", F, N);
    if (N < F && N < target - 1) fail("%d faces remain for target %d", N, target);
    if ((F - N) % 2) fail("%d faces became %d", F, N);
    if ((target >= F || target == 0) && (m.getVertices() != p0 || m.getVertexIndices() != i0)) fail("the mesh changed although there is nothing to do");
    if (!before.R.locked.empty() || !after.R.locked.empty()) fail("a vertex became locked");
    if (flat)
        for (auto &q : m.getVertices())
            if (!(std::fabs(q[2]) <= 1e-9)) fail("a vertex of a flat sheet has left the plane by %g", q[2]);
    if (reach && N > target) fail("%d faces remain for target %d", N, target);
    vp::add(vp::TRACES);
    vp::outcome(vp::mix(vp::mix(vp::mix(7, F), N), before.euler + 100));
    if (N < F) vp::add(vp::AUX0);
    if (N <= target && target > 0) vp::add(vp::AUX1);
}

static void judged(const Surf &s, int target, int tr, bool flat, bool reach) {
    try {
        one(s, target, tr, flat, reach);
    } catch (const vp::Violation &v) {
        if (tr < 0) fail("%s, target %d: %s", s.name.c_str(), target, v.what.c_str());
        fail("%s, target %d, %d trials: %s", s.name.c_str(), target, tr, v.what.c_str());
    }
}

static int faces(const Surf &s) {
    Mesh m(s.p, mg::flat(s));
    return (int)m.numFaces();
}

static void run(const Surf &s, const std::vector<int> &trials) {
    const int F = faces(s);
    bool flat = true;
    for (auto &q : s.p) flat = flat && q[2] == 0.0;
    vp::add(vp::STATES);
    for (int t = -1; t <= F + 1; t++)
        for (int tr : trials) judged(s, t, tr, flat, false);
    judged(s, F / 2, -1, flat, false);
}

static void reg(const shapes::Family &fam, uint64_t chunk, const std::vector<int> &trials = { 0, 1, 2, 10 }) {
    vp::group(fam.name, (fam.n + chunk - 1) / chunk, [=](uint64_t c) {
        for (uint64_t i = c * chunk; i < std::min(fam.n, (c + 1) * chunk); i++) {
            Surf s;
            if (!fam.make(i, s)) continue;
            run(shapes::ordered(s), trials);
            vp::sample(s.name);
        }
    }, nullptr, 120);
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sp, op, big, small, sub;
    for (int n = 4; n <= (th ? 10 : 9); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    sp = shapes::unitSize(sp);
    for (auto &s : sp)
        if (s.n <= (th ? 9 : 8)) small.push_back(s);
    reg(shapes::moved("spheres", small, 0.3, th ? 14 : 4), 4);
    reg(shapes::listed("larger-spheres", sp), 4);
    reg(shapes::listed("solids", shapes::solids()), 1);
    reg(shapes::moved("moved-solids", shapes::solids(), 0.25, th ? 14 : 4), 2, th ? std::vector<int>{ 1, 2, 10 } : std::vector<int>{ 1 });
    for (uint64_t d = 0; d < 512; d++) op.push_back(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; }));
    for (uint64_t d : { 0ull, 0xffffull, 0x5a5aull, 0xa5a5ull, 0x0ff0ull, 0x3c3cull }) {
        op.push_back(mg::sheet(4, 4, d, nullptr));
        op.push_back(mg::sheet(4, 4, d, [](int i, int j) { return 0.2 * ((i * 7 + j * 5 + i * j) % 5) - 0.2 * i; }));
    }
    op.push_back(mg::sheet(5, 5, 0, nullptr));
    reg(shapes::listed("sheets", op), 4, th ? std::vector<int>{ 0, 1, 2, 10 } : std::vector<int>{ 1, 3 });
    for (auto &s : shapes::unitSize(mg::subsurfaces({ mg::icosahedron() }, false, th ? 6 : 4))) sub.push_back(s);
    for (auto &s : shapes::unitSize(mg::subsurfaces({ mg::torusGrid(4, 4) }, false, 2))) sub.push_back(s);
    reg(shapes::listed("pierced", sub), 4);
    big.push_back(mg::disjoint(shapes::scaled(mg::icosahedron(), 1e-3), mg::sheet(4, 4, 6, nullptr), Vec3(4.0, 0.0, 0.0)));
    big.push_back(mg::disjoint(shapes::scaled(mg::icosahedron(), 1e-3), shapes::scaled(mg::torusGrid(4, 5), 1e-3), Vec3(6.0, 0.0, 0.0)));
    big.push_back(shapes::scaled(mg::torusGrid(8, 8), 1e-3));
    reg(shapes::listed("larger", big), 1);
    // regular closed meshes: every target down to half the faces is reached
    static std::vector<Surf> nice = { shapes::scaled(mg::icosahedron(), 1e-3), mg::project(mg::subdivide(mg::icosahedron()), 1.0), shapes::scaled(mg::subdivide(mg::bipyramidGeo(5)), 1e-3), shapes::scaled(mg::torusGrid(8, 8), 1e-3) };
    vp::group("regular", nice.size() * 12, [](uint64_t c) {
        std::vector<int> from;
        Surf s = shapes::relisted(nice[c / 12], (int)(c % 12), from);
        const int F = faces(s);
        vp::add(vp::STATES);
        for (int t = F / 2; t < F; t++) judged(s, t, -1, false, true);
    }, nullptr, 120);
}
VP_MAIN(setup)
