// H01: dihedral hole filling of every hole of every open surface in the alphabet, in every order.
#include "ops.hpp"
#include "restore/restore.h"
using namespace mg;
using namespace tinymesh;
using vp::fail;
struct Job {
    Surf s;
    uint64_t locks;
};
static std::vector<Job> jobs, many;
static const double bounds[] = { 0.0, 1e-9, 0.1, 1.0, 3.14159265358979323846, 100.0 };
static const int NB = 6;

static std::vector<int> loopOf(Face *f, const std::vector<int> &id) {
    std::vector<int> c;
    Halfedge *h0 = f->he_begin().ptr(), *h = h0;
    do c.push_back(id[h->src()->index()]), h = h->next();
    while (h != h0);
    return ref::rotLoop(c);
}

// fills the given loop (by model ids) and judges the step
static void fillOne(ops::Sys &S, const std::vector<int> &loop, double bound, bool defaulted) {
    auto id = ref::idsOf(S.mesh, S.model);
    Face *f = nullptr;
    for (int i = 0; i < (int)S.mesh.numFaces(); i++)
        if (S.mesh.face(i)->isHole() && loopOf(S.mesh.face(i), id) == loop) f = S.mesh.face(i);
    if (!f) fail("a hole is not there any more");
    auto before = S.model.tris;
    if (defaulted) holeFillMinDihedral(S.mesh, f);
    else holeFillMinDihedral(S.mesh, f, bound);
    vp::add(vp::TRANSITIONS);
    if (S.mesh.numVertices() != S.model.pos.size()) fail("filling changed the number of vertices");
    for (int v : ref::idsOf(S.mesh, S.model))
        if (v < 0) fail("filling moved a vertex");
    auto after = ops::trianglesOf(S.mesh, S.model);
    ops::judgeFill(before, after, { loop });
    S.model.tris = after;
    S.model.loops.erase(S.model.loops.find(loop));
    ref::audit(S.mesh, S.model, "after filling one hole");
    vp::add(vp::TRACES);
    vp::add(vp::STATES);
    std::vector<uint64_t> d;
    ref::dump(S.mesh, d);
    vp::outcome(ref::hash(d).a);
}

static void fillAll(ops::Sys &S) {
    std::vector<std::vector<int>> loops(S.model.loops.begin(), S.model.loops.end());
    auto before = S.model.tris;
    S.mesh.fillHoles();
    vp::add(vp::TRANSITIONS);
    if (S.mesh.numVertices() != S.model.pos.size()) fail("filling changed the number of vertices");
    for (int v : ref::idsOf(S.mesh, S.model))
        if (v < 0) fail("filling moved a vertex");
    auto after = ops::trianglesOf(S.mesh, S.model);
    ops::judgeFill(before, after, loops);
    S.model.tris = after;
    S.model.loops.clear();
    ref::audit(S.mesh, S.model, "after filling all holes");
    for (int i = 0; i < (int)S.mesh.numVertices(); i++)
        if (S.mesh.vertex(i)->isBoundary()) fail("vertex %d is still boundary", i);
    for (int i = 0; i < (int)S.mesh.numHalfedges(); i++)
        if (S.mesh.halfedge(i)->isBoundary()) fail("halfedge %d is still boundary", i);
    for (int i = 0; i < (int)S.mesh.numFaces(); i++)
        if (S.mesh.face(i)->isHole() || S.mesh.face(i)->isBoundary()) fail("face %d is still a hole or boundary", i);
    vp::add(vp::TRACES);
    vp::add(vp::STATES);
}

static void run(const Job &j) {
    {
        ops::Sys S(j.s, j.locks);
        ref::audit(S.mesh, S.model, "start");
        fillAll(S);
    }
    ops::Sys S0(j.s, j.locks);
    std::vector<std::vector<int>> loops(S0.model.loops.begin(), S0.model.loops.end());
    std::vector<int> order(loops.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
    int perms = 0;
    do {
        for (int b = 0; b <= NB; b++) {
            ops::Sys S(j.s, j.locks);
            for (int k : order) fillOne(S, loops[k], b < NB ? bounds[b] : 0.0, b == NB);
            for (int i = 0; i < (int)S.mesh.numHalfedges(); i++)
                if (S.mesh.halfedge(i)->isBoundary()) fail("halfedge %d is still boundary", i);
        }
        // one hole by hand, the rest at once
        if (order.size() > 1) {
            ops::Sys S(j.s, j.locks);
            fillOne(S, loops[order[0]], 0.5, false);
            fillAll(S);
        }
        if (++perms >= 24) break;
    } while (std::next_permutation(order.begin(), order.end()));
    vp::sample(j.s.name);
}

// many holes: all at once; one by one from either end; each single one first
static void runMany(const Job &j) {
    ops::Sys S0(j.s, j.locks);
    std::vector<std::vector<int>> loops(S0.model.loops.begin(), S0.model.loops.end());
    fillAll(S0);
    for (int back = 0; back < 2; back++)
        for (int b = 0; b < NB; b += NB - 1) {
            ops::Sys S(j.s, j.locks);
            for (size_t k = 0; k < loops.size(); k++) fillOne(S, loops[back ? loops.size() - 1 - k : k], bounds[b], false);
        }
    for (auto &l : loops) {
        ops::Sys S(j.s, j.locks);
        fillOne(S, l, 0.5, false);
        fillAll(S);
    }
    vp::sample(j.s.name);
}

static void setup() {
    const bool th = vp::thorough();
    auto add = [&](const Surf &s, uint64_t locks = 0) { jobs.push_back({ s, locks }); };
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 10; n++) sph[n] = spheres(n);
    // open surfaces as embedded, and flattened / squeezed / folded variants of the same connectivity
    auto variants = [&](const Surf &s, int nvar) {
        for (int k = 0; k < nvar; k++) {
            Surf r = s;
            for (auto &p : r.p) {
                if (k == 1) p = Vec3(p[0], p[1], 0.001 * p[2]);
                if (k == 2) p = Vec3(1e-6 * p[0], 1e-6 * p[1], 1e-6 * p[2]);
                if (k == 3) p = Vec3(1e5 * p[0], 1e5 * p[1], 1e5 * p[2]);
                if (k == 4) p = Vec3(p[0], 0.3 * p[1] * p[1] / 1000.0 + p[0], p[2]);
            }
            r.name += vp::strf("~%d", k);
            add(r, k == 0 ? 0x5 : 0);
        }
    };
    for (int n = 4; n <= 7; n++)
        for (auto &s : subsurfaces(sph[n], false)) variants(s, n < 7 || th ? 5 : 2);
    for (auto &s : subsurfaces(sph[8], false, th ? 12 : 8)) variants(s, th ? 5 : 1);
    for (auto &s : subsurfaces(sph[9], false, th ? 5 : 3)) variants(s, 1);
    for (auto &s : subsurfaces(sph[10], false, th ? 3 : 1)) variants(s, 1);
    for (auto &s : subsurfaces({ icosahedron() }, false, th ? 7 : 5)) variants(s, 1);
    for (auto &s : subsurfaces({ torus7() }, false, th ? 5 : 4)) variants(s, 1);
    for (auto &s : subsurfaces({ torusGrid(3, 3) }, false, th ? 4 : 3)) variants(s, 1);
    // fans around a vertex: loops of every length, planar, conical and saddle shaped
    for (int k = 3; k <= (th ? 24 : 14); k++)
        for (int g = 0; g < 6; g++) {
            Surf s;
            s.n = k + 1;
            s.p.push_back(Vec3(0.0, 0.0, g == 0 ? 0.0 : 1.0));
            for (int i = 0; i < k; i++) {
                double a = 2 * 3.14159265358979 * i / k, r = (g == 3 && i % 2) ? 0.4 : 1.0;
                double z = g == 2 ? 0.5 * cos(2 * a) : g == 4 ? 0.2 * ((i * 7) % 5) : 0.0;
                s.p.push_back(Vec3(r * cos(a), (g == 5 ? 0.01 : 1.0) * r * sin(a), z));
                s.t.push_back({ 0, i + 1, (i + 1) % k + 1 });
            }
            s.name = vp::strf("fan%d/%d", k, g);
            add(s, 0x6);
        }
    // sheets, flat (collinear borders) and curved, with inner faces removed
    for (uint64_t d = 0; d < 16; d++) add(sheet(2, 2, d, nullptr));
    for (uint64_t d : masks(9, th ? 9 : 3)) {
        add(sheet(3, 3, d, nullptr));
        add(sheet(3, 3, d, [](int i, int j) { return 0.3 * i * i - 0.2 * j * j + 0.1 * i * j; }));
    }
    {
        std::vector<Surf> v = { sheet(3, 3, 0x0aa, nullptr), sheet(3, 3, 0x155, [](int i, int j) { return 0.3 * i * i - 0.2 * j * j; }) };
        for (auto &s : subsurfaces(v, false, 4)) add(s);
    }
    for (auto &s : shapes::large(true)) many.push_back({ s, 0x11 });
    for (auto &s : shapes::huge(true)) many.push_back({ s, 0x11 });
    add(sheet(1, 12, 0, nullptr));
    add(sheet(5, 5, 0x5a5a5a, nullptr));
    Surf one;
    one.n = 3;
    one.t = { { 0, 1, 2 } };
    one.p = { Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0) };
    one.name = "triangle";
    add(one);
    add(disjoint(one, sheet(2, 2, 3, nullptr), Vec3(9.0, 0.0, 1.0)));
    add(disjoint(sheet(2, 2, 5, nullptr), sheet(2, 2, 3, nullptr), Vec3(90.0, 0.0, 1.0)));
    vp::group("many", many.size(), [](uint64_t i) { runMany(many[i]); }, [](uint64_t i) { return many[i].s.name; }, 120);
    vp::group("fill", jobs.size(), [](uint64_t i) { run(jobs[i]); }, [](uint64_t i) { return jobs[i].s.name + show(jobs[i].s); }, 120);
}
VP_MAIN(setup)
