// C03: exports and clones of every reachable state, and independence of original and clone.
#include "ops.hpp"
using namespace mg;
using namespace tinymesh;
struct Job {
    Surf s;
    int depth;
    uint64_t locks;
};
static std::vector<Job> jobs;

// a program that disturbs a mesh as much as possible; variant selects where it starts
static void disturb(Mesh &m, int variant) {
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vertex *v = m.vertex(i);
        if ((i + variant) % 2) v->lock();
        else v->unlock();
        v->setPos(v->pos() + Vec3(3.0 + i, -5.0 * variant, 7.0));
    }
    int n = (int)m.numHalfedges();
    for (int i = variant; i < n; i += 2) m.flipHE(m.halfedge(i));
    for (int i = variant; i < n; i += 3) m.splitHE(m.halfedge(i));
    for (int i = 0; i < (int)m.numHalfedges(); i += 2) m.collapseHE(m.halfedge(i));
    m.fillHoles();
}

static void checkState(ops::Sys &S) {
    if (S.pseudo) return;
    std::vector<uint64_t> before, after;
    ref::dump(S.mesh, before);
    ref::RefMesh M = S.model;
    M.locked.clear();
    vp::add(vp::TRACES);
    auto keepAlive = [&](Mesh &c) {
        ref::RefMesh C = M;  // locks of a clone are not judged
        C.locked.clear();
        auto id = ref::idsOf(c, C);
        for (int i = 0; i < (int)c.numVertices(); i++)
            if (c.vertex(i)->isLocked() && id[i] >= 0) C.locked.insert(id[i]);
        return C;
    };
    Mesh c1 = S.mesh.clone();
    ref::audit(c1, keepAlive(c1), "clone");
    Mesh cc = c1.clone();
    ref::audit(cc, keepAlive(cc), "clone of clone");
    ref::dump(S.mesh, after);
    if (before != after) vp::fail("cloning changed the original");
    for (int i = 0; i < (int)c1.numVertices(); i++)
        for (int j = 0; j < (int)S.mesh.numVertices(); j++)
            if (c1.vertex(i) == S.mesh.vertex(j)) vp::fail("clone shares vertex %d", j);
    {
        Mesh c2 = S.mesh.clone();
        disturb(c2, 0);
        ref::dump(S.mesh, after);
        if (before != after) vp::fail("editing a clone changed the original");
    }
    // single edits on either side
    std::vector<uint64_t> d1, d2;
    ref::dump(c1, d1);
    const int nh = (int)c1.numHalfedges();
    for (int i = 0; i < nh; i++) {
        Halfedge *h = c1.halfedge(i);
        bool ok = (i % 3 == 0) ? c1.flipHE(h) : (i % 3 == 1) ? c1.collapseHE(h) : c1.splitHE(h);
        if (!ok) continue;
        ref::dump(S.mesh, after);
        if (before != after) vp::fail("one edit on a clone changed the original");
        ref::dump(cc, d2);
        break;
    }
    ref::dump(S.mesh, after);
    if (before != after) vp::fail("editing a clone changed the original");
    Mesh c3 = S.mesh.clone();
    ref::dump(c3, d1);
    disturb(S.mesh, 1);  // the search restores the state afterwards
    ref::dump(c3, d2);
    if (d1 != d2) vp::fail("editing the original changed a clone");
    ref::audit(c3, keepAlive(c3), "clone after the original was edited");
    S.mesh = Mesh();
    ref::dump(c3, d2);
    if (d1 != d2) vp::fail("destroying the original changed a clone");
    ref::audit(cc, keepAlive(cc), "clone of clone after edits");
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 10; n++) sph[n] = spheres(n);
    auto add = [&](const Surf &s, int depth, uint64_t locks = 0) { jobs.push_back({ s, depth, locks }); };
    for (int n = 4; n <= 6; n++)
        for (auto &s : sph[n]) add(s, 2, 0x15);
    for (int n = 7; n <= (th ? 9 : 7); n++)
        for (auto &s : sph[n]) add(s, 2);
    for (int n = 4; n <= 6; n++)
        for (auto &s : subsurfaces(sph[n], false)) add(s, 2, 0x2);
    for (auto &s : subsurfaces(sph[7], false)) add(s, 1, 0x9);
    for (auto &s : subsurfaces(sph[8], false, th ? 4 : 2)) add(s, 1);
    for (auto &s : subsurfaces({ icosahedron() }, true, th ? 3 : 2)) add(s, 1);
    add(torus7(), 1);
    add(torusGrid(3, 3), 1);
    for (int k = 5; k <= 9; k++) add(bipyramidGeo(k), 1);
    add(sheet(3, 3, 0x155, [](int i, int j) { return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j; }), 1);
    add(disjoint(sph[4][0], sph[7][1], Vec3(5000.0, 0.0, 0.0)), 1);
    {
        Surf one;
        one.n = 3;
        one.t = { { 0, 1, 2 } };
        one.p = { Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0) };
        one.name = "triangle";
        add(one, 1);
        add(disjoint(one, one, Vec3(9.0, 0.0, 1.0)), 1);
        add(disjoint(one, icosahedron(), Vec3(5000.0, 0.0, 1.0)), 1);
    }
    for (auto &s : shapes::large(true)) add(s, 0, 0xff00ff);
    for (auto &s : shapes::huge(true)) add(s, 0, 0xff00ff);
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL) | (1u << ops::MOVE) | (1u << ops::LOCK);
    vp::group("clones", jobs.size(), [=](uint64_t i) { ops::explore(jobs[i].s, jobs[i].locks, ALL, jobs[i].depth, checkState); },
              [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 300);
}
VP_MAIN(setup)
