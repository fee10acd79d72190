// B01: boundary, hole and lock queries in every reachable state and for every set of locked vertices.
#include "ops.hpp"
using namespace mg;
using namespace tinymesh;
using vp::fail;
struct Job {
    Surf s;
    int depth;
};
static std::vector<Job> jobs;

static void checkQueries(ops::Sys &S) {
    Mesh &m = S.mesh;
    const ref::RefMesh &R = S.model;
    auto id = ref::idsOf(m, R);
    const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
    // which faces are triangles of the surface: match as multisets
    auto left = R.tris;
    std::vector<char> tri(nf, 0);
    for (int i = 0; i < nf; i++) {
        std::vector<int> c;
        Halfedge *h0 = m.face(i)->he_begin().ptr(), *h = h0;
        do c.push_back(id[h->src()->index()]), h = h->next();
        while (h != h0);
        if (c.size() != 3) continue;
        auto it = left.find(ref::rot({ c[0], c[1], c[2] }));
        if (it != left.end()) left.erase(it), tri[i] = 1;
    }
    std::vector<char> vb(nv, 0), fb(nf, 0);
    for (int i = 0; i < nh; i++) {
        Halfedge *h = m.halfedge(i);
        int sides = tri[h->face()->index()] + tri[h->rev()->face()->index()];
        if (h->isBoundary() != (sides == 1)) fail("edge %d-%d has %d triangles but is reported boundary=%d", id[h->src()->index()], id[h->dst()->index()], sides, (int)h->isBoundary());
        if (sides == 1) vb[h->src()->index()] = vb[h->dst()->index()] = fb[h->face()->index()] = 1;
    }
    for (int i = 0; i < nv; i++)
        if (m.vertex(i)->isBoundary() != (bool)vb[i]) fail("vertex %d reported boundary=%d", id[i], (int)m.vertex(i)->isBoundary());
    for (int i = 0; i < nf; i++) {
        if (m.face(i)->isBoundary() != (bool)fb[i]) fail("face %d reported boundary=%d", i, (int)m.face(i)->isBoundary());
        if (m.face(i)->isHole() == (bool)tri[i]) fail("face %d reported hole=%d", i, (int)m.face(i)->isHole());
    }
    // locks
    std::vector<uint64_t> sets;
    if (nv <= (vp::thorough() ? 8 : 6)) {
        for (uint64_t x = 0; x < (1ull << nv); x++) sets.push_back(x);
    } else {
        sets.push_back(0);
        sets.push_back(~0ull);
        for (int i = 0; i < nv && i < 64; i++)
            for (int j = 0; j <= i; j++) sets.push_back(1ull << i | 1ull << j);
        for (int i = 0; i < nf; i++) {  // every face fully locked, everything else unlocked
            uint64_t x = 0;
            for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it)
                if (it->index() < 64) x |= 1ull << it->index();
            sets.push_back(x);
            sets.push_back(~x);
        }
    }
    for (uint64_t x : sets) {
        vp::add(vp::TRACES);
        auto want = [&](int i) { return i < 64 && (x >> i & 1); };
        for (int i = 0; i < nv; i++) {
            if (want(i)) m.vertex(i)->lock();
            else m.vertex(i)->unlock();
        }
        for (int i = 0; i < nv; i++)
            if (m.vertex(i)->isLocked() != want(i)) fail("vertex %d reported locked=%d", id[i], (int)m.vertex(i)->isLocked());
        for (int i = 0; i < nh; i++) {
            Halfedge *h = m.halfedge(i);
            if (h->isLocked() != (want(h->src()->index()) && want(h->dst()->index()))) fail("edge %d-%d reported locked=%d", id[h->src()->index()], id[h->dst()->index()], (int)h->isLocked());
        }
        for (int i = 0; i < nf; i++) {
            bool any = false;
            Halfedge *h0 = m.face(i)->he_begin().ptr(), *h = h0;
            do any |= want(h->src()->index()), h = h->next();
            while (h != h0);
            if (m.face(i)->isLocked() != any) fail("face %d reported locked=%d", i, (int)m.face(i)->isLocked());
        }
    }
    for (int i = 0; i < nv; i++) {
        if (R.locked.count(id[i])) m.vertex(i)->lock();
        else m.vertex(i)->unlock();
    }
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 10; n++) sph[n] = spheres(n);
    auto add = [&](const Surf &s, int depth) { jobs.push_back({ s, depth }); };
    for (int n = 4; n <= 6; n++)
        for (auto &s : sph[n]) add(s, 2);
    for (int n = 7; n <= (th ? 9 : 8); n++)
        for (auto &s : sph[n]) add(s, 1);
    for (int n = 4; n <= 6; n++)
        for (auto &s : subsurfaces(sph[n], false)) add(s, n < 6 ? (th ? 3 : 2) : (th ? 2 : 1));
    for (auto &s : subsurfaces(sph[7], false)) add(s, 1);
    for (auto &s : subsurfaces(sph[8], false, th ? 12 : 5)) add(s, 1);
    for (auto &s : subsurfaces(sph[9], false, th ? 4 : 2)) add(s, th ? 1 : 0);
    for (auto &s : subsurfaces({ icosahedron() }, true, th ? 5 : 4)) add(s, th ? 1 : 0);
    add(torus7(), 1);
    Surf t7 = torus7();
    for (auto &s : subsurfaces({ t7 }, false, th ? 5 : 3)) add(s, 1);
    add(torusGrid(3, 3), 1);
    auto bump = [](int i, int j) { return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j; };
    for (uint64_t d = 0; d < 16; d++) add(sheet(2, 2, d, bump), 2);
    for (uint64_t d : masks(9, th ? 9 : 2)) add(sheet(3, 3, d, bump), 1);
    for (auto &s : shapes::large(true)) add(s, 0);
    for (auto &s : shapes::huge(true)) add(s, 0);
    Surf one;
    one.n = 3;
    one.t = { { 0, 1, 2 } };
    one.p = { Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0) };
    one.name = "triangle";
    add(one, 2);
    add(disjoint(one, one, Vec3(9.0, 0.0, 1.0)), 2);
    add(disjoint(one, icosahedron(), Vec3(5000.0, 0.0, 1.0)), 1);
    add(disjoint(sph[4][0], sheet(2, 2, 5, bump), Vec3(5000.0, 0.0, 0.0)), 1);
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL);
    vp::group("queries", jobs.size(), [=](uint64_t i) { ops::explore(jobs[i].s, 0, ALL, jobs[i].depth, checkQueries); },
              [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 300);
}
VP_MAIN(setup)
