// E01..E03: one kind of edit, searched to a depth from every start mesh.  VP_KIND selects the edit.
#include "ops.hpp"
using namespace mg;

struct Job {
    Surf s;
    int depth;
    uint64_t locks;
};
static std::vector<Job> jobs;

static void setup() {
    const bool th = vp::thorough();
    auto add = [&](const Surf &s, int depth, uint64_t locks = 0) { jobs.push_back({ s, depth, locks }); };
    std::vector<Surf> sph[12];
    const int nmax = th ? 11 : 10;
    for (int n = 4; n <= nmax; n++) sph[n] = spheres(n);
#if VP_KIND == 0
    const unsigned kinds = 1u << ops::FLIP;
    int dep[] = { 0, 0, 0, 0, 2, 2, 2, 4, 4, 4, 3, 2 };
#elif VP_KIND == 1
    const unsigned kinds = 1u << ops::SPLIT;
    int dep[] = { 0, 0, 0, 0, 3, 3, 3, 3, 2, 2, 1, 1 };
#else
    const unsigned kinds = 1u << ops::COLLAPSE | 1u << ops::COLLAPSEFACE;
    int dep[] = { 0, 0, 0, 0, 3, 3, 3, 3, 3, 3, th ? 3 : 2, 2 };
#endif
    for (int n = 4; n <= nmax; n++)
        for (auto &s : sph[n]) add(s, dep[n] + (th && n < 10 ? 1 : 0), n % 2 ? 0x5 : 0);
    // open surfaces: all sub-surfaces of the small spheres, few-face removals of the larger ones
    auto open1 = subsurfaces(sph[4], false), open2 = subsurfaces(sph[5], false), open3 = subsurfaces(sph[6], false), open4 = subsurfaces(sph[7], false);
    for (auto *v : { &open1, &open2, &open3 })
        for (auto &s : *v) add(s, VP_KIND == 1 ? 2 : 3, 0x2);
    for (auto &s : open4) add(s, 2);
    for (auto &s : subsurfaces(sph[8], false, th ? 6 : 4)) add(s, VP_KIND == 1 ? 1 : 2);
    for (auto &s : subsurfaces(sph[9], false, th ? 3 : 2)) add(s, VP_KIND == 1 ? 1 : 2);
#if VP_KIND == 2
    for (auto &s : subsurfaces(sph[10], false, th ? 2 : 1)) add(s, 2);
    for (auto &s : subsurfaces({ icosahedron() }, false, th ? 4 : 3)) add(s, 2);
    // other embeddings: every choice of the outer face
    for (int n = 7; n <= (th ? 10 : 8); n++)
        for (auto &s : sph[n])
            for (int o = 1; o < (int)s.t.size(); o++) {
                Surf e = s;
                if (embedSphere(e, o) && nonDegenerate(e)) {
                    e.name += vp::strf("@%d", o);
                    add(e, 2);
                }
            }
    // dented icosahedron: every pair of vertices pushed inwards by different amounts
    for (int a = 0; a < (th ? 12 : 3); a++)
        for (int b = 0; b < 12; b++) {
            Surf s = icosahedron();
            s.p[a] = Vec3(s.p[a][0] / 8, s.p[a][1] / 8, s.p[a][2] / 8);
            if (a != b) s.p[b] = Vec3(-s.p[b][0] / 4, s.p[b][1] / 4, s.p[b][2] / 4);
            s.name += vp::strf("-dent%d,%d", a, b);
            if (nonDegenerate(s)) add(s, 2);
        }
#endif
    for (int k = 3; k <= 12; k++) add(bipyramidGeo(k), 2);
    add(icosahedron(), VP_KIND == 0 ? (th ? 4 : 3) : 2, 0xf0);
    add(torus7(), 2);
    for (auto &s : flipClosure(torusGrid(3, 3), false, th ? 400 : 60)) {
        Surf e = s;
        e.p = torusGrid(3, 3).p;
        add(e, VP_KIND == 1 ? 1 : 2);
    }
    add(torusGrid(3, 4), 2);
    add(torusGrid(4, 4), 2);
    for (uint64_t d = 0; d < 16; d++)
        add(sheet(2, 2, d, nullptr), 3);
    for (uint64_t d : masks(9, th ? 9 : 2))
        add(sheet(3, 3, d, [](int i, int j) { return 0.25 * ((i * 5 + j * 3) % 4); }), VP_KIND == 1 ? 1 : 2);
    add(sheet(5, 5, 0, nullptr), VP_KIND == 0 ? 2 : 1);
    add(subdivide(sph[4][0]), 2);
    add(subdivide(bipyramidGeo(4)), VP_KIND == 1 ? 1 : 2);
    add(disjoint(sph[4][0], icosahedron(), Vec3(5000.0, 0.0, 0.0)), VP_KIND == 1 ? 1 : 2);
    add(disjoint(open1[0], sph[7][2], Vec3(5000.0, 0.0, 0.0)), 2);
    for (auto &s : shapes::large(true)) add(s, 1, 0x30c);
    vp::group("search", jobs.size(), [kinds](uint64_t i) { ops::explore(jobs[i].s, jobs[i].locks, kinds, jobs[i].depth); },
              [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 300);
}
VP_MAIN(setup)
