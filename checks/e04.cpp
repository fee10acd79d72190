// E04: all edits mixed.
#include "ops.hpp"
using namespace mg;
struct Job {
    Surf s;
    int depth;
    uint64_t locks;
    unsigned kinds;
};
static std::vector<Job> jobs;
static double bump(int i, int j) {
    return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j;
}
static void setup() {
    const bool th = vp::thorough();
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL) | (1u << ops::MOVE);
    const unsigned EDIT = ALL & ~(1u << ops::MOVE);
    auto add = [&](const Surf &s, int depth, unsigned k, uint64_t locks = 0) { jobs.push_back({ s, depth, locks, k }); };
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 9; n++) sph[n] = spheres(n);
    add(sph[4][0], th ? 4 : 3, EDIT);
    add(sph[5][0], 3, EDIT);
    for (auto &s : sph[6]) add(s, 3, EDIT);
    for (auto &s : sph[7]) add(s, th ? 3 : 2, ALL);
    for (auto &s : sph[8]) add(s, th ? 3 : 2, ALL);
    for (auto &s : sph[9]) add(s, 2, EDIT);
    for (auto &s : subsurfaces(sph[4], false)) add(s, 3, ALL);
    for (auto &s : subsurfaces(sph[5], false)) add(s, th ? 3 : 2, ALL, 0x3);
    for (auto &s : subsurfaces(sph[6], false)) add(s, 2, EDIT);
    for (auto &s : subsurfaces(sph[7], false, th ? 10 : 4)) add(s, 2, EDIT);
    for (auto &s : subsurfaces(sph[8], false, th ? 4 : 2)) add(s, 2, EDIT);
    add(icosahedron(), 2, EDIT);
    for (auto &s : subsurfaces({ icosahedron() }, false, 2)) add(s, 2, EDIT);
    add(torus7(), 2, EDIT);
    add(torusGrid(3, 3), 2, EDIT);
    add(torusGrid(3, 4), 2, EDIT);
    for (int k = 5; k <= 9; k++) add(bipyramidGeo(k), 2, EDIT);
    for (uint64_t d = 0; d < 16; d++) add(sheet(2, 2, d, bump), 2, EDIT);
    add(sheet(3, 3, 0x155, bump), 2, EDIT);
    add(disjoint(sph[4][0], sph[6][1], Vec3(5000.0, 0.0, 0.0)), 2, EDIT);
    vp::group("search", jobs.size(), [](uint64_t i) { ops::explore(jobs[i].s, jobs[i].locks, jobs[i].kinds, jobs[i].depth); },
              [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 600);
}
VP_MAIN(setup)
