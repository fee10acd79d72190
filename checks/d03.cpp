// D03: mesh-wide averages and counts of every placed mesh, in every listed order, and of every mesh reached by edits.
#include "ops.hpp"
#include "shapecheck.hpp"
using namespace sc;
using namespace tinymesh;

static void averages(const Mesh &m, const Surf &s, double scale) {
    Truth t(s);
    vp::add(vp::TRACES);
    if (m.numVertices() != (size_t)s.n) vp::fail("%d vertices counted, there are %d", (int)m.numVertices(), s.n);
    if (m.numEdges() != (size_t)t.edges) vp::fail("%d edges counted, there are %d", (int)m.numEdges(), t.edges);
    if (m.numHalfedges() != 2 * (size_t)t.edges) vp::fail("%d halfedges for %d edges", (int)m.numHalfedges(), t.edges);
    near("mean edge length of mesh", 0, m.getMeanEdgeLength(), t.edgeSum / t.edges, 1e-10, scale);
    R area = 0;
    bool flat = false;
    for (auto &f : s.t) {
        R a = geo::area(t.p[f[0]], t.p[f[1]], t.p[f[2]]);
        R l = std::max(geo::len(t.p[f[0]] - t.p[f[1]]), std::max(geo::len(t.p[f[1]] - t.p[f[2]]), geo::len(t.p[f[2]] - t.p[f[0]])));
        flat |= a < 1e-4 * l * l;
        area += a;
    }
    near("mean face area of mesh", 0, m.getMeanFaceArea(), area / (R)s.t.size(), 1e-10, (R)scale * scale);
    if (!t.closed() || flat) return;
    R sum = 0;
    for (auto &x : t.opp) {
        int a = x.first.first, b = x.first.second;
        if (a > b) continue;
        int c = x.second, d = t.opp.at({ b, a });
        P e = geo::unit(t.p[b] - t.p[a]);
        P pc = t.p[c] - t.p[a], pd = t.p[d] - t.p[a];
        pc = pc - geo::dot(pc, e) * e;
        pd = pd - geo::dot(pd, e) * e;
        sum += atan2l(geo::len(geo::cross(pc, pd)), geo::dot(pc, pd));
    }
    near("mean dihedral angle of mesh", 0, m.getMeanDihedralAngle(), sum / t.edges, 1e-6);
}

static void orders(const Surf &s, double scale) {
    const int T = (int)s.t.size();
    auto one = [&](const Surf &r) { averages(Mesh(r.p, mg::flat(r)), r, scale); };
    one(s);
    if (T > 40) return;
    for (int k = 1; k < std::min(T, 4); k++) {  // rotate the list, turn the corners, renumber the vertices
        Surf r = s;
        std::rotate(r.t.begin(), r.t.begin() + k, r.t.end());
        for (int i = 0; i < T; i++)
            if ((i + k) % 2) std::rotate(r.t[i].begin(), r.t[i].begin() + 1 + k % 2, r.t[i].end());
        if (k == 3) std::reverse(r.t.begin(), r.t.end());
        std::rotate(r.p.begin(), r.p.begin() + k % s.n, r.p.end());
        for (auto &f : r.t)
            for (int &v : f) v = (v - k % s.n + s.n) % s.n;
        one(r);
    }
}

struct Job {
    Surf s;
    int depth;
};
static std::vector<Job> jobs;

static void setup() {
    const bool th = vp::thorough();
    sc::groups(shapes::standard(th, true), { { 1.0, Vec3(0.0) }, { 30.0, Vec3(5.0, -6.0, 7.0) } }, orders);
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 8; n++) sph[n] = mg::spheres(n);
    for (int n = 4; n <= 6; n++)
        for (auto &s : sph[n]) jobs.push_back({ s, th ? 3 : 2 });
    for (int n = 7; n <= 8; n++)
        for (auto &s : sph[n]) jobs.push_back({ s, th ? 2 : 1 });
    for (int n = 4; n <= 6; n++)
        for (auto &s : mg::subsurfaces(sph[n], false)) jobs.push_back({ s, 2 });
    for (auto &s : mg::subsurfaces(sph[7], false)) jobs.push_back({ s, 1 });
    jobs.push_back({ mg::icosahedron(), 1 });
    jobs.push_back({ mg::torusGrid(3, 3), 1 });
    jobs.push_back({ mg::torus7(), 1 });
    jobs.push_back({ mg::sheet(3, 3, 0x155, [](int i, int j) { return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j; }), 1 });
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL);
    vp::group("edited", jobs.size(), [=](uint64_t i) {
        double scale = 0;
        for (auto &p : jobs[i].s.p) scale = std::max(scale, length(p));
        ops::explore(jobs[i].s, 0, ALL, jobs[i].depth, [=](ops::Sys &S) {
            if (S.pseudo) return;
            Surf r;
            std::map<int, int> num;
            for (auto &x : S.model.pos) {
                num[x.first] = r.n++;
                r.p.push_back(x.second);
            }
            for (auto &t : S.model.tris) r.t.push_back({ num[t[0]], num[t[1]], num[t[2]] });
            if (!r.t.empty()) averages(S.mesh, r, scale);
        });
    }, [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 120);
}
VP_MAIN(setup)
