// G03: per-vertex and Hausdorff distances of every ordered pair of meshes in a list, against brute force.
#include "core/mesh.h"
#include "core/vertex.h"
#include "ops/ops.h"
#include "shapes.hpp"
using namespace mg;
using namespace tinymesh;
using geo::P;
using geo::R;
using vp::fail;

static std::vector<Surf> list_, open_;

static R dist(P q, const Surf &s) {
    R best = 1e30L;
    for (auto &f : s.t) best = std::min(best, geo::distTri(q, P(s.p[f[0]]), P(s.p[f[1]]), P(s.p[f[2]])));
    return best;
}
static bool used(const Surf &s) {
    std::set<int> u;
    for (auto &f : s.t)
        for (int v : f) u.insert(v);
    return (int)u.size() == s.n;
}

static void pair(const Surf &a, const Surf &b, double scale) {
    Mesh ma(a.p, flat(a)), mb(b.p, flat(b));
    auto one = [&](const Mesh &m, const Surf &s, const Mesh &o, const Surf &so) {
        EigenVector d = getPerVertexShortestDistances(m, o);
        if (d.size() != (long)m.numVertices()) fail("%d distances for %d vertices", (int)d.size(), (int)m.numVertices());
        R worst = 0;
        for (int i = 0; i < (int)d.size(); i++) {
            Vec3 q = m.vertex(i)->pos();
            R w = dist(P(q), so);
            worst = std::max(worst, w);
            vp::add(vp::EVALS);
            if (!(fabsl(d(i) - w) <= 1e-8L * scale)) fail("vertex %d of %s at (%g %g %g): distance %.12g to %s instead of %.12Lg", i, s.name.c_str(), q[0], q[1], q[2], d(i), so.name.c_str(), w);
            vp::outcome(vp::mixd(5, std::round((double)(w / scale) * 1e7)));
        }
        return worst;
    };
    R w1 = one(ma, a, mb, b), w2 = one(mb, b, ma, a);
    double h = getHausdorffDistance(ma, mb), g = getHausdorffDistance(mb, ma);
    R want = std::max(w1, w2);
    if (!(fabsl(h - want) <= 1e-8L * scale)) fail("distance between %s and %s is %.12g instead of %.12Lg", a.name.c_str(), b.name.c_str(), h, want);
    if (!(fabs(h - g) <= 1e-8 * scale)) fail("distance between %s and %s is not symmetric: %.12g and %.12g", a.name.c_str(), b.name.c_str(), h, g);
    vp::add(vp::STATES);
    vp::add(vp::TRANSITIONS, 4);
    vp::add(vp::TRACES);
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> base;
    for (int n = 4; n <= 6; n++)
        for (auto &s : spheres(n)) base.push_back(s);
    base = shapes::unitSize(base);
    std::vector<Surf> sub = shapes::unitSize(subsurfaces(shapes::unitSize(spheres(5)), false));
    if (th)
        for (auto &s : shapes::unitSize(subsurfaces(spheres(6), false, 4))) sub.push_back(s);
    base.insert(base.end(), sub.begin(), sub.end());
    for (auto &s : shapes::solids()) base.push_back(s);
    for (uint64_t d = 0; d < 16; d++) base.push_back(sheet(2, 2, d, [](int i, int j) { return 0.25 * i * j; }));
    // each in its place, pushed apart, shrunk inside, and reflected
    for (auto &s : base) {
        list_.push_back(s);
        Surf t = shapes::scaled(s, 0.3, Vec3(0.1, 0.05, -0.07));
        t.name += "-small";
        list_.push_back(t);
        Surf u = shapes::scaled(s, 1.0, Vec3(0.8, -1.5, 2.0));
        u.name += "-apart";
        if (th || s.n <= 5 || s.name.compare(0, 5, "sheet") == 0) list_.push_back(u);
    }
    for (auto &s : list_)
        if (!used(s)) throw std::runtime_error("unused vertex in the list");
    vp::group("pairs", list_.size(), [](uint64_t i) {
        for (auto &b : list_) pair(list_[i], b, 1.0);
        vp::sample(list_[i].name + " against every other mesh");
    }, [](uint64_t i) { return list_[i].name; }, 120);
    // the other mesh is the same mesh with one vertex moved by a small or large step
    auto fam = shapes::moved("moved", base, 0.2);
    const uint64_t chunk = 16;
    vp::group("moved", (fam.n + chunk - 1) / chunk, [fam, chunk](uint64_t c) {
        for (uint64_t i = c * chunk; i < std::min(fam.n, (c + 1) * chunk); i++) {
            Surf s;
            if (!fam.make(i, s)) continue;
            std::string orig = s.name.substr(0, s.name.find("+v"));
            for (auto &b : list_)
                if (b.name == orig) {
                    pair(s, b, 1.0);
                    Surf s3 = shapes::scaled(s, 40.0, Vec3(500.0, 0.0, -100.0)), b3 = shapes::scaled(b, 40.0, Vec3(500.0, 0.0, -100.0));
                    pair(s3, b3, 40.0 * 20);
                    break;
                }
        }
    }, nullptr, 120);
    // meshes large enough for several levels of the search tree
    static std::vector<Surf> large;
    large = { project(subdivide(subdivide(icosahedron())), 1.0), project(subdivide(subdivide(icosahedron())), 1.3), shapes::unitSize({ torusGrid(12, 9) })[0], sheet(8, 8, 0x5a5a5a5a5a5a5a5aull, [](int i, int j) { return 0.1 * ((i * 7 + j * 3) % 5); }) };
    vp::group("large", large.size() * large.size(), [](uint64_t i) { pair(large[i / large.size()], large[i % large.size()], 1.0); }, nullptr, 120);
}
VP_MAIN(setup)
