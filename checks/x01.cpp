// X01: context-coherent completion of closed surfaces and sheets with every small hole at every place of a strip.
#include <chrono>
#include <cstring>

#include "restore/restore.h"
#include "shapes.hpp"
#include "topo.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

struct Base {
    Surf s;
    std::vector<std::set<int>> nb;
};

static Base ready(const Surf &s, const char *name) {
    Base b;
    b.s = s;
    b.s.name = name;
    b.nb.resize(s.n);
    for (auto &f : s.t)
        for (int k = 0; k < 3; k++) b.nb[f[k]].insert(f[(k + 1) % 3]), b.nb[f[(k + 1) % 3]].insert(f[k]);
    return b;
}

// every face of an icosahedron cut into f*f triangles, on the unit sphere
static Surf geodesic(int f) {
    Surf ico = mg::icosahedron(), s;
    std::map<std::array<long, 3>, int> at;
    for (auto &t : ico.t) {
        auto id = [&](int i, int j) {
            Vec3 p = (double)(f - i - j) * ico.p[t[0]] + (double)i * ico.p[t[1]] + (double)j * ico.p[t[2]];
            std::array<long, 3> k = { lround(p[0]), lround(p[1]), lround(p[2]) };
            if (!at.count(k)) {
                at[k] = s.n++;
                s.p.push_back(p / length(p));
            }
            return at[k];
        };
        for (int i = 0; i < f; i++)
            for (int j = 0; i + j < f; j++) {
                s.t.push_back({ id(i, j), id(i + 1, j), id(i, j + 1) });
                if (i + j + 1 < f) s.t.push_back({ id(i + 1, j), id(i + 1, j + 1), id(i, j + 1) });
            }
    }
    return s;
}

// torus of a x b vertices whose tube has ridges and grooves
static Surf ribbed(int a, int b, double depth) {
    Surf s = mg::torusGrid(a, b);
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            double u = 2 * M_PI * i / a, v = 2 * M_PI * j / b, r = 0.6 + depth * std::cos(3 * v), w = 1.5 + r * std::cos(v);
            s.p[i * b + j] = Vec3(w * std::cos(u), w * std::sin(u), r * std::sin(v));
        }
    return s;
}

static Surf without(const Base &b, const std::set<int> &out) {
    Surf s = b.s;
    s.t.clear();
    for (auto &f : b.s.t)
        if (!out.count(f[0]) && !out.count(f[1]) && !out.count(f[2])) s.t.push_back(f);
    return shapes::ordered(s);
}

static bool tolerant = false;

static void complete(const Surf &s, int iters) {
    Mesh m(s.p, mg::flat(s));
    topo::Topo before(m, "before");
    std::string how = vp::strf("%d iterations", iters);
    try {
        holeFillContextCoherent(m, iters);
    } catch (const std::exception &e) {
        // the new vertices of a rough surface may come to coincide
        if (tolerant && strstr(e.what(), "Zero division")) return;
        fail("%s: an error is reported: %s", how.c_str(), e.what());
    }
    vp::add(vp::TRANSITIONS);
    topo::Topo after(m, "after");
    if (!after.R.loops.empty()) fail("%s: %d holes are left", how.c_str(), (int)after.R.loops.size());
    if (after.pieces != before.pieces) fail("%s: %d pieces became %d", how.c_str(), before.pieces, after.pieces);
    if (after.euler != before.euler + (int)before.R.loops.size()) fail("%s: Euler characteristic %d instead of %d", how.c_str(), after.euler, before.euler + (int)before.R.loops.size());
    std::map<ref::Pos, int> at;
    for (auto &x : after.R.pos) at[ref::key(x.second)] = x.first;
    std::map<int, int> to;
    for (auto &x : before.R.pos) {
        auto i = at.find(ref::key(x.second));
        if (i == at.end()) fail("%s: no vertex is left where known vertex %d was", how.c_str(), x.first);
        to[x.first] = i->second;
    }
    for (auto &t : before.R.tris)
        if (!after.R.tris.count(ref::rot({ to[t[0]], to[t[1]], to[t[2]] }))) fail("%s: known triangle %d %d %d is gone", how.c_str(), t[0], t[1], t[2]);
    vp::add(vp::EVALS, before.R.tris.size() + before.R.pos.size());
    vp::add(vp::TRACES);
    vp::outcome(vp::mix(vp::mix(vp::mix(11, s.n), m.numVertices()), m.numFaces()));
}

static void job(const Base &b, const std::set<int> &out, const std::vector<int> &iters) {
    Surf s = without(b, out);
    if (!mg::isManifold(s.t, s.n)) return;
    std::string name = b.s.name + " without";
    for (int v : out) name += vp::strf(" %d", v);
    vp::add(vp::STATES);
    for (int k : iters) try {
            complete(s, k);
        } catch (const vp::Violation &v) {
            fail("%s: %s", name.c_str(), v.what.c_str());
        }
    vp::sample(name);
}

// all connected sets of up to k vertices in which `start` is the least of the allowed ones
static void patches(const Base &b, int start, int k, std::vector<std::set<int>> &out) {
    std::set<std::set<int>> level = { { start } };
    for (int n = 1;; n++) {
        for (auto &x : level) out.push_back(x);
        if (n == k) return;
        std::set<std::set<int>> next;
        for (auto &x : level)
            for (int v : x)
                for (int w : b.nb[v])
                    if (!x.count(w)) {
                        auto y = x;
                        y.insert(w);
                        next.insert(y);
                    }
        level = next;
    }
}

static std::vector<Base> bases;

static void reg(const std::string &name, int b, const std::vector<std::set<int>> &h, const std::vector<int> &iters) {
    auto H = std::make_shared<std::vector<std::set<int>>>(h);
    vp::group(name, H->size(), [=](uint64_t i) { job(bases[b], (*H)[i], iters); }, nullptr, 120);
}

static void setup() {
    const bool th = vp::thorough();
    bases.push_back(ready(shapes::scaled(mg::torusGrid(18, 18), 1e-3), "torus"));
    bases.push_back(ready(ribbed(18, 18, 0.12), "ribbed torus"));
    bases.push_back(ready(geodesic(6), "sphere"));
    bases.push_back(ready(mg::sheet(18, 18, 0, [](int i, int j) { return 0.4 * std::sin(0.8 * i) + 0.02 * j * j; }), "sheet"));
    bases.push_back(ready(mg::disjoint(shapes::scaled(mg::torusGrid(18, 18), 1e-3), shapes::scaled(mg::icosahedron(), 2e-4), Vec3(4.0, 0.0, 0.0)), "torus and icosahedron"));
    const std::vector<int> some = { 0, 1, 3 }, once = { 1 };
    for (int b = 0; b < 2; b++) {
        std::vector<std::set<int>> h;
        for (int j = 0; j < 18; j++) patches(bases[b], 18 * 9 + j, th ? 3 : 2, h);
        std::sort(h.begin(), h.end());
        h.erase(std::unique(h.begin(), h.end()), h.end());
        reg(bases[b].s.name + " patches", b, h, some);
        // one and two rings around every vertex of a cross section
        h.clear();
        for (int j = 0; j < 18; j++) {
            std::set<int> x = { 18 * 9 + j };
            for (int r = 0; r < 3; r++) {
                std::set<int> y = x;
                for (int v : x)
                    for (int w : bases[b].nb[v]) y.insert(w);
                x = y;
                h.push_back(x);
            }
        }
        reg(bases[b].s.name + " rings", b, h, some);
        // two holes
        h.clear();
        for (int v = 0; v < bases[b].s.n; v++)
            if (v != 9 * 18 + 4) h.push_back({ 9 * 18 + 4, v });
        reg(bases[b].s.name + " pairs", b, h, once);
    }
    std::vector<std::set<int>> h;
    for (int v = 0; v < bases[2].s.n; v++) h.push_back({ v });
    reg("sphere", 2, h, th ? some : once);
    h.clear();
    for (int i = th ? 2 : 9; i <= (th ? 16 : 9); i++)
        for (int j = 2; j <= 16; j++) h.push_back({ i * 19 + j });
    reg("sheet", 3, h, th ? some : once);
    h.clear();
    for (int v = 0; v < 12; v++)
        for (int j = 0; j < 18; j++) h.push_back({ 18 * 9 + j, 324 + v });
    reg("two pieces", 4, h, th ? some : once);
    // rough sheets, where repairing puts new vertices among new ones and collapses faces in part
    auto R = std::make_shared<std::vector<std::pair<int, int>>>();
    if (th)
        for (int a = 0; a < 4; a++)
            for (int b = 0; b < 4; b++) R->push_back({ a + 2, b });
    else
        *R = { { 2, 0 }, { 2, 1 }, { 3, 0 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 5, 3 } };
    auto sheet = [](int a, int b) { return ready(mg::sheet(18, 18, 0, [=](int i, int j) { return 0.3 * ((i * a + j * b + i * j) % 4) - 0.2 * i; }), vp::strf("rough sheet %d %d", a, b).c_str()); };
    R->insert(R->begin(), { 2, 2 });
    vp::group("rough", R->size(), [=](uint64_t i) {
        tolerant = i != 0;
        job(sheet((*R)[i].first, (*R)[i].second), {}, th && i != 0 ? std::vector<int>{ 2, 3, 4, 8 } : std::vector<int>{ 3 });
    }, nullptr, 240);
}
VP_MAIN(setup)
