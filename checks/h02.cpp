// H02: advancing-front filling of every hole of every open surface in the alphabet.
#include "ops.hpp"
#include "restore/restore.h"
using namespace mg;
using namespace tinymesh;
using vp::fail;
struct Job {
    Surf s;
    uint64_t locks;
};
static std::vector<Job> jobs;

static void fillOne(ops::Sys &S, const std::vector<int> &loop) {
    auto id = ref::idsOf(S.mesh, S.model);
    Face *f = nullptr;
    for (int i = 0; i < (int)S.mesh.numFaces(); i++) {
        Face *g = S.mesh.face(i);
        if (!g->isHole()) continue;
        std::vector<int> c;
        Halfedge *h0 = g->he_begin().ptr(), *h = h0;
        do c.push_back(id[h->src()->index()]), h = h->next();
        while (h != h0);
        if (ref::rotLoop(c) == loop) f = g;
    }
    if (!f) fail("a hole is not there any more");
    auto before = S.model.tris;
    auto oldLoops = S.model.loops;
    try {
        holeFillAdvancingFront(S.mesh, f);
    } catch (const std::exception &e) {
        fail("filling failed with an error: %s", e.what());
    }
    vp::add(vp::TRANSITIONS);
    vp::add(vp::STATES);
    // vertices: all old ones where they were, new ones get ids
    Mesh &m = S.mesh;
    std::map<ref::Pos, int> byPos;
    for (auto &x : S.model.pos) byPos[ref::key(x.second)] = x.first;
    std::vector<int> nid;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 p = m.vertex(i)->pos();
        if (!std::isfinite(p[0]) || !std::isfinite(p[1]) || !std::isfinite(p[2])) fail("vertex %d has a position that is not finite", i);
        auto it = byPos.find(ref::key(p));
        if (it != byPos.end()) {
            nid.push_back(it->second);
            byPos.erase(it);
        } else {
            nid.push_back(-1);
        }
    }
    if (!byPos.empty()) fail("vertex %d is not at its place any more", byPos.begin()->second);
    std::set<int> fresh;
    for (int i = 0; i < (int)nid.size(); i++)
        if (nid[i] < 0) {
            nid[i] = S.model.nextId++;
            S.model.pos[nid[i]] = m.vertex(i)->pos();
            fresh.insert(nid[i]);
        }
    std::multiset<ref::Tri> after;
    auto e = m.getVertexIndices();
    for (size_t k = 0; k + 2 < e.size(); k += 3) after.insert(ref::rot({ nid[e[k]], nid[e[k + 1]], nid[e[k + 2]] }));
    auto left = after;
    for (auto &t : before) {
        auto it = left.find(t);
        if (it == left.end()) fail("triangle %d %d %d disappeared", t[0], t[1], t[2]);
        left.erase(it);
    }
    // the added triangles use only the loop and new vertices, cover the loop once, and match each other
    std::map<std::pair<int, int>, int> de;
    std::set<int> ok(loop.begin(), loop.end());
    std::set<int> usedFresh;
    for (auto &t : left)
        for (int k = 0; k < 3; k++) {
            if (!ok.count(t[k]) && !fresh.count(t[k])) fail("an added triangle uses vertex %d that is neither new nor on the hole", t[k]);
            if (fresh.count(t[k])) usedFresh.insert(t[k]);
            de[{ t[k], t[(k + 1) % 3] }]++;
        }
    if (usedFresh != fresh) fail("a new vertex is in no triangle");
    for (size_t i = 0; i < loop.size(); i++) {
        auto d = std::make_pair(loop[i], loop[(i + 1) % loop.size()]);
        if (de[d] < 1) fail("hole edge %d->%d is not covered", d.first, d.second);
        de[d]--;
    }
    for (auto &x : de)
        if (x.second != de[{ x.first.second, x.first.first }]) fail("added triangles do not match along %d-%d", x.first.first, x.first.second);
    int chi = (int)fresh.size() - (int)(3 * left.size() - loop.size()) / 2 + (int)left.size();
    if (chi != 1) fail("the added patch is not a disc (Euler count %d)", chi);
    // the model tells vertices apart by position: move new vertices that ended at the same place
    std::set<ref::Pos> seen;
    for (auto &x : S.model.pos)
        if (!fresh.count(x.first)) seen.insert(ref::key(x.second));
    for (int i = 0; i < (int)nid.size(); i++)
        if (fresh.count(nid[i])) {
            Vec3 p = m.vertex(i)->pos();
            for (int k = 1; !seen.insert(ref::key(p)).second; k++) p[0] = m.vertex(i)->pos()[0] * (1.0 + 1e-9 * k) + 1e-9 * k;
            m.vertex(i)->setPos(p);
            S.model.pos[nid[i]] = p;
        }
    S.model.tris = after;
    S.model.loops.erase(S.model.loops.find(loop));
    for (int i = 0; i < (int)m.numVertices(); i++)  // locks are not part of the property
        if (m.vertex(i)->isLocked()) S.model.locked.insert(nid[i]);
        else S.model.locked.erase(nid[i]);
    ref::audit(m, S.model, "after filling");
    vp::add(vp::TRACES);
    vp::outcome(vp::mix(vp::mix(fresh.size(), left.size()), loop.size()));
}

static void run(const Job &j) {
    ops::Sys S0(j.s, j.locks);
    std::vector<std::vector<int>> loops(S0.model.loops.begin(), S0.model.loops.end());
    for (size_t i = 0; i < loops.size(); i++) {
        ops::Sys S(j.s, j.locks);
        fillOne(S, loops[i]);
    }
    if (loops.size() > 1) {
        ops::Sys S(j.s, j.locks);
        for (auto &l : loops) fillOne(S, l);
    }
    vp::sample(j.s.name);
}

static void setup() {
    const bool th = vp::thorough();
    auto add = [&](Surf s, uint64_t locks = 0) {
        // general position: exactly symmetric loops make normals cancel to zero, which no method can use
        Vec3 lo = s.p[0], hi = s.p[0];
        for (auto &p : s.p)
            for (int k = 0; k < 3; k++) lo[k] = std::min(lo[k], p[k]), hi[k] = std::max(hi[k], p[k]);
        double d = 0.01 * std::max(hi[0] - lo[0], std::max(hi[1] - lo[1], hi[2] - lo[2]));
        for (size_t i = 0; i < s.p.size(); i++)
            for (int k = 0; k < 3; k++) s.p[i][k] += d * ((int)((i * 37 + k * 53 + i * i * 11 + i * k * 17) % 101) - 50) / 50.0;
        jobs.push_back({ s, locks });
    };
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 10; n++) sph[n] = spheres(n);
    auto variants = [&](const Surf &s, int nvar) {
        for (int k = 0; k < nvar; k++) {
            Surf r = s;
            for (auto &p : r.p) {
                if (k == 1) p = Vec3(p[0], p[1], 0.3 * p[2]);
                if (k == 2) p = Vec3(1e-3 * p[0], 1e-3 * p[1], 1e-3 * p[2]);
                if (k == 3) p = Vec3(p[0], 0.3 * p[1] * p[1] / 1000.0 + p[0], p[2]);
            }
            r.name += vp::strf("~%d", k);
            add(r, k == 0 ? 0x5 : 0);
        }
    };
    for (int n = 4; n <= 7; n++)
        for (auto &s : subsurfaces(sph[n], false)) variants(s, 4);
    for (auto &s : subsurfaces(sph[8], false, th ? 12 : 6)) variants(s, th ? 4 : 2);
    for (auto &s : subsurfaces(sph[9], false, th ? 4 : 3)) variants(s, 2);
    for (auto &s : subsurfaces(sph[10], false, th ? 2 : 1)) variants(s, 2);
    for (auto &s : subsurfaces({ icosahedron() }, false, th ? 7 : 5)) variants(s, 2);
    for (auto &s : subsurfaces({ torusGrid(4, 4) }, false, 2)) add(s);
    for (auto &s : subsurfaces({ torus7() }, false, th ? 4 : 3)) variants(s, 2);
    for (int k = 0; k < 6; k++) {  // one vertex star of a finer sphere removed
        Surf s = subdivide(icosahedron());
        std::vector<Tri> t;
        for (auto &x : s.t)
            if (x[0] != 7 * k && x[1] != 7 * k && x[2] != 7 * k) t.push_back(x);
        s.t = t;
        s.name += vp::strf("-star%d", 7 * k);
        add(s);
    }
    for (int k = 3; k <= (th ? 20 : 14); k++)
        for (int g = 0; g < 6; g++) {
            Surf s;
            s.n = k + 1;
            s.p.push_back(Vec3(0.0, 0.0, g == 0 ? 0.0 : 1.0));
            for (int i = 0; i < k; i++) {
                double a = 2 * 3.14159265358979 * i / k, r = (g == 3 && i % 2) ? 0.4 : 1.0;
                double z = g == 2 ? 0.5 * cos(2 * a) : g == 4 ? 0.2 * ((i * 7) % 5) : 0.0;
                s.p.push_back(Vec3(r * cos(a), (g == 5 ? 0.01 : 1.0) * r * sin(a), z));
                s.t.push_back({ 0, i + 1, (i + 1) % k + 1 });
            }
            s.name = vp::strf("fan%d/%d", k, g);
            add(s);
        }
    for (uint64_t d = 0; d < 16; d++) add(sheet(2, 2, d, [](int i, int j) { return 0.3 * i * i - 0.2 * j * j + 0.1 * i * j; }));
    {
        std::vector<Surf> v = { sheet(4, 4, 0x0aaaa, nullptr), sheet(4, 4, 0x5a5a, [](int i, int j) { return 0.3 * i * i - 0.2 * j * j; }) };
        for (auto &s : v)
            for (int f = 0; f < 32; f++) {
                Surf r = restrict_(s, 0xffffffffu & ~(1u << f));
                if (isManifold(r.t, r.n)) add(r);
            }
        // one inner vertex star removed
        for (auto &s : v)
            for (int c : { 6, 7, 8, 11, 12, 13, 16, 17, 18 }) {
                uint64_t mask = 0;
                for (int f = 0; f < 32; f++)
                    if (s.t[f][0] != c && s.t[f][1] != c && s.t[f][2] != c) mask |= 1ull << f;
                Surf r = restrict_(s, mask);
                if (isManifold(r.t, r.n)) add(r);
            }
    }
    vp::group("fill", jobs.size(), [](uint64_t i) { run(jobs[i]); }, [](uint64_t i) { return jobs[i].s.name + show(jobs[i].s); }, 5);
}
VP_MAIN(setup)
