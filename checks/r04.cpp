// R04: one remeshing pass for every place a length limit can take between the edge lengths of a mesh.
#include <random>

#include "filt.hpp"
#include "remesh/remesh.h"
#include "topo.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

static bool backward = false;
extern "C" bool vp_order(size_t n, size_t *order) {
    for (size_t i = 0; i < n; i++) order[i] = backward ? n - 1 - i : i;
    return true;
}
static uint32_t seed = 1;
std::random_device::result_type std::random_device::_M_getval() {
    return seed;
}

struct Edge {
    int a, b;
    geo::R len;  // in units of the mean
    bool border;
};
struct Known {
    std::vector<Edge> edges;
    std::vector<std::set<int>> nb;
    std::vector<char> border;
    std::vector<geo::P> p;  // in units of the mean
    std::vector<double> limits;  // one between every two different lengths, one below and one above all
    long uneven = 0;
};

static long unevenness(const std::vector<std::set<int>> &nb, const std::vector<char> &border) {
    long s = 0;
    for (size_t i = 0; i < nb.size(); i++) s += labs((long)nb[i].size() - (border[i] ? 4 : 6));
    return s;
}

static void neighbours(const std::vector<uint32_t> &f, size_t n, std::vector<std::set<int>> &nb, std::vector<char> &border, std::map<std::pair<int, int>, int> *sides = nullptr) {
    std::map<std::pair<int, int>, int> s;
    nb.assign(n, {});
    border.assign(n, 0);
    for (size_t i = 0; i < f.size(); i += 3)
        for (int k = 0; k < 3; k++) {
            int a = (int)f[i + k], b = (int)f[i + (k + 1) % 3];
            nb[a].insert(b), nb[b].insert(a);
            s[{ std::min(a, b), std::max(a, b) }]++;
        }
    for (auto &x : s)
        if (x.second == 1) border[x.first.first] = border[x.first.second] = 1;
    if (sides) *sides = s;
}

static Known study(const Surf &s) {
    Known K;
    std::map<std::pair<int, int>, int> sides;
    neighbours(mg::flat(s), s.n, K.nb, K.border, &sides);
    geo::R sum = 0;
    for (auto &x : sides) {
        geo::R l = geo::len(geo::P(s.p[x.first.first]) - geo::P(s.p[x.first.second]));
        K.edges.push_back({ x.first.first, x.first.second, l, x.second == 1 });
        sum += l;
    }
    geo::R mean = sum / K.edges.size();
    for (auto &e : K.edges) e.len /= mean;
    for (auto &q : s.p) K.p.push_back((1 / mean) * geo::P(q));
    std::vector<geo::R> l;
    for (auto &e : K.edges) l.push_back(e.len);
    std::sort(l.begin(), l.end());
    K.limits.push_back((double)l[0] * 0.9);
    for (size_t i = 1; i < l.size(); i++)
        if (l[i] - l[i - 1] > 1e-6L) K.limits.push_back((double)((l[i] + l[i - 1]) / 2));
    K.limits.push_back((double)l.back() * 1.1);
    K.uneven = unevenness(K.nb, K.border);
    return K;
}

static std::vector<uint32_t> remesh(const Surf &s, uint64_t locks, double lo, double hi, size_t &nv, Mesh &m, int iters = 1) {
    m.construct(s.p, mg::flat(s));
    filt::lockAll(m, locks);
    remeshTriangular(m, lo, hi, 0.0, iters);
    vp::add(vp::TRANSITIONS);
    vp::add(vp::TRACES);
    nv = m.numVertices();
    return m.getVertexIndices();
}

static std::set<std::array<uint32_t, 3>> triangles(const std::vector<uint32_t> &f) {
    std::set<std::array<uint32_t, 3>> r;
    for (size_t i = 0; i + 2 < f.size(); i += 3) {
        std::array<uint32_t, 3> t = { f[i], f[i + 1], f[i + 2] };
        std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
        r.insert(t);
    }
    return r;
}

// does a collapse of a -> b (in this direction) go through on the mesh as it is
static bool collapses(const Surf &s, int a, int b) {
    Mesh m(s.p, mg::flat(s));
    for (int i = 0; i < (int)m.numHalfedges(); i++)
        if (m.halfedge(i)->src()->index() == a && m.halfedge(i)->dst()->index() == b) return m.collapseHE(m.halfedge(i));
    return false;
}
static bool flips(const Surf &s, int a, int b) {
    Mesh m(s.p, mg::flat(s));
    for (int i = 0; i < (int)m.numHalfedges(); i++)
        if (m.halfedge(i)->src()->index() == a && m.halfedge(i)->dst()->index() == b) return m.flipHE(m.halfedge(i));
    return false;
}

static void run(const Surf &s, uint64_t locks) {
    Known K = study(s);
    auto isLocked = [&](int v) { return v < 64 && (locks >> v & 1); };
    std::map<std::pair<int, int>, int> opp;
    for (auto &t : s.t)
        for (int k = 0; k < 3; k++) opp[{ t[k], t[(k + 1) % 3] }] = t[(k + 2) % 3];
    // a corner of a triangle at the edge is locked
    auto held = [&](const Edge &e) {
        for (auto q : { std::make_pair(e.a, e.b), std::make_pair(e.b, e.a) }) {
            auto it = opp.find(q);
            if (it != opp.end() && isLocked(it->second)) return true;
        }
        return isLocked(e.a) || isLocked(e.b);
    };
    Mesh out;
    const double NONE = 1e9;
    size_t nv;
    vp::add(vp::STATES);
    // nothing to do
    {
        Mesh m(s.p, mg::flat(s));
        filt::lockAll(m, locks);
        std::vector<uint64_t> d0, d1;
        ref::dump(m, d0);
        remeshTriangular(m, 0.8, 1.333, 0.0, 0);
        ref::dump(m, d1);
        if (d0 != d1) fail("zero iterations change the mesh");
    }
    const size_t n0 = s.n;
    // splits only
    for (double hi : K.limits)
        for (int b = 0; b < 2; b++) {
            backward = b;
            int must = 0;
            bool twice = false;
            for (auto &e : K.edges)
                if (e.len >= hi) {
                    if (!e.border) must++;
                    twice = true;
                }
            remesh(s, locks, 0.0, hi, nv, out);
            if (nv < n0 + must) fail("limit %.9g for long edges: %d edges are longer but only %d vertices were added", hi, must, (int)(nv - n0));
            if (!twice && nv != n0) fail("limit %.9g for long edges: no edge is longer but %d vertices were added", hi, (int)(nv - n0));
            vp::outcome(vp::mix(vp::mix(1, nv), n0));
        }
    // collapses only; the second limit lies above every edge, or above every distance
    std::map<std::pair<int, int>, int> possible;
    const double top = K.limits.back();
    for (double hi : { top, NONE })
        for (double lo : K.limits) {
            // an edge that may be collapsed and can be
            bool some = false, allowed = false;
            for (auto &e : K.edges) {
                if (e.len > lo || held(e)) continue;
                for (int dir = 0; dir < 2; dir++) {
                    int a = dir ? e.b : e.a, b = dir ? e.a : e.b;
                    bool ok = true, close = false;
                    for (int u : K.nb[b]) {
                        geo::R d = geo::len(K.p[a] - K.p[u]);
                        if (d >= hi) ok = false;
                        if (fabsl(d - hi) < 1e-9) close = true;
                    }
                    if (close) {
                        allowed = true;
                        continue;
                    }
                    if (!ok) continue;
                    allowed = true;
                    auto it = possible.find({ a, b });
                    if (it == possible.end()) it = possible.insert({ { a, b }, collapses(s, a, b) }).first;
                    if (it->second) some = true;
                }
            }
            for (int b = 0; b < 2; b++) {
                backward = b;
                remesh(s, locks, lo, hi, nv, out);
                if (nv > n0) fail("limits %.9g and %.9g: no edge is long but vertices were added", lo, hi);
                if (some && nv == n0) fail("limits %.9g and %.9g: no vertex was removed although a short edge can be collapsed", lo, hi);
                if (!allowed && nv != n0) fail("limits %.9g and %.9g: %d vertices were removed although no short edge may be collapsed", lo, hi, (int)(n0 - nv));
                vp::outcome(vp::mix(vp::mix(2, nv), n0));
            }
        }
    // flips only
    {
        auto f = remesh(s, locks, 0.0, NONE, nv, out);
        if (nv != n0 || f.size() != 3 * s.t.size()) fail("no edge is long or short but the number of vertices or triangles changed");
        std::vector<std::set<int>> nb;
        std::vector<char> border;
        neighbours(f, n0, nb, border);
        long after = unevenness(nb, border);
        bool same = triangles(f) == triangles(mg::flat(s));
        if (after > K.uneven) fail("flips made the valences less even: %ld, before %ld", after, K.uneven);
        if (!same && after == K.uneven) fail("edges were flipped without making the valences more even");
        // edges next to a locked corner stay
        std::set<std::pair<int, int>> now;
        for (size_t i = 0; i < n0; i++)
            for (int j : nb[i]) now.insert({ (int)i, j });
        for (auto &e : K.edges)
            if (held(e) && !now.count({ e.a, e.b })) fail("edge %d-%d next to a locked corner was flipped", e.a, e.b);
        // what remains is three rounds of smoothing of the new connectivity
        Surf s2 = s;
        s2.t.clear();
        for (size_t i = 0; i + 2 < f.size(); i += 3) s2.t.push_back({ (int)f[i], (int)f[i + 1], (int)f[i + 2] });
        filt::Net N(s2, locks);
        N.taubin(0.5L, 0.53L, 3);
        if (!N.bad) filt::compare(out, N, s2, 1e-7L);
        if (same) {
            std::set<std::pair<int, int>> be;
            for (auto &e : K.edges)
                if (e.border) be.insert({ e.a, e.b });
            auto atBorder = [&](int a, int b, int c) {
                for (auto q : { std::make_pair(a, b), std::make_pair(b, c), std::make_pair(a, c) })
                    if (be.count({ std::min(q.first, q.second), std::max(q.first, q.second) })) return true;
                return false;
            };
            for (auto &e : K.edges) {
                if (e.border || held(e)) continue;
                int c = opp[{ e.a, e.b }], d = opp[{ e.b, e.a }];
                if (atBorder(e.a, e.b, c) || atBorder(e.a, e.b, d)) continue;
                auto dev = [&](int v, int by) { return labs((long)K.nb[v].size() + by - (K.border[v] ? 4 : 6)); };
                if (dev(e.a, -1) + dev(e.b, -1) + dev(c, 1) + dev(d, 1) < dev(e.a, 0) + dev(e.b, 0) + dev(c, 0) + dev(d, 0) && flips(s, e.a, e.b)) fail("edge %d-%d was not flipped although that makes the valences more even", e.a, e.b);
            }
        }
    }
    vp::sample(s.name);
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sp;
    for (int n = 4; n <= (th ? 9 : 8); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    sp = shapes::unitSize(sp);
    std::vector<shapes::Family> fam;
    fam.push_back(shapes::moved("spheres", sp, 0.3, th ? 14 : 4));
    std::vector<Surf> so;
    for (auto &s : shapes::solids())
        if (s.n <= 22) so.push_back(s);
    fam.push_back(shapes::moved("solids", so, 0.35, th ? 14 : 4));
    std::vector<Surf> sh;
    for (uint64_t d = 0; d < 16; d++) sh.push_back(mg::sheet(2, 2, d, [](int i, int j) { return 0.4 * i * j - 0.3 * j * j; }));
    for (uint64_t d : mg::masks(9, th ? 9 : 1)) sh.push_back(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; }));
    for (uint64_t d : { 0ull, 0xffffull, 0x5a5aull }) sh.push_back(mg::sheet(4, 4, d, nullptr));
    fam.push_back(shapes::moved("sheets", sh, 0.3, 4));
    std::vector<Surf> big = { mg::project(mg::subdivide(mg::icosahedron()), 1.0) };
    for (auto &s : shapes::large(true))
        if (s.n <= 100) big.push_back(s);
    fam.push_back(shapes::listed("large", big));
    for (auto &f : fam)
        vp::group(f.name, f.n, [f](uint64_t i) {
            Surf s;
            if (!f.make(i, s)) return;
            s = shapes::ordered(s);
            try {
                run(s, 0);
            } catch (const vp::Violation &v) {
                fail("%s, %s order: %s", s.name.c_str(), backward ? "backward" : "forward", v.what.c_str());
            }
        }, nullptr, 120);
    // every locked vertex, every pair, and two patterns
    static std::vector<std::pair<Surf, uint64_t>> held;
    for (auto *l : { &sp, &so, &sh })
        for (auto &s0 : *l) {
            Surf s = shapes::ordered(s0);
            if (s.n > 64 || !shapes::wellShaped(s, 0.005)) continue;
            if (!th && l == &sp && s.n > 7) continue;
            for (uint64_t k : filt::lockSets(s.n, 0)) if (k) held.push_back({ s, k });
            if (th || s.n <= 9)
                for (int i = 0; i < s.n; i++)
                    for (int j = 0; j < i; j++) held.push_back({ s, 1ull << i | 1ull << j });
        }
    vp::group("locks", held.size(), [](uint64_t i) {
        try {
            run(held[i].first, held[i].second);
        } catch (const vp::Violation &v) {
            fail("%s, locks %llx, %s order: %s", held[i].first.name.c_str(), (unsigned long long)held[i].second, backward ? "backward" : "forward", v.what.c_str());
        }
    }, nullptr, 120);
}
VP_MAIN(setup)
