// Reference versions of the smoothing and denoising steps on plain triangle lists, in long double.
#ifndef VP_FILT_HPP
#define VP_FILT_HPP
#include "shapecheck.hpp"

namespace filt {
using geo::P;
using geo::R;
using mg::Surf;

struct Net {
    int n;
    std::vector<mg::Tri> t;
    std::vector<P> p;
    std::map<std::pair<int, int>, int> opp, face;
    std::vector<std::vector<int>> nb;
    std::vector<bool> border, locked;
    bool bad = false;  // a weight sum is too close to zero to be judged

    Net(const Surf &s, uint64_t locks)
        : n(s.n)
        , t(s.t) {
        for (auto &q : s.p) p.push_back(P(q));
        nb.resize(n);
        border.assign(n, false);
        locked.assign(n, false);
        for (int i = 0; i < n; i++)
            if (i < 64 && (locks >> i & 1)) locked[i] = true;
        for (int k = 0; k < (int)t.size(); k++)
            for (int j = 0; j < 3; j++) {
                opp[{ t[k][j], t[k][(j + 1) % 3] }] = t[k][(j + 2) % 3];
                face[{ t[k][j], t[k][(j + 1) % 3] }] = k;
            }
        std::vector<std::set<int>> s2(n);
        for (auto &x : opp) {
            int a = x.first.first, b = x.first.second;
            s2[a].insert(b);
            s2[b].insert(a);
            if (!opp.count({ b, a })) border[a] = border[b] = true;
        }
        for (int i = 0; i < n; i++) nb[i].assign(s2[i].begin(), s2[i].end());
    }
    bool fixed(int i) const {
        return border[i] || locked[i];
    }
    R cotWeight(int a, int b) const {  // inner edges only
        return (geo::cot(p[a], p[opp.at({ a, b })], p[b]) + geo::cot(p[a], p[opp.at({ b, a })], p[b])) / 2;
    }
    P average(int i, bool cot) {
        P c;
        R sum = 0, mag = 0;
        for (int j : nb[i]) {
            R w = cot ? cotWeight(i, j) : 1;
            c = c + w * p[j];
            sum += w;
            mag += fabsl(w);
        }
        if (fabsl(sum) < 1e-2L * mag) bad = true;
        return (1 / sum) * c;
    }
    void check() {
        for (int i = 0; i < n; i++)
            if (!(geo::len(p[i]) < 1e6)) bad = true;
        for (auto &f : t) {
            R l = std::max(geo::len(p[f[0]] - p[f[1]]), std::max(geo::len(p[f[1]] - p[f[2]]), geo::len(p[f[2]] - p[f[0]])));
            if (!(geo::area(p[f[0]], p[f[1]], p[f[2]]) > std::max(1e-4L * l * l, 1e-5L))) flat = true;
        }
    }
    bool flat = false;  // some triangle became too thin for cotangents or normals
    void umbrella(R eps, bool cot) {
        std::vector<P> q = p;
        for (int i = 0; i < n; i++)
            if (!fixed(i)) q[i] = p[i] + eps * (average(i, cot) - p[i]);
        p = q;
        check();
        if (cot && flat) bad = true;
    }
    void laplacian(R eps, bool cot, int iters) {
        if (cot) {
            flat = false;
            check();
            if (flat) bad = true;
        }
        for (int k = 0; k < iters && !bad; k++) umbrella(eps, cot);
    }
    void taubin(R shrink, R inflate, int iters) {
        for (int k = 0; k < iters && !bad; k++) {
            umbrella(shrink, false);
            umbrella(-inflate, false);
        }
    }
    R meanEdge() const {
        R s = 0;
        int k = 0;
        for (auto &x : opp) {
            int a = x.first.first, b = x.first.second;
            if (a < b || !opp.count({ b, a })) s += geo::len(p[a] - p[b]), k++;
        }
        return s / k;
    }
};

inline std::string params(const char *f, std::initializer_list<double> v) {
    std::string r = f;
    for (double d : v) r += vp::strf(" %g", d);
    return r;
}

// connectivity, holes and locks, without positions
struct Frame {
    std::vector<uint32_t> idx;
    std::vector<int> holes;
    std::vector<bool> locked;
    explicit Frame(const tinymesh::Mesh &m) {
        idx = m.getVertexIndices();
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole()) holes.push_back(i);
        for (int i = 0; i < (int)m.numVertices(); i++) locked.push_back(m.vertex(i)->isLocked());
    }
    void unchanged(const tinymesh::Mesh &m) const {
        Frame o(m);
        if (o.idx != idx || o.holes != holes) vp::fail("the connectivity changed");
        if (o.locked != locked) vp::fail("the locks changed");
        if (!m.verify()) vp::fail("the mesh is not consistent any more");
    }
};

inline void lockAll(tinymesh::Mesh &m, uint64_t locks) {
    for (int i = 0; i < (int)m.numVertices() && i < 64; i++)
        if (locks >> i & 1) m.vertex(i)->lock();
}

inline void compare(const tinymesh::Mesh &m, const Net &N, const Surf &start, R tol) {
    for (int i = 0; i < N.n; i++) {
        Vec3 g = m.vertex(i)->pos();
        vp::add(vp::EVALS);
        if (N.fixed(i)) {
            if (!(g == start.p[i])) vp::fail("%s vertex %d moved from (%.9g %.9g %.9g) to (%.9g %.9g %.9g)", N.border[i] ? "boundary" : "locked", i, start.p[i][0], start.p[i][1], start.p[i][2], g[0], g[1], g[2]);
        } else if (!(geo::len(P(g) - N.p[i]) <= tol * (1 + geo::len(N.p[i])))) {
            vp::fail("vertex %d is at (%.9g %.9g %.9g) instead of (%.9Lg %.9Lg %.9Lg)", i, g[0], g[1], g[2], N.p[i].x, N.p[i].y, N.p[i].z);
        }
        vp::outcome(vp::mixd(vp::mixd(vp::mixd(9, std::round(g[0] * 1e6)), std::round(g[1] * 1e6)), std::round(g[2] * 1e6)));
    }
}

// lock sets: all subsets of small meshes; none, each single vertex and two patterns otherwise;
// none and one pattern for the large meshes
inline std::vector<uint64_t> lockSets(int n, int allUpTo) {
    std::vector<uint64_t> r;
    if (n <= allUpTo) {
        for (uint64_t k = 0; k < (1ull << n); k++) r.push_back(k);
        return r;
    }
    r.push_back(0);
    if (n > 50) return { 0, 0x5555555555555555ull };
    for (int i = 0; i < n && i < 64; i++) r.push_back(1ull << i);
    r.push_back(0x5555555555555555ull);
    r.push_back(~0ull << (n / 2));
    return r;
}

// the meshes used by the filter checks
inline std::vector<Surf> meshes(bool open, bool th) {
    std::vector<Surf> v, few;
    for (int n = 4; n <= (th ? 8 : 7); n++)
        for (auto &s : mg::spheres(n)) v.push_back(s);
    v = shapes::unitSize(v);
    for (auto &s : shapes::solids()) v.push_back(s);
    for (size_t i = 0; i < v.size(); i++)  // general position
        for (int k = 0; k < v[i].n; k++)
            for (int d = 0; d < 3; d++) v[i].p[k][d] += 0.02 * (((k * 31 + d * 17 + k * k * 7) % 41) - 20) / 20.0;
    if (open) {
        for (auto &s : shapes::sheets(false)) v.push_back(s);
        for (int n = 5; n <= (th ? 7 : 6); n++)
            for (auto &s : mg::spheres(n)) few.push_back(s);
        for (auto &s : shapes::unitSize(mg::subsurfaces(few, false))) v.push_back(s);
        for (int k = 3; k <= 7; k++)
            for (uint64_t c : { 0, 5, 77 }) {
                Surf s;
                auto f = shapes::fans(k, 9);
                if (f.make(c, s)) v.push_back(s);
            }
        v.push_back(mg::disjoint(shapes::scaled(mg::icosahedron(), 1e-3), mg::sheet(2, 2, 6, nullptr), Vec3(4.0, 0.0, 0.0)));
        for (auto &s : shapes::large(true)) v.push_back(s);
    }
    for (auto &s : v) s = shapes::ordered(s);
    return v;
}
}  // namespace filt
#endif
