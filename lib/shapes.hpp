// Families of placed meshes for the checks of geometric quantities: every index is one surface with positions.
#ifndef VP_SHAPES_HPP
#define VP_SHAPES_HPP
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>

#include "geo.hpp"
#include "meshgen.hpp"
#include "vp.hpp"

namespace shapes {
using mg::Surf;
using mg::Tri;

struct Family {
    std::string name;
    uint64_t n;
    std::function<bool(uint64_t, Surf &)> make;  // false: no such shape (degenerate)
};

// no needle or flat triangle, no two vertices at one place
inline bool wellShaped(const Surf &s, double q = 0.02) {
    for (auto &f : s.t) {
        geo::P a(s.p[f[0]]), b(s.p[f[1]]), c(s.p[f[2]]);
        geo::R l = std::max(geo::len(b - a), std::max(geo::len(c - b), geo::len(a - c)));
        if (geo::area(a, b, c) < q * l * l) return false;
    }
    for (size_t i = 0; i < s.p.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (s.p[i] == s.p[j]) return false;
    return true;
}

inline Surf scaled(Surf s, double k, const Vec3 &shift = Vec3(0.0)) {
    for (auto &p : s.p) p = k * p + shift;
    return s;
}

// vertices numbered in the order in which the triangles name them first, as the mesh does
inline Surf ordered(const Surf &s, std::vector<int> *from = nullptr) {
    Surf r = s;
    std::vector<int> to(s.n, -1);
    r.p.clear();
    r.n = 0;
    if (from) from->clear();
    for (auto &f : r.t)
        for (int k = 0; k < 3; k++) {
            if (to[f[k]] < 0) {
                to[f[k]] = r.n++;
                r.p.push_back(s.p[f[k]]);
                if (from) from->push_back(f[k]);
            }
            f[k] = to[f[k]];
        }
    return r;
}

// the same shape with its triangles listed in another order and rotated; from[i] is the old number of vertex i
inline Surf relisted(const Surf &s, int way, std::vector<int> &from) {
    Surf r = s;
    int n = (int)s.t.size();
    for (int i = 0; i < n; i++) {
        int j = way % 4 == 0 ? i : way % 4 == 1 ? n - 1 - i : way % 4 == 2 ? (i + n / 2) % n : (i % 2 ? i / 2 : n - 1 - i / 2);
        int q = way / 4 % 3;
        Tri f = s.t[j];
        r.t[i] = { f[q], f[(q + 1) % 3], f[(q + 2) % 3] };
    }
    return ordered(r, &from);
}

inline uint64_t ipow(uint64_t b, int e) {
    uint64_t r = 1;
    while (e--) r *= b;
    return r;
}

// tetrahedra with corners in {0,1,2}^3, both orientations, first corner up to symmetry
inline Family tetrahedra() {
    return { "tetrahedra", 4 * 27 * 27 * 27, [](uint64_t i, Surf &s) {
                static const double first[4][3] = { { 0, 0, 0 }, { 1, 1, 1 }, { 1, 0, 0 }, { 1, 1, 0 } };
                s = Surf();
                s.n = 4;
                s.t = { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 3, 2, 1 } };
                auto *f = first[i % 4];
                s.p.push_back(Vec3(f[0], f[1], f[2]));
                uint64_t k = i / 4;
                for (int j = 0; j < 3; j++, k /= 27) s.p.push_back(Vec3(k % 27 % 3, k % 27 / 3 % 3, k % 27 / 9));
                s.name = vp::strf("tetrahedron%llu", (unsigned long long)i);
                geo::P a(s.p[0]);
                if (geo::dot(geo::cross(geo::P(s.p[1]) - a, geo::P(s.p[2]) - a), geo::P(s.p[3]) - a) == 0) return false;
                return wellShaped(s);
            } };
}

// one inner vertex with k neighbours; each neighbour chooses radius and height, the wedge pattern chooses the angles
inline Family fans(int k, int choices) {
    static const double rad[9] = { 1, 0.5, 2, 1, 1, 0.5, 0.5, 2, 2 }, hei[9] = { 0, 0.7, -0.4, 1, -1, 0, -1, 0, 1 };
    uint64_t per = ipow(choices, k);
    return { vp::strf("fans%d", k), per * 3, [=](uint64_t i, Surf &s) {
                int wedge = (int)(i / per);
                uint64_t c = i % per;
                s = Surf();
                s.n = k + 1;
                s.p.push_back(Vec3(0.0));
                double a = 0.3;
                for (int j = 0; j < k; j++, c /= choices) {
                    double r = rad[c % choices], h = hei[c % choices];
                    s.p.push_back(Vec3(r * cos(a), r * sin(a), h));
                    s.t.push_back({ 0, j + 1, (j + 1) % k + 1 });
                    // even, one wide wedge, alternating
                    double step = 2 * M_PI / k;
                    if (wedge == 1) step = j == 0 ? 2 * M_PI / k + 0.45 : 2 * M_PI / k - 0.45 / (k - 1);
                    if (wedge == 2) step = j + 1 == k ? 2 * M_PI / k * (k % 2 ? 1.0 : 0.8) : 2 * M_PI / k * (j % 2 ? 0.8 : 1.2);
                    a += step;
                }
                s.name = vp::strf("fan%d.%llu", k, (unsigned long long)i);
                return wellShaped(s);
            } };
}

// every surface of a list, as it is and with one vertex moved in each direction to the neighbours in a lattice
// (26; 14: faces and corners; 6: faces; 4: alternate corners)
inline Family moved(const std::string &name, const std::vector<Surf> &in, double step, int dirs = 26) {
    std::vector<std::array<int, 3>> way;
    for (int k = 0; k < 27; k++) {
        int a = k % 3 - 1, b = k / 3 % 3 - 1, c = k / 9 - 1, w = abs(a) + abs(b) + abs(c);
        if (w == 0 || (dirs == 14 && w == 2) || (dirs == 6 && w != 1) || (dirs == 4 && (w != 3 || a * b * c < 0))) continue;
        way.push_back({ a, b, c });
    }
    auto L = std::make_shared<std::vector<Surf>>(in);
    auto base = std::make_shared<std::vector<uint64_t>>();
    uint64_t n = 0;
    for (auto &s : in) {
        base->push_back(n);
        n += 1 + (uint64_t)way.size() * s.n;
    }
    return { name, n, [L, base, step, way](uint64_t i, Surf &s) {
                size_t k = std::upper_bound(base->begin(), base->end(), i) - base->begin() - 1;
                s = (*L)[k];
                uint64_t r = i - (*base)[k];
                if (r > 0) {
                    r--;
                    int v = (int)(r / way.size()), d = (int)(r % way.size());
                    // mean length of the edges at v
                    double sum = 0;
                    int cnt = 0;
                    for (auto &f : s.t)
                        for (int j = 0; j < 3; j++)
                            if (f[j] == v) sum += length(s.p[f[(j + 1) % 3]] - s.p[v]), cnt++;
                    double m = step * sum / cnt;
                    s.p[v] = s.p[v] + Vec3(m * way[d][0], m * way[d][1], m * way[d][2]);
                    s.name += vp::strf("+v%dd%d", v, d);
                }
                return wellShaped(s);
            } };
}

inline Family listed(const std::string &name, const std::vector<Surf> &in) {
    auto L = std::make_shared<std::vector<Surf>>(in);
    return { name, in.size(), [L](uint64_t i, Surf &s) {
                s = (*L)[i];
                return wellShaped(s, 0.005);
            } };
}

inline std::vector<Surf> unitSize(std::vector<Surf> in) {
    for (auto &s : in) {
        double m = 0;
        for (auto &p : s.p) m = std::max(m, length(p));
        s = scaled(s, 1.0 / m);
    }
    return in;
}

inline std::vector<Surf> solids() {
    std::vector<Surf> v = unitSize({ mg::icosahedron(), mg::torusGrid(3, 3), mg::torusGrid(4, 5), mg::torusGrid(6, 3), mg::torus7(), mg::subdivide(mg::bipyramidGeo(5)) });
    v.push_back(mg::project(mg::subdivide(mg::icosahedron()), 1.0));
    for (int k = 3; k <= 9; k++) v.push_back(scaled(mg::bipyramidGeo(k), 1e-3));
    return v;
}

inline std::vector<Surf> sheets(bool th) {
    std::vector<Surf> v;
    for (uint64_t d : mg::masks(9, th ? 9 : 2))
        v.push_back(mg::sheet(3, 3, d, [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; }));
    for (uint64_t d = 0; d < 16; d++) {
        v.push_back(mg::sheet(2, 2, d, nullptr));
        v.push_back(mg::sheet(2, 2, d, [](int i, int j) { return 0.4 * i * j - 0.3 * j * j; }));
    }
    return v;
}

// meshes with many elements, many holes and high valences
inline std::vector<Surf> large(bool open) {
    const Surf ball = mg::project(mg::subdivide(mg::subdivide(mg::icosahedron())), 1.0), small = mg::project(mg::subdivide(mg::icosahedron()), 1.0);
    std::vector<Surf> v = { ball, scaled(mg::torusGrid(9, 8), 1e-3), scaled(mg::bipyramidGeo(20), 1e-3), mg::disjoint(small, scaled(mg::torusGrid(5, 6), 1e-3), Vec3(4.0, 0.5, 0.0)) };
    if (open) {
        auto bump = [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; };
        const Surf sh = mg::sheet(8, 8, 0xc3a55a3c0ff0a55aull, bump);
        v.push_back(sh);
        v.push_back(mg::perforated(sh, false));
        v.push_back(mg::perforated(sh, true));
        v.push_back(mg::perforated(ball, false));
        v.push_back(mg::perforated(ball, true));
        v.push_back(mg::perforated(small, false));
        v.push_back(mg::perforated(scaled(mg::torusGrid(9, 8), 1e-3), true));
        v.push_back(mg::disjoint(mg::perforated(small, true), mg::sheet(4, 4, 0x33cc, bump), Vec3(4.0, 0.5, 0.0)));
    }
    return v;
}

// far more elements, holes, loop edges and neighbours than the others
inline std::vector<Surf> huge(bool open) {
    auto bump = [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; };
    Surf ball = mg::project(mg::subdivide(mg::subdivide(mg::subdivide(mg::icosahedron()))), 1.0);
    ball.name = "ball";
    Surf torus = scaled(mg::torusGrid(40, 30), 1e-3);
    for (int i = 0; i < torus.n; i++) torus.p[i][2] += 0.02 * ((i * 7 + i * i) % 11);
    std::vector<Surf> v = { ball, torus, scaled(mg::bipyramidGeo(150), 1e-3) };
    if (open) {
        Surf sh = mg::sheet(24, 20, 0xc3a55a3c0ff0a55aull, bump), frame = sh;
        v.push_back(sh);
        v.push_back(mg::perforated(ball, false));
        v.push_back(mg::perforated(torus, true));
        // one long loop
        frame.t.clear();
        for (auto &t : sh.t) {
            bool in = false;
            for (int c : t) {
                int i = c / 21, j = c % 21;
                in |= i > 2 && i < 22 && j > 2 && j < 18;
            }
            if (!in) frame.t.push_back(t);
        }
        frame.name = "frame";
        v.push_back(ordered(frame));
    }
    return v;
}

// the standard set; `open` adds surfaces with a border
inline std::vector<Family> standard(bool th, bool open) {
    std::vector<Family> r;
    r.push_back(tetrahedra());
    std::vector<Surf> sp;
    for (int n = 5; n <= (th ? 9 : 7); n++)
        for (auto &s : mg::spheres(n)) sp.push_back(s);
    r.push_back(moved("spheres", unitSize(sp), 0.35));
    r.push_back(moved("solids", solids(), 0.25));
    r.push_back(listed("large", large(open)));
    r.push_back(listed("huge", huge(open)));
    if (open) {
        r.push_back(fans(3, 9));
        r.push_back(fans(4, 9));
        r.push_back(fans(5, th ? 9 : 5));
        r.push_back(fans(6, th ? 6 : 3));
        r.push_back(fans(8, 2));
        r.push_back(moved("sheets", sheets(th), 0.3));
        std::vector<Surf> few;
        for (int n = 5; n <= (th ? 7 : 6); n++)
            for (auto &s : mg::spheres(n)) few.push_back(s);
        r.push_back(listed("subsurfaces", unitSize(mg::subsurfaces(few, false))));
    }
    return r;
}
}  // namespace shapes
#endif
