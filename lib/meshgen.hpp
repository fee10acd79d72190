// The mesh alphabet: all small triangulated surfaces, built independently of the library.
#ifndef VP_MESHGEN_HPP
#define VP_MESHGEN_HPP
#include <array>
#include <cmath>
#include <cstdint>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <vector>

#include "core/vec.h"
#include "vp.hpp"

namespace mg {
typedef std::array<int, 3> Tri;

// Oriented triangle list; comb is combinatorial only.
struct Surf {
    int n = 0;
    std::vector<Tri> t;
    std::vector<Vec3> p;
    std::string name;
};

inline std::vector<uint32_t> flat(const Surf &s) {
    std::vector<uint32_t> r;
    for (auto &t : s.t)
        for (int v : t) r.push_back((uint32_t)v);
    return r;
}

inline std::string show(const Surf &s) {
    std::string r = s.name + " tris";
    for (auto &t : s.t) r += vp::strf(" %d,%d,%d", t[0], t[1], t[2]);
    return r;
}

// Every directed edge at most once; every vertex of a triangle has one fan or cycle.
inline bool isManifold(const std::vector<Tri> &t, int n) {
    std::map<std::pair<int, int>, int> de;  // directed edge -> opposite vertex
    for (auto &f : t) {
        if (f[0] == f[1] || f[1] == f[2] || f[2] == f[0]) return false;
        for (int k = 0; k < 3; k++) {
            auto e = std::make_pair(f[k], f[(k + 1) % 3]);
            if (de.count(e)) return false;
            de[e] = f[(k + 2) % 3];
        }
    }
    std::vector<std::map<int, int>> link(n);  // at v: b -> c for triangle (v,b,c)
    for (auto &f : t)
        for (int k = 0; k < 3; k++) link[f[k]][f[(k + 1) % 3]] = f[(k + 2) % 3];
    for (int v = 0; v < n; v++) {
        if (link[v].empty()) continue;
        // start: a b with no incoming c == b, if any
        std::set<int> tails;
        for (auto &x : link[v]) tails.insert(x.second);
        int start = -1, starts = 0;
        for (auto &x : link[v])
            if (!tails.count(x.first)) {
                start = x.first;
                starts++;
            }
        if (starts > 1) return false;
        if (starts == 0) start = link[v].begin()->first;
        size_t cnt = 0;
        int b = start;
        while (link[v].count(b)) {
            b = link[v][b];
            cnt++;
            if (b == start || cnt > link[v].size()) break;
        }
        if (cnt != link[v].size()) return false;
    }
    return true;
}

// Canonical triangle list of a connected oriented surface; perm[new] = old.
inline std::vector<Tri> canonConnected(const std::vector<Tri> &t, std::vector<int> *perm) {
    int n = 0;
    for (auto &f : t)
        for (int v : f) n = std::max(n, v + 1);
    const int nf = (int)t.size();
    std::vector<int> de((size_t)n * n, -1);
    for (int i = 0; i < nf; i++)
        for (int k = 0; k < 3; k++) de[t[i][k] * n + t[i][(k + 1) % 3]] = i * 3 + k;
    std::vector<Tri> best, code;
    std::vector<int> lab(n), inv, q;
    std::vector<char> seen(nf);
    for (int f0 = 0; f0 < nf; f0++)
        for (int r0 = 0; r0 < 3; r0++) {
            std::fill(lab.begin(), lab.end(), -1);
            std::fill(seen.begin(), seen.end(), 0);
            inv.clear();
            q.clear();
            code.clear();
            auto L = [&](int v) {
                if (lab[v] < 0) {
                    lab[v] = (int)inv.size();
                    inv.push_back(v);
                }
                return lab[v];
            };
            q.push_back(f0 * 3 + r0);
            seen[f0] = 1;
            bool worse = false, better = best.empty();
            for (size_t h = 0; h < q.size() && !worse; h++) {
                int f = q[h] / 3, r = q[h] % 3;
                int a = t[f][r], b = t[f][(r + 1) % 3], c = t[f][(r + 2) % 3];
                int la = L(a), lb = L(b), lc = L(c);
                Tri x = { la, lb, lc };
                if (!better) {
                    if (x < best[h]) better = true;
                    else if (best[h] < x) worse = true;
                }
                code.push_back(x);
                int e[3][2] = { { a, b }, { b, c }, { c, a } };
                for (auto &y : e) {
                    int o = de[y[1] * n + y[0]];
                    if (o < 0 || seen[o / 3]) continue;
                    seen[o / 3] = 1;
                    q.push_back(o);
                }
            }
            if (!worse && better) {
                best = code;
                if (perm) *perm = inv;
            }
        }
    return best;
}

inline std::vector<std::vector<Tri>> components(const std::vector<Tri> &t) {
    std::map<int, int> par;
    std::function<int(int)> find = [&](int x) {
        while (par[x] != x) x = par[x] = par[par[x]];
        return x;
    };
    for (auto &f : t)
        for (int v : f)
            if (!par.count(v)) par[v] = v;
    for (auto &f : t) {
        par[find(f[1])] = find(f[0]);
        par[find(f[2])] = find(f[0]);
    }
    std::map<int, std::vector<Tri>> g;
    for (auto &f : t) g[find(f[0])].push_back(f);
    std::vector<std::vector<Tri>> r;
    for (auto &x : g) r.push_back(x.second);
    return r;
}

// Canonical form with positions carried along.
inline Surf canonical(const Surf &s) {
    auto comps = components(s.t);
    std::vector<std::pair<std::vector<Tri>, std::vector<int>>> cs;
    for (auto &c : comps) {
        std::vector<int> perm;
        auto code = canonConnected(c, &perm);
        cs.push_back({ code, perm });
    }
    std::sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Surf r;
    r.name = s.name;
    for (auto &c : cs) {
        int off = r.n;
        for (auto &f : c.first) r.t.push_back({ f[0] + off, f[1] + off, f[2] + off });
        r.n += (int)c.second.size();
        if (!s.p.empty())
            for (int o : c.second) r.p.push_back(s.p[o]);
    }
    return r;
}

inline Surf mirrored(const Surf &s) {
    Surf r = s;
    for (auto &f : r.t) std::swap(f[1], f[2]);
    return r;
}

inline Surf bipyramid(int k) {
    Surf s;
    s.n = k + 2;
    s.name = vp::strf("bipyramid%d", k);
    for (int i = 0; i < k; i++) {
        int j = (i + 1) % k;
        s.t.push_back({ i, j, k });
        s.t.push_back({ j, i, k + 1 });
    }
    return s;
}

inline bool flip(std::vector<Tri> &t, int a, int b) {
    int fi = -1, gi = -1, c = -1, d = -1, da = 0, db = 0;
    for (int i = 0; i < (int)t.size(); i++)
        for (int k = 0; k < 3; k++) {
            int x = t[i][k], y = t[i][(k + 1) % 3], z = t[i][(k + 2) % 3];
            da += x == a;
            db += x == b;
            if (x == a && y == b) fi = i, c = z;
            if (x == b && y == a) gi = i, d = z;
        }
    if (fi < 0 || gi < 0 || da <= 3 || db <= 3) return false;
    for (auto &f : t)
        for (int k = 0; k < 3; k++) {
            int x = f[k], y = f[(k + 1) % 3];
            if ((x == c && y == d) || (x == d && y == c)) return false;
        }
    t[fi] = { a, d, c };
    t[gi] = { b, c, d };
    return true;
}

// All surfaces reachable by flips, up to isomorphism (optionally also up to reflection).
inline std::vector<Surf> flipClosure(const Surf &start, bool upToMirror, size_t limit) {
    std::set<std::vector<Tri>> seen;
    std::vector<Surf> out;
    std::queue<Surf> q;
    auto key = [&](const Surf &s) {
        auto a = canonConnected(s.t, nullptr);
        if (upToMirror) {
            auto b = canonConnected(mirrored(s).t, nullptr);
            if (b < a) a = b;
        }
        return a;
    };
    auto push = [&](const Surf &s) {
        auto k = key(s);
        if (seen.size() >= limit || !seen.insert(k).second) return;
        Surf c;
        c.n = s.n;
        c.t = k;
        c.name = s.name;
        out.push_back(c);
        q.push(c);
    };
    push(start);
    while (!q.empty()) {
        Surf s = q.front();
        q.pop();
        for (auto &f : s.t)
            for (int k = 0; k < 3; k++) {
                int a = f[k], b = f[(k + 1) % 3];
                if (a > b) continue;
                Surf x = s;
                if (flip(x.t, a, b)) push(x);
            }
    }
    return out;
}

// Planar Tutte drawing with the given outer face, lifted to a paraboloid; integer coordinates.
inline bool embedSphere(Surf &s, int outer) {
    int n = s.n;
    std::vector<std::set<int>> nb(n);
    for (auto &f : s.t)
        for (int k = 0; k < 3; k++) {
            nb[f[k]].insert(f[(k + 1) % 3]);
            nb[f[(k + 1) % 3]].insert(f[k]);
        }
    std::vector<double> x(n, 0.0), y(n, 0.0);
    std::vector<char> fixed(n, 0);
    const double ox[3] = { -1000, 1000, 0 }, oy[3] = { -700, -700, 1100 };
    // the outer face is seen from outside: reverse so that inner faces are counter-clockwise
    for (int k = 0; k < 3; k++) {
        int v = s.t[outer][k];
        fixed[v] = 1;
        x[v] = ox[(3 - k) % 3];
        y[v] = oy[(3 - k) % 3];
    }
    for (int it = 0; it < 400; it++)
        for (int v = 0; v < n; v++) {
            if (fixed[v]) continue;
            double sx = 0, sy = 0;
            for (int u : nb[v]) sx += x[u], sy += y[u];
            x[v] = sx / nb[v].size();
            y[v] = sy / nb[v].size();
        }
    s.p.assign(n, Vec3());
    for (int v = 0; v < n; v++) {
        double X = std::round(x[v]), Y = std::round(y[v]);
        double Z = std::round((X * X + Y * Y) / 1000.0);
        // inner faces are counter-clockwise seen from above; the outer face closes the bowl from the top,
        // so the surface is oriented inwards unless z is negated
        s.p[v] = Vec3(X, Y, -Z);
    }
    std::set<std::array<double, 3>> uniq;
    for (auto &q : s.p) uniq.insert({ q[0], q[1], q[2] });
    return (int)uniq.size() == n;
}

inline bool nonDegenerate(const Surf &s, double minArea = 1e-9) {
    for (auto &f : s.t)
        if (length(cross(s.p[f[1]] - s.p[f[0]], s.p[f[2]] - s.p[f[0]])) < minArea) return false;
    return true;
}

// All triangulated spheres with n vertices, one per isomorphism class (up to reflection), embedded.
inline std::vector<Surf> spheres(int n) {
    Surf b;
    if (n == 4) {
        b.n = 4;
        b.t = { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 3, 2, 1 } };
    } else {
        b = bipyramid(n - 2);
    }
    b.name = vp::strf("sphere%d", n);
    auto r = flipClosure(b, true, 1000000);
    static const int want[] = { 0, 0, 0, 0, 1, 1, 2, 5, 14, 50, 233, 1249 };
    if (n <= 11 && (int)r.size() != want[n])
        throw std::runtime_error(vp::strf("expected %d triangulations with %d vertices, found %d", want[n], n, (int)r.size()));
    for (size_t i = 0; i < r.size(); i++) {
        r[i].name = vp::strf("sphere%d.%d", n, (int)i);
        int o = 0;
        while (o < (int)r[i].t.size() && !(embedSphere(r[i], o) && nonDegenerate(r[i]))) o++;
        if (o == (int)r[i].t.size()) throw std::runtime_error("no embedding");
    }
    return r;
}

// Restriction to the faces in mask, unused vertices dropped.
inline Surf restrict_(const Surf &s, uint64_t mask) {
    Surf r;
    std::vector<int> m(s.n, -1);
    for (size_t i = 0; i < s.t.size(); i++)
        if (mask >> i & 1) {
            Tri f;
            for (int k = 0; k < 3; k++) {
                int v = s.t[i][k];
                if (m[v] < 0) {
                    m[v] = r.n++;
                    if (!s.p.empty()) r.p.push_back(s.p[v]);
                }
                f[k] = m[v];
            }
            r.t.push_back(f);
        }
    r.name = vp::strf("%s/%llx", s.name.c_str(), (unsigned long long)mask);
    return r;
}

// All manifold sub-surfaces of the given surfaces, one per isomorphism class.
inline std::vector<Surf> subsurfaces(const std::vector<Surf> &in, bool keepClosed, int maxRemoved = 64) {
    std::set<std::vector<Tri>> seen;
    std::vector<Surf> out;
    for (auto &s : in) {
        const int F = (int)s.t.size();
        const uint64_t full = F >= 64 ? ~0ull : (1ull << F) - 1;
        for (int k = keepClosed ? 0 : 1; k <= maxRemoved && k < F; k++) {
            uint64_t g = (1ull << k) - 1;  // removed faces, all sets of size k
            for (;;) {
                Surf r = restrict_(s, full & ~g);
                if (isManifold(r.t, r.n)) {
                    Surf c = canonical(r);
                    if (seen.insert(c.t).second) {
                        c.name = r.name;
                        out.push_back(c);
                    }
                }
                if (k == 0) break;
                uint64_t low = g & -g, up = g + low;
                if (up == 0 || (up & ~full)) break;
                g = (((g ^ up) >> 2) / low) | up;
            }
        }
    }
    return out;
}

inline Surf torusGrid(int a, int b) {
    Surf s;
    s.n = a * b;
    s.name = vp::strf("torus%dx%d", a, b);
    auto id = [&](int i, int j) { return ((i + a) % a) * b + (j + b) % b; };
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            s.t.push_back({ id(i, j), id(i + 1, j), id(i + 1, j + 1) });
            s.t.push_back({ id(i, j), id(i + 1, j + 1), id(i, j + 1) });
            double u = 2 * M_PI * i / a, v = 2 * M_PI * j / b;
            double w = 1500 + 600 * std::cos(v);
            s.p.push_back(Vec3(std::round(w * std::cos(u)), std::round(w * std::sin(u)), std::round(600 * std::sin(v))));
        }
    return s;
}

inline Surf torus7() {
    Surf s;
    s.n = 7;
    s.name = "torus7";
    for (int i = 0; i < 7; i++) {
        s.t.push_back({ i, (i + 1) % 7, (i + 3) % 7 });
        s.t.push_back({ i, (i + 3) % 7, (i + 2) % 7 });
    }
    // Csaszar polyhedron (scaled); only general position matters here
    const double c[7][3] = { { 300, -300, 0 }, { -300, 300, 0 }, { 300, 300, 100 }, { -300, -300, 100 }, { 100, 200, 300 }, { -100, -200, 300 }, { 0, 0, 1500 } };
    for (auto &q : c) s.p.push_back(Vec3(q[0], q[1], q[2]));
    return s;
}

// Open rectangular sheet with (a+1)x(b+1) vertices; diag bit i*b+j chooses the diagonal.
inline Surf sheet(int a, int b, uint64_t diag, const std::function<double(int, int)> &h) {
    Surf s;
    s.n = (a + 1) * (b + 1);
    s.name = vp::strf("sheet%dx%d.%llx", a, b, (unsigned long long)diag);
    auto id = [&](int i, int j) { return i * (b + 1) + j; };
    for (int i = 0; i <= a; i++)
        for (int j = 0; j <= b; j++) s.p.push_back(Vec3(i, j, h ? h(i, j) : 0.0));
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            int A = id(i, j), B = id(i + 1, j), C = id(i + 1, j + 1), D = id(i, j + 1);
            if (diag >> (i * b + j) & 1) {
                s.t.push_back({ A, B, D });
                s.t.push_back({ B, C, D });
            } else {
                s.t.push_back({ A, B, C });
                s.t.push_back({ A, C, D });
            }
        }
    return s;
}

inline Surf icosahedron() {
    Surf s;
    s.n = 12;
    s.name = "icosahedron";
    const double a = 1000, b = 1618;
    const double v[12][3] = { { -a, b, 0 }, { a, b, 0 }, { -a, -b, 0 }, { a, -b, 0 }, { 0, -a, b }, { 0, a, b }, { 0, -a, -b }, { 0, a, -b }, { b, 0, -a }, { b, 0, a }, { -b, 0, -a }, { -b, 0, a } };
    for (auto &q : v) s.p.push_back(Vec3(q[0], q[1], q[2]));
    s.t = { { 0, 11, 5 }, { 0, 5, 1 }, { 0, 1, 7 }, { 0, 7, 10 }, { 0, 10, 11 }, { 1, 5, 9 }, { 5, 11, 4 }, { 11, 10, 2 }, { 10, 7, 6 }, { 7, 1, 8 }, { 3, 9, 4 }, { 3, 4, 2 }, { 3, 2, 6 }, { 3, 6, 8 }, { 3, 8, 9 }, { 4, 9, 5 }, { 2, 4, 11 }, { 6, 2, 10 }, { 8, 6, 7 }, { 9, 8, 1 } };
    return s;
}

inline Surf bipyramidGeo(int k, double h = 900) {
    Surf s = bipyramid(k);
    for (int i = 0; i < k; i++)
        s.p.push_back(Vec3(std::round(1000 * std::cos(2 * M_PI * i / k)), std::round(1000 * std::sin(2 * M_PI * i / k)), 0));
    s.p.push_back(Vec3(0, 0, h));
    s.p.push_back(Vec3(0, 0, -h));
    return s;
}

// 1-to-4 midpoint subdivision
inline Surf subdivide(const Surf &s) {
    Surf r;
    r.n = s.n;
    r.p = s.p;
    r.name = s.name + "-sub";
    std::map<std::pair<int, int>, int> mid;
    auto M = [&](int a, int b) {
        auto k = std::make_pair(std::min(a, b), std::max(a, b));
        auto it = mid.find(k);
        if (it != mid.end()) return it->second;
        mid[k] = r.n;
        if (!s.p.empty()) r.p.push_back(0.5 * (s.p[a] + s.p[b]));
        return r.n++;
    };
    for (auto &f : s.t) {
        int a = M(f[0], f[1]), b = M(f[1], f[2]), c = M(f[2], f[0]);
        r.t.push_back({ f[0], a, c });
        r.t.push_back({ a, f[1], b });
        r.t.push_back({ c, b, f[2] });
        r.t.push_back({ a, b, c });
    }
    return r;
}

inline Surf disjoint(const Surf &a, const Surf &b, const Vec3 &shift) {
    Surf r = a;
    r.name = a.name + "+" + b.name;
    for (auto &q : b.p) r.p.push_back(q + shift);
    for (auto &f : b.t) r.t.push_back({ f[0] + a.n, f[1] + a.n, f[2] + a.n });
    r.n += b.n;
    return r;
}

// n-bit masks with at most k bits set or at most k bits clear
inline std::vector<uint64_t> masks(int n, int k) {
    std::vector<uint64_t> r;
    for (uint64_t m = 0; m < 1ull << n; m++) {
        int c = __builtin_popcountll(m);
        if (c <= k || c >= n - k) r.push_back(m);
    }
    return r;
}

// the surface without the chosen triangles; unused vertices are left out
inline Surf without(const Surf &s, const std::set<int> &gone, const std::string &name) {
    Surf r;
    r.name = name;
    std::map<int, int> num;
    for (size_t i = 0; i < s.t.size(); i++) {
        if (gone.count((int)i)) continue;
        Tri t;
        for (int k = 0; k < 3; k++) {
            auto it = num.insert({ s.t[i][k], (int)num.size() });
            if (it.second && !s.p.empty()) r.p.push_back(s.p[s.t[i][k]]);
            t[k] = it.first->second;
        }
        r.t.push_back(t);
    }
    r.n = (int)num.size();
    return r;
}

// as many holes as fit when going through the triangles (or, with `stars`, the vertices) in order without two
// holes sharing a vertex
inline Surf perforated(const Surf &s, bool stars) {
    std::vector<std::vector<int>> holes;
    if (stars) {
        holes.resize(s.n);
        std::vector<std::set<int>> out(s.n), in(s.n);
        for (size_t i = 0; i < s.t.size(); i++)
            for (int k = 0; k < 3; k++) {
                holes[s.t[i][k]].push_back((int)i);
                out[s.t[i][k]].insert(s.t[i][(k + 1) % 3]);
                in[s.t[i][k]].insert(s.t[i][(k + 2) % 3]);
            }
        for (int v = 0; v < s.n; v++)
            if (out[v] != in[v]) holes[v].clear();  // on the border
    } else {
        for (size_t i = 0; i < s.t.size(); i++) holes.push_back({ (int)i });
    }
    std::map<std::pair<int, int>, int> edges;
    for (auto &t : s.t)
        for (int k = 0; k < 3; k++) edges[{ std::min(t[k], t[(k + 1) % 3]), std::max(t[k], t[(k + 1) % 3]) }]++;
    std::vector<char> used(s.n, 0);
    for (auto &e : edges)
        if (e.second == 1) used[e.first.first] = used[e.first.second] = 1;
    std::set<int> gone;
    for (auto &h : holes) {
        bool ok = !h.empty();
        for (int i : h)
            for (int v : s.t[i]) ok &= !used[v];
        if (!ok) continue;
        for (int i : h) {
            gone.insert(i);
            for (int v : s.t[i]) used[v] = 1;
        }
    }
    return without(s, gone, s.name + (stars ? "-stars" : "-holes"));
}

inline Surf project(Surf s, double radius) {
    for (auto &q : s.p) q = normalize(q) * radius;
    return s;
}

}  // namespace mg
#endif
