// C01: building a mesh from every small triangle list, compared with an independent set-level builder.
#include "refmesh.hpp"
#include "shapes.hpp"
using namespace mg;

struct Expect {
    bool error = false;
    std::string why;
    ref::RefMesh model;
};

// `swapLast`: dropped repeated-corner triangles are replaced by the last triangle of the list.
static Expect expected(const std::vector<Vec3> &v, const std::vector<uint32_t> &idx, bool swapLast) {
    Expect e;
    auto bad = [&](const char *w) {
        e.error = true;
        e.why = w;
        return e;
    };
    if (idx.size() % 3) return bad("partial triangle");
    std::map<ref::Pos, int> first;
    std::vector<int> id;
    for (uint32_t i : idx) {
        if (i >= v.size()) return bad("index out of range");
        int n = (int)first.size();
        id.push_back(first.insert({ ref::key(v[i]), n }).first->second);
    }
    std::vector<Tri> t;
    for (size_t i = 0; i < id.size(); i += 3) t.push_back({ id[i], id[i + 1], id[i + 2] });
    auto degenerate = [](const Tri &x) { return x[0] == x[1] || x[1] == x[2] || x[2] == x[0]; };
    for (size_t i = 0; i < t.size();) {
        if (!degenerate(t[i])) {
            i++;
        } else if (swapLast) {
            t[i] = t.back();
            t.pop_back();
        } else {
            t.erase(t.begin() + i);
        }
    }
    std::set<std::pair<int, int>> used;
    std::vector<Tri> keep;
    for (auto &x : t) {
        bool dup = false;
        for (int k = 0; k < 3; k++) dup |= used.count({ x[k], x[(k + 1) % 3] }) != 0;
        if (dup) continue;
        for (int k = 0; k < 3; k++) used.insert({ x[k], x[(k + 1) % 3] });
        keep.push_back(x);
    }
    const int n = (int)first.size();
    std::vector<char> hasTri(n, 0);
    for (auto &x : keep)
        for (int k : x) hasTri[k] = 1;
    for (int i = 0; i < n; i++)
        if (!hasTri[i]) return bad("vertex without triangle");
    if (!keep.empty() && !isManifold(keep, n)) return bad("non-manifold vertex");
    Surf s;
    s.n = n;
    s.t = keep;
    s.p.resize(n);
    for (auto &x : first) s.p[x.second] = Vec3(x.first[0], x.first[1], x.first[2]);
    e.model = ref::RefMesh(s);
    return e;
}

static std::string text(const std::vector<uint32_t> &idx) {
    std::string s;
    for (size_t i = 0; i < idx.size() && i < 60; i++) s += vp::strf(" %d", (int)idx[i]);
    return idx.size() > 60 ? s + " ..." : s;
}

static void judge(const std::vector<Vec3> &v, const std::vector<uint32_t> &idx, bool twoOrders) {
    vp::add(vp::STATES);
    vp::add(vp::TRANSITIONS, idx.size() / 3);
    Expect e = expected(v, idx, false);
    Expect e2;
    if (twoOrders) e2 = expected(v, idx, true);
    std::unique_ptr<tinymesh::Mesh> m;
    std::string err;
    try {
        m.reset(new tinymesh::Mesh(v, idx));
    } catch (const std::exception &x) {
        err = x.what();
    }
    vp::add(vp::TRACES);
    if (!m) {
        if (e.error || (twoOrders && e2.error)) {
            vp::outcome(vp::mix(1, std::hash<std::string>()(e.why)));
            return;
        }
        vp::fail("triangles%s: a manifold surface was refused (%s)", text(idx).c_str(), err.c_str());
    }
    if (e.error && !(twoOrders && !e2.error)) vp::fail("triangles%s: accepted although %s", text(idx).c_str(), e.why.c_str());
    try {
        if (!e.error) {
            try {
                ref::audit(*m, e.model, "built mesh");
            } catch (const vp::Violation &) {
                if (!twoOrders || e2.error) throw;
                ref::audit(*m, e2.model, "built mesh");
            }
        } else {
            ref::audit(*m, e2.model, "built mesh");
        }
    } catch (const vp::Violation &x) {
        vp::fail("triangles%s: %s", text(idx).c_str(), x.what.c_str());
    }
    vp::outcome(vp::mix(vp::mix(m->numVertices(), m->numHalfedges()), m->numFaces()));
    vp::sample("triangles" + text(idx));
}

static std::vector<Vec3> slots(int n) {
    std::vector<Vec3> v;
    for (int i = 0; i < n; i++) v.push_back(Vec3(0.25 * i * i - 1.0, 1.5 * ((i * 3) % 5) - 2.0, -0.75 * i * i * i + i));
    return v;
}

static std::vector<Tri> oriented(int n) {
    std::vector<Tri> r;
    for (int a = 0; a < n; a++)
        for (int b = a + 1; b < n; b++)
            for (int c = a + 1; c < n; c++)
                if (b != c) r.push_back({ a, b, c });
    return r;
}

static uint64_t ipow(uint64_t b, int e) {
    uint64_t r = 1;
    while (e--) r *= b;
    return r;
}
static uint64_t choose(int n, int k) {
    if (k > n) return 0;
    uint64_t r = 1;
    for (int i = 1; i <= k; i++) r = r * (n - k + i) / i;
    return r;
}

static std::vector<std::vector<int>> partitions(int n) {
    std::vector<std::vector<int>> out;
    std::vector<int> cur(n, 0);
    std::function<void(int, int)> rec = [&](int i, int m) {
        if (i == n) {
            out.push_back(cur);
            return;
        }
        for (int k = 0; k <= m; k++) {
            cur[i] = k;
            rec(i + 1, std::max(m, k + 1));
        }
    };
    rec(0, 0);
    return out;
}

struct Shape {
    Surf s;
    int mode;  // 0: all orders of the triangles, 1: all rotations of corners, 2: identity, reversed, rotated lists
};
static std::vector<std::pair<std::vector<Vec3>, std::vector<uint32_t>>> lists;

static void setup() {
    const bool th = vp::thorough();
    // every index list of length up to 7 over {0,1,2,3, out of range, huge}
    {
        static std::vector<Vec3> v = slots(4);
        static const uint32_t val[6] = { 0, 1, 2, 3, 4, 0xffffffffu };
        for (int len = 0; len <= (th ? 7 : 6); len++)
            vp::group(vp::strf("indices%d", len), ipow(6, len), [len](uint64_t c) {
                std::vector<uint32_t> idx;
                for (int i = 0; i < len; i++, c /= 6) idx.push_back(val[c % 6]);
                judge(v, idx, true);
            });
    }
    // all ordered lists of corner triples, repeated corners allowed
    auto triples = [&](int n, int k) {
        vp::group(vp::strf("triples-%d-%d", n, k), ipow((uint64_t)n * n * n, k), [n, k](uint64_t c) {
            static std::vector<Vec3> v[8];
            if (v[n].empty()) v[n] = slots(n);
            std::vector<uint32_t> idx;
            for (int i = 0; i < 3 * k; i++, c /= n) idx.push_back((uint32_t)(c % n));
            judge(v[n], idx, true);
        });
    };
    triples(4, 2);
    triples(4, 3);
    triples(5, 2);
    if (th) triples(5, 3);
    if (th) triples(6, 2);
    // all ordered lists of proper oriented triangles
    auto ordered = [&](int n, int k) {
        uint64_t T = oriented(n).size();
        vp::group(vp::strf("ordered-%d-%d", n, k), ipow(T, k), [n, k, T](uint64_t c) {
            static std::vector<Vec3> v[8];
            static std::vector<Tri> o[8];
            if (v[n].empty()) v[n] = slots(n), o[n] = oriented(n);
            std::vector<uint32_t> idx;
            for (int i = 0; i < k; i++, c /= T)
                for (int x : o[n][c % T]) idx.push_back((uint32_t)x);
            judge(v[n], idx, false);
        });
    };
    ordered(4, 4);
    ordered(5, 4);
    if (th) ordered(4, 5), ordered(4, 6), ordered(5, 5), ordered(6, 4), ordered(7, 3);
    // all sets of proper oriented triangles
    vp::group("sets-4", 1u << 8, [](uint64_t c) {
        static std::vector<Vec3> v = slots(4);
        static std::vector<Tri> o = oriented(4);
        std::vector<uint32_t> idx;
        for (int i = 0; i < 8; i++)
            if (c >> i & 1)
                for (int x : o[i]) idx.push_back((uint32_t)x);
        judge(v, idx, false);
    });
    vp::group("sets-5", 1u << 20, [](uint64_t c) {
        static std::vector<Vec3> v = slots(5);
        static std::vector<Tri> o = oriented(5);
        if (!vp::thorough() && __builtin_popcountll(c) > 8) return;  // more than 8 of 20: thorough tier
        std::vector<uint32_t> idx;
        for (int i = 0; i < 20; i++)
            if (c >> i & 1)
                for (int x : o[i]) idx.push_back((uint32_t)x);
        judge(v, idx, false);
    });
    auto subsets = [&](int n, int k) {
        int T = (int)oriented(n).size();
        vp::group(vp::strf("sets-%d-%d", n, k), choose(T, k), [n, k, T](uint64_t c) {
            static std::vector<Vec3> v[8];
            static std::vector<Tri> o[8];
            if (v[n].empty()) v[n] = slots(n), o[n] = oriented(n);
            std::vector<uint32_t> idx;
            int left = k;
            for (int i = 0; i < T && left; i++) {
                uint64_t with = choose(T - i - 1, left - 1);
                if (c < with) {
                    for (int x : o[n][i]) idx.push_back((uint32_t)x);
                    left--;
                } else {
                    c -= with;
                }
            }
            judge(v[n], idx, false);
        });
    };
    subsets(6, 3);
    subsets(6, 4);
    if (th) subsets(6, 5), subsets(6, 6), subsets(7, 4);
    // coincident positions: every way of giving equal positions to 5 slots x all pairs of triples
    {
        static auto parts = partitions(5);
        vp::group("coincident", parts.size() * ipow(5, 6), [](uint64_t c) {
            static std::vector<Vec3> pos = slots(5);
            auto &p = parts[c % parts.size()];
            c /= parts.size();
            std::vector<Vec3> v;
            for (int i = 0; i < 5; i++) {
                v.push_back(pos[p[i]]);
                if (pos[p[i]][0] == 0.0 && i % 2) v.back() = Vec3(-0.0, pos[p[i]][1], pos[p[i]][2]);
            }
            std::vector<uint32_t> idx;
            for (int i = 0; i < 6; i++, c /= 5) idx.push_back((uint32_t)(c % 5));
            judge(v, idx, true);
        });
    }
    // complete small surfaces in all orders and rotations
    std::vector<Surf> small;
    for (int n = 4; n <= 6; n++) {
        auto sp = spheres(n);
        for (auto &s : sp) small.push_back(s);
        for (auto &s : subsurfaces(sp, false)) small.push_back(s);
    }
    auto addList = [&](const Surf &s, const std::vector<int> &perm, const std::vector<int> &rot) {
        std::vector<uint32_t> idx;
        for (size_t i = 0; i < perm.size(); i++)
            for (int k = 0; k < 3; k++) idx.push_back((uint32_t)s.t[perm[i]][(k + rot[i]) % 3]);
        lists.push_back({ s.p, idx });
    };
    for (auto &s : small) {
        const int F = (int)s.t.size();
        std::vector<int> perm(F), zero(F, 0);
        for (int i = 0; i < F; i++) perm[i] = i;
        if (F <= (th ? 7 : 6)) {
            std::vector<int> q = perm;
            do addList(s, q, zero);
            while (std::next_permutation(q.begin(), q.end()));
        }
        if (F <= (th ? 8 : 7))
            for (uint64_t c = 0; c < ipow(3, F); c++) {
                std::vector<int> r;
                uint64_t x = c;
                for (int i = 0; i < F; i++, x /= 3) r.push_back((int)(x % 3));
                addList(s, perm, r);
            }
    }
    std::vector<Surf> big;
    for (int n = 7; n <= (th ? 10 : 9); n++)
        for (auto &s : spheres(n)) big.push_back(s);
    for (auto &s : subsurfaces(spheres(7), false)) big.push_back(s);
    for (auto &s : subsurfaces(spheres(8), false, th ? 12 : 5)) big.push_back(s);
    for (auto &s : subsurfaces({ icosahedron() }, false, th ? 5 : 4)) big.push_back(s);
    for (int k = 3; k <= 16; k++) big.push_back(bipyramidGeo(k));
    for (uint64_t d = 0; d < 512; d++) big.push_back(sheet(3, 3, d, nullptr));
    big.push_back(torus7());
    big.push_back(torusGrid(3, 3));
    big.push_back(torusGrid(5, 4));
    big.push_back(subdivide(icosahedron()));
    big.push_back(disjoint(torus7(), icosahedron(), Vec3(5000.0, 0.0, 0.0)));
    big.push_back(disjoint(sheet(2, 2, 3, nullptr), sheet(1, 1, 1, nullptr), Vec3(0.0, 0.0, 77.0)));
    for (auto &s : big) {
        const int F = (int)s.t.size();
        std::vector<int> perm(F), zero(F, 0), one(F, 1), alt(F);
        for (int i = 0; i < F; i++) perm[i] = i, alt[i] = i % 3;
        addList(s, perm, zero);
        for (int i = 0; i < F; i++) perm[i] = F - 1 - i;
        addList(s, perm, alt);
        for (int i = 0; i < F; i++) perm[i] = (i * 7 + 3) % F;
        if (F % 7) addList(s, perm, one);
    }
    vp::group("surfaces", lists.size(), [](uint64_t i) { judge(lists[i].first, lists[i].second, false); });
    // every complete surface damaged by one change: one triangle reversed, doubled, or two vertices merged
    static std::vector<Surf> base;
    for (int n = 4; n <= 7; n++)
        for (auto &s : spheres(n)) base.push_back(s);
    for (auto &s : subsurfaces(spheres(7), false, 4)) base.push_back(s);
    base.push_back(icosahedron());
    base.push_back(torus7());
    base.push_back(sheet(3, 3, 0x155, nullptr));
    static std::vector<std::pair<int, int>> dam;
    for (size_t b = 0; b < base.size(); b++) {
        int F = (int)base[b].t.size(), n = base[b].n;
        for (int i = 0; i < 2 * F + n * n; i++) dam.push_back({ (int)b, i });
    }
    vp::group("damaged", dam.size(), [](uint64_t c) {
        const Surf &s = base[dam[c].first];
        int F = (int)s.t.size(), i = dam[c].second;
        std::vector<uint32_t> idx = flat(s);
        std::vector<Vec3> v = s.p;
        if (i < F) {
            std::swap(idx[3 * i], idx[3 * i + 1]);
        } else if (i < 2 * F) {
            for (int k = 0; k < 3; k++) idx.push_back(idx[3 * (i - F) + (k + 1) % 3]);
        } else {
            i -= 2 * F;
            v[i / s.n] = v[i % s.n];
        }
        judge(v, idx, true);
    });
    // two vertices of a surface almost, but not exactly, at the same place stay two vertices
    static std::vector<Surf> nearBase;
    for (int n = 4; n <= 6; n++)
        for (auto &s : spheres(n)) nearBase.push_back(s);
    nearBase.push_back(sheet(2, 2, 6, nullptr));
    static std::vector<std::array<int, 4>> nearBy;
    for (size_t b = 0; b < nearBase.size(); b++)
        for (int i = 0; i < nearBase[b].n; i++)
            for (int j = 0; j < nearBase[b].n; j++)
                for (int k = 0; k < 3 * 4 * 3; k++)
                    if (i != j) nearBy.push_back({ (int)b, i, j, k });
    vp::group("near", nearBy.size(), [](uint64_t c) {
        const Surf &s = nearBase[nearBy[c][0]];
        const int i = nearBy[c][1], j = nearBy[c][2], k = nearBy[c][3];
        static const double rel[4] = { 0.0, 1.0e-12, 1.0e-9, 1.0e-6 };
        static const double size[3] = { 1.0, 1.0e6, 1.0e-6 };
        std::vector<Vec3> v = s.p;
        for (auto &x : v) x = x * size[k / 12];
        v[i] = v[j];
        const int d = k % 3;
        const double x = v[j][d];
        v[i][d] = k / 3 % 4 ? x + rel[k / 3 % 4] * size[k / 12] * 8.0 : std::nextafter(x, 1.0e300);
        judge(v, flat(s), false);
    });
    // fans and cycles of triangles around one vertex, alone and sharing that vertex with a second one
    static const int LIM = th ? 24 : 14;
    vp::group("fans", (uint64_t)2 * LIM * (2 * LIM + 1) * 3, [](uint64_t c) {
        int a = (int)(c % (2 * LIM));
        c /= 2 * LIM;
        int b = (int)(c % (2 * LIM + 1)) - 1;
        c /= 2 * LIM + 1;
        std::vector<Vec3> v = { Vec3(0.0, 0.0, 1.0) };
        std::vector<Tri> part[2];
        auto fan = [&](int code, std::vector<Tri> &t) {
            const bool cycle = code >= LIM;
            const int k = cycle ? code - LIM + 3 : code + 1, n0 = (int)v.size(), m = cycle ? k : k + 1;
            for (int i = 0; i < m; i++) v.push_back(Vec3((double)n0, 0.5 * i * i, 1.0 + i));
            for (int i = 0; i < k; i++) t.push_back({ 0, n0 + i, n0 + (i + 1) % m });
        };
        fan(a, part[0]);
        if (b >= 0) fan(b, part[1]);
        std::vector<uint32_t> idx;
        auto put = [&](const Tri &t) {
            for (int x : t) idx.push_back((uint32_t)x);
        };
        if (c == 0) {
            for (auto &p : part)
                for (auto &t : p) put(t);
        } else if (c == 1) {
            for (size_t i = 0; i < std::max(part[0].size(), part[1].size()); i++)
                for (auto &p : part)
                    if (i < p.size()) put(p[i]);
        } else {
            for (auto &p : part) {
                for (size_t i = 0; i < p.size(); i += 2) put(p[i]);
                for (size_t i = 1; i < p.size(); i += 2) put(p[i]);
            }
        }
        judge(v, idx, false);
    });
    // repeated-corner triangles put in at every place of a surface, up to three of them
    vp::group("repeated", 4u * ipow(13, 3) * 8, [](uint64_t c) {
        static const std::vector<Surf> b = { spheres(4)[0], spheres(5)[0], sheet(2, 1, 1, nullptr), sheet(1, 1, 0, nullptr) };
        const Surf &s = b[c % 4];
        c /= 4;
        std::vector<std::array<uint32_t, 3>> t;
        for (auto &x : s.t) t.push_back({ (uint32_t)x[0], (uint32_t)x[1], (uint32_t)x[2] });
        const unsigned kinds = (unsigned)(c % 8);
        c /= 8;
        for (int i = 0; i < 3; i++, c /= 13) {
            const size_t at = (size_t)(c % 13);
            if (at == 12) continue;
            if (at > t.size()) return;
            const uint32_t x = (uint32_t)s.t[0][0], y = (uint32_t)s.t[0][1];
            t.insert(t.begin() + (long)at, kinds >> i & 1 ? std::array<uint32_t, 3>{ x, y, x } : std::array<uint32_t, 3>{ y, y, y });
        }
        std::vector<uint32_t> idx;
        for (auto &x : t) idx.insert(idx.end(), x.begin(), x.end());
        judge(s.p, idx, true);
    });
    // surfaces with many triangles and many holes
    static std::vector<Surf> large;
    for (int n : { 9, 12, 20 }) large.push_back(sheet(n, n, 0x5a5a5a5a5ull, nullptr));
    for (int step = 3; step <= 9; step++) {
        Surf s = subdivide(subdivide(icosahedron())), q = s;
        // remove triangles that do not share a vertex with a removed one
        q.t.clear();
        std::vector<char> near(s.n, 0);
        for (size_t i = 0; i < s.t.size(); i++) {
            const Tri &x = s.t[i];
            if ((int)i % step == 0 && !near[x[0]] && !near[x[1]] && !near[x[2]]) {
                near[x[0]] = near[x[1]] = near[x[2]] = 1;
                continue;
            }
            q.t.push_back(x);
        }
        large.push_back(q);
    }
    for (auto &s : shapes::huge(true)) large.push_back(s);
    vp::group("large", large.size(), [](uint64_t c) { judge(large[c].p, flat(large[c]), false); });
}
VP_MAIN(setup)
