// H03: dihedral filling of every hole that can be cut into small flat sheets stays flat and free of folds.
#include "refmesh.hpp"
#include "restore/restore.h"
using namespace mg;
using namespace tinymesh;
using vp::fail;

struct Sheet {
    Surf s;
    std::vector<int> inner;  // removable triangles, or removable cells (two triangles each)
    bool cells;
    Vec3 up;
};
static std::vector<Sheet> sheets;
static const double bounds[] = { 0.0, 1e-6, 0.5, 3.0 };

static Vec3 crossOf(const Vec3 &a, const Vec3 &b) {
    return Vec3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static double twice(const Vec3 &up, const Vec3 &a, const Vec3 &b, const Vec3 &c) {
    const Vec3 n = crossOf(b - a, c - a);
    return n[0] * up[0] + n[1] * up[1] + n[2] * up[2];
}

// the sheet without the chosen triangles, or an empty surface if that is no manifold or cuts no hole
static Surf cut(const Sheet &sh, uint64_t mask) {
    std::set<int> gone;
    for (size_t i = 0; i < sh.inner.size(); i++)
        if (mask >> i & 1) {
            gone.insert(sh.inner[i]);
            if (sh.cells) gone.insert(sh.inner[i] + 1);
        }
    Surf r;
    std::map<int, int> num;
    for (size_t i = 0; i < sh.s.t.size(); i++) {
        if (gone.count((int)i)) continue;
        Tri t;
        for (int k = 0; k < 3; k++) {
            auto it = num.insert({ sh.s.t[i][k], (int)num.size() });
            if (it.second) r.p.push_back(sh.s.p[sh.s.t[i][k]]);
            t[k] = it.first->second;
        }
        r.t.push_back(t);
    }
    r.n = (int)r.p.size();
    if (gone.empty() || !isManifold(r.t, r.n)) return Surf();
    return r;
}

struct Loop {
    std::vector<int> v;
    double area2;  // twice the area, positive for holes inside the sheet
};
static std::vector<Loop> loopsOf(const Mesh &m, const Vec3 &up) {
    std::vector<Loop> r;
    for (size_t i = 0; i < m.numFaces(); i++) {
        Face *f = m.face((int)i);
        if (!f->isHole()) continue;
        Loop l;
        Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        do l.v.push_back(h->src()->index()), h = h->next();
        while (h != h0);
        l.area2 = 0.0;
        const Vec3 a = m.vertex(l.v[0])->pos();
        for (size_t k = 0; k < l.v.size(); k++) l.area2 += twice(up, a, m.vertex(l.v[k])->pos(), m.vertex(l.v[(k + 1) % l.v.size()])->pos());
        r.push_back(l);
    }
    return r;
}

static std::multiset<Tri> trisOf(const Mesh &m) {
    std::multiset<Tri> r;
    auto idx = m.getVertexIndices();
    for (size_t i = 0; i < idx.size(); i += 3) {
        Tri t = { (int)idx[i], (int)idx[i + 1], (int)idx[i + 2] };
        std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
        r.insert(t);
    }
    return r;
}

// `added` triangles fill the given loop: each faces up, and together they have the area of the polygon
static void flat(const Mesh &m, const Loop &l, const std::vector<Tri> &added, const Vec3 &up, const char *how) {
    double sum = 0.0;
    for (auto &t : added) {
        const double a = twice(up, m.vertex(t[0])->pos(), m.vertex(t[1])->pos(), m.vertex(t[2])->pos());
        if (!(a > 1e-9 * l.area2)) fail("%s: triangle %d %d %d of the patch is folded over or has no area (%g)", how, t[0], t[1], t[2], a);
        sum += a;
    }
    if (!(std::abs(sum - l.area2) <= 1e-9 * l.area2)) fail("%s: the patch has area %.17g instead of %.17g", how, 0.5 * sum, 0.5 * l.area2);
    vp::outcome(vp::mix(l.v.size(), added.size()));
}

static std::vector<Tri> fresh(const Mesh &m, std::multiset<Tri> before, const Loop &l, const char *how) {
    std::set<int> on(l.v.begin(), l.v.end());
    std::vector<Tri> r;
    for (auto &t : trisOf(m)) {
        auto it = before.find(t);
        if (it != before.end()) before.erase(it);
        else if (on.count(t[0]) && on.count(t[1]) && on.count(t[2])) r.push_back(t);
    }
    if (r.size() != l.v.size() - 2) fail("%s: %d triangles for a hole of %d vertices", how, (int)r.size(), (int)l.v.size());
    return r;
}

static void run(const Sheet &sh, uint64_t mask) {
    const Surf s = cut(sh, mask);
    if (!s.n) return;
    const std::vector<uint32_t> idx = mg::flat(s);
    for (int b = 0; b <= 5; b++) {
        Mesh m(s.p, idx);
        const std::string how = b < 4 ? vp::strf("angle bound %g", bounds[b]) : b == 4 ? "default bound" : "all holes at once";
        if (b == 5) {
            const auto before = trisOf(m);
            const auto loops = loopsOf(m, sh.up);
            bool apart = true;
            std::set<int> seen;
            for (auto &l : loops)
                for (int v : l.v) apart &= seen.insert(v).second;
            if (!apart) continue;
            m.fillHoles();
            vp::add(vp::TRANSITIONS, loops.size());
            for (auto &l : loops)
                if (l.area2 > 0.0) flat(m, l, fresh(m, before, l, how.c_str()), sh.up, how.c_str());
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
            continue;
        }
        for (;;) {
            Face *f = nullptr;
            const auto before = trisOf(m);
            Loop l;
            for (size_t i = 0; i < m.numFaces() && !f; i++) {
                if (!m.face((int)i)->isHole()) continue;
                l.v.clear();
                Halfedge *h0 = m.face((int)i)->he_begin().ptr(), *h = h0;
                do l.v.push_back(h->src()->index()), h = h->next();
                while (h != h0);
                l.area2 = 0.0;
                const Vec3 a = m.vertex(l.v[0])->pos();
                for (size_t k = 0; k < l.v.size(); k++)
                    l.area2 += twice(sh.up, a, m.vertex(l.v[k])->pos(), m.vertex(l.v[(k + 1) % l.v.size()])->pos());
                if (l.area2 > 0.0) f = m.face((int)i);
            }
            if (!f) break;
            if (b < 4) holeFillMinDihedral(m, f, bounds[b]);
            else holeFillMinDihedral(m, f);
            vp::add(vp::TRANSITIONS);
            flat(m, l, fresh(m, before, l, how.c_str()), sh.up, how.c_str());
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
        }
    }
    vp::sample(vp::strf("%s without %llx", sh.s.name.c_str(), (unsigned long long)mask));
}

static void add(int a, int b, uint64_t diag, int margin, bool cells, int shape) {
    Sheet sh;
    sh.s = sheet(a, b, diag, nullptr);
    sh.cells = cells;
    sh.up = Vec3(0.0, 0.0, 1.0);
    for (int i = margin; i < a - margin; i++)
        for (int j = margin; j < b - margin; j++) {
            sh.inner.push_back(2 * (i * b + j));
            if (!cells) sh.inner.push_back(2 * (i * b + j) + 1);
        }
    if (shape == 1)  // grid with uneven spacing: no lattice symmetry, borders still straight
        for (auto &p : sh.s.p) p = Vec3(p[0] * (1.0 + 0.25 * p[0]), p[1] * (2.0 - 0.125 * p[1]), 0.0);
    if (shape >= 2) {  // no three collinear points, in a tilted plane (exactly representable normal direction)
        for (auto &p : sh.s.p) {
            const double x = p[0] + 0.07 * p[0] * p[0] - 0.05 * p[1] * p[1] + 0.013 * p[0] * p[1] * p[1];
            const double y = p[1] - 0.06 * p[0] * p[0] + 0.045 * p[1] * p[1] + 0.011 * p[1] * p[0] * p[0];
            p = shape == 2 ? Vec3(x, y, 0.0) : Vec3(x, 0.6 * y, 0.8 * y);
        }
        if (shape == 3) sh.up = Vec3(0.0, -0.8, 0.6);
    }
    sh.s.name += vp::strf("/%d", shape);
    sheets.push_back(sh);
}

static std::vector<std::pair<int, uint64_t>> cases;
static void setup() {
    const bool th = vp::thorough();
    // every set of triangles of the inner cells, every choice of diagonals of those cells
    for (int shape = 0; shape < 4; shape++) {
        for (uint64_t d = 0; d < 2; d++) add(3, 3, d << 4, 1, false, shape);
        for (uint64_t d = 0; d < 4; d++) add(3, 4, (d & 1) << 5 | (d >> 1) << 6, 1, false, shape);
        for (uint64_t d = 0; d < 16; d++) add(4, 4, (d & 1) << 5 | (d >> 1 & 1) << 6 | (d >> 2 & 1) << 9 | (d >> 3) << 10, 1, false, shape);
    }
    // every set of inner cells: polyomino shaped holes
    for (int shape = 0; shape < 4; shape++) {
        for (int a = 3; a <= 6; a++)
            for (int b = a; b <= 6; b++)
                if ((a - 2) * (b - 2) <= (th ? 16 : 12)) add(a, b, 0, 1, true, shape);
    }
    for (size_t i = 0; i < sheets.size(); i++)
        for (uint64_t m = 1; m < (uint64_t)1 << sheets[i].inner.size(); m++) cases.push_back({ (int)i, m });
    vp::group("flat", cases.size(), [](uint64_t i) { run(sheets[cases[i].first], cases[i].second); },
              [](uint64_t i) { return vp::strf("%s without %llx", sheets[cases[i].first].s.name.c_str(), (unsigned long long)cases[i].second); });
}
VP_MAIN(setup)
