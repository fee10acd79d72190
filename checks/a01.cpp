// A01: every argument in and around its valid range; wrong ones are refused and change nothing.
#include <climits>

#include "calls.hpp"
#include "core/triangle.h"
using namespace tinymesh;
using calls::Out;
using vp::fail;

static std::vector<mg::Surf> small_;
static std::vector<calls::Start> starts_;
static std::vector<calls::Op> edits_;

template <typename F>
static bool refused(F f) {
    vp::add(vp::TRANSITIONS);
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

static std::vector<int> around(int n) {
    std::vector<int> v = { INT_MIN, INT_MIN + 1, -65536, INT_MAX - 1, INT_MAX, 65536 + n, 1 << 24 };
    for (int i = -4; i <= n + 4; i++) v.push_back(i);
    return v;
}

static void elements(Mesh &m) {
    std::vector<uint64_t> before, now;
    ref::dump(m, before);
    const Mesh &c = m;
    const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
    auto check = [&](const char *what, int i, int n, const std::function<int()> &get) {
        int got = INT_MIN;
        bool no = refused([&] { got = get(); });
        bool valid = i >= 0 && i < n;
        if (no != !valid) fail("%s %d of %d is %s", what, i, n, no ? "refused" : "given out");
        if (valid && got != i) fail("%s %d has number %d", what, i, got);
    };
    for (int i : around(nv)) {
        check("vertex", i, nv, [&] { return m.vertex(i)->index(); });
        check("vertex (read-only)", i, nv, [&] { return c.vertex(i)->index(); });
    }
    for (int i : around(nh)) {
        check("halfedge", i, nh, [&] { return m.halfedge(i)->index(); });
        check("halfedge (read-only)", i, nh, [&] { return c.halfedge(i)->index(); });
    }
    for (int i : around(nf)) {
        check("face", i, nf, [&] { return m.face(i)->index(); });
        check("face (read-only)", i, nf, [&] { return c.face(i)->index(); });
    }
    for (int i = 0; i < nf; i++) {
        std::vector<Vec3> p;
        for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) p.push_back(it->pos());
        bool fits = false;
        bool no = refused([&] {
            Triangle t = m.face(i)->toTriangle();
            // the triangle of these corners: none of them is away from it
            fits = true;
            for (auto &q : p) fits = fits && t.distance(q) <= 1e-9;
        });
        if (no != (p.size() != 3)) fail("face %d with %zu corners is %s as a triangle", i, p.size(), no ? "refused" : "given out");
        if (!no && !fits) fail("face %d and its triangle differ", i);
    }
    ref::dump(m, now);
    if (now != before) fail("asking for elements changed the mesh");
    vp::add(vp::STATES);
    vp::add(vp::TRACES);
}

static void matrices(const mg::Surf &s, uint64_t locks) {
    Mesh m = calls::begin({ s, locks });
    std::vector<uint64_t> before, now;
    ref::dump(m, before);
    for (int k : around(3)) {
        EigenSparseMatrix L;
        bool no = refused([&] { L = getMeshLaplacian(m, (MeshLaplace)k); });
        if (no != (k < 0 || k > 2)) fail("matrix of kind %d is %s", k, no ? "refused" : "given out");
        if (!no && (L.rows() != s.n || L.cols() != s.n)) fail("matrix of kind %d is %dx%d for %d vertices", k, (int)L.rows(), (int)L.cols(), s.n);
        vp::add(vp::TRACES);
        vp::outcome(vp::mix(no, s.n));
    }
    auto L = getMeshLaplacian(m, MeshLaplace::Cotangent);
    for (int k : around(s.n))
        for (int times : { 1, 3 }) {
            if (k >= 2 && k < s.n && times == 1) continue;
            bool no = refused([&] {
                auto h = getHeatKernelSignatures(L, k, times);
                if (h.rows() != s.n || h.cols() != times) fail("signatures are %dx%d", (int)h.rows(), (int)h.cols());
            });
            if (no != (k < 2 || k >= s.n)) fail("signatures with %d eigenvalues of %d vertices are %s", k, s.n, no ? "refused" : "given out");
            vp::add(vp::TRACES);
        }
    ref::dump(m, now);
    if (now != before) fail("matrices changed the mesh");
    vp::add(vp::STATES);
}

// operations for triangle meshes: a larger hole is refused before anything is changed
static void unsupported(const mg::Surf &s) {
    for (auto &op : calls::table()) {
        std::string n = op.name;
        const bool filter = n == "normal gaussian" || n == "normal bilateral", curv = n.find("curvatures") != std::string::npos || n.find("derivatives") != std::string::npos || n.find("feature lines") != std::string::npos;
        if (!filter && !curv) continue;
        Mesh m = calls::begin({ s, 0x3 });
        bool large = false;
        for (int i = 0; i < (int)m.numFaces(); i++) {
            int k = 0;
            for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) k++;
            large |= k > 3;
        }
        if (!large) return;
        std::vector<uint64_t> before, now;
        ref::dump(m, before);
        Out o = calls::call(op, m);
        if (o.error.empty()) fail("%s of a mesh with a larger hole is not refused", op.name);
        ref::dump(m, now);
        if (now != before) fail("%s changed the mesh although it was refused", op.name);
        elements(m);
    }
    vp::outcome(s.n);
}

static void empty(int way) {
    mg::Surf s = shapes::unitSize({ mg::icosahedron() })[0];
    auto fresh = [&] {
        Mesh e;
        if (way == 1) {
            Mesh t(s.p, mg::flat(s));
            e = std::move(t);
            Mesh u;
            e = std::move(u);
        } else if (way == 2) {
            Mesh t;
            e = t.clone();
        }
        return e;
    };
    Mesh e = fresh(), e2 = fresh(), m(s.p, mg::flat(s));
    std::vector<uint64_t> before, now;
    ref::dump(m, before);
    if (!refused([&] { getHausdorffDistance(e, m); })) fail("distance of an empty mesh and a mesh");
    if (!refused([&] { getHausdorffDistance(m, e); })) fail("distance of a mesh and an empty mesh");
    if (!refused([&] { getHausdorffDistance(e, e2); })) fail("distance of two empty meshes");
    if (!refused([&] { getPerVertexShortestDistances(m, e); })) fail("distances of the vertices of a mesh to an empty mesh");
    if (refused([&] { if (getPerVertexShortestDistances(e, m).size() != 0) fail("distances of no vertices"); })) fail("distances of no vertices are refused");
    for (int k = 0; k < 3; k++) {
        BVH b;
        if (k == 1) b = BVH(e);
        if (k == 2) b.construct(s.p, {});
        for (double x : { -1.0, 0.0, 2.0 }) {
            if (!refused([&] { b.closestPoint(Vec3(x, 0.0, 0.0)); })) fail("nearest point of nothing");
            if (!refused([&] { b.distance(Vec3(x, 0.0, 0.0)); })) fail("distance to nothing");
        }
        if (k) continue;
        b.construct(s.p, mg::flat(s));
        if (refused([&] { b.distance(Vec3(1.0, 0.0, 0.0)); })) fail("an index built later is not usable");
    }
    elements(e);
    ref::dump(m, now);
    if (now != before) fail("a refused distance changed the mesh");
    // the empty mesh can be used afterwards
    e.construct(s.p, mg::flat(s));
    ref::dump(e, now);
    if (now != before) fail("building into the empty mesh gives another mesh");
    vp::add(vp::TRACES);
}

// every index list up to length four (seven with one wrong entry): the index refuses what is no list of triangles
static void lists(int n, const std::vector<uint32_t> &idx) {
    std::vector<Vec3> p;
    for (int i = 0; i < n; i++) p.push_back(Vec3((double)(i % 2), (double)(i / 2 % 2), 0.25 * i * i));
    bool ok = idx.size() % 3 == 0;
    for (uint32_t i : idx) ok = ok && i < (uint32_t)n;
    BVH b;
    if (refused([&] { b.construct(p, idx); }) == ok) fail("index list is %s", ok ? "refused" : "accepted");
    if (refused([&] { BVH c(p, idx); }) == ok) fail("index list is %s", ok ? "refused at once" : "accepted at once");
    vp::add(vp::TRACES);
    vp::outcome(vp::mix(ok, idx.size()));
}

static void setup() {
    const bool th = vp::thorough();
    for (int k = 4; k <= (th ? 8 : 7); k++)
        for (auto &s : mg::spheres(k)) small_.push_back(calls::shaken(shapes::unitSize({ s })[0], 0.02));
    static const size_t closed = small_.size();
    for (int k = 4; k <= 6; k++)
        for (auto &s : shapes::unitSize(mg::subsurfaces(mg::spheres(k), false))) small_.push_back(calls::shaken(s, 0.02));
    for (auto &s : shapes::large(true))
        if (s.n <= 100) small_.push_back(calls::shaken(s, 0.01));
    starts_ = calls::starts(true);
    for (auto &o : calls::table())
        if (!o.reads) edits_.push_back(o);
    vp::group("elements", small_.size(), [](uint64_t c) {
        Mesh m = calls::begin({ small_[c], 0x12 });
        elements(m);
        vp::outcome(m.numFaces());
        vp::sample(small_[c].name);
    }, [](uint64_t c) { return small_[c].name; }, 60);
    static const uint64_t E = edits_.size(), M = starts_.size();
    const int len = th ? 2 : 1;
    vp::group("histories", M * E * (len > 1 ? E : 1), [](uint64_t c) {
        Mesh m = calls::begin(starts_[c % M]);
        calls::call(edits_[c / M % E], m);
        if (vp::thorough()) calls::call(edits_[c / M / E], m);
        elements(m);
    }, [](uint64_t c) { return starts_[c % M].s.name + " " + edits_[c / M % E].name; }, 60);
    vp::group("matrices", closed, [](uint64_t c) { matrices(small_[c], c); }, [](uint64_t c) { return small_[c].name; }, 120);
    vp::group("holes", small_.size() - closed, [](uint64_t c) { unsupported(small_[closed + c]); }, [](uint64_t c) { return small_[closed + c].name; }, 120);
    vp::group("empty", 3, [](uint64_t c) { empty((int)c); }, [](uint64_t c) { return vp::strf("way %d", (int)c); }, 60);
    static const int top = th ? 7 : 6;
    static std::vector<uint64_t> first;
    uint64_t total = 0;
    for (int n = 3; n <= 5; n++)
        for (int len = 0; len <= top; len++) {
            first.push_back(total);
            uint64_t k = 1;
            const uint64_t base = len <= 4 ? n + 3 : 3;
            for (int i = 0; i < len; i++) k *= base;
            total += k;
        }
    auto at = [](uint64_t c, int &n) {
        size_t g = 0;
        while (g + 1 < first.size() && first[g + 1] <= c) g++;
        c -= first[g];
        n = 3 + (int)g / (top + 1);
        const int len = (int)g % (top + 1);
        const uint64_t base = len <= 4 ? n + 3 : 3;
        std::vector<uint32_t> v;
        for (int i = 0; i < len; i++, c /= base) {
            uint32_t d = (uint32_t)(c % base);
            // the first numbers, the first invalid ones, and the largest number there is
            if (len <= 4) v.push_back(d <= (uint32_t)n + 1 ? d : UINT32_MAX);
            else v.push_back(d == 0 ? (uint32_t)i % n : d == 1 ? (uint32_t)n - 1 : (uint32_t)n);
        }
        return v;
    };
    vp::group("index lists", total, [at](uint64_t c) {
        int n;
        auto v = at(c, n);
        lists(n, v);
    }, [at](uint64_t c) {
        int n;
        auto v = at(c, n);
        std::string s = vp::strf("%d points:", n);
        for (auto i : v) s += vp::strf(" %u", i);
        return s;
    }, 30);
}
VP_MAIN(setup)
