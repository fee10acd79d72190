// Reference model of a mesh (a set of oriented triangles with vertex positions, boundary loops and
// locks), and the audit that compares a real mesh with it through public accessors only.
#ifndef VP_REFMESH_HPP
#define VP_REFMESH_HPP
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/vertex.h"
#include "meshgen.hpp"
#include "vp.hpp"

namespace ref {
using namespace tinymesh;
typedef std::array<int, 3> Tri;
typedef std::array<double, 3> Pos;

inline Pos key(const Vec3 &v) {
    return { v[0] + 0.0, v[1] + 0.0, v[2] + 0.0 };
}
inline Tri rot(Tri t) {
    while (t[0] > t[1] || t[0] > t[2]) t = { t[1], t[2], t[0] };
    return t;
}
inline std::vector<int> rotLoop(std::vector<int> l) {
    std::vector<int> best = l;
    for (size_t i = 1; i < l.size(); i++) {
        std::rotate(l.begin(), l.begin() + 1, l.end());
        if (l < best) best = l;
    }
    return best;
}

struct RefMesh {
    std::map<int, Vec3> pos;            // vertex id -> position (ids are never reused)
    std::multiset<Tri> tris;            // rotated so that the smallest id comes first
    std::multiset<std::vector<int>> loops;  // hole loops, in the direction of the hole's halfedges
    std::set<int> locked;
    int nextId = 0;

    RefMesh() {
    }
    explicit RefMesh(const mg::Surf &s) {
        // only used vertices, in id order of the surface
        std::set<int> used;
        for (auto &t : s.t)
            for (int v : t) used.insert(v);
        for (int v : used) pos[v] = s.p[v];
        nextId = s.n;
        for (auto &t : s.t) tris.insert(rot(t));
        computeLoops();
    }
    void computeLoops() {
        loops.clear();
        std::set<std::pair<int, int>> de;
        for (auto &t : tris)
            for (int k = 0; k < 3; k++) de.insert({ t[k], t[(k + 1) % 3] });
        std::map<int, int> nxt;  // hole direction: b -> a for boundary edge a->b
        for (auto &e : de)
            if (!de.count({ e.second, e.first })) nxt[e.second] = e.first;
        while (!nxt.empty()) {
            int s = nxt.begin()->first, v = s;
            std::vector<int> l;
            do {
                l.push_back(v);
                int w = nxt[v];
                nxt.erase(v);
                v = w;
            } while (v != s && nxt.count(v));
            loops.insert(rotLoop(l));
        }
    }
    bool boundaryEdge(int a, int b) const {
        for (auto &l : loops)
            for (size_t i = 0; i < l.size(); i++) {
                int x = l[i], y = l[(i + 1) % l.size()];
                if ((x == a && y == b) || (x == b && y == a)) return true;
            }
        return false;
    }
    bool boundaryVertex(int a) const {
        for (auto &l : loops)
            for (int v : l)
                if (v == a) return true;
        return false;
    }
    std::set<int> neighbors(int v) const {
        std::set<int> r;
        for (auto &t : tris)
            for (int k = 0; k < 3; k++)
                if (t[k] == v) {
                    r.insert(t[(k + 1) % 3]);
                    r.insert(t[(k + 2) % 3]);
                }
        return r;
    }
    int opposite(int a, int b) const {  // third corner of the triangle with directed edge a->b
        for (auto &t : tris)
            for (int k = 0; k < 3; k++)
                if (t[k] == a && t[(k + 1) % 3] == b) return t[(k + 2) % 3];
        return -1;
    }
    void removeTri(int a, int b, int c) {
        auto it = tris.find(rot({ a, b, c }));
        if (it == tris.end()) throw std::runtime_error("model: no such triangle");
        tris.erase(it);
    }
    void addTri(int a, int b, int c) {
        tris.insert(rot({ a, b, c }));
    }
    // number of edges counted at halfedge level
    size_t halfedges() const {
        size_t n = tris.size() * 3;
        for (auto &l : loops) n += l.size();
        return n;
    }
    int euler() const {
        return (int)pos.size() - (int)halfedges() / 2 + (int)tris.size();
    }
    std::string show() const {
        std::string s;
        for (auto &t : tris) s += vp::strf("(%d %d %d)", t[0], t[1], t[2]);
        return s;
    }
    // ---- edit operations on sets ----
    void doFlip(int a, int b) {
        int c = opposite(a, b), d = opposite(b, a);
        removeTri(a, b, c);
        removeTri(b, a, d);
        addTri(a, d, c);
        addTri(b, c, d);
    }
    int doSplit(int a, int b) {
        int c = opposite(a, b), d = opposite(b, a);
        int m = nextId++;
        pos[m] = Vec3(0.5 * (pos[a][0] + pos[b][0]), 0.5 * (pos[a][1] + pos[b][1]), 0.5 * (pos[a][2] + pos[b][2]));
        removeTri(a, b, c);
        removeTri(b, a, d);
        addTri(a, m, c);
        addTri(m, b, c);
        addTri(b, m, d);
        addTri(m, a, d);
        return m;
    }
    void doCollapse(int keep, int gone) {
        std::vector<Tri> all(tris.begin(), tris.end());
        tris.clear();
        for (auto t : all) {
            int k = 0, g = 0;
            for (int v : t) k += v == keep, g += v == gone;
            if (k && g) continue;
            for (int &v : t)
                if (v == gone) v = keep;
            tris.insert(rot(t));
        }
        std::multiset<std::vector<int>> nl;
        for (auto l : loops) {
            for (int &v : l)
                if (v == gone) v = keep;
            nl.insert(rotLoop(l));
        }
        loops = nl;
        pos.erase(gone);
        locked.erase(gone);
    }
    bool manifold() const {
        int n = nextId;
        return mg::isManifold(std::vector<Tri>(tris.begin(), tris.end()), n);
    }
};

// The complete concrete state of a mesh, as numbers.
inline void dump(const Mesh &m, std::vector<uint64_t> &o) {
    o.clear();
    auto d = [&](double x) {
        uint64_t u;
        x += 0.0;
        memcpy(&u, &x, 8);
        o.push_back(u);
    };
    o.push_back(m.numVertices());
    o.push_back(m.numHalfedges());
    o.push_back(m.numFaces());
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vertex *v = m.vertex(i);
        Vec3 p = v->pos();
        d(p[0]);
        d(p[1]);
        d(p[2]);
        o.push_back(v->isLocked());
        o.push_back((uint64_t)v->index());
        auto it = v->he_begin();
        o.push_back(it.ptr() ? (uint64_t)it.ptr()->index() : ~0ull);
    }
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        o.push_back((uint64_t)h->index());
        o.push_back(h->src() ? (uint64_t)h->src()->index() : ~0ull);
        o.push_back(h->next() ? (uint64_t)h->next()->index() : ~0ull);
        o.push_back(h->rev() ? (uint64_t)h->rev()->index() : ~0ull);
        o.push_back(h->face() ? (uint64_t)h->face()->index() : ~0ull);
        o.push_back(h->isBoundary());
    }
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        o.push_back((uint64_t)f->index());
        auto it = f->he_begin();
        o.push_back(it.ptr() ? (uint64_t)it.ptr()->index() : ~0ull);
    }
}

struct H128 {
    uint64_t a, b;
    bool operator==(const H128 &o) const {
        return a == o.a && b == o.b;
    }
};
struct H128Hash {
    size_t operator()(const H128 &h) const {
        return h.a;
    }
};
inline H128 hash(const std::vector<uint64_t> &v) {
    uint64_t a = 0x1234567, b = 0x9e3779b97f4a7c15ull;
    for (uint64_t x : v) {
        a = vp::mix(a, x);
        b = (b ^ x) * 0x100000001b3ull;
        b ^= b >> 29;
    }
    return { a, b };
}

struct AuditOpt {
    bool flags = true;    // boundary and hole predicates
    bool exported = true; // export lists and self check
    bool byIndex = false; // model ids are vertex indices (positions may coincide)
};

// Result: the face that realises each hole loop etc. can be recomputed by callers; audit only checks.
inline void audit(const Mesh &m, const RefMesh &R, const char *when, AuditOpt opt = AuditOpt()) {
    using vp::fail;
    const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
    if (nv != (int)R.pos.size()) fail("%s: %d vertices instead of %d", when, nv, (int)R.pos.size());
    if (nh != (int)R.halfedges()) fail("%s: %d halfedges instead of %d", when, nh, (int)R.halfedges());
    if (nf != (int)(R.tris.size() + R.loops.size()))
        fail("%s: %d faces instead of %d triangles and %d holes", when, nf, (int)R.tris.size(), (int)R.loops.size());
    std::map<Pos, int> byPos;
    for (auto &x : R.pos) {
        if (!byPos.insert({ key(x.second), x.first }).second && !opt.byIndex) throw std::runtime_error("model: coincident positions");
    }
    std::vector<int> id(nv);
    for (int i = 0; i < nv; i++) {
        Vertex *v = m.vertex(i);
        if (!v) fail("%s: null vertex %d", when, i);
        if (v->index() != i) fail("%s: vertex at %d has index %d", when, i, v->index());
        if (opt.byIndex) {
            if (key(v->pos()) != key(R.pos.at(i))) fail("%s: vertex %d at unexpected position (%g %g %g)", when, i, v->pos()[0], v->pos()[1], v->pos()[2]);
            id[i] = i;
        } else {
            auto it = byPos.find(key(v->pos()));
            if (it == byPos.end()) fail("%s: vertex %d at unexpected position (%g %g %g)", when, i, v->pos()[0], v->pos()[1], v->pos()[2]);
            id[i] = it->second;
            byPos.erase(it);
        }
        if (v->isLocked() != (R.locked.count(id[i]) != 0)) fail("%s: lock of vertex %d is %d", when, id[i], (int)v->isLocked());
    }
    for (int i = 0; i < nh; i++)
        if (!m.halfedge(i)) fail("%s: null halfedge %d", when, i);
    auto knownH = [&](Halfedge *h) {
        return h && h->index() >= 0 && h->index() < nh && m.halfedge(h->index()) == h;
    };
    auto knownV = [&](Vertex *v) {
        return v && v->index() >= 0 && v->index() < nv && m.vertex(v->index()) == v;
    };
    auto knownF = [&](Face *f) {
        return f && f->index() >= 0 && f->index() < nf && m.face(f->index()) == f;
    };
    std::vector<int> outdeg(nv, 0);
    for (int i = 0; i < nh; i++) {
        Halfedge *h = m.halfedge(i);
        if (h->index() != i) fail("%s: halfedge at %d has index %d", when, i, h->index());
        if (!knownH(h->rev()) || !knownH(h->next())) fail("%s: halfedge %d links to a halfedge that is not in the mesh", when, i);
        if (!knownV(h->src())) fail("%s: halfedge %d starts at a vertex that is not in the mesh", when, i);
        if (!knownF(h->face())) fail("%s: halfedge %d has a face that is not in the mesh", when, i);
        outdeg[h->src()->index()]++;
    }
    std::vector<char> seen(nh, 0);
    for (int i = 0; i < nh; i++) {
        Halfedge *h = m.halfedge(i);
        if (h->rev() == h || h->rev()->rev() != h) fail("%s: halfedge %d and its twin disagree", when, i);
        if (h->dst() != h->next()->src()) fail("%s: end of halfedge %d wrong", when, i);
        if (h->rev()->src() != h->dst()) fail("%s: twin of halfedge %d does not run the other way", when, i);
        if (h->src() == h->dst()) fail("%s: halfedge %d is a loop", when, i);
    }
    // faces
    std::multiset<Tri> tris;
    std::multiset<std::vector<int>> loops;
    std::vector<int> isLoop(nf, 0);
    auto left = R.tris;
    auto leftLoops = R.loops;
    int covered = 0;
    std::vector<std::vector<int>> corner(nf);
    for (int i = 0; i < nf; i++) {
        Face *f = m.face(i);
        if (!f) fail("%s: null face %d", when, i);
        if (f->index() != i) fail("%s: face at %d has index %d", when, i, f->index());
        auto it = f->he_begin();
        Halfedge *h0 = it.ptr();
        if (!knownH(h0)) fail("%s: face %d has no halfedge of the mesh", when, i);
        Halfedge *h = h0;
        int n = 0;
        do {
            if (h->face() != f) fail("%s: halfedge %d lies on the loop of face %d but belongs to face %d", when, h->index(), i, h->face()->index());
            if (seen[h->index()]++) fail("%s: halfedge %d lies on two loops", when, h->index());
            corner[i].push_back(id[h->src()->index()]);
            h = h->next();
            n++;
            if (n > nh) fail("%s: loop of face %d does not close", when, i);
        } while (h != h0);
        covered += n;
        if (n < 3) fail("%s: face %d has %d corners", when, i, n);
    }
    if (covered != nh) fail("%s: %d of %d halfedges lie on a face", when, covered, nh);
    for (int i = 0; i < nh; i++) {
        Halfedge *h = m.halfedge(i);
        if (h->prev() == nullptr || h->prev()->next() != h) fail("%s: previous of halfedge %d wrong", when, i);
    }
    // match loops: a triangular loop may also be a triangle; prefer triangles
    for (int i = 0; i < nf; i++) {
        if (corner[i].size() != 3) {
            isLoop[i] = 1;
            continue;
        }
        Tri t = rot({ corner[i][0], corner[i][1], corner[i][2] });
        auto it = left.find(t);
        if (it != left.end()) left.erase(it);
        else isLoop[i] = 1;
    }
    for (int i = 0; i < nf; i++) {
        if (!isLoop[i]) continue;
        auto it = leftLoops.find(rotLoop(corner[i]));
        if (it == leftLoops.end()) {
            std::string s;
            for (int v : corner[i]) s += vp::strf(" %d", v);
            fail("%s: unexpected face%s", when, s.c_str());
        }
        leftLoops.erase(it);
    }
    if (!left.empty()) {
        Tri t = *left.begin();
        fail("%s: triangle %d %d %d is missing", when, t[0], t[1], t[2]);
    }
    if (!leftLoops.empty()) fail("%s: a hole loop is missing", when);
    // vertex orbits
    for (int i = 0; i < nv; i++) {
        Vertex *v = m.vertex(i);
        auto b = v->he_begin();
        Halfedge *h0 = b.ptr();
        if (!knownH(h0) || h0->src() != v) fail("%s: vertex %d has no outgoing halfedge", when, id[i]);
        int n = 0;
        Halfedge *h = h0;
        do {
            if (h->src() != v) fail("%s: orbit of vertex %d leaves the vertex", when, id[i]);
            n++;
            h = h->rev()->next();
            if (n > nh) fail("%s: orbit of vertex %d does not close", when, id[i]);
        } while (h != h0);
        if (n != outdeg[i]) fail("%s: vertex %d has %d outgoing halfedges, its orbit has %d", when, id[i], outdeg[i], n);
        if (v->degree() != n) fail("%s: degree of vertex %d is %d instead of %d", when, id[i], v->degree(), n);
    }
    if ((int)m.numEdges() * 2 != nh) fail("%s: edge count %d", when, (int)m.numEdges());
    if (opt.flags) {
        std::vector<char> vb(nv, 0), fb(nf, 0);
        for (int i = 0; i < nh; i++) {
            Halfedge *h = m.halfedge(i);
            bool want = isLoop[h->face()->index()] || isLoop[h->rev()->face()->index()];
            if (h->isBoundary() != want) fail("%s: edge %d-%d reported boundary=%d", when, id[h->src()->index()], id[h->dst()->index()], (int)h->isBoundary());
            if (want) vb[h->src()->index()] = vb[h->dst()->index()] = 1, fb[h->face()->index()] = 1;
        }
        for (int i = 0; i < nv; i++)
            if (m.vertex(i)->isBoundary() != (bool)vb[i]) fail("%s: vertex %d reported boundary=%d", when, id[i], (int)m.vertex(i)->isBoundary());
        for (int i = 0; i < nf; i++) {
            if (m.face(i)->isHole() != (bool)isLoop[i]) fail("%s: face %d reported hole=%d", when, i, (int)m.face(i)->isHole());
            if (m.face(i)->isBoundary() != (bool)fb[i]) fail("%s: face %d reported boundary=%d", when, i, (int)m.face(i)->isBoundary());
        }
    }
    if (opt.exported) {
        auto ev = m.getVertices();
        auto ei = m.getVertexIndices();
        if ((int)ev.size() != nv) fail("%s: %d exported vertices", when, (int)ev.size());
        for (int i = 0; i < nv; i++)
            if (ev[i] != m.vertex(i)->pos()) fail("%s: exported vertex %d differs", when, i);
        if (ei.size() != R.tris.size() * 3) fail("%s: %d exported indices for %d triangles", when, (int)ei.size(), (int)R.tris.size());
        auto l2 = R.tris;
        for (size_t k = 0; k < ei.size(); k += 3) {
            for (int j = 0; j < 3; j++)
                if ((int)ei[k + j] >= nv) fail("%s: exported index out of range", when);
            auto it = l2.find(rot({ id[ei[k]], id[ei[k + 1]], id[ei[k + 2]] }));
            if (it == l2.end()) fail("%s: exported triangle %d %d %d is not in the mesh", when, id[ei[k]], id[ei[k + 1]], id[ei[k + 2]]);
            l2.erase(it);
        }
        if (!m.verify()) fail("%s: the self check rejects the mesh", when);
    }
}

// model ids of the vertices of a real mesh, by position
inline std::vector<int> idsOf(const Mesh &m, const RefMesh &R) {
    std::map<Pos, int> byPos;
    for (auto &x : R.pos) byPos[key(x.second)] = x.first;
    std::vector<int> id;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        auto it = byPos.find(key(m.vertex(i)->pos()));
        id.push_back(it == byPos.end() ? -1 : it->second);
    }
    return id;
}
}  // namespace ref
#endif
