// Edit operations on a real mesh, each compared with the reference model.
#ifndef VP_OPS_HPP
#define VP_OPS_HPP
#include <unordered_set>

#include "geo.hpp"
#include "refmesh.hpp"
#include "shapes.hpp"

namespace ops {
using namespace tinymesh;
using ref::RefMesh;

enum Kind { FLIP, SPLIT, COLLAPSE, COLLAPSEFACE, FILL, MOVE, LOCK };
struct Op {
    int kind;
    int arg;
};
inline std::string show(const Op &o) {
    static const char *n[] = { "flip", "split", "collapse", "collapseFace", "fillHoles", "move", "lock" };
    return vp::strf("%s(%d)", n[o.kind], o.arg);
}
inline std::string show(const std::vector<Op> &v) {
    std::string s;
    for (auto &o : v) s += (s.empty() ? "" : " ") + show(o);
    return s.empty() ? "-" : s;
}

struct Sys {
    Mesh mesh;
    RefMesh model;
    bool pseudo = false;  // a hole fill doubled an edge or closed a two-triangle pillow: no further edits are judged
    bool cached = false;
    std::vector<int> id;
    std::vector<uint64_t> before;
    void refresh() {
        if (cached) return;
        id = ref::idsOf(mesh, model);
        ref::dump(mesh, before);
        cached = true;
    }
    Sys(const mg::Surf &s, uint64_t locks = 0)
        : mesh(s.p, mg::flat(s))
        , model(s) {
        setLocks(locks);
    }
    void setLocks(uint64_t locks) {
        if (!locks) return;
        auto id = ref::idsOf(mesh, model);
        for (int i = 0; i < (int)id.size(); i++)
            if (id[i] < 64 && (locks >> id[i] & 1)) {
                mesh.vertex(i)->lock();
                model.locked.insert(id[i]);
            }
    }
};

// 1: the retained triangles around `gone` all face the same way as seen from `keep`; 0: they do not; -1: undecided
inline int collapseFacing(const RefMesh &R, int keep, int gone) {
    if (R.boundaryVertex(gone)) return -1;
    geo::P k(R.pos.at(keep)), g(R.pos.at(gone)), norm;
    for (auto &t : R.tris)
        for (int j = 0; j < 3; j++)
            if (t[j] == gone) {
                geo::P x(R.pos.at(t[(j + 1) % 3])), y(R.pos.at(t[(j + 2) % 3]));
                norm = norm + geo::cross(x - g, y - g);
            }
    if (geo::len(norm) < 1e-6) return -1;
    int pos = 0, neg = 0;
    for (auto &t : R.tris)
        for (int j = 0; j < 3; j++)
            if (t[j] == gone) {
                int a = t[(j + 1) % 3], b = t[(j + 2) % 3];
                if (a == keep || b == keep) continue;
                geo::P x(R.pos.at(a)), y(R.pos.at(b));
                geo::P c = geo::cross(x - k, y - k);
                geo::R s = geo::dot(norm, c);
                if (fabsl(s) <= 1e-7L * geo::len(norm) * (geo::len(c) + 1e-30L)) return -1;
                (s > 0 ? pos : neg)++;
            }
    return pos && neg ? 0 : 1;
}

inline bool collapseAllowed(const RefMesh &R, int a, int b) {
    int c = R.opposite(a, b), d = R.opposite(b, a);
    if (c < 0 || d < 0 || R.boundaryEdge(a, b)) return false;
    int e[4][2] = { { b, c }, { c, a }, { a, d }, { d, b } };
    for (auto &x : e)
        if (R.boundaryEdge(x[0], x[1])) return false;
    auto na = R.neighbors(a), nb = R.neighbors(b);
    if (na.size() <= 3 || nb.size() <= 3 || R.neighbors(c).size() <= 4 || R.neighbors(d).size() <= 4) return false;
    int common = 0;
    for (int v : na) common += (int)nb.count(v);
    if (common != 2) return false;
    if (R.boundaryVertex(a) && R.boundaryVertex(b)) return false;
    return true;
}

// After a successful collapse of edge a-b: which end is gone?  Judge it and update the model.
inline int judgeCollapse(const Mesh &m, RefMesh &R, int a, int b) {
    std::set<ref::Pos> have;
    for (int i = 0; i < (int)m.numVertices(); i++) have.insert(ref::key(m.vertex(i)->pos()));
    bool ha = have.count(ref::key(R.pos[a])) != 0, hb = have.count(ref::key(R.pos[b])) != 0;
    if (ha == hb) vp::fail("collapse of edge %d-%d: %s end point remains at its position", a, b, ha ? "every" : "no");
    int keep = ha ? a : b, gone = ha ? b : a;
    if (R.boundaryVertex(gone) && !R.boundaryVertex(keep)) vp::fail("collapse of edge %d-%d removed its boundary vertex", a, b);
    if (!collapseAllowed(R, a, b)) vp::fail("collapse of edge %d-%d succeeded although it is unsafe", a, b);
    if (collapseFacing(R, keep, gone) == 0) vp::fail("collapse of edge %d-%d succeeded although it turns a triangle over", a, b);
    R.doCollapse(keep, gone);
    if (!R.manifold()) vp::fail("collapse of edge %d-%d left a non-manifold surface", a, b);
    return keep;
}

inline bool hasDoubleEdge(const RefMesh &R) {
    std::set<std::pair<int, int>> de;
    for (auto &t : R.tris)
        for (int k = 0; k < 3; k++)
            if (!de.insert({ t[k], t[(k + 1) % 3] }).second) return true;
    return false;
}

// triangles of the mesh in model ids
inline std::multiset<ref::Tri> trianglesOf(const Mesh &m, const RefMesh &R) {
    auto id = ref::idsOf(m, R);
    std::multiset<ref::Tri> r;
    auto e = m.getVertexIndices();
    for (size_t k = 0; k + 2 < e.size(); k += 3) r.insert(ref::rot({ id[e[k]], id[e[k + 1]], id[e[k + 2]] }));
    return r;
}

// Fill result: `added` must be a triangulation of the loop's polygon that closes it.
inline void judgeFill(const std::multiset<ref::Tri> &before, const std::multiset<ref::Tri> &after,
                      const std::vector<std::vector<int>> &loops) {
    auto left = after;
    for (auto &t : before) {
        auto it = left.find(t);
        if (it == left.end()) vp::fail("triangle %d %d %d disappeared while filling", t[0], t[1], t[2]);
        left.erase(it);
    }
    size_t want = 0;
    for (auto &l : loops) want += l.size() - 2;
    if (left.size() != want) vp::fail("filling added %d triangles instead of %d", (int)left.size(), (int)want);
    // The added triangles must contain every hole edge once in the hole's direction, their other
    // directed edges must pair up, and every triangle must use corners of a single loop.
    std::map<std::pair<int, int>, int> de;
    for (auto &t : left) {
        for (int k = 0; k < 3; k++) de[{ t[k], t[(k + 1) % 3] }]++;
        bool ok = false;
        for (auto &l : loops) {
            int c = 0;
            for (int v : t) c += std::find(l.begin(), l.end(), v) != l.end();
            ok |= c == 3;
        }
        if (!ok) vp::fail("added triangle %d %d %d does not belong to one hole", t[0], t[1], t[2]);
    }
    for (auto &l : loops)
        for (size_t i = 0; i < l.size(); i++) {
            auto e = std::make_pair(l[i], l[(i + 1) % l.size()]);
            if (de[e] < 1) vp::fail("hole edge %d->%d is not covered by an added triangle", e.first, e.second);
            de[e]--;
        }
    for (auto &x : de)
        if (x.second != de[{ x.first.second, x.first.first }]) vp::fail("added triangles do not match along %d-%d", x.first.first, x.first.second);
}

// Executes one operation and compares.  Returns false if it was refused.
inline bool step(Sys &S, const Op &o, bool doAudit = true) {
    using vp::fail;
    Mesh &m = S.mesh;
    RefMesh &R = S.model;
    S.refresh();
    const std::vector<int> id = S.id;
    static thread_local std::vector<uint64_t> after;
    bool ok = true;
    auto unchanged = [&](const char *what) {
        ref::dump(m, after);
        if (S.before != after) fail("%s was refused but the mesh changed", what);
    };
    vp::add(vp::TRANSITIONS);
    switch (o.kind) {
    case FLIP: {
        Halfedge *h = m.halfedge(o.arg);
        int a = id[h->src()->index()], b = id[h->dst()->index()];
        int c = R.opposite(a, b), d = R.opposite(b, a);
        bool interior = c >= 0 && d >= 0;
        bool want = interior && R.neighbors(a).size() > 4 && R.neighbors(b).size() > 4 && !R.neighbors(c).count(d);
        ok = m.flipHE(h);
        if (ok != want) fail("flip of edge %d-%d %s", a, b, ok ? "succeeded although it must be refused" : "was refused although it is possible");
        if (ok) R.doFlip(a, b);
        else unchanged("flip");
        break;
    }
    case SPLIT: {
        Halfedge *h = m.halfedge(o.arg);
        int a = id[h->src()->index()], b = id[h->dst()->index()];
        bool want = R.opposite(a, b) >= 0 && R.opposite(b, a) >= 0;
        ok = m.splitHE(h);
        if (ok != want) fail("split of edge %d-%d %s", a, b, ok ? "succeeded although it is a boundary edge" : "was refused although it is an interior edge");
        if (ok) R.doSplit(a, b);
        else unchanged("split");
        break;
    }
    case COLLAPSE: {
        Halfedge *h = m.halfedge(o.arg);
        int a = id[h->src()->index()], b = id[h->dst()->index()];
        ok = m.collapseHE(h);
        if (ok) {
            judgeCollapse(m, R, a, b);
        } else {
            if (collapseAllowed(R, a, b) && collapseFacing(R, a, b) == 1 && collapseFacing(R, b, a) == 1)
                fail("collapse of edge %d-%d was refused although it is safe", a, b);
            unchanged("collapse");
        }
        break;
    }
    case COLLAPSEFACE: {
        Face *f = m.face(o.arg);
        std::vector<int> c;
        Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        do {
            c.push_back(id[h->src()->index()]);
            h = h->next();
        } while (h != h0);
        if (c.size() != 3 || R.tris.find(ref::rot({ c[0], c[1], c[2] })) == R.tris.end()) return false;
        size_t nv = R.pos.size();
        ok = m.collapseFace(f);
        size_t gone = nv - m.numVertices();
        if (gone > 2) fail("face collapse removed %d vertices", (int)gone);
        if (ok && gone != 2) fail("face collapse reported success but removed %d vertices", (int)gone);
        if (!ok && gone == 2) fail("face collapse reported failure but merged all corners");
        if (gone == 0) {
            unchanged("face collapse");
            break;
        }
        std::set<ref::Pos> have;
        for (int i = 0; i < (int)m.numVertices(); i++) have.insert(ref::key(m.vertex(i)->pos()));
        std::vector<int> kept, lost;
        for (int v : c) (have.count(ref::key(R.pos[v])) ? kept : lost).push_back(v);
        if (lost.size() != gone) fail("face collapse removed a vertex that is not a corner");
        // some sequence of safe edge collapses must explain the result
        auto got = [&](const RefMesh &X) {
            auto idx = ref::idsOf(m, X);
            std::multiset<ref::Tri> r;
            auto e = m.getVertexIndices();
            for (size_t k = 0; k + 2 < e.size(); k += 3) r.insert(ref::rot({ idx[e[k]], idx[e[k + 1]], idx[e[k + 2]] }));
            return r;
        };
        bool explained = false;
        RefMesh res;
        auto tryCollapse = [&](const RefMesh &X, int keep, int g, RefMesh &Y) {
            if (!collapseAllowed(X, keep, g) || collapseFacing(X, keep, g) == 0) return false;
            Y = X;
            Y.doCollapse(keep, g);
            return Y.manifold();
        };
        std::sort(lost.begin(), lost.end());
        do {
            for (int k1 : c) {
                if (k1 == lost[0]) continue;
                RefMesh Y;
                if (!tryCollapse(R, k1, lost[0], Y)) continue;
                if (lost.size() == 1) {
                    if (got(Y) == Y.tris) explained = true, res = Y;
                } else {
                    for (int k2 : c) {
                        if (k2 == lost[0] || k2 == lost[1]) continue;
                        RefMesh Z;
                        if (tryCollapse(Y, k2, lost[1], Z) && got(Z) == Z.tris) explained = true, res = Z;
                    }
                }
            }
        } while (std::next_permutation(lost.begin(), lost.end()));
        if (!explained) fail("face collapse of %d %d %d is not a sequence of safe edge collapses", c[0], c[1], c[2]);
        R = res;
        break;
    }
    case FILL: {
        std::vector<std::vector<int>> loops(R.loops.begin(), R.loops.end());
        auto t0 = R.tris;
        m.fillHoles();
        if (m.numVertices() != R.pos.size()) fail("filling changed the number of vertices");
        auto idx = ref::idsOf(m, R);
        for (int v : idx)
            if (v < 0) fail("filling moved a vertex");
        auto t1 = trianglesOf(m, R);
        judgeFill(t0, t1, loops);
        R.tris = t1;
        R.loops.clear();
        if (hasDoubleEdge(R)) S.pseudo = true;
        for (auto &x : R.pos)
            if (R.neighbors(x.first).size() < 3) S.pseudo = true;
        break;
    }
    case MOVE: {
        int v = o.arg;
        Vec3 p = m.vertex(v)->pos() + Vec3(16.0, -32.0, 64.0);
        if (!m.vertex(v)->isLocked()) {
            m.vertex(v)->setPos(p);
            R.pos[id[v]] = p;
        }
        break;
    }
    case LOCK: {
        int v = o.arg;
        if (m.vertex(v)->isLocked()) {
            m.vertex(v)->unlock();
            R.locked.erase(id[v]);
        } else {
            m.vertex(v)->lock();
            R.locked.insert(id[v]);
        }
        break;
    }
    }
    if (!ok && o.kind != COLLAPSEFACE) return false;  // concrete state is identical to the audited one
    S.cached = false;
    if (doAudit) {
        vp::add(vp::TRACES);
        ref::audit(m, R, show(o).c_str());
    }
    return ok;
}

inline std::vector<Op> enabled(const Sys &S, unsigned kinds) {
    std::vector<Op> r;
    const int nh = (int)S.mesh.numHalfedges();
    for (int k : { FLIP, SPLIT, COLLAPSE })
        if (kinds >> k & 1)
            for (int i = 0; i < nh; i++) r.push_back({ k, i });
    if (kinds >> COLLAPSEFACE & 1)
        for (int i = 0; i < (int)S.mesh.numFaces(); i++) r.push_back({ COLLAPSEFACE, i });
    if (kinds >> FILL & 1 && !S.model.loops.empty()) r.push_back({ FILL, 0 });
    if (kinds >> MOVE & 1)
        for (int i = 0; i < (int)S.mesh.numVertices(); i++) r.push_back({ MOVE, i });
    if (kinds >> LOCK & 1)
        for (int i = 0; i < (int)S.mesh.numVertices(); i++) r.push_back({ LOCK, i });
    return r;
}

// Executes an operation on the mesh only (used to re-create a state whose model is stored).
inline void raw(Mesh &m, const Op &o) {
    switch (o.kind) {
    case FLIP: m.flipHE(m.halfedge(o.arg)); break;
    case SPLIT: m.splitHE(m.halfedge(o.arg)); break;
    case COLLAPSE: m.collapseHE(m.halfedge(o.arg)); break;
    case COLLAPSEFACE: m.collapseFace(m.face(o.arg)); break;
    case FILL: m.fillHoles(); break;
    case MOVE:
        if (!m.vertex(o.arg)->isLocked()) m.vertex(o.arg)->setPos(m.vertex(o.arg)->pos() + Vec3(16.0, -32.0, 64.0));
        break;
    case LOCK:
        if (m.vertex(o.arg)->isLocked()) m.vertex(o.arg)->unlock();
        else m.vertex(o.arg)->lock();
        break;
    }
}

// Breadth-first search over all operation sequences up to the depth, from one start mesh.
// Histories that lead to the same concrete state are merged.
inline void explore(const mg::Surf &s, uint64_t locks, unsigned kinds, int depth,
                    const std::function<void(Sys &)> &visit = nullptr) {
    std::unordered_set<ref::H128, ref::H128Hash> seen;
    struct Node {
        std::vector<Op> hist;
        RefMesh model;
        ref::H128 hash;
    };
    std::vector<Node> frontier, next;
    std::vector<uint64_t> buf;
    {
        Sys S(s, locks);
        ref::audit(S.mesh, S.model, "start");
        ref::dump(S.mesh, buf);
        seen.insert(ref::hash(buf));
        vp::add(vp::STATES);
        frontier.push_back({ {}, S.model, ref::hash(buf) });
        if (visit) visit(S);
    }
    std::string last = "no operation is possible";
    for (int d = 0; d < depth; d++) {
        next.clear();
        for (auto &node : frontier) {
            std::unique_ptr<Sys> S;
            auto restore = [&]() {
                S.reset(new Sys(s, locks));
                for (auto &q : node.hist) raw(S->mesh, q);
                ref::dump(S->mesh, buf);
                if (ref::hash(buf) == node.hash) {
                    S->model = node.model;
                    return;
                }
                // The numbering of elements is not reproducible: carry the model along instead.
                S.reset(new Sys(s, locks));
                for (auto &q : node.hist) step(*S, q, false);
            };
            restore();
            auto todo = enabled(*S, kinds);
            bool dirty = false;
            for (auto &o : todo) {
                if (dirty) {
                    restore();
                    dirty = false;
                }
                auto trace = [&]() {
                    std::vector<Op> h = node.hist;
                    h.push_back(o);
                    return s.name + ": " + ops::show(h) + ": ";
                };
                try {
                    bool ok = step(*S, o);
                    if (!S->cached) dirty = true;
                    else continue;
                    (void)ok;
                    ref::dump(S->mesh, buf);
                    auto hh = ref::hash(buf);
                    if (!seen.insert(hh).second) continue;
                    vp::add(vp::STATES);
                    vp::outcome(hh.a);
                    if (visit) visit(*S);
                    if (d + 1 < depth && !S->pseudo) {
                        std::vector<Op> h = node.hist;
                        h.push_back(o);
                        next.push_back({ h, S->model, hh });
                    } else {
                        last = trace();
                    }
                } catch (const vp::Violation &v) {
                    throw vp::Violation{ trace() + v.what };
                } catch (const std::exception &e) {
                    throw vp::Violation{ trace() + "unexpected error " + e.what() };
                }
            }
        }
        frontier.swap(next);
    }
    vp::sample(last);
}
}  // namespace ops
#endif
