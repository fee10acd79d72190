// T01: every kind of walk around every vertex and face of every reachable mesh.
#include "ops.hpp"
using namespace mg;
using namespace tinymesh;
using vp::fail;
struct Job {
    Surf s;
    int depth;
};
static std::vector<Job> jobs;

// walks with prefix and postfix steps, reading through *, -> and ptr()
template <typename It, typename F>
static auto walk(It b, It e, bool postfix, int limit, F get) -> std::vector<decltype(get(b))> {
    std::vector<decltype(get(b))> r;
    It it = b;
    while (it != e) {
        if ((int)r.size() > limit) fail("a walk does not stop");
        if (postfix) {
            auto x = get(it);
            It old = it++;
            if (get(old) != x) fail("the value of a postfix step is not the element before the step");
            r.push_back(x);
        } else {
            r.push_back(get(it));
            It &back = ++it;
            if (&back != &it) fail("a prefix step does not return the iterator");
        }
    }
    return r;
}
template <typename It>
static auto access(It it) -> decltype(it.ptr()) {
    auto p = it.ptr();
    if (&*it != p || it.operator->() != p) fail("the three ways to read an iterator differ");
    return p;
}
template <typename C, typename P>
static std::vector<const C *> constant(const std::vector<P> &v) {
    return std::vector<const C *>(v.begin(), v.end());
}

static void checkWalks(ops::Sys &S) {
    Mesh &m = S.mesh;
    const ref::RefMesh &R = S.model;
    auto id = ref::idsOf(m, R);
    const int lim = (int)m.numHalfedges();
    std::vector<std::vector<Halfedge *>> out(m.numVertices());
    for (int i = 0; i < lim; i++) out[m.halfedge(i)->src()->index()].push_back(m.halfedge(i));
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vertex *v = m.vertex(i);
        const Vertex *cv = v;
        vp::add(vp::TRACES);
        auto he = walk(v->he_begin(), v->he_end(), false, lim, access<Vertex::HalfedgeIterator>);
        if (std::set<Halfedge *>(he.begin(), he.end()).size() != he.size()) fail("vertex %d: a halfedge is visited twice", id[i]);
        if (std::set<Halfedge *>(he.begin(), he.end()) != std::set<Halfedge *>(out[i].begin(), out[i].end()))
            fail("vertex %d: the halfedge walk visits %d of %d outgoing halfedges", id[i], (int)he.size(), (int)out[i].size());
        if (he != walk(v->he_begin(), v->he_end(), true, lim, access<Vertex::HalfedgeIterator>)) fail("vertex %d: postfix halfedge walk differs", id[i]);
        auto che = constant<Halfedge>(he);
        if (che != walk(cv->he_begin(), cv->he_end(), false, lim, access<Vertex::ConstHalfedgeIterator>)) fail("vertex %d: read-only halfedge walk differs", id[i]);
        if (che != walk(cv->he_begin(), cv->he_end(), true, lim, access<Vertex::ConstHalfedgeIterator>)) fail("vertex %d: read-only postfix halfedge walk differs", id[i]);
        std::vector<Vertex *> vs;
        std::vector<Face *> fs;
        for (auto *h : he) vs.push_back(h->dst()), fs.push_back(h->face());
        auto cvs = constant<Vertex>(vs);
        auto cfs = constant<Face>(fs);
        if (vs != walk(v->v_begin(), v->v_end(), false, lim, access<Vertex::VertexIterator>)) fail("vertex %d: vertex walk differs from the halfedge walk", id[i]);
        if (vs != walk(v->v_begin(), v->v_end(), true, lim, access<Vertex::VertexIterator>)) fail("vertex %d: postfix vertex walk differs", id[i]);
        if (cvs != walk(cv->v_begin(), cv->v_end(), false, lim, access<Vertex::ConstVertexIterator>)) fail("vertex %d: read-only vertex walk differs", id[i]);
        if (cvs != walk(cv->v_begin(), cv->v_end(), true, lim, access<Vertex::ConstVertexIterator>)) fail("vertex %d: read-only postfix vertex walk differs", id[i]);
        auto wf = walk(v->f_begin(), v->f_end(), false, lim, access<Vertex::FaceIterator>);
        if (fs != wf) fail("vertex %d: face walk differs from the halfedge walk", id[i]);
        if (fs != walk(v->f_begin(), v->f_end(), true, lim, access<Vertex::FaceIterator>)) fail("vertex %d: postfix face walk differs", id[i]);
        if (cfs != walk(cv->f_begin(), cv->f_end(), false, lim, access<Vertex::ConstFaceIterator>)) fail("vertex %d: read-only face walk differs", id[i]);
        if (cfs != walk(cv->f_begin(), cv->f_end(), true, lim, access<Vertex::ConstFaceIterator>)) fail("vertex %d: read-only postfix face walk differs", id[i]);
        if (v->degree() != (int)he.size()) fail("vertex %d: degree %d for %d neighbours", id[i], v->degree(), (int)he.size());
        // neighbours exactly once (a doubled edge after a hole fill is the only exception)
        std::multiset<int> seen;
        for (auto *w : vs) seen.insert(id[w->index()]);
        auto nb = R.neighbors(id[i]);
        if (!S.pseudo && seen != std::multiset<int>(nb.begin(), nb.end())) fail("vertex %d: neighbours are not visited exactly once", id[i]);
        // clockwise: v, following neighbour, neighbour is a triangle, or both lie on the border
        const int n = (int)vs.size();
        for (int k = 0; k < n; k++) {
            int a = id[vs[k]->index()], b = id[vs[(k + 1) % n]->index()];
            bool tri = R.tris.count(ref::rot({ id[i], b, a })) != 0;
            bool gap = R.boundaryEdge(id[i], a) && R.boundaryEdge(id[i], b) && he[(k + 1) % n]->face()->isHole();
            if (!tri && !gap) fail("vertex %d: %d is not followed by its clockwise neighbour", id[i], a);
        }
    }
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        const Face *cf = f;
        vp::add(vp::TRACES);
        auto he = walk(f->he_begin(), f->he_end(), false, lim, access<Face::HalfedgeIterator>);
        std::set<Halfedge *> want;
        for (int k = 0; k < lim; k++)
            if (m.halfedge(k)->face() == f) want.insert(m.halfedge(k));
        if (std::set<Halfedge *>(he.begin(), he.end()) != want || want.size() != he.size()) fail("face %d: halfedges are not visited exactly once", i);
        const int n = (int)he.size();
        if (f->numCorners() != n) fail("face %d: %d corners reported for %d halfedges", i, f->numCorners(), n);
        std::vector<Vertex *> vs;
        std::vector<Face *> fs;
        for (int k = 0; k < n; k++) {
            if (he[k]->next() != he[(k + 1) % n] || he[(k + 1) % n]->prev() != he[k]) fail("face %d: next and previous do not follow the walk", i);
            if (he[k]->dst() != he[(k + 1) % n]->src()) fail("face %d: the walk does not follow the orientation", i);
            vs.push_back(he[k]->src());
            fs.push_back(he[k]->rev()->face());
        }
        std::vector<int> loop;
        for (auto *v : vs) loop.push_back(id[v->index()]);
        bool tri = n == 3 && R.tris.count(ref::rot({ loop[0], loop[1], loop[2] }));
        if (!tri && !R.loops.count(ref::rotLoop(loop))) fail("face %d: its corners are neither a triangle nor a hole in their orientation", i);
        auto che = constant<Halfedge>(he);
        auto cvs = constant<Vertex>(vs);
        auto cfs = constant<Face>(fs);
        if (he != walk(f->he_begin(), f->he_end(), true, lim, access<Face::HalfedgeIterator>)) fail("face %d: postfix halfedge walk differs", i);
        if (che != walk(cf->he_begin(), cf->he_end(), false, lim, access<Face::ConstHalfedgeIterator>)) fail("face %d: read-only halfedge walk differs", i);
        if (che != walk(cf->he_begin(), cf->he_end(), true, lim, access<Face::ConstHalfedgeIterator>)) fail("face %d: read-only postfix halfedge walk differs", i);
        if (vs != walk(f->v_begin(), f->v_end(), false, lim, access<Face::VertexIterator>)) fail("face %d: vertex walk differs", i);
        if (vs != walk(f->v_begin(), f->v_end(), true, lim, access<Face::VertexIterator>)) fail("face %d: postfix vertex walk differs", i);
        if (cvs != walk(cf->v_begin(), cf->v_end(), false, lim, access<Face::ConstVertexIterator>)) fail("face %d: read-only vertex walk differs", i);
        if (cvs != walk(cf->v_begin(), cf->v_end(), true, lim, access<Face::ConstVertexIterator>)) fail("face %d: read-only postfix vertex walk differs", i);
        if (fs != walk(f->f_begin(), f->f_end(), false, lim, access<Face::FaceIterator>)) fail("face %d: face walk differs", i);
        if (fs != walk(f->f_begin(), f->f_end(), true, lim, access<Face::FaceIterator>)) fail("face %d: postfix face walk differs", i);
        if (cfs != walk(cf->f_begin(), cf->f_end(), false, lim, access<Face::ConstFaceIterator>)) fail("face %d: read-only face walk differs", i);
        if (cfs != walk(cf->f_begin(), cf->f_end(), true, lim, access<Face::ConstFaceIterator>)) fail("face %d: read-only postfix face walk differs", i);
    }
}

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sph[12];
    for (int n = 4; n <= (th ? 11 : 10); n++) sph[n] = spheres(n);
    auto add = [&](const Surf &s, int depth) { jobs.push_back({ s, depth }); };
    for (int n = 4; n <= 7; n++)
        for (auto &s : sph[n]) add(s, 2);
    for (auto &s : sph[8]) add(s, th ? 2 : 1);
    for (auto &s : sph[9]) add(s, 1);
    for (auto &s : sph[10]) add(s, th ? 1 : 0);
    for (auto &s : sph[11]) add(s, 0);
    for (int n = 4; n <= 6; n++)
        for (auto &s : subsurfaces(sph[n], false)) add(s, n < 6 ? 2 : 1);
    for (auto &s : subsurfaces(sph[7], false)) add(s, 1);
    for (auto &s : subsurfaces(sph[8], false, th ? 12 : 5)) add(s, th ? 1 : 0);
    for (auto &s : subsurfaces({ icosahedron() }, true, th ? 4 : 3)) add(s, th ? 1 : 0);
    add(torus7(), 2);
    add(torusGrid(3, 3), 1);
    add(torusGrid(4, 5), 1);
    for (int k = 3; k <= 16; k++) add(bipyramidGeo(k), 1);
    auto bump = [](int i, int j) { return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j; };
    for (uint64_t d = 0; d < 16; d++) add(sheet(2, 2, d, bump), 2);
    for (uint64_t d : masks(9, th ? 9 : 2)) add(sheet(3, 3, d, bump), 1);
    for (auto &s : shapes::large(true)) add(s, 0);
    for (auto &s : shapes::huge(true)) add(s, 0);
    add(subdivide(icosahedron()), 1);
    add(disjoint(sph[4][0], sheet(2, 2, 5, bump), Vec3(5000.0, 0.0, 0.0)), 1);
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL);
    vp::group("walks", jobs.size(), [=](uint64_t i) { ops::explore(jobs[i].s, 0, ALL, jobs[i].depth, checkWalks); },
              [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 300);
}
VP_MAIN(setup)
