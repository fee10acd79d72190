// D01: areas, cell areas, normals and lengths of every placed mesh of the alphabet.
#include "core/triangle.h"
#include "shapecheck.hpp"
using namespace sc;
using namespace tinymesh;

static void run(const Surf &s, double scale) {
    Mesh m(s.p, mg::flat(s));
    vp::add(vp::TRANSITIONS);
    vp::add(vp::TRACES);
    Truth t(s);
    const R L = scale, A = (R)scale * scale;
    std::vector<R> cellByFace(s.n, 0);
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (f->isHole()) continue;
        auto c = corners(f);
        P a = t.p[c[0]], b = t.p[c[1]], d = t.p[c[2]];
        R ar = geo::area(a, b, d);
        near("area of face", i, f->area(), ar, 1e-9, A);
        nearVec("normal of face", i, f->normal(), geo::unit(geo::cross(b - a, d - a)), 1e-8);
        Triangle tri = f->toTriangle();
        // corners belong to it; the points mirrored at the centroid have their known nearest points
        P mid = (1 / 3.0L) * (a + b + d);
        for (int k : c) {
            P q = 2 * mid - t.p[k];
            near("distance of a corner from the triangle of face", i, tri.distance(s.p[k]), 0, 1e-7, L);
            near("distance from the triangle of face", i, tri.distance(Vec3((double)q.x, (double)q.y, (double)q.z)), geo::distTri(q, a, b, d), 1e-7, L);
        }
        R sum = 0;
        for (int k = 0; k < 3; k++) {
            double v = m.vertex(c[k])->volonoiArea(f);
            R w = Truth::mixed(t.p[c[k]], t.p[c[(k + 1) % 3]], t.p[c[(k + 2) % 3]]);
            near("cell area in a face at vertex", c[k], v, w, 1e-9, A);
            sum += v;
            cellByFace[c[k]] += v;
        }
        near("sum of the cell areas in face", i, (double)sum, ar, 1e-9, A);
    }
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        near("length of halfedge", i, h->length(), geo::len(t.p[h->src()->index()] - t.p[h->dst()->index()]), 1e-10, L);
    }
    for (int i = 0; i < (int)m.numVertices(); i++) {
        if (t.border[i]) continue;
        Vertex *v = m.vertex(i);
        near("cell area of vertex", i, v->volonoiArea(), t.cell[i], 1e-9, A);
        near("cell area by faces of vertex", i, v->volonoiArea(), cellByFace[i], 1e-9, A);
        if (geo::len(t.normal[i]) > 1e-3 * t.normalSize[i]) nearVec("normal of vertex", i, v->normal(), geo::unit(t.normal[i]), 1e-6);
    }
}

static void setup() {
    sc::groups(shapes::standard(vp::thorough(), true), { { 1.0, Vec3(0.0) }, { 0.01, Vec3(0.3, -0.2, 0.1) }, { 50.0, Vec3(100.0, 0.0, -30.0) } }, run);
}
VP_MAIN(setup)
