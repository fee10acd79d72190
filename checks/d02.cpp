// D02: Gaussian and mean curvature of every placed mesh of the alphabet, Gauss-Bonnet on the closed ones, and scaling.
#include "shapecheck.hpp"
using namespace sc;
using namespace tinymesh;

static void run(const Surf &s, double scale) {
    Mesh m(s.p, mg::flat(s));
    vp::add(vp::TRANSITIONS);
    vp::add(vp::TRACES);
    Truth t(s);
    R total = 0;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        if (t.border[i]) continue;
        Vertex *v = m.vertex(i);
        const R A = t.cell[i];
        R K = (2 * PI - t.angles[i]) / A;
        near("Gaussian curvature of vertex", i, v->K(), K, 1e-8, 1 / A);
        total += (R)v->K() * v->volonoiArea();
        if (geo::len(t.normal[i]) > 1e-2 * t.normalSize[i]) {
            P n = geo::unit(t.normal[i]);
            R H = -geo::dot(t.lap[i], n) / (2 * A);
            near("mean curvature of vertex", i, v->H(), H, 1e-7, geo::len(t.lap[i]) / A + 1 / sqrtl(A));
        }
    }
    if (t.closed()) near("total curvature over 2*pi, Euler characteristic", t.euler(), (double)(total / (2 * PI)), t.euler(), 1e-7);
    // the same mesh in another size
    for (double k : { 0.25, 8.0 }) {
        Surf r = shapes::scaled(s, k);
        Mesh m2(r.p, mg::flat(r));
        for (int i = 0; i < (int)m.numVertices(); i++) {
            if (t.border[i]) continue;
            const R A = t.cell[i];
            near("Gaussian curvature after scaling, vertex", i, m2.vertex(i)->K() * k * k, m.vertex(i)->K(), 1e-8, 1 / A);
            if (geo::len(t.normal[i]) > 1e-2 * t.normalSize[i])
                near("mean curvature after scaling, vertex", i, m2.vertex(i)->H() * k, m.vertex(i)->H(), 1e-7, geo::len(t.lap[i]) / A + 1 / sqrtl(A));
        }
    }
    (void)scale;
}

// convex shapes have positive mean curvature everywhere
static void convex(const Surf &s, double) {
    Mesh m(s.p, mg::flat(s));
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (!(m.vertex(i)->H() > 0)) vp::fail("mean curvature %g at vertex %d of a convex shape", m.vertex(i)->H(), i);
}

static void setup() {
    sc::groups(shapes::standard(vp::thorough(), true), { { 1.0, Vec3(0.0) } }, run);
    std::vector<Surf> c = { shapes::scaled(mg::icosahedron(), 1e-3), mg::project(mg::subdivide(mg::icosahedron()), 1.0), mg::project(mg::subdivide(mg::subdivide(mg::icosahedron())), 2.0) };
    for (int k = 4; k <= 9; k++) c.push_back(shapes::scaled(mg::bipyramidGeo(k), 1e-3));
    sc::groups({ shapes::listed("convex", c) }, { { 1.0, Vec3(0.0) } }, convex);
}
VP_MAIN(setup)
