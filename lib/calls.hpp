// A table of the library's operations, each with small fixed options, returning everything it produced.
#ifndef VP_CALLS_HPP
#define VP_CALLS_HPP
#include <unistd.h>

#include <fstream>
#include <functional>
#include <random>
#include <sstream>

#include "core/bvh.h"
#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/vertex.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "refmesh.hpp"
#include "remesh/remesh.h"
#include "restore/restore.h"
#include "shapes.hpp"

// random orders are the identity
extern "C" bool vp_order(size_t n, size_t *order) {
    for (size_t i = 0; i < n; i++) order[i] = i;
    return true;
}
std::random_device::result_type std::random_device::_M_getval() {
    return 1;
}

namespace calls {
using tinymesh::Face;
using tinymesh::Halfedge;
using tinymesh::Mesh;
using tinymesh::Vertex;
using mg::Surf;

struct Out {
    std::string error;
    std::vector<double> num;
    std::vector<int64_t> whole;
    std::string bytes;
    void put(double d) {
        num.push_back(d);
    }
    void put(const Vec3 &v) {
        for (int k = 0; k < 3; k++) num.push_back(v[k]);
    }
    template <typename D>
    void matrix(const Eigen::MatrixBase<D> &m) {
        whole.push_back(m.rows());
        whole.push_back(m.cols());
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++) num.push_back(m(i, j));
    }
    void mesh(const Mesh &m) {
        auto idx = m.getVertexIndices();
        whole.push_back((int64_t)idx.size());
        whole.insert(whole.end(), idx.begin(), idx.end());
        whole.push_back((int64_t)m.numVertices());
        whole.push_back((int64_t)m.numHalfedges());
        whole.push_back((int64_t)m.numFaces());
        for (int i = 0; i < (int)m.numVertices(); i++) {
            put(m.vertex(i)->pos());
            whole.push_back(m.vertex(i)->isLocked());
        }
        for (int i = 0; i < (int)m.numFaces(); i++) whole.push_back(m.face(i)->isHole());
    }
    // empty if equal up to rounding
    std::string differs(const Out &o) const {
        if (error.empty() != o.error.empty()) return error.empty() ? "no error is reported" : "an error is reported: " + error;
        if (whole != o.whole || num.size() != o.num.size()) return "other counts, indices or flags";
        if (bytes != o.bytes) return "another file";
        for (size_t i = 0; i < num.size(); i++) {
            double a = num[i], b = o.num[i];
            if (std::isnan(a) && std::isnan(b)) continue;
            if (a == b) continue;
            if (!(std::fabs(a - b) <= 1e-8 * (1 + std::fabs(b)))) return vp::strf("number %zu is %.12g instead of %.12g", i, a, b);
        }
        return "";
    }
};

struct Op {
    const char *name;
    bool reads;  // leaves the mesh alone
    std::function<void(Mesh &, Out &)> run;
    std::function<void(const Mesh &)> light;  // the same with a cheap result, for hidden reads
};

inline std::string file(const char *ext) {
    return vp::eng().scratch + vp::strf("/call%d.%s", (int)getpid(), ext);
}

inline Surf shaken(Surf s, double k) {
    for (int i = 0; i < s.n; i++)
        for (int d = 0; d < 3; d++) s.p[i][d] += k * (((i * 31 + d * 17 + i * i * 7 + i * d * 5) % 41) - 20) / 20.0;
    return shapes::ordered(s);
}

inline const Surf &other() {
    static const Surf s = shaken(mg::project(mg::subdivide(mg::icosahedron()), 0.8), 0.03);
    return s;
}

inline std::vector<Op> table() {
    using namespace tinymesh;
    std::vector<Op> t;
    auto reads = [&](const char *n, std::function<void(Mesh &, Out &)> f) { t.push_back({ n, true, f, nullptr }); };
    auto edits = [&](const char *n, std::function<void(Mesh &)> f) {
        t.push_back({ n, false, [f](Mesh &m, Out &o) {
                         f(m);
                         o.mesh(m);
                     }, nullptr });
    };
    reads("export", [](Mesh &m, Out &o) {
        for (auto &p : m.getVertices()) o.put(p);
        for (auto i : m.getVertexIndices()) o.whole.push_back(i);
    });
    reads("clone", [](Mesh &m, Out &o) {
        Mesh c = m.clone();
        o.mesh(c);
    });
    for (const char *ext : { "obj", "ply" })
        reads(ext[0] == 'o' ? "save obj" : "save ply", [ext](Mesh &m, Out &o) {
            std::string f = file(ext);
            m.save(f);
            std::ifstream in(f, std::ios::binary);
            std::stringstream b;
            b << in.rdbuf();
            o.bytes = b.str();
            unlink(f.c_str());
        });
    reads("measures", [](Mesh &m, Out &o) {
        o.put(m.getMeanEdgeLength());
        o.put(m.getMeanFaceArea());
        o.whole.push_back(m.verify());
        o.whole.push_back((int64_t)m.numEdges());
        for (int i = 0; i < (int)m.numVertices(); i++) {
            Vertex *v = m.vertex(i);
            o.whole.push_back(v->degree());
            o.whole.push_back(v->isBoundary());
            o.put(v->normal());
            if (v->isBoundary()) continue;
            o.put(v->volonoiArea());
            o.put(v->K());
            o.put(v->H());
        }
        for (int i = 0; i < (int)m.numFaces(); i++) {
            if (m.face(i)->isHole()) continue;
            o.put(m.face(i)->area());
            o.put(m.face(i)->normal());
        }
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            o.put(m.halfedge(i)->length());
            if (!m.halfedge(i)->isBoundary()) o.put(m.halfedge(i)->cotWeight());
        }
    });
    reads("mean angle", [](Mesh &m, Out &o) { o.put(m.getMeanDihedralAngle()); });
    reads("distance from", [](Mesh &m, Out &o) {
        Mesh q(other().p, mg::flat(other()));
        o.put(getHausdorffDistance(m, q));
        o.matrix(getPerVertexShortestDistances(m, q));
    });
    reads("distance to", [](Mesh &m, Out &o) {
        Mesh q(other().p, mg::flat(other()));
        o.put(getHausdorffDistance(q, m));
        o.matrix(getPerVertexShortestDistances(q, m));
    });
    reads("nearest point", [](Mesh &m, Out &o) {
        BVH b(m);
        for (double x : { -2.0, 0.1, 1.5 }) o.put(b.distance(Vec3(x, 0.3, 0.2))), o.put(b.closestPoint(Vec3(x, 0.3, 0.2)));
    });
    for (int k = 0; k < 3; k++)
        reads(k == 0 ? "adjacency matrix" : k == 1 ? "cotangent matrix" : "gaussian matrix", [k](Mesh &m, Out &o) { o.matrix(EigenMatrix(getMeshLaplacian(m, (MeshLaplace)k))); });
    reads("heat kernel signatures", [](Mesh &m, Out &o) { o.matrix(getHeatKernelSignatures(getMeshLaplacian(m, MeshLaplace::Cotangent), 4, 3)); });
    for (int k = 0; k < 2; k++) {
        reads(k ? "smooth curvatures" : "curvatures", [k](Mesh &m, Out &o) {
            auto c = getPrincipalCurvatures(m, k);
            o.matrix(std::get<0>(c)), o.matrix(std::get<1>(c)), o.matrix(std::get<2>(c)), o.matrix(std::get<3>(c));
        });
        reads(k ? "smooth derivatives" : "derivatives", [k](Mesh &m, Out &o) {
            auto c = getPrincipalCurvaturesWithDerivatives(m, k);
            o.matrix(std::get<0>(c)), o.matrix(std::get<1>(c)), o.matrix(std::get<2>(c)), o.matrix(std::get<3>(c)), o.matrix(std::get<4>(c)), o.matrix(std::get<5>(c));
        });
        reads(k ? "smooth feature lines" : "feature lines", [k](Mesh &m, Out &o) {
            auto c = getFeatureLineFieldWithFlags(m, k);
            o.matrix(std::get<0>(c)), o.matrix(std::get<1>(c));
            o.matrix(getFeatureLineField(m, k));
        });
    }
    edits("flips", [](Mesh &m) { for (int i = 0; i < (int)m.numHalfedges(); i++) m.flipHE(m.halfedge(i)); });
    edits("splits", [](Mesh &m) { for (int i = 0, n = (int)m.numHalfedges(); i < n; i += 4) m.splitHE(m.halfedge(i)); });
    edits("collapses", [](Mesh &m) { for (int i = 0; i < (int)m.numHalfedges(); i += 3) m.collapseHE(m.halfedge(i)); });
    edits("face collapses", [](Mesh &m) {
        for (int i = 0; i < (int)m.numFaces(); i += 3)
            if (!m.face(i)->isHole()) m.collapseFace(m.face(i));
    });
    edits("fill all", [](Mesh &m) { m.fillHoles(); });
    edits("fill by angle", [](Mesh &m) {
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole()) holeFillMinDihedral(m, m.face(i), 1.0), i = -1;
    });
    edits("fill by front", [](Mesh &m) {
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole()) {
                holeFillAdvancingFront(m, m.face(i));
                break;
            }
    });
    edits("lock", [](Mesh &m) { for (int i = 0; i < (int)m.numVertices(); i += 2) m.vertex(i)->lock(); });
    edits("move", [](Mesh &m) { for (int i = 0; i < (int)m.numVertices(); i += 3) m.vertex(i)->setPos(0.9 * m.vertex(i)->pos()); });
    edits("laplacian", [](Mesh &m) { smoothLaplacian(m, 0.3, false, 2); });
    edits("cotangent laplacian", [](Mesh &m) { smoothLaplacian(m, 0.3, true, 2); });
    edits("taubin", [](Mesh &m) { smoothTaubin(m, 0.4, 0.43, 2); });
    edits("implicit", [](Mesh &m) { implicitFairing(m, 1e-3, 2); });
    edits("normal gaussian", [](Mesh &m) { denoiseNormalGaussian(m, 0.3, 2); });
    edits("normal bilateral", [](Mesh &m) { denoiseNormalBilateral(m, 0.3, 0.2, 2); });
    edits("l0", [](Mesh &m) { denoiseL0Smooth(m, 0.1, 1e-3); });
    edits("remesh", [](Mesh &m) { remeshTriangular(m, 0.8, 1.3, 0.0, 2); });
    edits("simplify", [](Mesh &m) { simplifyQEM(m, (int)m.numFaces() * 2 / 3, 3); });
    edits("simplify with messages", [](Mesh &m) { simplifyQEM(m, (int)m.numFaces() - 3, 3, true); });
    edits("rebuild", [](Mesh &m) {
        auto p = m.getVertices();
        auto f = m.getVertexIndices();
        m.construct(p, f);
    });
    edits("reload", [](Mesh &m) {
        std::string f = file("ply");
        m.save(f);
        m.load(f);
        unlink(f.c_str());
    });
    edits("refused build", [](Mesh &m) {
        Mesh q;
        bool refused = false;
        try {
            q.construct({ Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0), Vec3(2.0, 2.0, 2.0) }, { 0, 1, 7 });
        } catch (const std::exception &) {
            refused = true;
        }
        if (!refused) throw std::runtime_error("accepted");
    });
    edits("refused load", [](Mesh &m) {
        bool refused = false;
        try {
            Mesh q(file("missing.obj"));
        } catch (const std::exception &) {
            refused = true;
        }
        if (!refused) throw std::runtime_error("accepted");
    });
    return t;
}

// meshes in general position: closed ones, open ones, several pieces, locked vertices
struct Start {
    Surf s;
    uint64_t locks;
};
inline std::vector<Start> starts(bool th, bool regular = false) {
    auto shaken = [regular](const Surf &s, double k) { return calls::shaken(s, regular ? 0.0 : k); };
    auto bump = [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; };
    std::vector<Start> v;
    Surf ico = shapes::scaled(mg::icosahedron(), 1e-3);
    v.push_back({ shaken(ico, 0.05), 0 });
    v.push_back({ shaken(shapes::scaled(mg::torusGrid(4, 5), 1e-3), 0.03), 0 });
    v.push_back({ shaken(mg::perforated(mg::project(mg::subdivide(mg::icosahedron()), 1.0), false), 0.02), 0 });
    v.push_back({ shaken(mg::sheet(3, 3, 0x155, bump), 0.05), 0 });
    v.push_back({ shaken(ico, 0.09), 0x25 });
    if (th) {
        v.push_back({ shaken(mg::disjoint(ico, shapes::scaled(mg::bipyramidGeo(6), 1e-3), Vec3(4.0, 0.5, 0.0)), 0.03), 0 });
        v.push_back({ shaken(mg::project(mg::subdivide(mg::icosahedron()), 1.0), 0.02), 0 });
        v.push_back({ shaken(shapes::scaled(mg::bipyramidGeo(5), 1e-3), 0.05), 0 });
    }
    return v;
}

inline Mesh begin(const Start &s) {
    Mesh m(s.s.p, mg::flat(s.s));
    for (int i = 0; i < (int)m.numVertices() && i < 64; i++)
        if (s.locks >> i & 1) m.vertex(i)->lock();
    return m;
}

inline Out call(const Op &op, Mesh &m) {
    Out o;
    vp::add(vp::TRANSITIONS);
    try {
        op.run(m, o);
    } catch (const std::exception &e) {
        o.error = e.what();
        if (o.error.empty()) o.error = "?";
        o.num.clear(), o.whole.clear(), o.bytes.clear();
    }
    return o;
}
}  // namespace calls
#endif
