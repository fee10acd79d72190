// Topology and border of a real mesh, read off its export after a complete consistency audit.
#ifndef VP_TOPO_HPP
#define VP_TOPO_HPP
#include "refmesh.hpp"

namespace topo {
using tinymesh::Mesh;

struct Topo {
    ref::RefMesh R;  // vertex ids are indices
    int pieces = 0, euler = 0, triangles = 0;
    std::multiset<std::vector<ref::Pos>> border;  // every boundary loop as positions

    Topo(const Mesh &m, const char *when) {
        auto p = m.getVertices();
        auto f = m.getVertexIndices();
        if (p.size() != m.numVertices()) vp::fail("%s: %d exported vertices for %d", when, (int)p.size(), (int)m.numVertices());
        if (f.size() % 3) vp::fail("%s: the exported indices are no triangles", when);
        for (size_t i = 0; i < p.size(); i++) {
            R.pos[(int)i] = p[i];
            for (int k = 0; k < 3; k++)
                if (!std::isfinite(p[i][k])) vp::fail("%s: vertex %d is not at a finite place", when, (int)i);
            if (m.vertex((int)i)->isLocked()) R.locked.insert((int)i);
        }
        R.nextId = (int)p.size();
        std::vector<ref::Tri> t;
        for (size_t i = 0; i < f.size(); i += 3) {
            ref::Tri x = { (int)f[i], (int)f[i + 1], (int)f[i + 2] };
            for (int v : x)
                if (v < 0 || v >= (int)p.size()) vp::fail("%s: exported index out of range", when);
            if (x[0] == x[1] || x[1] == x[2] || x[2] == x[0]) vp::fail("%s: a triangle has a repeated corner", when);
            R.tris.insert(ref::rot(x));
            t.push_back(x);
        }
        triangles = (int)t.size();
        if (!mg::isManifold(t, R.nextId)) vp::fail("%s: the surface is not a manifold", when);
        R.computeLoops();
        ref::AuditOpt o;
        o.byIndex = true;
        ref::audit(m, R, when, o);
        pieces = (int)mg::components(t).size();
        euler = R.euler();
        for (auto &l : R.loops) {
            std::vector<ref::Pos> q;
            for (int v : l) q.push_back(ref::key(R.pos[v]));
            size_t b = 0;
            for (size_t i = 1; i < q.size(); i++)
                if (q[i] < q[b]) b = i;
            std::rotate(q.begin(), q.begin() + b, q.end());
            border.insert(q);
        }
    }
    void sameAs(const Topo &o, const char *when) const {
        if (pieces != o.pieces) vp::fail("%s: %d pieces instead of %d", when, pieces, o.pieces);
        if (euler != o.euler) vp::fail("%s: Euler characteristic %d instead of %d", when, euler, o.euler);
        if (border.size() != o.border.size()) vp::fail("%s: %d boundary loops instead of %d", when, (int)border.size(), (int)o.border.size());
        if (border != o.border) vp::fail("%s: the boundary polygon has changed", when);
    }
};
}  // namespace topo
#endif
