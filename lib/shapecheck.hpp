// What every quantity of a placed mesh should be, from the triangle list alone.
#ifndef VP_SHAPECHECK_HPP
#define VP_SHAPECHECK_HPP
#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/vertex.h"
#include "shapes.hpp"

namespace sc {
using geo::P;
using geo::R;
using mg::Surf;
static const R PI = 3.14159265358979323846264338327950288L;

struct Truth {
    const Surf &s;
    std::vector<P> p;
    std::map<std::pair<int, int>, int> opp;  // directed edge -> opposite corner
    std::vector<bool> border;
    std::vector<R> cell, angles;
    std::vector<P> normal, lap;
    std::vector<R> normalSize;
    R edgeSum = 0;
    int edges = 0;

    // part of triangle abc that belongs to a
    static R mixed(P a, P b, P c) {
        R A = geo::area(a, b, c);
        R aa = geo::dot(b - a, c - a), bb = geo::dot(a - b, c - b), cc = geo::dot(a - c, b - c);
        if (aa < 0) return A / 2;
        if (bb < 0 || cc < 0) return A / 4;
        return (geo::dot(b - a, b - a) * geo::cot(a, c, b) + geo::dot(c - a, c - a) * geo::cot(a, b, c)) / 8;
    }
    explicit Truth(const Surf &s_)
        : s(s_) {
        for (auto &q : s.p) p.push_back(P(q));
        border.assign(s.n, false);
        cell.assign(s.n, 0);
        angles.assign(s.n, 0);
        normal.assign(s.n, P());
        lap.assign(s.n, P());
        normalSize.assign(s.n, 0);
        for (auto &f : s.t)
            for (int k = 0; k < 3; k++) {
                int a = f[k], b = f[(k + 1) % 3], c = f[(k + 2) % 3];
                opp[{ a, b }] = c;
                cell[a] += mixed(p[a], p[b], p[c]);
                angles[a] += geo::angle(p[b], p[a], p[c]);
                R lb = geo::dot(p[b] - p[a], p[b] - p[a]), lc = geo::dot(p[c] - p[a], p[c] - p[a]);
                P w = (1 / (lb * lc)) * geo::cross(p[b] - p[a], p[c] - p[a]);
                normal[a] = normal[a] + w;
                normalSize[a] += geo::len(w);
                // cotangent at c acts on the edge ab, at b on the edge ac
                lap[a] = lap[a] + geo::cot(p[a], p[c], p[b]) * (p[b] - p[a]) + geo::cot(p[a], p[b], p[c]) * (p[c] - p[a]);
            }
        for (auto &x : opp) {
            int a = x.first.first, b = x.first.second;
            if (!opp.count({ b, a })) border[a] = border[b] = true;
            if (a < b || !opp.count({ b, a })) edgeSum += geo::len(p[a] - p[b]), edges++;
        }
    }
    bool closed() const {
        for (bool b : border)
            if (b) return false;
        return true;
    }
    int euler() const {
        return s.n - edges + (int)s.t.size();
    }
    R edgeWeight(int a, int b) const {  // half the sum of the cotangents opposite to ab
        R w = 0;
        auto it = opp.find({ a, b });
        if (it != opp.end()) w += geo::cot(p[a], p[it->second], p[b]);
        it = opp.find({ b, a });
        if (it != opp.end()) w += geo::cot(p[a], p[it->second], p[b]);
        return w / 2;
    }
};

inline void near(const char *what, int where, double got, R want, R tol, R scale = 1) {
    vp::add(vp::EVALS);
    if (!(fabsl((R)got - want) <= tol * scale + tol * fabsl(want))) vp::fail("%s %d is %.12g instead of %.12Lg", what, where, got, want);
    vp::outcome(vp::mixd(3, std::round((double)want * 1e5)));
}
inline void nearVec(const char *what, int where, const Vec3 &got, P want, R tol) {
    vp::add(vp::EVALS);
    if (!(geo::len(P(got) - want) <= tol)) vp::fail("%s %d is (%g %g %g) instead of (%Lg %Lg %Lg)", what, where, got[0], got[1], got[2], want.x, want.y, want.z);
}
inline std::array<int, 3> corners(const tinymesh::Face *f) {
    std::array<int, 3> r = { -1, -1, -1 };
    int k = 0;
    for (auto it = f->v_begin(); it != f->v_end(); ++it, ++k)
        if (k < 3) r[k] = it->index();
    if (k != 3) vp::fail("a face of the mesh has %d corners", k);
    return r;
}

// register one group per family; fn(mesh, truth)
inline void groups(const std::vector<shapes::Family> &fam, std::vector<std::pair<double, Vec3>> frames, std::function<void(const Surf &, double)> fn) {
    for (auto &f : fam) {
        const uint64_t chunk = f.n > 20000 ? 64 : f.n > 2000 ? 8 : 1;
        auto body = [f, frames, fn, chunk](uint64_t c) {
            for (uint64_t i = c * chunk; i < std::min(f.n, (c + 1) * chunk); i++) {
                Surf s;
                if (!f.make(i, s)) continue;
                for (auto &fr : frames) {
                    Surf r = shapes::ordered(shapes::scaled(s, fr.first, fr.second));
                    try {
                        fn(r, fr.first);
                    } catch (const vp::Violation &v) {
                        vp::fail("%s scaled by %g: %s (%s)", s.name.c_str(), fr.first, v.what.c_str(), mg::show(s).c_str());
                    }
                    vp::add(vp::STATES);
                }
            }
            Surf s;
            if (f.make(c * chunk, s)) vp::sample(mg::show(s));
        };
        vp::group(f.name, (f.n + chunk - 1) / chunk, body, [f, chunk](uint64_t c) { return vp::strf("%s %llu..%llu", f.name.c_str(), (unsigned long long)(c * chunk), (unsigned long long)((c + 1) * chunk - 1)); }, 60);
    }
}
}  // namespace sc
#endif
