// Plain geometry in long double, used as oracle.
#ifndef VP_GEO_HPP
#define VP_GEO_HPP
#include <algorithm>
#include <cmath>
#include <vector>

#include "core/vec.h"

namespace geo {
typedef long double R;
struct P {
    R x = 0, y = 0, z = 0;
    P() {
    }
    P(R a, R b, R c)
        : x(a)
        , y(b)
        , z(c) {
    }
    P(const Vec3 &v)
        : x(v[0])
        , y(v[1])
        , z(v[2]) {
    }
};
inline P operator+(P a, P b) {
    return { a.x + b.x, a.y + b.y, a.z + b.z };
}
inline P operator-(P a, P b) {
    return { a.x - b.x, a.y - b.y, a.z - b.z };
}
inline P operator*(R s, P a) {
    return { s * a.x, s * a.y, s * a.z };
}
inline R dot(P a, P b) {
    return a.x * b.x + a.y * b.y + a.z * b.z;
}
inline P cross(P a, P b) {
    return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x };
}
inline R len(P a) {
    return sqrtl(dot(a, a));
}
inline P unit(P a) {
    return (1 / len(a)) * a;
}
inline R angle(P a, P b, P c) {  // at b
    return atan2l(len(cross(a - b, c - b)), dot(a - b, c - b));
}
inline R cot(P a, P b, P c) {
    return dot(a - b, c - b) / len(cross(a - b, c - b));
}
inline R area(P a, P b, P c) {
    return len(cross(b - a, c - a)) / 2;
}
inline R distSeg(P p, P a, P b) {
    R l = dot(b - a, b - a);
    R t = l > 0 ? dot(p - a, b - a) / l : 0;
    t = std::max((R)0, std::min((R)1, t));
    return len(p - (a + t * (b - a)));
}
// distance from p to the triangle: inside the prism -> plane distance, otherwise nearest edge
inline R distTri(P p, P a, P b, P c) {
    R d = std::min(distSeg(p, a, b), std::min(distSeg(p, b, c), distSeg(p, c, a)));
    P n = cross(b - a, c - a);
    R n2 = dot(n, n);
    if (n2 > 0) {
        R s0 = dot(cross(b - a, p - a), n), s1 = dot(cross(c - b, p - b), n), s2 = dot(cross(a - c, p - c), n);
        if (s0 >= 0 && s1 >= 0 && s2 >= 0) d = std::min(d, (R)fabsl(dot(p - a, n)) / sqrtl(n2));
    }
    return d;
}
inline bool finite(const Vec3 &v) {
    return std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(v[2]);
}
}  // namespace geo
#endif
