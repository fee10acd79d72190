// V01: the vector class.  Every operator on every pair of lattice vectors, for 2, 3 and 4 components in both precisions,
// and every sequence of compound assignments up to a bound, against plain component arrays.
#include <sstream>
#include <stdexcept>
#include <unordered_set>

#include "core/vec.h"
#include "vp.hpp"
using vp::fail;

template <typename F, int D>
struct Probe {
    typedef Vec<F, D> V;
    typedef std::array<F, D> A;
    struct Guarded {
        F before[2];
        alignas(V) unsigned char raw[sizeof(V)];
        F after[4];
    };
    static std::vector<F> lattice;
    static std::vector<A> all;

    static std::string show(const A &a) {
        std::string s = vp::strf("<%s,%d>(", sizeof(F) == 4 ? "float" : "double", D);
        for (int i = 0; i < D; i++) s += vp::strf(i ? ",%g" : "%g", (double)a[i]);
        return s + ")";
    }
    static A get(const V &v) {
        A a;
        for (int i = 0; i < D; i++) a[i] = v[i];
        return a;
    }
    static V make(const A &a) {
        V v;
        for (int i = 0; i < D; i++) v[i] = a[i];
        return v;
    }
    static bool same(F x, F y) {
        if (x == y) return true;
        double tol = sizeof(F) == 4 ? 1e-5 : 1e-12;
        return std::abs((double)x - (double)y) <= tol * std::max(1.0, std::max(std::abs((double)x), std::abs((double)y)));
    }
    static void expect(const char *what, const A &got, const A &want, const A &x, const A &y) {
        vp::add(vp::EVALS);
        vp::add(vp::TRANSITIONS);
        uint64_t h = 1;
        for (int i = 0; i < D; i++) {
            if (!same(got[i], want[i]))
                fail("%s of %s and %s gives %s instead of %s", what, show(x).c_str(), show(y).c_str(), show(got).c_str(), show(want).c_str());
            h = vp::mixd(h, (double)want[i]);
        }
        vp::outcome(vp::mix(vp::mix(h, D), sizeof(F)));
    }
    template <typename Fn>
    static A map(const A &x, const A &y, Fn f) {
        A r;
        for (int i = 0; i < D; i++) r[i] = f(x[i], y[i]);
        return r;
    }
    template <typename Fn>
    static void refuses(const char *what, const A &x, const A &y, Fn f) {
        vp::add(vp::EVALS);
        vp::add(vp::TRANSITIONS);
        try {
            f();
        } catch (const std::exception &) {
            return;
        }
        fail("%s of %s by %s is not refused", what, show(x).c_str(), show(y).c_str());
    }

    // constructors, inside a guarded block
    template <typename... T>
    static void construct(const char *what, const A &want, T... args) {
        std::vector<Guarded> heap(1);
        Guarded &g = heap[0];
        for (F &f : g.before) f = F(77);
        for (F &f : g.after) f = F(78);
        memset(g.raw, 0x5a, sizeof g.raw);
        V *v = new (g.raw) V(args...);
        for (F f : g.before)
            if (f != F(77)) fail("%s writes before the vector (%d components)", what, D);
        for (F f : g.after)
            if (f != F(78)) fail("%s writes behind the vector (%d components)", what, D);
        expect(what, get(*v), want, want, want);
    }

    static void one(const A &x) {
        A z, s;
        z.fill(F(0));
        s.fill(x[0]);
        construct("default construction", z);
        construct("construction from a scalar", s, x[0]);
        A two = z;
        two[0] = x[0], two[1] = x[1];
        construct("construction from two values", two, x[0], x[1]);
        if constexpr (D >= 3) {
            A three = two;
            three[2] = x[2];
            construct("construction from three values", three, x[0], x[1], x[2]);
        }
        if constexpr (D >= 4) construct("construction from four values", x, x[0], x[1], x[2], x[3]);
        V v = make(x);
        construct("copy construction", x, v);
        Eigen::Matrix<F, D, 1> e = v;
        for (int i = 0; i < D; i++)
            if (e(i) != x[i]) fail("conversion to a matrix type changes %s", show(x).c_str());
        V back(e);
        expect("conversion from a matrix type", get(back), x, x, x);
        V asg;
        asg = e;
        expect("assignment from a matrix type", get(asg), x, x, x);
        if (v.x() != x[0] || v.y() != x[1]) fail("x or y of %s wrong", show(x).c_str());
        if constexpr (D >= 3)
            if (v.z() != x[2]) fail("z of %s wrong", show(x).c_str());
        if constexpr (D >= 4)
            if (v.w() != x[3]) fail("w of %s wrong", show(x).c_str());
        expect("negation", get(-v), map(x, x, [](F a, F) { return -a; }), x, x);
        expect("absolute value", get(std::abs(v)), map(x, x, [](F a, F) { return a < 0 ? -a : a; }), x, x);
        F d = 0;
        for (int i = 0; i < D; i++) d += x[i] * x[i];
        if (!same(length(v) * length(v), d)) fail("length of %s wrong", show(x).c_str());
        if (d != 0) {
            V u = normalize(v);
            for (int i = 0; i < D; i++)
                if (!same(u[i] * length(v), x[i])) fail("normalisation of %s wrong", show(x).c_str());
        } else {
            refuses("normalisation", x, x, [&] { normalize(v); });
        }
        expect("operand after use", get(v), x, x, x);
        std::ostringstream os;
        os << v;
        // every component appears, in order
        std::string text = os.str();
        for (char &c : text)
            if (!strchr("0123456789+-.e", c)) c = ' ';
        std::istringstream is(text);
        for (int i = 0; i < D; i++) {
            double val;
            if (!(is >> val) || std::abs(val - (double)x[i]) > 1e-5 * std::abs((double)x[i])) fail("printed form of %s is '%s'", show(x).c_str(), os.str().c_str());
        }
        for (F sc : lattice) {
            A y;
            y.fill(sc);
            expect("vector * scalar", get(v * sc), map(x, y, [](F a, F b) { return a * b; }), x, y);
            expect("scalar * vector", get(sc * v), map(x, y, [](F a, F b) { return a * b; }), x, y);
            expect("vector - scalar", get(v - sc), map(x, y, [](F a, F b) { return a - b; }), x, y);
            expect("scalar - vector", get(sc - v), map(x, y, [](F a, F b) { return b - a; }), x, y);
            V t = make(x);
            V *r = &(t *= sc);
            if (r != &t) fail("*= does not return its operand");
            expect("vector *= scalar", get(t), map(x, y, [](F a, F b) { return a * b; }), x, y);
            if (sc != 0) {
                expect("vector / scalar", get(v / sc), map(x, y, [](F a, F b) { return a / b; }), x, y);
                V q = make(x);
                q /= sc;
                expect("vector /= scalar", get(q), map(x, y, [](F a, F b) { return a / b; }), x, y);
            } else {
                refuses("division", x, y, [&] { V q = v / sc; });
                refuses("compound division", x, y, [&] { V q = make(x); q /= sc; });
            }
        }
    }

    static void two(const A &x, const A &y) {
        const V v = make(x), w = make(y);
        expect("+", get(v + w), map(x, y, [](F a, F b) { return a + b; }), x, y);
        expect("-", get(v - w), map(x, y, [](F a, F b) { return a - b; }), x, y);
        expect("*", get(v * w), map(x, y, [](F a, F b) { return a * b; }), x, y);
        bool zero = false;
        for (int i = 0; i < D; i++) zero |= y[i] == 0;
        if (zero) {
            refuses("division", x, y, [&] { V q = v / w; });
            refuses("compound division", x, y, [&] { V q = make(x); q /= w; });
        } else {
            expect("/", get(v / w), map(x, y, [](F a, F b) { return a / b; }), x, y);
            V q = make(x);
            q /= w;
            expect("/=", get(q), map(x, y, [](F a, F b) { return a / b; }), x, y);
        }
        V a = make(x), s = make(x), m = make(x), c;
        a += w;
        s -= w;
        m *= w;
        c = w;
        expect("+=", get(a), map(x, y, [](F p, F q) { return p + q; }), x, y);
        expect("-=", get(s), map(x, y, [](F p, F q) { return p - q; }), x, y);
        expect("*=", get(m), map(x, y, [](F p, F q) { return p * q; }), x, y);
        expect("=", get(c), y, x, y);
        expect("minimum", get(std::min(v, w)), map(x, y, [](F p, F q) { return q < p ? q : p; }), x, y);
        expect("maximum", get(std::max(v, w)), map(x, y, [](F p, F q) { return q > p ? q : p; }), x, y);
        bool eq = x == y;
        if ((v == w) != eq || (v != w) == eq) fail("comparison of %s and %s wrong", show(x).c_str(), show(y).c_str());
        if (eq && std::hash<V>()(v) != std::hash<V>()(w)) fail("equal vectors %s hash differently", show(x).c_str());
        F d = 0;
        for (int i = 0; i < D; i++) d += x[i] * y[i];
        if (!same(dot(v, w), d)) fail("dot product of %s and %s is %g", show(x).c_str(), show(y).c_str(), (double)dot(v, w));
        if constexpr (D == 3) {
            A k = { F(x[1] * y[2] - x[2] * y[1]), F(x[2] * y[0] - x[0] * y[2]), F(x[0] * y[1] - x[1] * y[0]) };
            expect("cross product", get(cross(v, w)), k, x, y);
        }
        Eigen::Matrix<F, D, D> M;
        for (int i = 0; i < D; i++)
            for (int j = 0; j < D; j++) M(i, j) = y[(i + 2 * j) % D] + F(i);
        A mv;
        for (int i = 0; i < D; i++) {
            mv[i] = 0;
            for (int j = 0; j < D; j++) mv[i] += M(i, j) * x[j];
        }
        expect("matrix product", get(M * v), mv, x, y);
        expect("left operand after use", get(v), x, x, y);
        expect("right operand after use", get(w), y, x, y);
    }

    // every sequence of compound assignments on one object, starting from `x`
    static void walk(const A &x, int depth) {
        static const A ops[] = { rep(1, -2), rep(F(0.5), 3) };
        struct St {
            A m;
            int d;
            std::vector<int> path;
        };
        std::vector<St> todo = { { x, 0, {} } };
        while (!todo.empty()) {
            St s = todo.back();
            todo.pop_back();
            vp::add(vp::STATES);
            if (s.d == depth) continue;
            for (int k = 0; k < 12; k++) {
                // re-run the path on a real object
                std::vector<int> path = s.path;
                path.push_back(k);
                V v = make(x);
                A m = x;
                for (int q : path) {
                    const A &o = ops[q & 1];
                    V w = make(o);
                    F sc = o[1];
                    switch (q / 2) {
                    case 0: v += w; m = map(m, o, [](F a, F b) { return a + b; }); break;
                    case 1: v -= w; m = map(m, o, [](F a, F b) { return a - b; }); break;
                    case 2: v *= w; m = map(m, o, [](F a, F b) { return a * b; }); break;
                    case 3: v /= w; m = map(m, o, [](F a, F b) { return a / b; }); break;
                    case 4: v *= sc; m = map(m, o, [&](F a, F) { return a * sc; }); break;
                    case 5: v = w - v; m = map(m, o, [&](F a, F b) { return b - a; }); break;
                    }
                    // self-application
                    if (path.size() == 2 && q == path[0]) {
                        V self = make(m);
                        self += self;
                        expect("v += v", get(self), map(m, m, [](F a, F b) { return a + b; }), m, m);
                        V self2 = make(m);
                        self2 *= self2;
                        expect("v *= v", get(self2), map(m, m, [](F a, F b) { return a * b; }), m, m);
                        V self3 = make(m);
                        self3 -= self3;
                        expect("v -= v", get(self3), map(m, m, [](F, F) { return F(0); }), m, m);
                        V self4 = make(m);
                        self4 = self4;
                        expect("v = v", get(self4), m, m, m);
                    }
                }
                expect("sequence of assignments", get(v), m, x, x);
                vp::add(vp::TRACES);
                todo.push_back({ m, s.d + 1, path });
            }
        }
    }
    static A rep(F a, F b) {
        A r;
        for (int i = 0; i < D; i++) r[i] = i % 2 ? b : a;
        return r;
    }

    static void setup(const char *name, std::vector<double> vals, int depth) {
        for (double d : vals) lattice.push_back((F)d);
        size_t n = 1;
        for (int i = 0; i < D; i++) n *= vals.size();
        for (size_t i = 0; i < n; i++) {
            A a;
            size_t k = i;
            for (int j = 0; j < D; j++) a[j] = lattice[k % vals.size()], k /= vals.size();
            all.push_back(a);
        }
        vp::group(vp::strf("%s-pairs", name), all.size(), [](uint64_t i) {
            one(all[i]);
            vp::add(vp::STATES);
            for (auto &y : all) two(all[i], y);
            vp::add(vp::TRACES);
            vp::sample(show(all[i]) + " with every other vector and every operator");
        }, [](uint64_t i) { return show(all[i]); }, 60);
        static int dep;
        dep = depth;
        vp::group(vp::strf("%s-sequences", name), all.size(), [](uint64_t i) { walk(all[i], dep); },
                  [](uint64_t i) { return show(all[i]); }, 60);
    }
};
template <typename F, int D>
std::vector<F> Probe<F, D>::lattice;
template <typename F, int D>
std::vector<typename Probe<F, D>::A> Probe<F, D>::all;

static void setup() {
    const bool th = vp::thorough();
    std::vector<double> big = { -3, -2, -1, -0.5, -0.0, 0, 0.25, 1.0 / 3, 1, 2, 50 }, mid = { -2, -0.5, -0.0, 0, 1.0 / 3, 1, 3 }, sml = { -2, -0.0, 0, 1.0 / 3, 3 };
    Probe<double, 2>::setup("double2", big, th ? 4 : 3);
    Probe<float, 2>::setup("float2", big, th ? 4 : 3);
    Probe<double, 3>::setup("double3", th ? big : mid, th ? 4 : 3);
    Probe<float, 3>::setup("float3", th ? big : mid, th ? 4 : 3);
    Probe<double, 4>::setup("double4", th ? mid : sml, th ? 4 : 3);
    Probe<float, 4>::setup("float4", th ? mid : sml, th ? 4 : 3);
}
VP_MAIN(setup)
