// I01: every mesh of the alphabet, and every mesh reached from it by edits, is written, read by an independent parser, and loaded.
#include <fstream>
#include <sstream>
#include <unistd.h>

#include "ops.hpp"
using namespace mg;
using namespace tinymesh;
using vp::fail;

typedef std::array<float, 3> F3;
struct Soup {
    std::vector<F3> v;
    std::multiset<std::array<F3, 3>> t;
};
static std::array<F3, 3> rotate(std::array<F3, 3> t) {
    int k = 0;
    for (int i = 1; i < 3; i++)
        if (t[i] < t[k]) k = i;
    return { t[k], t[(k + 1) % 3], t[(k + 2) % 3] };
}
static F3 f3(const Vec3 &p) {
    F3 r = { (float)p[0], (float)p[1], (float)p[2] };
    for (float &x : r)
        if (x == 0) x = 0;
    return r;
}
static Soup soupOf(const std::vector<Vec3> &p, const std::vector<uint32_t> &idx) {
    Soup s;
    for (auto &q : p) s.v.push_back(f3(q));
    for (size_t i = 0; i + 2 < idx.size(); i += 3) s.t.insert(rotate({ s.v.at(idx[i]), s.v.at(idx[i + 1]), s.v.at(idx[i + 2]) }));
    std::sort(s.v.begin(), s.v.end());
    return s;
}
static std::string path(const char *ext) {
    return vp::eng().scratch + vp::strf("/m%d.%s", (int)getpid(), ext);
}
static std::string bytes(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
// what the file says, read without the library
static Soup parseObj(const std::string &text) {
    std::vector<Vec3> p;
    std::vector<uint32_t> idx;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "v") {
            double x, y, z;
            if (!(ls >> x >> y >> z)) fail("vertex line '%s'", line.c_str());
            p.push_back(Vec3(x, y, z));
        } else if (k == "f") {
            for (int i = 0; i < 3; i++) {
                std::string tok;
                if (!(ls >> tok)) fail("face line '%s'", line.c_str());
                int a = atoi(tok.c_str());
                if (a < 1 || a > (int)p.size()) fail("face line '%s' has an index out of range", line.c_str());
                idx.push_back(a - 1);
            }
        }
    }
    return soupOf(p, idx);
}
static void same(const Soup &want, const Soup &got, const char *what) {
    vp::add(vp::TRANSITIONS);
    if (want.v.size() != got.v.size()) fail("%s: %d vertices instead of %d", what, (int)got.v.size(), (int)want.v.size());
    for (size_t i = 0; i < want.v.size(); i++)
        if (want.v[i] != got.v[i]) fail("%s: a vertex at (%.9g %.9g %.9g) is now at (%.9g %.9g %.9g)", what, want.v[i][0], want.v[i][1], want.v[i][2], got.v[i][0], got.v[i][1], got.v[i][2]);
    if (want.t != got.t) fail("%s: the triangles differ (%d, were %d)", what, (int)got.t.size(), (int)want.t.size());
}
static bool distinct(const Soup &s) {
    for (size_t i = 1; i < s.v.size(); i++)
        if (s.v[i] == s.v[i - 1]) return false;
    return true;
}

static void roundtrip(Mesh &m, const Soup &want) {
    if (!distinct(want)) return;
    std::vector<uint64_t> before, after;
    ref::dump(m, before);
    for (const char *ext : { "obj", "ply" }) {
        std::string f = path(ext);
        m.save(f);
        if (!strcmp(ext, "obj")) same(want, parseObj(bytes(f)), "file .obj");
        Mesh r(f);
        same(want, soupOf(r.getVertices(), r.getVertexIndices()), ext);
        if (!r.verify()) fail("the mesh loaded from .%s is not consistent", ext);
        Mesh other(f);
        other.load(f);  // into a used object
        same(want, soupOf(other.getVertices(), other.getVertexIndices()), "second load");
        // a file written over a longer one
        r.save(f);
        Mesh r2(f);
        same(want, soupOf(r2.getVertices(), r2.getVertexIndices()), "second round");
        unlink(f.c_str());
        vp::add(vp::TRACES);
    }
    ref::dump(m, after);
    if (before != after) fail("saving changed the mesh");
}

struct Job {
    Surf s;
    int depth;
};
static std::vector<Job> jobs;
static std::vector<Surf> shapes_;
struct Frame {
    double s;
    Vec3 o;
};
static std::vector<Frame> frames;

static void setup() {
    const bool th = vp::thorough();
    std::vector<Surf> sph[12];
    for (int n = 4; n <= 9; n++) sph[n] = spheres(n);
    const unsigned ALL = (1u << ops::FLIP) | (1u << ops::SPLIT) | (1u << ops::COLLAPSE) | (1u << ops::COLLAPSEFACE) | (1u << ops::FILL) | (1u << ops::MOVE);
    auto addAll = [&](const std::vector<Surf> &v, int depth) {
        for (auto &s : v) jobs.push_back({ s, depth });
    };
    for (int n = 4; n <= 6; n++) addAll(sph[n], th ? 2 : 1);
    for (int n = 4; n <= 6; n++) addAll(subsurfaces(sph[n], false), th && n < 6 ? 2 : 1);
    addAll(sph[7], 1);
    if (th) addAll(sph[8], 1);
    jobs.push_back({ icosahedron(), 1 });
    jobs.push_back({ torus7(), 1 });
    jobs.push_back({ sheet(2, 2, 5, [](int i, int j) { return 0.37 * i * i + 0.11 * i * j + 0.53 * j * j; }), 1 });
    Surf one;
    one.n = 3;
    one.t = { { 0, 1, 2 } };
    one.p = { Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0) };
    one.name = "triangle";
    jobs.push_back({ disjoint(one, sph[5][0], Vec3(5000.0, 0.0, 1.0)), 1 });
    vp::group("edited", jobs.size(), [=](uint64_t i) {
        ops::explore(jobs[i].s, 0, ALL, jobs[i].depth, [](ops::Sys &S) {
            if (S.pseudo) return;
            Soup w;
            for (auto &x : S.model.pos) w.v.push_back(f3(x.second));
            for (auto &t : S.model.tris) w.t.insert(rotate({ f3(S.model.pos[t[0]]), f3(S.model.pos[t[1]]), f3(S.model.pos[t[2]]) }));
            std::sort(w.v.begin(), w.v.end());
            if (!w.t.empty()) roundtrip(S.mesh, w);
        });
    }, [](uint64_t i) { return vp::strf("%s depth %d", jobs[i].s.name.c_str(), jobs[i].depth); }, 120);

    // every surface as it is, in several sizes and places
    for (int n = 4; n <= (th ? 9 : 8); n++)
        for (auto &s : sph[n]) shapes_.push_back(s);
    for (auto &s : subsurfaces(sph[7], false)) shapes_.push_back(s);
    for (auto &s : subsurfaces(sph[5], false)) shapes_.push_back(disjoint(s, sph[6][1], Vec3(3000.0, 100.0, 0.0)));
    shapes_.push_back(subdivide(subdivide(icosahedron())));
    shapes_.push_back(torusGrid(5, 7));
    for (auto &s : shapes::large(true)) shapes_.push_back(s);
    for (auto &s : shapes::huge(true)) shapes_.push_back(s);
    frames = { { 1.0, Vec3(0.0) }, { 1.0 / 3, Vec3(0.0) }, { 1e-6, Vec3(0.0) }, { 1e-12, Vec3(1e-9, -1e-9, 0.0) }, { 1e9, Vec3(-1e11, 0.0, 3e11) }, { 0.01, Vec3(1000.0, -2000.0, 4000.0) }, { 0.1, Vec3(1e5, 0.0, 1e5) } };
    vp::group("sizes", shapes_.size() * frames.size(), [](uint64_t i) {
        Surf s = shapes_[i / frames.size()];
        const Frame &f = frames[i % frames.size()];
        for (auto &p : s.p) p = f.s * p + f.o;
        Soup w = soupOf(s.p, flat(s));
        if (!distinct(w)) return;
        Mesh m(s.p, flat(s));
        vp::add(vp::STATES);
        roundtrip(m, w);
        vp::sample(vp::strf("%s size %g", s.name.c_str(), f.s));
    }, [](uint64_t i) { return vp::strf("%s frame %d", shapes_[i / frames.size()].name.c_str(), (int)(i % frames.size())); }, 60);

    // single awkward coordinates at each corner of a tetrahedron
    static const double awkward[] = { 1e-45, -1e-38, 1.17549435e-38, 0.1, 1.0 / 3, 16777217.0, 1234567.0, 123456.7, 12345.678, 3.4e37, -0.0, 1e-20, 999999.96, 1e6, 9.9999999e5, 1048576.5, -2.0000001 };
    const int NA = sizeof awkward / sizeof *awkward;
    vp::group("numbers", NA * NA * 12, [=](uint64_t i) {
        Surf s = spheres(4)[0];
        for (auto &p : s.p) p = p * 1e-3;
        int c = (int)(i % 12);
        s.p[c / 3][c % 3] = awkward[i / 12 % NA];
        s.p[(c / 3 + 1) % 4][(c + 1) % 3] = awkward[i / 12 / NA];
        Soup w = soupOf(s.p, flat(s));
        if (!distinct(w)) return;
        Mesh m(s.p, flat(s));
        vp::add(vp::STATES);
        roundtrip(m, w);
    });

    // files written by other programs
    struct Foreign {
        const char *ext, *text;
    };
    static std::vector<Foreign> foreign = {
        { "obj", "# c\nmtllib x.mtl\no a\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nf 1 3 2\nf 1 2 4\ng b\nusemtl q\nf 1 4 3\nf 2 3 4\n" },
        { "obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nvn 0 0 1\nvt 0 1\nf 1/1/1 3/1/1 2/1/1\nf 1//1 2//1 4//1\nf -4 -1 -2\nf 2/1 3/1 4/1\n" },
        { "obj", "v 0 0 0\r\nv 1 0 0\r\nv 0 1 0\r\nv 0 0 1\r\nf 1 3 2\r\nf 1 2 4\r\nf 1 4 3\r\nf 2 3 4\r\n" },
        { "obj", "v 9 9 9\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nf 2 4 3\nf 2 3 5\nf 2 5 4\nf 3 4 5\nv 8 8 8\n" },
        { "obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 3 2\nv 0 0 0\nv 1 0 0\nv 0 0 1\nf 4 5 6\nv 0 1 0\nf 1 6 7\nf 2 3 6\n" },
        { "ply", "ply\nformat ascii 1.0\nelement vertex 4\nproperty float x\nproperty float y\nproperty float z\nelement face 4\nproperty list uchar int vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n3 0 2 1\n3 0 1 3\n3 0 3 2\n3 1 2 3\n" },
        { "ply", "ply\nformat ascii 1.0\ncomment c\nelement vertex 4\nproperty float x\nproperty float y\nproperty float z\nproperty float nx\nproperty float ny\nproperty float nz\nproperty uchar red\nelement face 4\nproperty list uchar uint vertex_indices\nend_header\n0 0 0 0 0 1 7\n1 0 0 0 0 1 7\n0 1 0 0 0 1 7\n0 0 1 0 0 1 7\n3 0 2 1\n3 0 1 3\n3 0 3 2\n3 1 2 3\n" },
    };
    vp::group("foreign", foreign.size(), [](uint64_t i) {
        std::string f = path(foreign[i].ext);
        std::ofstream(f, std::ios::binary) << foreign[i].text;
        Mesh m(f);
        unlink(f.c_str());
        Soup w = soupOf({ Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0), Vec3(0.0, 0.0, 1.0) }, { 0, 2, 1, 0, 1, 3, 0, 3, 2, 1, 2, 3 });
        same(w, soupOf(m.getVertices(), m.getVertexIndices()), "file of another program");
        vp::add(vp::STATES);
    });
}
VP_MAIN(setup)
