// W02: the example programs on every mesh, file type, way of naming the input and option of the alphabet.
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>

#include "core/mesh.h"
#include "refmesh.hpp"
#include "shapes.hpp"
#include "tinyply.h"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

extern "C" {
int vp_example_denoise(int, char **);
int vp_example_hole_fill(int, char **);
int vp_example_read_write(int, char **);
int vp_example_remesh(int, char **);
int vp_example_simplify(int, char **);
int vp_example_smooth(int, char **);
}
std::random_device::result_type std::random_device::_M_getval() {
    return 1;
}

struct Program {
    const char *name;
    int (*run)(int, char **);
    std::vector<std::string> written;
    std::vector<std::string> options;  // "" for none
    bool fills;                        // the results are closed
    bool keeps;                        // and have the triangles of the filled input
    bool must;                         // has to succeed
};
static const std::vector<Program> programs = {
    { "read and write", vp_example_read_write, { "_copy" }, { "" }, false, true, true },
    { "smoothing", vp_example_smooth, { "_laplace_smooth", "_taubin_smooth", "_implicit_fair" }, { "" }, true, true, true },
    { "simplification", vp_example_simplify, { "_simplify" }, { "", "0.5", "0.9" }, true, false, true },
    { "remeshing", vp_example_remesh, { "_remesh" }, { "", "40" }, true, false, true },
    { "denoising", vp_example_denoise, { "_noise", "_denoise_Gaussian", "_denoise_bilateral", "_denoise_l0" }, { "", "0.5" }, true, true, true },
    { "hole filling", vp_example_hole_fill, { "_fill_minDA", "_fill_adv_front", "_fill_context_coherent" }, { "" }, true, false, false },
};

// where the input lies, how it is called, where the program is started and what it is given
struct Place {
    const char *what, *dir, *stem, *cwd, *arg;  // %s in arg: name of the file, @: absolute directory of the case
    bool link, crowded;
};
static const std::vector<Place> places = {
    { "absolute path", "in", "mesh", "cwd", "@/in/%s", false, false },
    { "own directory", "in", "mesh", "in", "%s", false, false },
    { "other directory", "in", "mesh", "cwd", "../in/%s", false, false },
    { "dot", "in", "mesh", "in", "./%s", false, false },
    { "detour", "in", "mesh", "in", ".././in/../in/%s", false, false },
    { "dots in the directory", "in.v1", "mesh", "cwd", "../in.v1/%s", false, false },
    { "dots in the name", "in", "m.v1.2", "cwd", "../in/%s", false, false },
    { "blanks", "in put", "my mesh", "cwd", "@/in put/%s", false, false },
    { "name of a result", "in", "mesh_copy", "cwd", "@/in/%s", false, false },
    { "link", "in", "mesh", "cwd", "link", true, false },
    { "other files around", "in", "mesh", "in", "%s", false, true },
};

static std::string slurp(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream b;
    b << in.rdbuf();
    return b.str();
}
static void put(const std::string &f, const std::string &s) {
    std::ofstream(f, std::ios::binary) << s;
}
static const int NOBODY = 65534;

// all files below a directory
static void listing(const std::string &root, const std::string &rel, std::map<std::string, std::string> &out) {
    DIR *d = opendir((root + rel).c_str());
    if (!d) throw std::runtime_error("opendir");
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        lstat((root + rel + "/" + n).c_str(), &st);
        if (S_ISDIR(st.st_mode)) listing(root, rel + "/" + n, out);
        else out[rel + "/" + n] = S_ISLNK(st.st_mode) ? "link" : slurp(root + rel + "/" + n);
    }
    closedir(d);
}
static void removeAll(const std::string &dir) {
    DIR *d = opendir(dir.c_str());
    if (!d) return;
    std::vector<std::string> v;
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") v.push_back(dir + "/" + n);
    }
    closedir(d);
    for (auto &n : v) {
        struct stat st;
        lstat(n.c_str(), &st);
        if (S_ISDIR(st.st_mode)) removeAll(n);
        else unlink(n.c_str());
    }
    rmdir(dir.c_str());
}

struct Shape {
    size_t n;
    std::vector<uint32_t> f;
    std::vector<Vec3> p;
    long chi;
    int parts;
    bool closed;
    std::vector<std::array<int, 3>> corners;  // numbers of neighbours of the corners of the triangles, however numbered
};
static Shape shape(const std::vector<Vec3> &p, const std::vector<uint32_t> &f) {
    Shape s;
    s.p = p;
    s.f = f;
    s.n = s.p.size();
    std::set<std::pair<uint32_t, uint32_t>> e, both;
    std::vector<int> up(s.n), deg(s.n, 0);
    for (size_t i = 0; i < s.n; i++) up[i] = (int)i;
    std::function<int(int)> root = [&](int x) { return up[x] == x ? x : up[x] = root(up[x]); };
    for (size_t i = 0; i < s.f.size(); i++) {
        uint32_t a = s.f[i], b = s.f[i % 3 == 2 ? i - 2 : i + 1];
        if (a >= s.n || a == b) fail("a triangle names vertices that do not exist or one of them twice");
        if (!e.insert({ a, b }).second) fail("two triangles are on the same side of an edge");
        both.insert(std::minmax(a, b));
        up[root((int)a)] = root((int)b);
    }
    for (auto &x : both) deg[x.first]++, deg[x.second]++;
    s.closed = e.size() == 2 * both.size();
    s.chi = (long)s.n - (long)both.size() + (long)s.f.size() / 3;
    s.parts = 0;
    for (size_t i = 0; i < s.n; i++) s.parts += root((int)i) == (int)i;
    for (size_t i = 0; i < s.f.size(); i += 3) {
        std::array<int, 3> c = { deg[s.f[i]], deg[s.f[i + 1]], deg[s.f[i + 2]] };
        std::rotate(c.begin(), std::min_element(c.begin(), c.end()), c.end());
        std::array<int, 3> best = c;
        for (int k = 0; k < 2; k++) {
            std::rotate(c.begin(), c.begin() + 1, c.end());
            best = std::min(best, c);
        }
        s.corners.push_back(best);
    }
    std::sort(s.corners.begin(), s.corners.end());
    return s;
}
// what a file holds, without the library's own reader
static Shape parse(const std::string &file, bool ply) {
    std::vector<Vec3> p;
    std::vector<uint32_t> f;
    std::ifstream in(file, std::ios::binary);
    if (ply) {
        tinyply::PlyFile pf;
        pf.parse_header(in);
        auto v = pf.request_properties_from_element("vertex", { "x", "y", "z" });
        auto t = pf.request_properties_from_element("face", { "vertex_indices" }, 3);
        pf.read(in);
        for (size_t i = 0; i < v->count; i++) {
            double x[3];
            for (int k = 0; k < 3; k++) x[k] = v->t == tinyply::Type::FLOAT64 ? ((const double *)v->buffer.get())[3 * i + k] : ((const float *)v->buffer.get())[3 * i + k];
            p.push_back(Vec3(x[0], x[1], x[2]));
        }
        for (size_t i = 0; i < 3 * t->count; i++) f.push_back(((const uint32_t *)t->buffer.get())[i]);
    } else {
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string k, w;
            l >> k;
            if (k == "v") {
                double x[3] = { 0, 0, 0 };
                for (double &y : x) l >> w, y = strtod(w.c_str(), nullptr);
                p.push_back(Vec3(x[0], x[1], x[2]));
            } else if (k == "f") {
                while (l >> w) f.push_back((uint32_t)strtol(w.c_str(), nullptr, 10) - 1);
            }
        }
    }
    return shape(p, f);
}
static std::vector<std::vector<float>> placed(const Shape &s) {
    std::vector<std::vector<float>> r;
    for (size_t i = 0; i < s.f.size(); i += 3) {
        std::vector<float> best;
        for (int q = 0; q < 3; q++) {
            std::vector<float> x;
            for (int k = 0; k < 3; k++)
                for (int c = 0; c < 3; c++) x.push_back((float)s.p[s.f[i + (q + k) % 3]][c]);
            if (best.empty() || x < best) best = x;
        }
        r.push_back(best);
    }
    std::sort(r.begin(), r.end());
    return r;
}

// runs a program to its end as an unprivileged user
static int launch(const Program &g, const std::string &cwd, std::vector<std::string> args, std::string &said) {
    const std::string o = vp::eng().scratch + vp::strf("/o%d", (int)getpid());
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        int a = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(a, 1), dup2(a, 2);
        // nothing outside of the directory of this case can be written
        if (setgroups(0, nullptr) || setgid(NOBODY) || setuid(NOBODY) || chdir(cwd.c_str())) _exit(98);
        std::vector<char *> v;
        for (auto &x : args) v.push_back(&x[0]);
        v.push_back(nullptr);
        int rc;
        try {
            rc = g.run((int)args.size(), v.data());
        } catch (const std::exception &e) {
            printf("refused: %s\n", e.what());
            rc = 3;
        }
        std::cout.flush();
        fflush(nullptr);
        _exit(rc == 0 ? 0 : 3);
    }
    int status;
    if (waitpid(pid, &status, 0) != pid) throw std::runtime_error("waitpid");
    said = slurp(o);
    unlink(o.c_str());
    if (WIFEXITED(status) && WEXITSTATUS(status) == 98) throw std::runtime_error("the unprivileged user cannot be used");
    return status;
}

// started without an input, or with one that is not there or of no known type, a program fails and writes nothing
static void refused(const Program &g, int how) {
    const std::string base = vp::eng().scratch + vp::strf("/r%d", (int)getpid());
    mkdir(base.c_str(), 0755);
    if (chown(base.c_str(), NOBODY, NOBODY)) throw std::runtime_error("chown");
    put(base + "/mesh.txt", "v 0 0 0"), put(base + "/empty.obj", ""), put(base + "/empty.ply", "");
    static const char *const given[] = { nullptr, "none.obj", "none.ply", "sub/none.obj", "mesh.txt", "empty.ply", "." };
    std::map<std::string, std::string> before, after;
    listing(base, "", before);
    std::vector<std::string> args = { "example" };
    if (given[how]) args.push_back(given[how]);
    std::string said;
    const int status = launch(g, base, args, said);
    listing(base, "", after);
    removeAll(base);
    vp::add(vp::STATES), vp::add(vp::TRANSITIONS), vp::add(vp::TRACES);
    const std::string what = vp::strf("%s, %s: ", g.name, given[how] ? given[how] : "no input");
    if (!WIFEXITED(status) || (WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 3)) fail("%sthe program crashes: %s", what.c_str(), said.substr(0, 300).c_str());
    if (after != before) fail("%sfiles are written", what.c_str());
    if (WEXITSTATUS(status) == 0) fail("%sthe program succeeds", what.c_str());
    vp::outcome(vp::mix(3, how));
}

static void run(const Program &g, const std::string &option, const Surf &s, const char *ext, const Place &pl) {
    static int serial = 0;
    const std::string base = vp::eng().scratch + vp::strf("/w%d-%d", (int)getpid(), serial++);
    struct Clean {
        std::string d;
        ~Clean() {
            removeAll(d);
        }
    } clean{ base };
    auto dir = [&](const std::string &d) {
        mkdir(d.c_str(), 0755);
        if (chown(d.c_str(), NOBODY, NOBODY)) throw std::runtime_error("chown");
    };
    dir(base), dir(base + "/" + pl.dir);
    if (std::string(pl.dir) != pl.cwd) dir(base + "/" + pl.cwd);
    const std::string stem = pl.stem, dot = std::string(".") + ext, file = stem + dot, in = base + "/" + pl.dir + "/" + file;
    Mesh start(s.p, mg::flat(s));
    start.save(in);
    std::string arg = pl.arg;
    if (arg[0] == '@') arg = base + arg.substr(1);
    if (arg.find("%s") != std::string::npos) arg.replace(arg.find("%s"), 2, file);
    if (pl.link) {
        arg += dot;
        if (symlink(("../" + std::string(pl.dir) + "/" + file).c_str(), (base + "/" + pl.cwd + "/" + arg).c_str())) throw std::runtime_error("symlink");
    }
    if (pl.crowded) {
        const std::string d = base + "/" + pl.dir + "/";
        put(d + "other" + dot, "x"), put(d + stem, "y"), put(d + stem + ".bak", "z"), put(d + stem + "2" + dot, "w");
        for (auto &w : g.written) {
            put(d + stem + w + dot, "old");
            if (chown((d + stem + w + dot).c_str(), NOBODY, NOBODY)) throw std::runtime_error("chown");
        }
    }
    std::map<std::string, std::string> before, after;
    listing(base, "", before);
    std::vector<std::string> args = { "example", arg };
    if (!option.empty()) args.push_back(option);
    std::string said;
    const int status = launch(g, base + "/" + pl.cwd, args, said);
    vp::add(vp::TRANSITIONS);
    if (!WIFEXITED(status) || (WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 3)) fail("the program crashes: %s", said.substr(0, 300).c_str());
    const bool ok = WEXITSTATUS(status) == 0;
    listing(base, "", after);
    std::set<std::string> expected;
    for (auto &w : g.written) expected.insert("/" + std::string(pl.dir) + "/" + stem + w + dot);
    for (auto &x : before)
        if (!expected.count(x.first) && (!after.count(x.first) || after[x.first] != x.second)) fail("the program changes %s", x.first.c_str());
    size_t there = 0;
    Mesh filled(in);
    if (g.fills) filled.fillHoles();
    Shape want;
    bool proper = true;  // where filling joins two corners that have an edge already, only the files are looked at
    try {
        want = shape(filled.getVertices(), filled.getVertexIndices());
    } catch (const vp::Violation &) {
        proper = false;
    }
    if (!ok && proper && g.must && !(want.f.size() / 3 < 20 && option.empty() && g.run == vp_example_simplify)) fail("the program fails: %s", said.substr(0, 300).c_str());
    for (auto &x : after) {
        if (!expected.count(x.first)) {
            if (!before.count(x.first)) fail("the program writes %s", x.first.c_str());
            continue;
        }
        if (before.count(x.first) && before[x.first] == x.second) continue;
        there++;
        if (!proper) continue;
        const Shape got = parse(base + x.first, ext[0] == 'p');
        vp::add(vp::EVALS);
        if (got.chi != want.chi || got.parts != want.parts || got.closed != want.closed) fail("%s has %zu vertices, Euler characteristic %ld, %d pieces and is %s instead of %ld, %d and %s", x.first.c_str(), got.n, got.chi, got.parts, got.closed ? "closed" : "open", want.chi, want.parts, want.closed ? "closed" : "open");
        if (g.keeps && got.corners != want.corners) fail("%s has other triangles", x.first.c_str());
        for (auto &p : got.p)
            for (int k = 0; k < 3; k++)
                if (!std::isfinite(p[k])) fail("%s has positions that are not numbers", x.first.c_str());
        if (!g.fills && placed(got) != placed(want)) fail("%s has triangles at other places", x.first.c_str());
        if (x.first.find("_noise") == std::string::npos && said.find(base + x.first) == std::string::npos) fail("%s is written without being mentioned", x.first.c_str());
        vp::outcome(vp::mix(vp::mix(7, got.n), got.f.size()));
    }
    if (ok && there != expected.size()) fail("only %zu of %zu results are written: %s", there, expected.size(), said.substr(0, 300).c_str());
    vp::add(vp::STATES);
    vp::add(vp::TRACES);
}

static std::vector<Surf> list_;

static void setup() {
    const bool th = vp::thorough();
    auto bump = [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; };
    const Surf small = mg::project(mg::subdivide(mg::icosahedron()), 1.0);
    list_ = { small, mg::perforated(small, false), mg::sheet(5, 4, 0xc3a5, bump), shapes::scaled(mg::torusGrid(7, 9), 1e-3), mg::disjoint(small, shapes::scaled(mg::torusGrid(6, 6), 1e-3), Vec3(4.0, 0.5, 0.0)) };
    for (auto &s : shapes::solids()) list_.push_back(s);
    if (th)
        for (auto &s : shapes::sheets(false)) list_.push_back(s);
    for (int n = 4; n <= (th ? 7 : 6); n++)
        for (auto &s : shapes::unitSize(mg::spheres(n))) list_.push_back(s);
    for (auto &s : list_) s = shapes::ordered(s);
    struct Case {
        int program, option, mesh, place;
        bool ply;
    };
    auto all = std::make_shared<std::vector<Case>>();
    for (int p = 0; p < (int)programs.size(); p++)
        for (int o = 0; o < (int)programs[p].options.size(); o++)
            for (int m = 0; m < (int)list_.size(); m++)
                for (int l = 0; l < (int)places.size(); l++)
                    for (int e = 0; e < 2; e++)
                        if (l == 0 || m < (th ? 5 : 3)) all->push_back({ p, o, m, l, e == 1 });
    vp::group("programs", all->size(), [all](uint64_t i) {
        const Case &c = (*all)[i];
        const Program &g = programs[c.program];
        try {
            run(g, g.options[c.option], list_[c.mesh], c.ply ? "ply" : "obj", places[c.place]);
        } catch (const vp::Violation &v) {
            fail("%s %s, %s, %s, %s: %s", g.name, g.options[c.option].c_str(), list_[c.mesh].name.c_str(), c.ply ? "ply" : "obj", places[c.place].what, v.what.c_str());
        }
        vp::sample(std::string(g.name) + ", " + places[c.place].what);
    }, nullptr, 120);
    vp::group("refused", programs.size() * 7, [](uint64_t i) { refused(programs[i / 7], (int)(i % 7)); }, nullptr, 60);
}
VP_MAIN(setup)
