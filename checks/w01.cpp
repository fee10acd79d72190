// W01: in a C++ program every refused call ends the program with a message; every message is printed completely.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <sstream>

#include "core/bvh.h"
#include "core/debug.h"
#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/openmp.h"
#include "core/vertex.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "refmesh.hpp"
#include "remesh/remesh.h"
#include "shapes.hpp"
using namespace tinymesh;
using mg::Surf;
using vp::fail;

struct End {
    bool returned = false;
    int status = 0;
    std::string out, err;
};

static std::string slurp(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream b;
    b << in.rdbuf();
    return b.str();
}

// the call in a process of its own
static End inChild(const std::function<void()> &f) {
    const std::string o = vp::eng().scratch + vp::strf("/o%d", (int)getpid()), e = vp::eng().scratch + vp::strf("/e%d", (int)getpid());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        int a = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), b = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(a, 1), dup2(b, 2);
        f();
        std::cout.flush();
        fflush(nullptr);
        _exit(77);
    }
    End r;
    if (waitpid(pid, &r.status, 0) != pid) throw std::runtime_error("waitpid");
    r.returned = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 77;
    r.out = slurp(o), r.err = slurp(e);
    unlink(o.c_str()), unlink(e.c_str());
    vp::add(vp::TRANSITIONS);
    return r;
}

static std::string last(const std::string &s) {
    std::string t = s.substr(s.size() > 200 ? s.size() - 200 : 0);
    for (char &c : t)
        if (c == '\n') c = ' ';
    return t;
}

static void judge(const std::string &what, bool refused, const std::function<void()> &f) {
    End r = inChild(f);
    const std::string all = r.out + r.err;
    vp::add(vp::STATES);
    vp::add(vp::TRACES);
    if (all.find("AddressSanitizer") != std::string::npos) fail("%s: memory is misused: %s", what.c_str(), last(all).c_str());
    if (!refused) {
        if (!r.returned) fail("%s ends the program (status %x): %s", what.c_str(), r.status, last(all).c_str());
        return;
    }
    if (r.returned) fail("%s is not refused", what.c_str());
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) fail("%s ends the program as if it had succeeded", what.c_str());
    if (WIFSIGNALED(r.status) && WTERMSIG(r.status) != SIGABRT) fail("%s ends with signal %d", what.c_str(), WTERMSIG(r.status));
    bool letter = false;
    for (char c : all) letter |= isalpha((unsigned char)c) != 0;
    if (!letter) fail("%s ends the program without a message", what.c_str());
    vp::outcome(vp::mix(3, all.size()));
}

struct Call {
    std::string name;
    bool refused;
    std::function<void()> f;
};
static std::vector<Call> calls_;

static Surf open_(int k) {
    auto bump = [](int i, int j) { return 0.3 * ((i * 5 + j * 3 + i * j) % 4) - 0.2 * i; };
    return k == 0 ? shapes::scaled(mg::icosahedron(), 1e-3) : k == 1 ? shapes::ordered(mg::sheet(3, 3, 0x155, bump)) : shapes::scaled(mg::torusGrid(4, 5), 1e-3);
}
static Mesh mesh(int k) {
    Surf s = open_(k);
    return Mesh(s.p, mg::flat(s));
}

static void put(const std::string &f, const std::string &t) {
    std::ofstream(f, std::ios::binary) << t;
}

static void elements() {
    for (int k = 0; k < 3; k++) {
        Mesh m = mesh(k);
        const int n[3] = { (int)m.numVertices(), (int)m.numHalfedges(), (int)m.numFaces() };
        for (int e = 0; e < 3; e++)
            for (int i : { INT_MIN, -2, -1, 0, 1, n[e] - 1, n[e], n[e] + 1, INT_MAX })
                calls_.push_back({ vp::strf("%s %d of mesh %d", e == 0 ? "vertex" : e == 1 ? "halfedge" : "face", i, k), i < 0 || i >= n[e], [k, e, i] {
                                      Mesh m = mesh(k);
                                      if (e == 0) m.vertex(i);
                                      if (e == 1) m.halfedge(i);
                                      if (e == 2) m.face(i);
                                  } });
        for (int kind = -1; kind <= 3; kind++)
            calls_.push_back({ vp::strf("matrix kind %d of mesh %d", kind, k), kind < 0 || kind > 2, [k, kind] { getMeshLaplacian(mesh(k), (MeshLaplace)kind); } });
        if (k != 1)
            for (int K : { -1, 0, 1, 2, n[0] - 1, n[0], n[0] + 1 })
                calls_.push_back({ vp::strf("%d eigenvalues of mesh %d", K, k), K < 2 || K >= n[0], [k, K] { getHeatKernelSignatures(getMeshLaplacian(mesh(k), MeshLaplace::Cotangent), K, 3); } });
        for (int target : { 0, 1, 5, 10, n[2], n[2] + 1 }) calls_.push_back({ vp::strf("simplifying mesh %d to %d", k, target), target == 0, [k, target] { Mesh m = mesh(k); simplifyQEM(m, target, 3, false); } });
        const bool hole = k == 1;
        for (int threads : { 1, 4 }) {
            auto with = [threads](const std::function<void()> &f) {
                return [threads, f] {
                    omp_set_num_threads(threads);
                    f();
                };
            };
            const std::string t = vp::strf(" of mesh %d with %d threads", k, threads);
            calls_.push_back({ "Gaussian filter" + t, hole, with([k] { Mesh m = mesh(k); denoiseNormalGaussian(m, 0.3, 1); }) });
            calls_.push_back({ "bilateral filter" + t, hole, with([k] { Mesh m = mesh(k); denoiseNormalBilateral(m, 0.3, 0.2, 1); }) });
            calls_.push_back({ "Laplacian smoothing" + t, false, with([k] { Mesh m = mesh(k); smoothLaplacian(m, 0.3, false, 1); }) });
            calls_.push_back({ "Taubin smoothing" + t, false, with([k] { Mesh m = mesh(k); smoothTaubin(m); }) });
        }
        for (int a = 0; a < 2; a++)
            for (int b = 0; b < 2; b++)
                for (int q = 0; q < 2; q++)
                    calls_.push_back({ vp::strf("distance between %s and %s mesh %d", a ? "empty" : "full", b ? "empty" : "full", k), a || b, [k, a, b, q] {
                                          Mesh x, y;
                                          if (!a) x = mesh(k);
                                          if (!b) y = mesh(k);
                                          if (q)
                                              getHausdorffDistance(x, y);
                                          else {
                                              getPerVertexShortestDistances(x, y);
                                              if (a) getHausdorffDistance(x, y);
                                          }
                                      } });
        for (int f = 0; f < n[2]; f++) {
            bool tri = false;
            {
                int c = 0;
                for (auto it = m.face(f)->v_begin(); it != m.face(f)->v_end(); ++it) c++;
                tri = c == 3;
            }
            calls_.push_back({ vp::strf("triangle of face %d of mesh %d", f, k), !tri, [k, f] { mesh(k).face(f)->toTriangle(); } });
        }
    }
}

static void builds() {
    // every list of up to five numbers, of which the largest is invalid
    for (int n = 1; n <= 5; n++) {
        int N = 1;
        for (int i = 0; i < n; i++) N *= n <= 3 ? 5 : 3;
        for (int c = 0; c < N; c++) {
            std::vector<uint32_t> idx;
            for (int i = 0, x = c; i < n; i++, x /= (n <= 3 ? 5 : 3)) idx.push_back(n <= 3 ? x % 5 : x % 3 + 1);
            bool ok = n == 3 && idx[0] < 4 && idx[1] < 4 && idx[2] < 4 && idx[0] != idx[1] && idx[1] != idx[2] && idx[2] != idx[0];
            std::string name = "building from";
            for (auto i : idx) name += vp::strf(" %u", i);
            calls_.push_back({ name, !ok, [idx] { Mesh m({ Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0), Vec3(1.0, 1.0, 1.0) }, idx); } });
            bool range = n % 3 == 0;
            for (auto i : idx) range &= i < 4;
            calls_.push_back({ "index" + name.substr(8), !range, [idx] { BVH b({ Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0), Vec3(1.0, 1.0, 1.0) }, idx); } });
        }
    }
}

static void files() {
    const std::string d = vp::eng().scratch + "/files";
    mkdir(d.c_str(), 0700);
    Surf s = open_(0);
    for (const char *ext : { "obj", "ply" }) {
        const std::string good = d + "/good." + ext;
        calls_.push_back({ vp::strf("saving and loading %s", ext), false, [good] {
                              const std::string f = good + vp::strf("%d", (int)getpid()) + good.substr(good.size() - 4);
                              mesh(0).save(f);
                              Mesh m(f);
                              unlink(f.c_str());
                          } });
        calls_.push_back({ vp::strf("loading a missing %s", ext), true, [d, ext] { Mesh m(d + "/missing." + ext); } });
        calls_.push_back({ vp::strf("saving %s to a missing place", ext), true, [d, ext] { mesh(0).save(d + "/none/x." + ext); } });
        calls_.push_back({ vp::strf("saving %s to a full disk", ext), true, [ext] {
                              const std::string f = vp::eng().scratch + vp::strf("/full%d.%s", (int)getpid(), ext);
                              if (symlink("/dev/full", f.c_str())) _exit(3);
                              try {
                                  mesh(0).save(f);
                              } catch (...) {
                                  unlink(f.c_str());
                                  throw;
                              }
                              unlink(f.c_str());
                          } });
        mkdir((d + "/dir." + ext).c_str(), 0700);
        calls_.push_back({ vp::strf("loading a directory as %s", ext), true, [d, ext] { Mesh m(d + "/dir." + ext); } });
        calls_.push_back({ vp::strf("saving %s to a directory", ext), true, [d, ext] { mesh(0).save(d + "/dir." + ext); } });
        put(d + "/empty." + ext, "");
        calls_.push_back({ vp::strf("loading an empty %s", ext), true, [d, ext] { Mesh m(d + "/empty." + ext); } });
        put(d + "/points." + ext, ext[0] == 'o' ? "v 0 0 0\nv 1 0 0\nv 0 1 0\n" : "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nend_header\n0 0 0\n1 0 0\n0 1 0\n");
        calls_.push_back({ vp::strf("loading %s without triangles", ext), true, [d, ext] { Mesh m(d + "/points." + ext); } });
        put(d + "/range." + ext, ext[0] == 'o' ? "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 4\n"
                                                : "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 3\n");
        calls_.push_back({ vp::strf("loading %s with a wrong index", ext), true, [d, ext] { Mesh m(d + "/range." + ext); } });
    }
    for (const char *ext : { "", ".", ".stl", ".off", ".ob", ".objx", ".plyy", ".ply.", ".obj~" }) {
        put(d + "/odd" + ext, "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n");
        calls_.push_back({ vp::strf("loading a file ending in '%s'", ext), true, [d, ext] { Mesh m(d + "/odd" + ext); } });
        calls_.push_back({ vp::strf("saving a file ending in '%s'", ext), true, [d, ext] { mesh(0).save(d + "/odd2" + ext); } });
    }
}

// the text is printed once, unchanged, between parts that do not depend on it
static void message(int kind, int n) {
    std::string text;
    for (int i = 0; i < n; i++) text += (char)("0123456789abcdefghijklmnopqrstuvwxyz%\n\\x"[(i * 7 + i / 41) % 40]);
    auto say = [kind](const char *t) {
        return [kind, t] {
            if (kind == 0) Print("%s", t);
            if (kind == 1) Info("%s", t);
            if (kind == 2) Debug("%s", t);
            if (kind == 3) Warn("%s", t);
            if (kind == 4) Error("%s", t);
            if (kind == 5) Warn("%d|%s|%5.2f", 42, t, 2.5);
        };
    };
    const std::string mark = "QQ";
    End e = inChild(say(mark.c_str())), r = inChild(say(text.c_str()));
    const std::string ref = e.out + e.err, got = r.out + r.err;
    size_t at = ref.find(mark);
    if (at == std::string::npos) fail("message kind %d is not printed", kind);
    if (kind == 5 && ref.find("42|QQ| 2.50") == std::string::npos) fail("a message is not formatted: %s", last(ref).c_str());
    // what the system adds after the end of the process is left out
    const std::string head = ref.substr(0, at);
    if (got.substr(0, head.size()) != head || got.compare(head.size(), text.size(), text) != 0) fail("message kind %d of %d characters is printed as: %s", kind, n, last(got).c_str());
    if (kind != 4 && got.size() != ref.size() + text.size() - mark.size()) fail("message kind %d of %d characters: %zu characters are printed", kind, n, got.size());
    if (r.returned != (kind != 4)) fail("message kind %d of %d characters %s", kind, n, r.returned ? "lets the program go on" : "ends the program");
    vp::add(vp::STATES);
    vp::add(vp::TRACES);
}

static void pieces(const std::vector<int> &len, int ends) {
    std::string want;
    std::vector<std::string> part;
    for (size_t i = 0; i < len.size(); i++) {
        part.push_back(std::string(len[i], (char)('a' + i)));
        want += part[i];
        if (ends >> i & 1) want += "\n";
    }
    End e = inChild([&] {
        PrintStream p;
        for (size_t i = 0; i < part.size(); i++) {
            p << part[i];
            if (ends >> i & 1) p << std::endl;
        }
    });
    if (e.out + e.err != want) fail("pieces are printed as: %s", last(e.out + e.err).c_str());
    vp::add(vp::STATES);
    vp::add(vp::TRACES);
}

static void setup() {
    const bool th = vp::thorough();
    elements();
    builds();
    files();
    vp::group("calls", calls_.size(), [](uint64_t i) { judge(calls_[i].name, calls_[i].refused, calls_[i].f); }, [](uint64_t i) { return calls_[i].name; }, 60);
    const int L = th ? 1200 : 300;
    vp::group("messages", 6 * L, [](uint64_t i) { message((int)(i % 6), (int)(i / 6)); }, nullptr, 60);
    static const int len[] = { 0, 1, 63, 64, 127, 128, 129, 256, 300 };
    vp::group("pieces", 9 * 9 * 9 * 8, [](uint64_t i) { pieces({ len[i % 9], len[i / 9 % 9], len[i / 81 % 9] }, (int)(i / 729)); }, nullptr, 60);
}
VP_MAIN(setup)
