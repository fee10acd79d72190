// I02: every fault in opening, reading and writing a file, and every truncation and corruption of a saved file.
#include <dlfcn.h>
#include <errno.h>
#include <fstream>
#include <sstream>
#include <sys/uio.h>
#include <unistd.h>

#include "ops.hpp"
using namespace mg;
using namespace tinymesh;
using vp::fail;

// The file layer of the standard library ends in these calls; a script decides what each of them does on the watched file.
enum Act { OK = 0, NOSPACE, IOERR, SHORT, INTR };
static struct {
    bool on = false;
    std::string file;
    std::vector<int> script;  // one action per call on the file, the last one repeats if sticky
    bool sticky = false;
    size_t calls = 0;
    bool hit = false;
} fault;
static bool watched(int fd) {
    if (!fault.on) return false;
    char p[64], t[512];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(p, t, sizeof t - 1);
    if (k <= 0) return false;
    t[k] = 0;
    return fault.file == t;
}
static int action() {
    size_t k = fault.calls++;
    if (k < fault.script.size()) return fault.script[k];
    return fault.sticky && !fault.script.empty() ? fault.script.back() : OK;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) {
    typedef ssize_t (*Fn)(int, const void *, size_t);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "write");
    if (watched(fd) && n > 0) switch (action()) {
        case NOSPACE: fault.hit = true; errno = ENOSPC; return -1;
        case IOERR: fault.hit = true; errno = EIO; return -1;
        case SHORT: return real(fd, b, (n + 1) / 2);
        case INTR: errno = EINTR; return -1;
        }
    return real(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) {
    typedef ssize_t (*Fn)(int, const struct iovec *, int);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "writev");
    if (watched(fd)) switch (action()) {
        case NOSPACE: fault.hit = true; errno = ENOSPC; return -1;
        case IOERR: fault.hit = true; errno = EIO; return -1;
        case SHORT: {
            for (int i = 0; i < n; i++)
                if (v[i].iov_len) {
                    struct iovec w = v[i];
                    w.iov_len = (w.iov_len + 1) / 2;
                    return real(fd, &w, 1);
                }
            break;
        }
        case INTR: errno = EINTR; return -1;
        }
    return real(fd, v, n);
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
    typedef ssize_t (*Fn)(int, void *, size_t);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "read");
    if (watched(fd)) switch (action()) {
        case NOSPACE:
        case IOERR: fault.hit = true; errno = EIO; return -1;
        case SHORT: return real(fd, b, n > 1 ? (n + 1) / 2 : n);
        case INTR: errno = EINTR; return -1;
        }
    return real(fd, b, n);
}

static std::string bytes(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
static void put(const std::string &f, const std::string &s) {
    std::ofstream(f, std::ios::binary) << s;
}
static std::string path(const char *ext) {
    return vp::eng().scratch + vp::strf("/f%d.%s", (int)getpid(), ext);
}
// true: returned normally; false: reported an error
template <typename Fn>
static bool attempt(Fn f) {
    vp::add(vp::EVALS);
    vp::add(vp::TRANSITIONS);
    try {
        f();
        return true;
    } catch (const std::exception &) {
        return false;
    }
}
static std::vector<Surf> surfs;
static const char *exts[2] = { "obj", "ply" };

struct Doc {
    Surf s;
    int ext;
    std::string text;
    std::multiset<ref::Tri> tris;
    size_t body;  // ply: end of header
};
static std::vector<Doc> docs;
static std::vector<std::pair<int, size_t>> cuts;

static void sane(const Mesh &m) {
    size_t nv = m.getVertices().size();
    for (uint32_t i : m.getVertexIndices())
        if (i >= nv) fail("index %u out of range after loading", i);
}

static std::string ply(const std::string &vt, const std::string &names, const std::string &it, const std::string &iname, const std::string &elem = "vertex", const std::string &felem = "face") {
    std::istringstream ns(names);
    std::string n, r = "ply\nformat ascii 1.0\nelement " + elem + " 4\n";
    int k = 0;
    while (ns >> n) r += "property " + vt + " " + n + "\n", k++;
    r += "element " + felem + " 4\nproperty list uchar " + it + " " + iname + "\nend_header\n";
    const char *p[4] = { "0 0 0", "1 0 0", "0 1 0", "0 0 1" };
    for (auto q : p) r += k == 2 ? std::string(q).substr(0, 3) + "\n" : std::string(q) + (k == 4 ? " 5\n" : "\n");
    return r + "3 0 2 1\n3 0 1 3\n3 0 3 2\n3 1 2 3\n";
}
struct Bad {
    const char *what, *ext;
    std::string text;
    int expect;  // 0: error, 1: the tetrahedron, 2: either
};
static std::vector<Bad> bad;

static void setup() {
    const bool th = vp::thorough();
    // touch the real functions before any case runs
    { char c; if (read(-1, &c, 1) > 0 || write(-1, &c, 1) > 0) abort(); }
    for (auto &s : spheres(4)) surfs.push_back(s);
    for (auto &s : spheres(6)) surfs.push_back(s);
    surfs.push_back(sheet(2, 2, 3, [](int i, int j) { return 0.3 * i * i - 0.7 * j * i; }));
    if (th) surfs.push_back(icosahedron());
    surfs.push_back(subdivide(subdivide(subdivide(icosahedron()))));  // longer than one buffer
    const int small = (int)surfs.size() - 1;

    // --- writing: the destination takes only k bytes, for every k
    struct W {
        int s, e;
        size_t k;
    };
    static std::vector<W> ws;
    static std::vector<size_t> sizes;
    for (int s = 0; s < (int)surfs.size(); s++)
        for (int e = 0; e < 2; e++) {
            Mesh m(surfs[s].p, flat(surfs[s]));
            std::string f = path(exts[e]);
            m.save(f);
            size_t n = bytes(f).size();
            if (n == 0) throw std::runtime_error("no file written");
            if (s < small) {
                Doc d;
                d.s = surfs[s];
                d.ext = e;
                d.text = bytes(f);
                d.body = d.text.find("end_header\n");
                d.body = d.body == std::string::npos ? 0 : d.body + 11;
                docs.push_back(d);
                for (size_t k = 0; k < n; k++) cuts.push_back({ (int)docs.size() - 1, k });
            }
            unlink(f.c_str());
            size_t step = s < small ? 1 : n / (th ? 400 : 100);
            for (size_t k = 0; k < n; k += step) ws.push_back({ s, e, k });
            ws.push_back({ s, e, n - 1 });
            ws.push_back({ s, e, n });
        }
    vp::group("full-disk", ws.size(), [](uint64_t i) {
        const W &w = ws[i];
        Mesh m(surfs[w.s].p, flat(surfs[w.s]));
        std::string f = path(exts[w.e]);
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = w.k;
        setrlimit(RLIMIT_FSIZE, &lim);
        bool ok = attempt([&] { m.save(f); });
        setrlimit(RLIMIT_FSIZE, &old);
        size_t got = bytes(f).size();
        bool complete = true;
        try {
            Mesh r(f);
            complete = r.numVertices() == m.numVertices() && r.getVertexIndices().size() == m.getVertexIndices().size();
        } catch (const std::exception &) {
            complete = false;
        }
        unlink(f.c_str());
        vp::add(vp::STATES);
        vp::outcome(vp::mix(vp::mix(ok, w.e), got));
        if (ok && !complete) fail("saving .%s returned normally although only %d bytes could be written", exts[w.e], (int)w.k);
    }, [](uint64_t i) { return vp::strf("%s .%s limited to %d bytes", surfs[ws[i].s].name.c_str(), exts[ws[i].e], (int)ws[i].k); });

    // --- every script of up to three system-call results, then success or a lasting failure
    static std::vector<std::vector<int>> scripts;
    for (int len = 1; len <= (th ? 4 : 3); len++) {
        int n = 1;
        for (int j = 0; j < len; j++) n *= 5;
        for (int c = 0; c < n; c++) {
            std::vector<int> v;
            for (int j = 0, q = c; j < len; j++, q /= 5) v.push_back(q % 5);
            scripts.push_back(v);
        }
    }
    // late faults: the k-th call fails
    for (int k = 3; k < 40; k++)
        for (int a : { NOSPACE, IOERR }) {
            std::vector<int> v(k, OK);
            v.push_back(a);
            scripts.push_back(v);
        }
    static std::vector<int> ids;
    ids = { 0, 1, small - 1, small };
    auto showScript = [](uint64_t i) {
        static const char *n[] = { "ok", "ENOSPC", "EIO", "short", "EINTR" };
        std::string r = vp::strf("%s .%s:", surfs[ids[i / 4 % ids.size()]].name.c_str(), exts[i & 1]);
        for (int a : scripts[i / 4 / ids.size()]) r += std::string(" ") + n[a];
        return r + (i & 2 ? " repeated" : "");
    };
    const uint64_t nscripts = scripts.size() * 4 * ids.size();
    vp::group("write-faults", nscripts, [](uint64_t i) {
        const int e = i & 1;
        const Surf &s = surfs[ids[i / 4 % ids.size()]];
        Mesh m(s.p, flat(s));
        std::string f = path(exts[e]);
        put(f, "");
        char real[4096];
        if (!realpath(f.c_str(), real)) throw std::runtime_error("scratch file is missing");
        fault.script = scripts[i / 4 / ids.size()];
        fault.sticky = (i & 2) && fault.script.back() != INTR && fault.script.back() != SHORT;
        fault.calls = 0;
        fault.hit = false;
        fault.file = real;
        fault.on = true;
        bool ok = attempt([&] { m.save(f); });
        fault.on = false;
        std::string got = bytes(f);
        bool hit = fault.hit;
        bool complete = false;
        if (!hit) {
            try {
                Mesh r(f);
                complete = r.numVertices() == m.numVertices() && r.getVertexIndices().size() == m.getVertexIndices().size();
            } catch (const std::exception &) {
            }
        }
        unlink(f.c_str());
        vp::add(vp::STATES);
        vp::outcome(vp::mix(vp::mix(ok, hit), got.size()));
        if (hit && ok) fail("saving .%s returned normally although the system refused to write", exts[e]);
        if (!hit && ok && !complete) fail("saving .%s returned normally but the file is not complete", exts[e]);
        if (!hit && !ok) fail("saving .%s reported an error although every byte was written", exts[e]);
    }, showScript);
    vp::group("read-faults", nscripts, [](uint64_t i) {
        if (!(i & 1)) return;  // text reading is left to the parser library
        const Surf &s = surfs[ids[i / 4 % ids.size()]];
        Mesh m(s.p, flat(s));
        std::string f = path("ply");
        m.save(f);
        char real[4096];
        if (!realpath(f.c_str(), real)) throw std::runtime_error("scratch file is missing");
        fault.script = scripts[i / 4 / ids.size()];
        fault.sticky = (i & 2) && fault.script.back() != INTR && fault.script.back() != SHORT;
        fault.calls = 0;
        fault.hit = false;
        fault.file = real;
        fault.on = true;
        Mesh r;
        bool ok = attempt([&] { r.load(f); });
        fault.on = false;
        unlink(f.c_str());
        vp::add(vp::STATES);
        vp::outcome(vp::mix(ok, fault.hit));
        if (ok && (r.numVertices() != m.numVertices() || r.getVertexIndices().size() != m.getVertexIndices().size()))
            fail("loading returned normally with %d of %d vertices", (int)r.numVertices(), (int)m.numVertices());
    }, showScript);

    // --- every truncation
    vp::group("truncated", cuts.size(), [](uint64_t i) {
        const Doc &d = docs[cuts[i].first];
        std::string f = path(exts[d.ext]);
        put(f, d.text.substr(0, cuts[i].second));
        Mesh m;
        bool ok = attempt([&] { m.load(f); });
        unlink(f.c_str());
        vp::add(vp::STATES);
        if (ok) sane(m);
        if (ok && d.ext == 1) fail("a .ply file cut after %d of %d bytes was loaded", (int)cuts[i].second, (int)d.text.size());
        vp::outcome(vp::mix(ok, cuts[i].second));
    }, [](uint64_t i) { return vp::strf("%s .%s cut after %d", docs[cuts[i].first].s.name.c_str(), exts[docs[cuts[i].first].ext], (int)cuts[i].second); });

    // --- every single byte of the small files replaced
    static const unsigned char repl[] = { 0, 0xff, '9', '-', ' ', '\n' };
    vp::group("corrupted", cuts.size(), [](uint64_t i) {
        const Doc &d = docs[cuts[i].first];
        std::string f = path(exts[d.ext]);
        for (unsigned char c : repl) {
            std::string t = d.text;
            // a huge element count is legal and only asks for memory
            t[cuts[i].second] = (char)c;
            put(f, t);
            Mesh m;
            bool ok = attempt([&] { m.load(f); });
            if (ok) sane(m);
            vp::add(vp::STATES);
            vp::outcome(vp::mix(ok, cuts[i].second));
        }
        unlink(f.c_str());
    }, [](uint64_t i) { return vp::strf("%s .%s byte %d", docs[cuts[i].first].s.name.c_str(), exts[docs[cuts[i].first].ext], (int)cuts[i].second); });

    // --- files that are not meshes, or need care
    const std::string good = ply("float", "x y z", "int", "vertex_indices");
    auto repeat = [](const std::string &a, const std::string &from, const std::string &to) {
        std::string r = a;
        size_t k = r.rfind(from);
        return k == std::string::npos ? r : r.replace(k, from.size(), to);
    };
    const std::string obj = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nf 1 3 2\nf 1 2 4\nf 1 4 3\nf 2 3 4\n";
    bad = {
        { "good ply", "ply", good, 1 },
        { "good obj", "obj", obj, 1 },
        { "double coordinates", "ply", ply("double", "x y z", "int", "vertex_indices"), 2 },
        { "integer coordinates", "ply", ply("int", "x y z", "int", "vertex_indices"), 2 },
        { "short coordinates", "ply", ply("short", "x y z", "int", "vertex_indices"), 2 },
        { "char coordinates", "ply", ply("char", "x y z", "int", "vertex_indices"), 2 },
        { "short indices", "ply", ply("float", "x y z", "short", "vertex_indices"), 2 },
        { "ushort indices", "ply", ply("float", "x y z", "ushort", "vertex_indices"), 2 },
        { "char indices", "ply", ply("float", "x y z", "uchar", "vertex_indices"), 2 },
        { "uint indices", "ply", ply("float", "x y z", "uint", "vertex_indices"), 1 },
        { "unknown type", "ply", ply("quad", "x y z", "int", "vertex_indices"), 2 },
        { "other index name", "ply", ply("float", "x y z", "int", "vertex_index"), 2 },
        { "unknown index name", "ply", ply("float", "x y z", "int", "corners"), 0 },
        { "no z", "ply", ply("float", "x y", "int", "vertex_indices"), 0 },
        { "extra property", "ply", ply("float", "x y z q", "int", "vertex_indices"), 1 },
        { "no vertices", "ply", ply("float", "x y z", "int", "vertex_indices", "point"), 0 },
        { "no faces", "ply", ply("float", "x y z", "int", "vertex_indices", "vertex", "polygon"), 0 },
        { "empty", "ply", "", 0 },
        { "text", "ply", "hello\nworld\n", 0 },
        { "obj as ply", "ply", obj, 0 },
        { "header only", "ply", "ply\nformat ascii 1.0\nend_header\n", 0 },
        { "magic only", "ply", "ply\n", 0 },
        { "index too large", "ply", repeat(good, "3 1 2 3", "3 1 2 4"), 0 },
        { "index far too large", "ply", repeat(good, "3 1 2 3", "3 1 2 400000000"), 0 },
        { "negative index", "ply", repeat(good, "3 1 2 3", "3 1 2 -1"), 0 },
        { "index too large, obj", "obj", repeat(obj, "f 2 3 4", "f 2 3 5"), 0 },
        { "index far too large, obj", "obj", repeat(obj, "f 2 3 4", "f 2 3 400000000"), 0 },
        { "index zero, obj", "obj", repeat(obj, "f 2 3 4", "f 2 3 0"), 0 },
        { "negative index out of range, obj", "obj", repeat(obj, "f 2 3 4", "f 2 3 -9"), 0 },
        { "three triangles at an edge, obj", "obj", obj + "v 5 5 5\nf 2 3 5\n", 0 },
        { "three triangles at an edge", "ply", repeat(repeat(good, "3 1 2 3", "3 1 2 3\n3 1 2 0"), "element face 4", "element face 5"), 2 },
        { "empty obj", "obj", "", 0 },
        { "vertices only, obj", "obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\n", 0 },
        { "comment only, obj", "obj", "# nothing\n", 0 },
        { "no triangles", "ply", repeat(repeat(good, "element face 4", "element face 0"), "3 0 2 1\n3 0 1 3\n3 0 3 2\n3 1 2 3\n", ""), 0 },
        { "binary file as obj", "obj", std::string("\0\1\2\3\377\376v f\n", 10), 2 },
    };
    vp::group("not-a-mesh", bad.size(), [](uint64_t i) {
        const Bad &b = bad[i];
        std::string f = path(b.ext);
        put(f, b.text);
        Mesh m;
        bool ok = attempt([&] { m.load(f); });
        unlink(f.c_str());
        vp::add(vp::STATES);
        if (b.expect == 0 && ok) fail("%s: loading returned normally", b.what);
        if (b.expect == 1 && !ok) fail("%s: loading reported an error", b.what);
        if (ok) {
            sane(m);
            if (b.ext[0] == 'p' || b.expect == 1) {
                std::set<std::array<double, 3>> got, want = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
                for (auto &p : m.getVertices()) got.insert({ p[0], p[1], p[2] });
                if (got != want || m.getVertexIndices().size() != 12) fail("%s: loading returned normally with another mesh", b.what);
            }
        }
    }, [](uint64_t i) { return bad[i].what; });

    // --- places that cannot be opened, names that are not supported
    static std::vector<std::string> names = { "missing/x.obj", "missing/x.ply", "x.stl", "x", "x.OBJ2", "x.", "", "x.obj.bak", "x.ply.gz", "dir.obj", "dir.ply", "dir.obj/", ".obj", ".ply", "x.off", "obj", "ply" };
    vp::group("names", names.size() * 2, [](uint64_t i) {
        std::string dir = vp::eng().scratch + vp::strf("/n%d", (int)getpid());
        mkdir(dir.c_str(), 0700);
        mkdir((dir + "/dir.obj").c_str(), 0700);
        mkdir((dir + "/dir.ply").c_str(), 0700);
        std::string f = names[i / 2].empty() ? "" : dir + "/" + names[i / 2];
        const Surf &s = surfs[0];
        Mesh m(s.p, flat(s));
        bool ok = i & 1 ? attempt([&] { m.load(f); }) : attempt([&] { m.save(f); });
        bool there = !f.empty() && f.back() != '/' && access(f.c_str(), F_OK) == 0 && names[i / 2].compare(0, 3, "dir") != 0;
        if (there) unlink(f.c_str());
        rmdir((dir + "/dir.obj").c_str());
        rmdir((dir + "/dir.ply").c_str());
        rmdir(dir.c_str());
        vp::add(vp::STATES);
        if (ok && !there) fail("%s '%s' returned normally", i & 1 ? "loading" : "saving", names[i / 2].c_str());
        if (ok && (i & 1)) fail("loading '%s' returned normally", names[i / 2].c_str());
    }, [](uint64_t i) { return names[i / 2] + (i & 1 ? " load" : " save"); });

    // --- no file descriptor left
    vp::group("no-descriptors", 4, [](uint64_t i) {
        const Surf &s = surfs[1];
        Mesh m(s.p, flat(s));
        std::string f = path(exts[i & 1]);
        m.save(f);
        struct rlimit old, lim;
        getrlimit(RLIMIT_NOFILE, &old);
        lim = old;
        lim.rlim_cur = 0;
        setrlimit(RLIMIT_NOFILE, &lim);
        bool ok = i & 2 ? attempt([&] { m.save(f); }) : attempt([&] { Mesh r; r.load(f); });
        setrlimit(RLIMIT_NOFILE, &old);
        unlink(f.c_str());
        vp::add(vp::STATES);
        if (ok) fail("%s .%s returned normally although no file could be opened", i & 2 ? "saving" : "loading", exts[i & 1]);
    });
}
VP_MAIN(setup)
