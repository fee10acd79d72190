// M01: every operation after every other operation (and every pair of them) on other meshes, against a fresh process.
#include <sys/wait.h>

#include "calls.hpp"
using namespace tinymesh;
using calls::Out;
using vp::fail;

static std::vector<calls::Op> ops_;
static std::vector<calls::Start> starts_;
static std::vector<Out> fresh;
static bool ready = false;

// what the operation gives as the first thing a process does
static Out inFreshProcess(int op, int mesh) {
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        close(fd[0]);
        Mesh m = calls::begin(starts_[mesh]);
        Out o = calls::call(ops_[op], m);
        std::string b;
        auto word = [&](uint64_t n) { b.append((const char *)&n, 8); };
        word(o.error.size()), word(o.num.size()), word(o.whole.size()), word(o.bytes.size());
        b += o.error;
        b.append((const char *)o.num.data(), o.num.size() * 8);
        b.append((const char *)o.whole.data(), o.whole.size() * 8);
        b += o.bytes;
        for (size_t i = 0; i < b.size();) {
            ssize_t k = write(fd[1], b.data() + i, b.size() - i);
            if (k <= 0) _exit(3);
            i += k;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string b;
    char buf[65536];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || b.size() < 32) fail("%s on %s ends the process", ops_[op].name, starts_[mesh].s.name.c_str());
    uint64_t n[4];
    memcpy(n, b.data(), 32);
    Out o;
    const char *p = b.data() + 32;
    o.error.assign(p, n[0]), p += n[0];
    o.num.resize(n[1]), memcpy(o.num.data(), p, n[1] * 8), p += n[1] * 8;
    o.whole.resize(n[2]), memcpy(o.whole.data(), p, n[2] * 8), p += n[2] * 8;
    o.bytes.assign(p, n[3]);
    return o;
}

static void prepare() {
    if (ready) return;
    for (int o = 0; o < (int)ops_.size(); o++)
        for (int m = 0; m < (int)starts_.size(); m++) fresh.push_back(inFreshProcess(o, m));
    ready = true;
}

// one history in a process of its own: the first steps, then every operation on every mesh, each preceded by the same steps
static void histories(const std::vector<int> &first, bool again) {
    prepare();
    const int M = (int)starts_.size(), A = (int)ops_.size() * M;
    std::vector<Mesh> alive;  // meshes of the first steps stay alive
    for (int last = 0; last < A; last++) {
        std::string h;
        alive.clear();
        for (int a : first) {
            alive.push_back(calls::begin(starts_[a % M]));
            Out o = calls::call(ops_[a / M], alive.back());
            h += vp::strf("%s on %s, ", ops_[a / M].name, starts_[a % M].s.name.c_str());
            std::string d = o.differs(fresh[a]);
            if (!d.empty()) fail("%s: %s", h.c_str(), d.c_str());
        }
        Mesh m = calls::begin(starts_[last % M]);
        Out o = calls::call(ops_[last / M], m);
        std::string d = o.differs(fresh[last]);
        if (!d.empty()) fail("%sthen %s on %s (mesh %d): %s", h.c_str(), ops_[last / M].name, starts_[last % M].s.name.c_str(), last % M, d.c_str());
        vp::add(vp::STATES);
        vp::add(vp::TRACES);
        vp::outcome(vp::mix(vp::mix(5, last), o.whole.size() * 7 + o.num.size()));
        // the meshes of the first steps have not been touched
        if (again)
            for (size_t k = 0; k < first.size(); k++) {
                Out x, y;
                x.mesh(alive[k]);
                Mesh z = calls::begin(starts_[first[k] % M]);
                calls::call(ops_[first[k] / M], z);
                y.mesh(z);
                d = x.differs(y);
                if (!d.empty()) fail("%sthen %s on %s: the mesh of step %zu has changed: %s", h.c_str(), ops_[last / M].name, starts_[last % M].s.name.c_str(), k, d.c_str());
            }
    }
    vp::sample(vp::strf("%s on %s, then every operation", ops_[first[0] / M].name, starts_[first[0] % M].s.name.c_str()));
}

static void setup() {
    const bool th = vp::thorough();
    ops_ = calls::table();
    starts_ = calls::starts(th);
    const uint64_t A = ops_.size() * starts_.size();
    const int M = (int)starts_.size();
    auto name = [](uint64_t a) { return vp::strf("%s on mesh %d", ops_[a / starts_.size()].name, (int)(a % starts_.size())); };
    vp::group("pairs", A, [](uint64_t a) { histories({ (int)a }, true); }, name, 120);
    // three steps: the first two on one mesh kind each
    const uint64_t O = ops_.size();
    vp::group("triples", th ? O * O * 3 : O * O, [O, M](uint64_t c) {
        int a = (int)(c % O), b = (int)(c / O % O), k = (int)(c / O / O);
        prepare();
        // the same two operations, then each operation of the same mesh
        int m1 = k == 0 ? 2 : k == 1 ? 0 : 3, m2 = k == 0 ? 0 : k == 1 ? 1 : 2;
        Mesh x = calls::begin(starts_[m1]), y = calls::begin(starts_[m2]);
        Out o = calls::call(ops_[a], x);
        Out p = calls::call(ops_[b], y);
        std::string d = p.differs(fresh[b * M + m2]);
        if (!d.empty()) fail("%s, then %s: %s", ops_[a].name, ops_[b].name, d.c_str());
        for (int e = 0; e < (int)O; e++) {
            Mesh z = calls::begin(starts_[m1]);
            Out q = calls::call(ops_[e], z);
            d = q.differs(fresh[e * M + m1]);
            if (!d.empty()) fail("%s, then %s, then %s: %s", ops_[a].name, ops_[b].name, ops_[e].name, d.c_str());
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
        }
    }, [O](uint64_t c) { return vp::strf("%s, then %s", ops_[c % O].name, ops_[c / O % O].name); }, 120);
}
VP_MAIN(setup)
