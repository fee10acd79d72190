// Case engine shared by all drivers.
//
// A driver registers groups; a group is an indexed finite set of cases [0, n).  Every case of every
// group is executed, by a fixed number of forked worker processes.  A case fails by calling fail(),
// by letting an exception escape, by crashing the process, or by not returning in time.  Each failure
// is executed again in a fresh process before it is reported.
#ifndef VP_HPP
#define VP_HPP
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {

struct Violation {
    std::string what;
};

enum Counter { STATES = 0, TRANSITIONS, TRACES, EVALS, AUX0, AUX1, AUX2, AUX3, NCOUNTERS };

struct Group {
    std::string name;
    uint64_t n = 0;
    std::function<void(uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
    double limit_s = 30.0;
};

static const int MAXW = 16;
static const int MAXV = 4096;
static const int MAXS = 64;

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> stop;
    struct Slot {
        std::atomic<uint64_t> cur, end, started_ns, active, done;
        uint64_t counters[NCOUNTERS];
    } slot[MAXW];
    std::atomic<uint32_t> nviol;
    std::atomic<uint32_t> violBase;
    struct V {
        uint32_t group;
        uint64_t index;
        uint32_t kind;
        char msg[1400];
    } viol[MAXV];
    std::atomic<uint32_t> nsamples;
    char samples[MAXS][600];
    std::atomic<uint64_t> ndistinct;
    std::atomic<uint64_t> distinct_full;
};

static const uint64_t DBITS = 24;

struct Engine {
    std::vector<Group> groups;
    Shared *sh = nullptr;
    std::atomic<uint64_t> *table = nullptr;
    int worker = 0;
    int curGroup = 0;
    bool replaying = false;
    bool thorough = false;
    uint64_t seed = 0;
    std::string scratch;
    uint32_t sampleQuota = 0;
};

inline Engine &eng() {
    static Engine e;
    return e;
}

inline bool thorough() {
    return eng().thorough;
}

inline std::string strf(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

[[noreturn]] inline void fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{ buf };
}

inline void add(Counter c, uint64_t n = 1) {
    if (eng().sh) eng().sh->slot[eng().worker].counters[c] += n;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t mixd(uint64_t h, double d) {
    uint64_t u;
    if (d == 0.0) d = 0.0;
    memcpy(&u, &d, 8);
    return mix(h, u);
}

// Record an observed outcome; the number of different ones is reported.
inline void outcome(uint64_t h) {
    Engine &e = eng();
    if (!e.table) return;
    if (h == 0) h = 1;
    const uint64_t mask = (1ull << DBITS) - 1;
    if (e.sh->ndistinct.load(std::memory_order_relaxed) > (mask / 10) * 9) {
        e.sh->distinct_full = 1;
        return;
    }
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - DBITS);
    for (;;) {
        uint64_t cur = e.table[i].load(std::memory_order_relaxed);
        if (cur == h) return;
        if (cur == 0) {
            uint64_t z = 0;
            if (e.table[i].compare_exchange_strong(z, h)) {
                e.sh->ndistinct.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if (z == h) return;
        }
        i = (i + 1) & mask;
    }
}

inline void sample(const std::string &s) {
    Engine &e = eng();
    if (!e.sh || e.replaying) return;
    if (e.sampleQuota == 0) return;
    uint32_t k = e.sh->nsamples.fetch_add(1);
    e.sampleQuota--;
    if (k < (uint32_t)MAXS) {
        strncpy(e.sh->samples[k], s.c_str(), sizeof e.sh->samples[k] - 1);
    }
}

inline void group(const std::string &name, uint64_t n, std::function<void(uint64_t)> run,
                  std::function<std::string(uint64_t)> describe = nullptr, double limit = 30.0) {
    Group g;
    g.name = name;
    g.n = n;
    g.run = std::move(run);
    g.describe = std::move(describe);
    g.limit_s = limit;
    eng().groups.push_back(std::move(g));
}

inline std::string describe(const Group &g, uint64_t i) {
    if (!g.describe) return strf("#%llu", (unsigned long long)i);
    try {
        return g.describe(i);
    } catch (...) {
        return strf("#%llu", (unsigned long long)i);
    }
}

inline uint64_t now_ns() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}

inline void record(uint32_t g, uint64_t i, uint32_t kind, const std::string &m) {
    Shared *sh = eng().sh;
    uint32_t k = sh->nviol.fetch_add(1);
    if (k >= sh->violBase + 300) sh->stop = 1;
    if (k < (uint32_t)MAXV) {
        sh->viol[k].group = g;
        sh->viol[k].index = i;
        sh->viol[k].kind = kind;
        strncpy(sh->viol[k].msg, m.c_str(), sizeof sh->viol[k].msg - 1);
        sh->viol[k].msg[sizeof sh->viol[k].msg - 1] = 0;
    } else {
        sh->stop = 1;
    }
}

// returns empty string when the case holds
inline bool runCase(const Group &g, uint64_t i, std::string &msg) {
    try {
        g.run(i);
        return true;
    } catch (const Violation &v) {
        msg = v.what;
    } catch (const std::exception &ex) {
        msg = std::string("unexpected error: ") + ex.what();
    } catch (...) {
        msg = "unexpected exception";
    }
    return false;
}

inline void silence() {
    int fd = open("/dev/null", O_WRONLY);
    fflush(stdout);
    fflush(stderr);
    dup2(fd, 1);
    dup2(fd, 2);
}

inline void workerLoop(uint32_t gi) {
    Engine &e = eng();
    Group &g = e.groups[gi];
    Shared::Slot &s = e.sh->slot[e.worker];
    uint64_t chunk = g.n / 64 / 8;
    if (chunk < 1) chunk = 1;
    if (chunk > 4096) chunk = 4096;
    e.sampleQuota = (e.worker == 0) ? 3 : 0;
    for (;;) {
        if (s.cur >= s.end) {
            uint64_t b = e.sh->next.fetch_add(chunk);
            if (b >= g.n || e.sh->stop) break;
            s.cur = b;
            s.end = b + chunk < g.n ? b + chunk : g.n;
        }
        while (s.cur < s.end && !e.sh->stop) {
            uint64_t i = s.cur;
            s.started_ns = now_ns();
            s.active = 1;
            std::string msg;
            if (!runCase(g, i, msg)) record(gi, i, 0, msg);
            s.active = 0;
            s.done++;
            s.cur = i + 1;
        }
        if (e.sh->stop) break;
    }
}

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 32 || c > 126) {
            r += strf("\\u%04x", c);
        } else {
            r += (char)c;
        }
    }
    return r + "\"";
}

// Executes one case again in a fresh process (forked from the parent, which never executes cases).
// 0 held, 1 failed, message in msg.
inline int replayFresh(Group &g, uint64_t idx, double limit, std::string &msg) {
    int p[2];
    if (pipe(p)) return 2;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        silence();
        eng().replaying = true;
        std::string m;
        bool ok = runCase(g, idx, m);
        if (!ok) {
            if (m.size() > 60000) m.resize(60000);
            if (write(p[1], m.data(), m.size())) {
            }
        }
        _exit(ok ? 0 : 1);
    }
    close(p[1]);
    uint64_t t0 = now_ns();
    msg.clear();
    bool killed = false;
    for (;;) {
        pollfd pf{ p[0], POLLIN, 0 };
        int r = poll(&pf, 1, 200);
        if (r > 0) {
            char buf[2048];
            ssize_t k = read(p[0], buf, sizeof buf);
            if (k <= 0) break;
            msg.append(buf, k);
        }
        if ((now_ns() - t0) * 1e-9 > limit) {
            kill(pid, SIGKILL);
            killed = true;
            break;
        }
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (killed) {
        msg = "does not return";
        return 1;
    }
    if (WIFSIGNALED(st)) {
        if (msg.empty()) msg = strf("crash (signal %d)", WTERMSIG(st));
        return 1;
    }
    if (WEXITSTATUS(st) == 99) {
        if (msg.empty()) msg = "memory error reported by the sanitizer";
        return 1;
    }
    return WEXITSTATUS(st);
}

inline int run_main(int argc, char **argv, const std::function<void()> &setup) {
    Engine &e = eng();
    const uint64_t tstart = now_ns();
    const char *tier = getenv("VERIF_TIER");
    e.thorough = tier && !strcmp(tier, "thorough");
    const char *seed = getenv("VERIF_SEED");
    e.seed = seed ? strtoull(seed, nullptr, 10) : 0;
    const char *scr = getenv("VP_SCRATCH");
    e.scratch = scr ? scr : "/tmp";
    const char *jw = getenv("VP_WORKERS");
    int nw = jw ? atoi(jw) : 8;
    if (nw < 1) nw = 1;
    if (nw > MAXW) nw = MAXW;
    struct rlimit rl {
        0, 0
    };
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);

    std::string out, rgroup, only;
    bool replay = false;
    uint64_t ridx = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 2 < argc) {
            replay = true;
            rgroup = argv[++i];
            ridx = strtoull(argv[++i], nullptr, 10);
        }
    }
    e.replaying = replay;
    try {
        setup();
    } catch (const Violation &v) {
        fprintf(stderr, "setup failed: %s\n", v.what.c_str());
        return 2;
    } catch (const std::exception &ex) {
        fprintf(stderr, "setup failed: %s\n", ex.what());
        return 2;
    }

    fprintf(stderr, "  setup %.1fs\n", (now_ns() - tstart) * 1e-9);
    if (replay) {
        for (auto &g : e.groups) {
            if (g.name != rgroup) continue;
            std::string msg;
            fprintf(stderr, "case: %s\n", describe(g, ridx).c_str());
            bool ok = runCase(g, ridx, msg);
            if (!ok) {
                fprintf(stderr, "VIOLATED: %s\n", msg.c_str());
                fflush(nullptr);
                _exit(1);
            }
            fprintf(stderr, "held\n");
            fflush(nullptr);
            _exit(0);
        }
        fprintf(stderr, "no such group\n");
        return 2;
    }

    void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void *t = mmap(nullptr, (1ull << DBITS) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED || t == MAP_FAILED) return 2;
    e.sh = new (m) Shared();
    e.table = (std::atomic<uint64_t> *)t;

    uint64_t total = 0, executed = 0;
    std::string gj;
    for (uint32_t gi = 0; gi < e.groups.size(); gi++) {
        Group &g = e.groups[gi];
        if (!only.empty() && g.name != only) continue;
        uint64_t t0 = now_ns();
        total += g.n;
        e.sh->next = 0;
        e.sh->stop = 0;
        uint32_t violBefore = e.sh->nviol;
        e.sh->violBase = violBefore;
        pid_t pids[MAXW];
        int n = (uint64_t)nw < g.n ? nw : (int)(g.n ? g.n : 1);
        for (int w = 0; w < n; w++) {
            e.sh->slot[w].cur = 0;
            e.sh->slot[w].end = 0;
            e.sh->slot[w].active = 0;
            e.sh->slot[w].done = 0;
        }
        auto spawn = [&](int w) {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                silence();
                e.worker = w;
                workerLoop(gi);
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < n; w++) spawn(w);
        int alive = n;
        while (alive > 0) {
            int st = 0;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p <= 0) {
                usleep(2000);
                uint64_t nw_ = now_ns();
                for (int w = 0; w < n; w++) {
                    auto &s = e.sh->slot[w];
                    if (pids[w] > 0 && s.active && nw_ > s.started_ns && (nw_ - s.started_ns) * 1e-9 > g.limit_s) {
                        kill(pids[w], SIGKILL);
                    }
                }
                continue;
            }
            int w = -1;
            for (int k = 0; k < n; k++)
                if (pids[k] == p) w = k;
            if (w < 0) continue;
            pids[w] = -1;
            alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            auto &s = e.sh->slot[w];
            if (s.active) {
                uint64_t i = s.cur;
                std::string why;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) why = "does not return";
                else if (WIFSIGNALED(st)) why = strf("crash (signal %d)", WTERMSIG(st));
                else why = strf("process ended (status %d)", WEXITSTATUS(st));
                record(gi, i, 1, why);
                s.active = 0;
                s.done++;
                s.cur = i + 1;
            } else {
                fprintf(stderr, "worker lost outside of a case\n");
                return 2;
            }
            if (!e.sh->stop) {
                spawn(w);
                alive++;
            }
        }
        uint64_t done = 0;
        for (int w = 0; w < n; w++) done += e.sh->slot[w].done;
        executed += done;
        double dt = (now_ns() - t0) * 1e-9;
        fprintf(stderr, "  group %-28s %10llu/%llu cases  %6.1fs  violations %u\n", g.name.c_str(),
                (unsigned long long)done, (unsigned long long)g.n, dt, e.sh->nviol - violBefore);
        if (!gj.empty()) gj += ",";
        gj += strf("{\"name\":%s,\"cases\":%llu,\"executed\":%llu,\"wall_s\":%.2f}", jstr(g.name).c_str(),
                   (unsigned long long)g.n, (unsigned long long)done, dt);
        if (done < g.n && e.sh->nviol == violBefore) {
            fprintf(stderr, "group %s incomplete\n", g.name.c_str());
            return 2;
        }
        if (e.sh->nviol > 600) break;
    }

    uint64_t cnt[NCOUNTERS] = { 0 };
    for (int w = 0; w < MAXW; w++)
        for (int c = 0; c < NCOUNTERS; c++) cnt[c] += e.sh->slot[w].counters[c];

    uint32_t nv = e.sh->nviol < (uint32_t)MAXV ? e.sh->nviol.load() : MAXV;
    std::string vj;
    int unrep = 0;
    for (uint32_t k = 0; k < nv; k++) {
        auto &v = e.sh->viol[k];
        Group &g = e.groups[v.group];
        std::string msg = v.msg;
        int confirmed = -1;
        if (k < 12) {
            std::string m2;
            int r = replayFresh(g, v.index, g.limit_s * 2 + 30, m2);
            confirmed = r == 1;
            if (confirmed && !m2.empty()) msg = m2;
            if (!confirmed) unrep++;
        }
        if (!vj.empty()) vj += ",\n";
        vj += strf("{\"group\":%s,\"index\":%llu,\"confirmed\":%d,\"case\":", jstr(g.name).c_str(),
                   (unsigned long long)v.index, confirmed);
        vj += jstr(describe(g, v.index)) + ",\"message\":" + jstr(msg) + "}";
    }
    std::string sj;
    uint32_t ns = e.sh->nsamples < (uint32_t)MAXS ? e.sh->nsamples.load() : MAXS;
    for (uint32_t k = 0; k < ns; k++) {
        if (!sj.empty()) sj += ",";
        sj += jstr(e.sh->samples[k]);
    }
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) return 2;
        fprintf(f,
                "{\"cases\":%llu,\"executed\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,"
                "\"aux\":[%llu,%llu,%llu,%llu],\"distinct\":%llu,\"distinct_full\":%llu,\"unreproduced\":%d,\n\"groups\":[%s],\n\"samples\":[%s],\n\"violations\":[%s]}\n",
                (unsigned long long)total, (unsigned long long)executed, (unsigned long long)cnt[STATES],
                (unsigned long long)cnt[TRANSITIONS], (unsigned long long)cnt[TRACES], (unsigned long long)cnt[EVALS],
                (unsigned long long)cnt[AUX0], (unsigned long long)cnt[AUX1], (unsigned long long)cnt[AUX2],
                (unsigned long long)cnt[AUX3], (unsigned long long)e.sh->ndistinct.load(),
                (unsigned long long)e.sh->distinct_full.load(), unrep, gj.c_str(), sj.c_str(), vj.c_str());
        fclose(f);
    }
    return 0;
}

}  // namespace vp

#define VP_MAIN(setup)                           \
    int main(int argc, char **argv) {            \
        return vp::run_main(argc, argv, setup);  \
    }
#endif
