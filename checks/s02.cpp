// S02: Taubin smoothing of every mesh, lock set, factor pair and iteration count.
#include "filt.hpp"
#include "filters/filters.h"
using namespace filt;
using namespace tinymesh;

struct Job {
    Surf s;
    uint64_t locks;
};
static std::vector<Job> jobs;
static const double factors[][2] = { { 0.5, 0.53 }, { 0.5, 0.0 }, { 0.0, 0.5 }, { 0.33, 0.34 }, { 1.0, 1.0 }, { 0.9, 0.1 }, { 0.0, 0.0 }, { -0.2, 0.3 } };

static void run(const Job &j) {
    for (auto &f : factors)
        for (int it : { 0, 1, 2, 3, 6 }) {
            Net N(j.s, j.locks);
            Mesh m(j.s.p, mg::flat(j.s));
            lockAll(m, j.locks);
            Frame fr(m);
            try {
                smoothTaubin(m, f[0], f[1], it);
                N.taubin(f[0], f[1], it);
                vp::add(vp::TRANSITIONS);
                if (N.bad) continue;
                compare(m, N, j.s, 1e-7L);
                fr.unchanged(m);
                if (it <= 2) {
                    smoothTaubin(m, f[1], f[0], 1);
                    N.taubin(f[1], f[0], 1);
                    vp::add(vp::TRANSITIONS);
                    if (!N.bad) compare(m, N, j.s, 1e-7L);
                }
            } catch (const vp::Violation &v) {
                vp::fail("%s: %s", params("shrink, inflate, iterations", { f[0], f[1], (double)it }).c_str(), v.what.c_str());
            }
            vp::add(vp::STATES);
            vp::add(vp::TRACES);
        }
    Net N(j.s, j.locks);
    Mesh m(j.s.p, mg::flat(j.s));
    lockAll(m, j.locks);
    smoothTaubin(m);
    N.taubin(0.5L, 0.53L, 3);
    if (!N.bad) compare(m, N, j.s, 1e-7L);
    vp::sample(vp::strf("%s locks %llx", j.s.name.c_str(), (unsigned long long)j.locks));
}

static void setup() {
    const bool th = vp::thorough();
    for (auto &s : meshes(true, th))
        for (uint64_t l : lockSets(s.n, th ? 7 : 5)) jobs.push_back({ s, l });
    for (auto &s : shapes::huge(true))
        for (uint64_t l : { 0ull, 0xc3a55a3c0ff0a55aull }) jobs.push_back({ shapes::ordered(s), l });
    vp::group("taubin", jobs.size(), [](uint64_t i) { run(jobs[i]); }, [](uint64_t i) { return vp::strf("%s locks %llx", jobs[i].s.name.c_str(), (unsigned long long)jobs[i].locks); }, 60);
}
VP_MAIN(setup)
