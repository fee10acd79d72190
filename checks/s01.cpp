// S01: Laplacian smoothing of every mesh, lock set, strength, weighting and iteration count, and of every sequence of two calls.
#include "filt.hpp"
#include "filters/filters.h"
using namespace filt;
using namespace tinymesh;

struct Job {
    Surf s;
    uint64_t locks;
};
static std::vector<Job> jobs;
static const double strengths[] = { 1.0, 0.5, 0.0, 0.1, -0.3, 1.7 };

static void call(Mesh &m, Net &N, double e, bool cot, int it) {
    smoothLaplacian(m, e, cot, it);
    N.laplacian(e, cot, it);
    vp::add(vp::TRANSITIONS);
}

static void run(const Job &j) {
    for (int cot = 0; cot < 2; cot++)
        for (double e : strengths)
            for (int it : { 0, 1, 2, 3, 5 }) {
                Net N(j.s, j.locks);
                Mesh m(j.s.p, mg::flat(j.s));
                lockAll(m, j.locks);
                Frame fr(m);
                try {
                    call(m, N, e, cot, it);
                    if (N.bad) continue;
                    compare(m, N, j.s, 1e-7L);
                    fr.unchanged(m);
                    if (it <= 2) {  // a second call continues from there
                        call(m, N, 0.5, !cot, 1);
                        if (!N.bad) {
                            compare(m, N, j.s, 1e-7L);
                            fr.unchanged(m);
                        }
                    }
                } catch (const vp::Violation &v) {
                    vp::fail("%s: %s", params("strength, cotangent, iterations", { e, (double)cot, (double)it }).c_str(), v.what.c_str());
                }
                vp::add(vp::STATES);
                vp::add(vp::TRACES);
            }
    // defaults: strength 1, uniform, three iterations
    Net N(j.s, j.locks);
    Mesh m(j.s.p, mg::flat(j.s));
    lockAll(m, j.locks);
    smoothLaplacian(m);
    N.laplacian(1, false, 3);
    if (!N.bad) compare(m, N, j.s, 1e-7L);
    vp::sample(vp::strf("%s locks %llx", j.s.name.c_str(), (unsigned long long)j.locks));
}

static void setup() {
    const bool th = vp::thorough();
    for (auto &s : meshes(true, th))
        for (uint64_t l : lockSets(s.n, th ? 7 : 5)) jobs.push_back({ s, l });
    for (auto &s : shapes::huge(true))
        for (uint64_t l : { 0ull, 0xc3a55a3c0ff0a55aull }) jobs.push_back({ shapes::ordered(s), l });
    vp::group("laplacian", jobs.size(), [](uint64_t i) { run(jobs[i]); }, [](uint64_t i) { return vp::strf("%s locks %llx", jobs[i].s.name.c_str(), (unsigned long long)jobs[i].locks); }, 60);
}
VP_MAIN(setup)
