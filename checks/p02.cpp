// P02: two threads at work at the same time: every pair of operations, each on a mesh of its own, and every pair of
// queries of one mesh; no pair may touch common memory, and every result is that of the operation on its own.
#include "calls.hpp"
#include "par_rt.hpp"
#include "vp.hpp"
using namespace tinymesh;
using calls::Out;
using vp::fail;

static std::vector<calls::Op> ops_;
static std::vector<calls::Start> starts_;
static std::vector<int> reads_;

static const Out &alone(int op, int s) {
    static std::map<std::pair<int, int>, Out> known;
    auto it = known.find({ op, s });
    if (it == known.end()) {
        par::begin(par::Plan(), false);
        Mesh m = calls::begin(starts_[s]);
        it = known.emplace(std::make_pair(op, s), calls::call(ops_[op], m)).first;
    }
    return it->second;
}

// op[k] on a mesh made from start s[k]; s[1] < 0: both on the same mesh
// false: not decided without recording every access
static bool together(int a, int b, int sa, int sb, bool full) {
    const int op[2] = { a, b }, s[2] = { sa, sb < 0 ? sa : sb };
    const Out *want[2];
    for (int k = 0; k < 2; k++) want[k] = &alone(op[k], s[k]);
    long limit = 0;
    for (long preempt = -1; preempt < limit; preempt++)
        for (int first = 0; first < 2; first++) {
            const int order[2] = { first, 1 - first };
            par::Plan p;
            p.threads = 2;
            p.order = order;
            p.preempt = preempt;
            p.full = full;
            par::begin(p, true);
            Mesh m0 = calls::begin(starts_[s[0]]), m1 = calls::begin(starts_[s[1]]);
            Mesh *m[2] = { &m0, sb < 0 ? &m0 : &m1 };
            Out got[2];
            std::function<void()> f[2];
            for (int k = 0; k < 2; k++) f[k] = [&, k] { got[k] = calls::call(ops_[op[k]], *m[k]); };
            par::tasks(f);
            const par::Report &r = par::end();
            if (r.crossed && !full) return false;
            if (r.overflow) throw std::runtime_error("too many accesses in one call");
            std::string what = vp::strf("%s and %s on %s", ops_[a].name, ops_[b].name, sb < 0 ? "one mesh" : "a mesh each");
            if (r.race) fail("%s: %s", what.c_str(), r.text);
            for (int k = 0; k < 2; k++) {
                std::string d = got[k].differs(*want[k]);
                if (!d.empty()) fail("%s, thread %d first, %s: %s gives something else than on its own: %s", what.c_str(), first, preempt < 0 ? "not interrupted" : "interrupted", ops_[op[k]].name, d.c_str());
                vp::add(vp::TRACES);
                vp::outcome(vp::mixd(op[k], got[k].num.empty() ? 0 : std::round(got[k].num.back() * 1e6)));
            }
            limit = std::max(limit, (long)std::min<uint64_t>(r.syncs[0], 200));
            vp::add(vp::STATES);
            vp::add(vp::AUX0);
            vp::add(vp::AUX1, r.accesses);
            vp::add(vp::AUX2, r.syncs[0] + r.syncs[1]);
        }
    vp::sample(vp::strf("%s / %s", ops_[a].name, ops_[b].name));
    return true;
}
static void decide(int a, int b, int sa, int sb) {
    if (!together(a, b, sa, sb, false)) together(a, b, sa, sb, true);
}

static void setup() {
    const bool th = vp::thorough();
    ops_ = calls::table();
    starts_ = calls::starts(true);
    for (int i = 0; i < (int)ops_.size(); i++)
        if (ops_[i].reads) reads_.push_back(i);
    const int N = (int)ops_.size(), M = (int)starts_.size(), R = (int)reads_.size();
    const std::vector<std::pair<int, int>> on = th ? std::vector<std::pair<int, int>>{ { 0, 3 }, { 2, 4 }, { 1, 5 }, { 6, 7 }, { 3, 3 }, { 4, 0 } } : std::vector<std::pair<int, int>>{ { 0, 3 }, { 2, 4 } };
    const uint64_t E = (uint64_t)N * (N + 1) / 2;
    vp::group("each", E * on.size(), [=](uint64_t c) {
        const uint64_t i = c % E;
        int a = 0;
        while ((uint64_t)(a + 1) * (a + 2) / 2 <= i) a++;
        int b = (int)(i - (uint64_t)a * (a + 1) / 2);
        decide(a, b, on[c / E].first, on[c / E].second);
    }, nullptr, 120);
    vp::group("same", (uint64_t)N * M * M, [=](uint64_t i) { decide((int)(i % N), (int)(i % N), (int)(i / N % M), (int)(i / N / M)); }, nullptr, 120);
    vp::group("shared", (uint64_t)R * R * M, [=](uint64_t i) {
        int a = (int)(i % R), b = (int)(i / R % R);
        if (a < b) return;
        decide(reads_[a], reads_[b], (int)(i / R / R), -1);
    }, nullptr, 120);
}
VP_MAIN(setup)
