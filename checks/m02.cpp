// M02: every query after every editing history; the mesh is bit for bit the same afterwards and the answer can be repeated.
#include "calls.hpp"
using namespace tinymesh;
using calls::Out;
using vp::fail;

static std::vector<calls::Op> ops_;
static std::vector<calls::Start> starts_;
static std::vector<int> reads_, edits_;

static void queries(Mesh &m, const std::string &after) {
    std::vector<uint64_t> before, now;
    ref::dump(m, before);
    std::vector<Out> first;
    for (int r : reads_) {
        first.push_back(calls::call(ops_[r], m));
        ref::dump(m, now);
        if (now != before) fail("%s%s changed the mesh", after.c_str(), ops_[r].name);
        vp::add(vp::TRACES);
        vp::outcome(vp::mix(vp::mix(3, r), first.back().num.size() * 3 + first.back().whole.size()));
    }
    // again in the opposite order
    for (size_t k = reads_.size(); k-- > 0;) {
        std::string d = calls::call(ops_[reads_[k]], m).differs(first[k]);
        if (!d.empty()) fail("%s%s: the second answer differs: %s", after.c_str(), ops_[reads_[k]].name, d.c_str());
    }
    ref::dump(m, now);
    if (now != before) fail("%squeries changed the mesh", after.c_str());
    vp::add(vp::STATES);
}

static void setup() {
    const bool th = vp::thorough();
    ops_ = calls::table();
    starts_ = calls::starts(true);
    for (int i = 0; i < (int)ops_.size(); i++) (ops_[i].reads ? reads_ : edits_).push_back(i);
    const uint64_t E = edits_.size() + 1, M = starts_.size();
    auto hist = [E](uint64_t c, int len) {
        std::vector<int> h;
        for (int i = 0; i < len; i++, c /= E)
            if (c % E) h.push_back(edits_[c % E - 1]);
        return h;
    };
    const int len = th ? 2 : 1;
    uint64_t n = M;
    for (int i = 0; i < len; i++) n *= E;
    vp::group("histories", n, [=](uint64_t c) {
        std::string after;
        Mesh m = calls::begin(starts_[c % M]);
        for (int o : hist(c / M, len)) {
            if (!calls::call(ops_[o], m).error.empty()) return;  // refused: nothing is promised about the mesh
            after += std::string(ops_[o].name) + ", then ";
        }
        queries(m, after);
        vp::sample(starts_[c % M].s.name + " " + after);
    }, [=](uint64_t c) {
        std::string s = starts_[c % M].s.name;
        for (int o : hist(c / M, len)) s += std::string(" ") + ops_[o].name;
        return s;
    }, 120);
    // every small mesh
    static std::vector<mg::Surf> list;
    for (int k = 4; k <= (th ? 8 : 7); k++)
        for (auto &s : mg::spheres(k)) list.push_back(calls::shaken(shapes::unitSize({ s })[0], 0.02));
    for (int k = 4; k <= 6; k++)
        for (auto &s : shapes::unitSize(mg::subsurfaces(mg::spheres(k), false))) list.push_back(calls::shaken(s, 0.02));
    for (auto &s : shapes::solids()) list.push_back(calls::shaken(s, 0.02));
    for (auto &s : shapes::large(true))
        if (s.n <= 100) list.push_back(calls::shaken(s, 0.01));
    vp::group("meshes", list.size() * 2, [](uint64_t c) {
        calls::Start s = { list[c / 2], c % 2 ? 0x2du : 0u };
        Mesh m = calls::begin(s);
        queries(m, "");
        vp::sample(s.s.name);
    }, [](uint64_t c) { return list[c / 2].name; }, 120);
}
VP_MAIN(setup)
