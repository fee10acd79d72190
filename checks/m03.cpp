// M03: every operation with its objects placed in memory in every enumerated order and with every initial content.
#include "calls.hpp"
#include "heap.hpp"
using namespace tinymesh;
using calls::Out;
using heap::Layout;
using mg::Surf;
using vp::fail;

static std::vector<calls::Op> ops_;
static std::vector<calls::Start> starts_;
static std::vector<Layout> layouts;

static std::string name(const Layout &l) {
    return vp::strf("addresses %d*i+%d %s, %s, memory %d", l.mul, l.add, l.down ? "downwards" : "upwards", l.reuse == 0 ? "none taken again" : l.reuse == 1 ? "last freed first" : "first freed first", l.fill);
}

// every object that the operation sees is made inside the layout; only a copy of the result leaves it
static void under(const Layout &l, const std::function<void(Out &)> &f, Out &into) {
    heap::use(l);
    heap::soil(l.fill);
    Out *o = new Out;
    f(*o);
    const uint64_t given = heap::state().given;
    Layout none = l;
    none.on = false, none.fill = -1;
    heap::state().now.on = false;
    into = *o;
    delete o;
    heap::use(none);
    if (l.on && given == 0) fail("no object was placed");
    heap::state().given = 0;
}

static void compare(const std::string &what, const std::function<void(Out &)> &f, const std::vector<Layout> &ls) {
    Out plain;
    under(Layout(), f, plain);
    for (auto &l : ls) {
        Out o;
        under(l, f, o);
        std::string d = o.differs(plain);
        if (!d.empty()) fail("%s, %s: %s", what.c_str(), name(l).c_str(), d.c_str());
        vp::add(vp::STATES);
        vp::add(vp::TRACES);
        vp::add(vp::EVALS, o.num.size() + o.whole.size());
    }
    vp::outcome(vp::mix(vp::mix(5, plain.whole.size()), plain.num.size()));
    vp::sample(what);
}

static void setup() {
    const bool th = vp::thorough();
    ops_ = calls::table();
    starts_ = calls::starts(th);
    for (auto &s : calls::starts(th, true)) starts_.push_back(s);
    for (int mul : th ? std::vector<int>{ 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63 } : std::vector<int>{ 1, 5, 11, 19, 27, 37, 45, 63 })
        for (int down = 0; down < 2; down++)
            for (int reuse = 0; reuse < 3; reuse++)
                for (int fill : { 0, 0xff, 0x3f }) {
                    Layout l;
                    l.on = true, l.mul = mul, l.add = mul / 2, l.down = down, l.reuse = reuse, l.fill = fill;
                    layouts.push_back(l);
                }
    const int M = (int)starts_.size();
    vp::group("operations", ops_.size() * M, [M](uint64_t a) {
        const int op = (int)(a / M), mesh = (int)(a % M);
        compare(vp::strf("%s on %s", ops_[op].name, starts_[mesh].s.name.c_str()), [&](Out &o) {
            Mesh m = calls::begin(starts_[mesh]);
            o = calls::call(ops_[op], m);
        }, layouts);
    }, [M](uint64_t a) { return vp::strf("%s on mesh %d", ops_[a / M].name, (int)(a % M)); }, 300);
    // one operation after another on the same mesh
    std::vector<Layout> few;
    for (auto &l : layouts)
        if ((l.mul == 63 && l.reuse == 1 && l.fill == 0xff) || (l.mul == 27 && l.reuse == 2 && l.fill == 0)) few.push_back(l);
    auto F = std::make_shared<std::vector<Layout>>(few);
    const int O = (int)ops_.size();
    vp::group("two operations", (uint64_t)O * O * M, [O, F](uint64_t a) {
        const int x = (int)(a % O), y = (int)(a / O % O), mesh = (int)(a / O / O);
        auto first = [&](Out &o) {
            Mesh m = calls::begin(starts_[mesh]);
            calls::call(ops_[x], m);
            o.mesh(m);
        };
        auto both = [&](Out &o) {
            Mesh m = calls::begin(starts_[mesh]);
            calls::call(ops_[x], m);
            o = calls::call(ops_[y], m);
        };
        // rounding in the first may decide the second
        std::vector<Layout> same;
        Out p;
        under(Layout(), first, p);
        for (auto &l : *F) {
            Out q;
            under(l, first, q);
            if (p.num.size() == q.num.size() && !memcmp(p.num.data(), q.num.data(), p.num.size() * 8)) same.push_back(l);
        }
        compare(vp::strf("%s, then %s on %s", ops_[x].name, ops_[y].name, starts_[mesh].s.name.c_str()), both, same);
    }, [O](uint64_t a) { return vp::strf("%s, then %s", ops_[a % O].name, ops_[a / O % O].name); }, 300);
    // completion of larger meshes
    static std::vector<Surf> wide;
    static const Surf torus = shapes::scaled(mg::torusGrid(18, 18), 1e-3);
    auto punched = [](const Surf &b, const std::function<bool(int)> &out) {
        Surf s = b;
        s.t.clear();
        for (auto &f : b.t)
            if (!out(f[0]) && !out(f[1]) && !out(f[2])) s.t.push_back(f);
        wide.push_back(shapes::ordered(s));
    };
    for (const std::set<int> &out : std::vector<std::set<int>>{ { 166 }, { 166, 167 }, { 166, 167, 184, 185, 148, 149, 165, 183 }, { 166, 40 } }) punched(calls::shaken(torus, 0.01), [&](int v) { return out.count(v); });
    // a bumpy sphere with a hole around one vertex of each kind
    Surf ball = mg::project(mg::subdivide(mg::project(mg::subdivide(mg::project(mg::subdivide(mg::icosahedron()), 1.0)), 1.0)), 1.0);
    for (auto &p : ball.p) p = p * (1 + 0.2 * std::sin(5 * p[0]) * std::cos(4 * p[1]));
    for (double r : th ? std::vector<double>{ 0.25, 0.4, 0.55 } : std::vector<double>{ 0.25, 0.4 })
        for (int c : { 0, 20, 100 }) punched(ball, [&](int v) { return length(ball.p[v] - ball.p[c]) < r; });
    const std::vector<int> iters = th ? std::vector<int>{ 20, 8, 3, 1 } : std::vector<int>{ 8, 3, 1 };
    std::vector<Layout> some;
    for (auto &l : layouts)
        if (l.fill == 0xff && (l.mul == 27 || (th && (l.mul == 1 || l.mul == 45 || l.mul == 63)))) some.push_back(l);
    auto S = std::make_shared<std::vector<Layout>>(some);
    const int I = (int)iters.size(), W = (int)wide.size();
    auto complete = [](int w, int k, const std::vector<Layout> &ls) {
        const Surf &s = wide[w];
        compare(vp::strf("completion of mesh %d, %d iterations", w, k), [&](Out &o) {
            Mesh m(s.p, mg::flat(s));
            vp::add(vp::TRANSITIONS);
            try {
                holeFillContextCoherent(m, k);
                o.mesh(m);
            } catch (const std::exception &e) {
                o.error = e.what();
            }
        }, ls);
    };
    // many repairs, with places taken again
    std::vector<Layout> again;
    for (auto &l : layouts)
        if (l.fill == 0xff && l.reuse && !l.down && (l.mul == 1 || l.mul == 27 || l.mul == 63 || th)) again.push_back(l);
    auto A = std::make_shared<std::vector<Layout>>(again);
    vp::group("long completion", A->size(), [=](uint64_t a) { complete(7, 20, { (*A)[a] }); }, nullptr, 300);
    vp::group("completion", (uint64_t)I * W, [=](uint64_t a) { complete((int)(a % W), iters[a / W], *S); }, nullptr, 300);
}
VP_MAIN(setup)
