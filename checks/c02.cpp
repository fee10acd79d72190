// C02: every history of builds, loads, edits, fills and failures on one object, then a build or load.
#include <fstream>
#include "ops.hpp"
using namespace mg;
using namespace tinymesh;

static std::vector<Surf> forms;
static std::vector<std::string> obj, ply;
static std::string badObj, badPly, missing;

static void writeObj(const std::string &f, const Surf &s) {
    std::ofstream o(f);
    for (auto &p : s.p) o << vp::strf("v %.17g %.17g %.17g\n", p[0], p[1], p[2]);
    for (auto &t : s.t) o << vp::strf("f %d %d %d\n", t[0] + 1, t[1] + 1, t[2] + 1);
}
static void writePly(const std::string &f, const Surf &s) {
    std::ofstream o(f, std::ios::binary);
    o << "ply\nformat binary_little_endian 1.0\nelement vertex " << s.p.size()
      << "\nproperty float x\nproperty float y\nproperty float z\nelement face " << s.t.size()
      << "\nproperty list uchar uint vertex_indices\nend_header\n";
    for (auto &p : s.p)
        for (int k = 0; k < 3; k++) {
            float x = (float)p[k];
            o.write((const char *)&x, 4);
        }
    for (auto &t : s.t) {
        o.put(3);
        for (int k = 0; k < 3; k++) {
            uint32_t x = (uint32_t)t[k];
            o.write((const char *)&x, 4);
        }
    }
}

struct Act {
    std::string name;
    std::function<void(Mesh &)> run;
    int target;  // shape index that the object equals afterwards, -1: an edit, -2: fails
};
static std::vector<Act> acts;
static std::vector<std::vector<uint64_t>> fresh;  // concrete state of a fresh object after each build/load action
static std::vector<char> repeatable;

static bool attempt(const Act &a, Mesh &m) {
    try {
        a.run(m);
        return true;
    } catch (const std::exception &) {
        return false;
    }
}

static void history(const std::vector<int> &h) {
    std::string name;
    for (int a : h) name += " " + acts[a].name;
    Mesh m;
    bool valid = false;
    for (size_t i = 0; i < h.size(); i++) {
        const Act &a = acts[h[i]];
        if (a.target == -1 && !valid) return;  // edits need a mesh
        vp::add(vp::TRANSITIONS);
        bool ok = attempt(a, m);
        if (a.target == -2) {
            if (ok) vp::fail("history%s: invalid input was accepted", name.c_str());
            valid = false;
            continue;
        }
        if (!ok) vp::fail("history%s: step %d failed", name.c_str(), (int)i);
        if (a.target < 0) continue;
        valid = true;
        if (i == 0) continue;
        vp::add(vp::TRACES);
        try {
            ref::audit(m, ref::RefMesh(forms[a.target]), "rebuilt object");
        } catch (const vp::Violation &v) {
            vp::fail("history%s (step %d): %s", name.c_str(), (int)i, v.what.c_str());
        }
        std::vector<uint64_t> d;
        ref::dump(m, d);
        if (repeatable[h[i]] && d != fresh[h[i]]) vp::fail("history%s (step %d): differs from a fresh object", name.c_str(), (int)i);
    }
    std::vector<uint64_t> d;
    if (valid) {
        ref::dump(m, d);
        vp::outcome(ref::hash(d).a);
    }
    vp::add(vp::STATES);
    vp::sample("history" + name);
}

static void setup() {
    const bool th = vp::thorough();
    auto exact = [](Surf s) {  // positions representable in single precision
        for (auto &p : s.p) p = Vec3((double)(float)p[0], (double)(float)p[1], (double)(float)p[2]);
        return s;
    };
    forms.push_back(exact(spheres(5)[0]));
    forms.push_back(exact(icosahedron()));
    forms.push_back(exact(sheet(3, 3, 0x155, [](int i, int j) { return 0.5 * i * j; })));
    {
        Surf one;
        one.n = 3;
        one.t = { { 0, 1, 2 } };
        one.p = { Vec3(0.0, 0.0, 0.0), Vec3(1.0, 0.0, 0.0), Vec3(0.0, 1.0, 0.0) };
        one.name = "triangle";
        forms.push_back(one);
    }
    {
        Surf s = icosahedron();
        s.t.erase(s.t.begin() + 13);
        s.t.erase(s.t.begin() + 2);
        s.name = "icosahedron with two holes";
        forms.push_back(exact(s));
    }
    const std::string dir = vp::eng().scratch;
    for (size_t i = 0; i < forms.size(); i++) {
        obj.push_back(dir + vp::strf("/s%d.obj", (int)i));
        ply.push_back(dir + vp::strf("/s%d.ply", (int)i));
        writeObj(obj[i], forms[i]);
        writePly(ply[i], forms[i]);
    }
    Surf bow;  // two triangles that share a vertex only
    bow.n = 5;
    bow.t = { { 0, 1, 2 }, { 0, 3, 4 } };
    for (int i = 0; i < 5; i++) bow.p.push_back(Vec3(1.0 * i, 1.0 * i * i, 2.0));
    badObj = dir + "/bad.obj", badPly = dir + "/bad.ply", missing = dir + "/missing.obj";
    writeObj(badObj, bow);
    writePly(badPly, bow);
    for (int i = 0; i < (int)forms.size(); i++) {
        acts.push_back({ vp::strf("build%d", i), [i](Mesh &m) { m.construct(forms[i].p, flat(forms[i])); }, i });
        if (i == 0 || i == 2 || th) acts.push_back({ vp::strf("obj%d", i), [i](Mesh &m) { m.load(obj[i]); }, i });
        if (i == 1 || i == 3 || th) acts.push_back({ vp::strf("ply%d", i), [i](Mesh &m) { m.load(ply[i]); }, i });
    }
    acts.push_back({ "build-bad", [bow](Mesh &m) { m.construct(bow.p, flat(bow)); }, -2 });
    acts.push_back({ "build-range", [](Mesh &m) { m.construct(forms[1].p, { 0, 1, 2, 2, 1, 99 }); }, -2 });
    acts.push_back({ "load-bad-obj", [](Mesh &m) { m.load(badObj); }, -2 });
    acts.push_back({ "load-bad-ply", [](Mesh &m) { m.load(badPly); }, -2 });
    acts.push_back({ "load-missing", [](Mesh &m) { m.load(missing); }, -2 });
    acts.push_back({ "load-ext", [](Mesh &m) { m.load(missing + ".xyz"); }, -2 });
    acts.push_back({ "flips", [](Mesh &m) { for (int i = 0; i < (int)m.numHalfedges(); i += 3) m.flipHE(m.halfedge(i)); }, -1 });
    acts.push_back({ "splits", [](Mesh &m) { for (int i = 0, n = (int)m.numHalfedges(); i < n; i += 5) m.splitHE(m.halfedge(i)); }, -1 });
    acts.push_back({ "collapses", [](Mesh &m) { for (int i = 0; i < (int)m.numHalfedges(); i++) m.collapseHE(m.halfedge(i)); }, -1 });
    acts.push_back({ "fill", [](Mesh &m) { m.fillHoles(); }, -1 });
    acts.push_back({ "lock", [](Mesh &m) { for (int i = 0; i < (int)m.numVertices(); i += 2) m.vertex(i)->lock(); }, -1 });
    acts.push_back({ "move", [](Mesh &m) { for (int i = 0; i < (int)m.numVertices(); i++) m.vertex(i)->setPos(m.vertex(i)->pos() + Vec3(i, 1.0, 2.0)); }, -1 });
    acts.push_back({ "save", [](Mesh &m) { m.save(vp::eng().scratch + vp::strf("/w%d.obj", (int)getpid())); m.save(vp::eng().scratch + vp::strf("/w%d.ply", (int)getpid())); }, -1 });
    const int A = (int)acts.size();
    fresh.resize(A);
    repeatable.assign(A, 1);
    auto prep = [A]() {
        static bool done = false;
        if (done) return;
        done = true;
        for (int a = 0; a < A; a++) {
            if (acts[a].target < 0) continue;
            std::vector<uint64_t> d2;
            {
                Mesh m1, m2;
                if (!attempt(acts[a], m1) || !attempt(acts[a], m2)) {
                    repeatable[a] = 0;
                    continue;
                }
                ref::dump(m1, fresh[a]);
                ref::dump(m2, d2);
            }
            if (d2 != fresh[a]) repeatable[a] = 0;
        }
    };
    vp::group("fresh", A, [prep](uint64_t a) {
        prep();
        if (acts[a].target < 0) return;
        Mesh m;
        if (!attempt(acts[a], m)) vp::fail("%s on a fresh object failed", acts[a].name.c_str());
        ref::audit(m, ref::RefMesh(forms[acts[a].target]), "fresh object");
        vp::add(vp::STATES);
        vp::add(vp::TRANSITIONS);
        vp::add(vp::TRACES);
    });
    for (int len = 2; len <= (th ? 5 : 4); len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= A;
        vp::group(vp::strf("histories%d", len), n, [len, A, prep](uint64_t c) {
            prep();
            std::vector<int> h;
            for (int i = 0; i < len; i++, c /= A) h.push_back((int)(c % A));
            if (acts[h.back()].target < 0 || acts[h[0]].target == -1) return;  // ends with a build or load
            history(h);
        });
    }
}
VP_MAIN(setup)
