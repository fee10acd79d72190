// Runs an enumeration written in Python inside the case engine, with the real extension module built into this program.
// The script (macro VP_SCRIPT) defines groups() -> [(name, cases, seconds)], run(name, i) and describe(name, i).
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <unistd.h>

#include <random>

#include "tinymesh/tinymesh.h"
#include "vp.hpp"
namespace py = pybind11;
using namespace tinymesh;

extern "C" PyObject *PyInit_tinymesh();

// remeshing visits the vertices in an order drawn from here
std::random_device::result_type std::random_device::_M_getval() {
    return 12345;
}

typedef std::vector<std::vector<double>> Table;
typedef std::map<std::string, Table> Result;
typedef std::vector<std::array<double, 3>> Points;

static Table table(const EigenMatrix &m) {
    Table t(m.rows(), std::vector<double>(m.cols()));
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++) t[i][j] = m(i, j);
    return t;
}
static Table column(const EigenVector &v) {
    Table t;
    for (int i = 0; i < v.size(); i++) t.push_back({ v(i) });
    return t;
}
static Mesh build(const Points &p, const std::vector<uint32_t> &idx) {
    std::vector<Vec3> v;
    for (auto &q : p) v.push_back(Vec3(q[0], q[1], q[2]));
    return Mesh(v, idx);
}
// queries of degenerate elements may be refused
template <class F>
static double ask(F f) {
    try {
        return f();
    } catch (const std::runtime_error &) {
        return 1e300;
    }
}
static void dump(const Mesh &m, Result &r) {
    Table v, f;
    for (auto &q : m.getVertices()) v.push_back({ q[0], q[1], q[2] });
    auto i = m.getVertexIndices();
    for (size_t k = 0; k < i.size(); k++) f.push_back({ (double)i[k] });
    r["vertices"] = v;
    r["indices"] = f;
    Table h;
    for (int k = 0; k < (int)m.numFaces(); k++) {
        const Face *x = m.face(k);
        h.push_back({ (double)x->isHole(), (double)x->isBoundary(), (double)x->isLocked(), x->isHole() ? 0.0 : ask([&] { return x->area(); }) });
    }
    r["faces"] = h;
    Table q;
    for (int k = 0; k < (int)m.numVertices(); k++) {
        const Vertex *x = m.vertex(k);
        Vec3 p = x->pos(), n;
        if (ask([&] { n = x->normal(); return 0.0; }) != 0.0) n = Vec3(1e300, 1e300, 1e300);
        q.push_back({ p[0], p[1], p[2], n[0], n[1], n[2], (double)x->isBoundary(), (double)x->isLocked(), x->isBoundary() ? 0.0 : ask([&] { return x->K(); }), x->isBoundary() ? 0.0 : ask([&] { return x->H(); }) });
    }
    r["elements"] = q;
    r["counts"] = { { (double)m.numVertices(), (double)m.numEdges(), (double)m.numHalfedges(), (double)m.numFaces(), (double)m.verify() } };
}

// the operation of the C++ interface that the function of this name stands for
static Result call(const std::string &f, const Points &p, const std::vector<uint32_t> &idx, const std::vector<double> &a, const Points &p2, const std::vector<uint32_t> &idx2, const std::string &file) {
    Result r;
    Mesh m = build(p, idx);
    if (f == "construct") dump(m, r);
    else if (f == "fill_holes") m.fillHoles(), dump(m, r);
    else if (f == "clone") dump(m.clone(), r);
    else if (f == "load") m.load(file), dump(m, r);
    else if (f == "open") dump(Mesh(file), r);
    else if (f == "save") m.save(file);
    else if (f == "get_hausdorff_distance") r["0"] = { { getHausdorffDistance(m, build(p2, idx2)) } };
    else if (f == "get_per_vertex_shortest_distances") r["0"] = column(getPerVertexShortestDistances(m, build(p2, idx2)));
    else if (f == "get_mesh_laplacian") r["0"] = table(EigenMatrix(getMeshLaplacian(m, (MeshLaplace)(int)a[0])));
    else if (f == "get_heat_kernel_signatures") r["0"] = table(getHeatKernelSignatures(getMeshLaplacian(m, MeshLaplace::Cotangent), (int)a[0], (int)a[1]));
    else if (f == "get_principal_curvatures") {
        auto t = getPrincipalCurvatures(m, a[0] != 0);
        r["0"] = column(std::get<0>(t)), r["1"] = column(std::get<1>(t)), r["2"] = table(std::get<2>(t)), r["3"] = table(std::get<3>(t));
    } else if (f == "get_principal_curvatures_with_derivatives") {
        auto t = getPrincipalCurvaturesWithDerivatives(m, a[0] != 0);
        r["0"] = column(std::get<0>(t)), r["1"] = column(std::get<1>(t)), r["2"] = column(std::get<2>(t)), r["3"] = column(std::get<3>(t)), r["4"] = table(std::get<4>(t)), r["5"] = table(std::get<5>(t));
    } else if (f == "get_feature_line_field") r["0"] = table(getFeatureLineField(m, a[0] != 0));
    else if (f == "get_feature_line_field_with_flags") {
        auto t = getFeatureLineFieldWithFlags(m, a[0] != 0);
        r["0"] = table(std::get<0>(t)), r["1"] = column(std::get<1>(t));
    } else if (f == "smooth_laplacian") smoothLaplacian(m, a[0], a[1] != 0, (int)a[2]), dump(m, r);
    else if (f == "smooth_taubin") smoothTaubin(m, a[0], a[1], (int)a[2]), dump(m, r);
    else if (f == "implicit_fairing") implicitFairing(m, a[0], (int)a[1]), dump(m, r);
    else if (f == "denoise_normal_gaussian") denoiseNormalGaussian(m, a[0], (int)a[1]), dump(m, r);
    else if (f == "denoise_normal_bilateral") denoiseNormalBilateral(m, a[0], a[1], (int)a[2]), dump(m, r);
    else if (f == "denoise_l0_smooth") denoiseL0Smooth(m, a[0], a[1]), dump(m, r);
    else if (f == "remesh_triangular") remeshTriangular(m, a[0], a[1], a[2], (int)a[3], a[4] != 0), dump(m, r);
    else if (f == "simplify_qem") simplifyQEM(m, (int)a[0], (int)a[1], a[2] != 0), dump(m, r);
    else if (f == "hole_fill_min_dihedral") holeFillMinDihedral(m, m.face((int)a[0]), a[1]), dump(m, r);
    else if (f == "hole_fill_advancing_front") holeFillAdvancingFront(m, m.face((int)a[0])), dump(m, r);
    else if (f == "hole_fill_context_coherent") holeFillContextCoherent(m, (int)a[0]), dump(m, r);
    else {
        fprintf(stderr, "no such operation: %s\n", f.c_str());
        abort();
    }
    return r;
}

static pid_t owner;
static py::object *script;

static void entered() {
    if (getpid() != owner) {
        owner = getpid();
        PyOS_AfterFork_Child();
    }
}

static void setup() {
    owner = getpid();
    PyImport_AppendInittab("tinymesh", &PyInit_tinymesh);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.write_bytecode = 0;
    c.site_import = 0;
    PyStatus st = Py_InitializeFromConfig(&c);
    PyConfig_Clear(&c);
    if (PyStatus_Exception(st)) throw std::runtime_error("the interpreter does not start");
    py::module_ vpm = py::module_::create_extension_module("_vp", nullptr, new PyModuleDef());
    vpm.def("add", [](int k, uint64_t n) { vp::add((vp::Counter)k, n); });
    vpm.def("outcome", [](py::object o) { vp::outcome(vp::mix(1, (uint64_t)PyObject_Hash(o.ptr()))); });
    vpm.def("sample", [](const std::string &s) { vp::sample(s); });
    vpm.def("thorough", [] { return vp::thorough(); });
    vpm.def("scratch", [] { return vp::eng().scratch; });
    vpm.def("call", &call);
    py::module_ sys = py::module_::import("sys");
    sys.attr("modules")["_vp"] = vpm;
    sys.attr("path").attr("append")("/opt/veriftools/pyvenv/lib/python3.12/site-packages");
    py::dict ns;
    ns["__name__"] = "script";
    ns["__builtins__"] = py::module_::import("builtins");
    std::string path = VP_SCRIPT;
    FILE *f = fopen(path.c_str(), "r");
    if (!f) throw std::runtime_error("no script " + path);
    std::string src;
    for (int ch; (ch = fgetc(f)) != EOF;) src += (char)ch;
    fclose(f);
    try {
        py::object code = py::reinterpret_steal<py::object>(Py_CompileString(src.c_str(), path.c_str(), Py_file_input));
        if (!code) throw py::error_already_set();
        py::object done = py::reinterpret_steal<py::object>(PyEval_EvalCode(code.ptr(), ns.ptr(), ns.ptr()));
        if (!done) throw py::error_already_set();
        script = new py::object(ns);
        for (auto g : ns["groups"]()) {
            py::tuple t = py::reinterpret_borrow<py::tuple>(g);
            std::string name = t[0].cast<std::string>();
            vp::group(name, t[1].cast<uint64_t>(), [name](uint64_t i) {
                entered();
                std::string bad;
                try {
                    py::object r = (*script)["run"](name, i);
                    if (!r.is_none()) bad = r.cast<std::string>();
                } catch (py::error_already_set &e) {
                    bad = e.what();
                }
                if (!bad.empty()) vp::fail("%s", bad.c_str());
            }, [name](uint64_t i) {
                entered();
                return (*script)["describe"](name, i).cast<std::string>();
            }, t[2].cast<double>());
        }
    } catch (py::error_already_set &e) {
        throw std::runtime_error(e.what());
    }
}
VP_MAIN(setup)
