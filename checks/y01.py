# Y01: every function and method of the Python module against the C++ operation it stands for.
import itertools, math, os, re
import numpy as np
import tinymesh as tm
import _vp

STATES, TRANSITIONS, TRACES, EVALS = 0, 1, 2, 3


class Violation(Exception):
    pass


def bad(fmt, *a):
    raise Violation(fmt % a)


# ---- meshes ----
def octahedron():
    p = [(1, 0, 0), (-1.1, 0, 0), (0, 1.2, 0), (0, -0.9, 0.1), (0.1, 0, 1), (0, 0.2, -1.3)]
    t = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    return p, t


def bipyramid(k):
    p = [(math.cos(2 * math.pi * i / k), 1.1 * math.sin(2 * math.pi * i / k), 0.1 * (i % 2)) for i in range(k)] + [(0, 0, 1.2), (0.1, 0, -0.8)]
    t = []
    for i in range(k):
        t += [(i, (i + 1) % k, k), ((i + 1) % k, i, k + 1)]
    return p, t


def icosahedron():
    a, b = 1.0, 1.618
    p = [(-a, b, 0), (a, b, 0.1), (-a, -b, 0), (a, -b, 0), (0, -a, b), (0, a, b), (0, -a, -b), (0.1, a, -b), (b, 0, -a), (b, 0, a), (-b, 0, -a), (-b, 0.1, a)]
    t = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6), (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    return p, t


def grid(n):
    p = [(i, j, 0.3 * ((i * 5 + j * 3 + i * j) % 4)) for i in range(n + 1) for j in range(n + 1)]
    t = []
    for i in range(n):
        for j in range(n):
            a, b, c, d = i * (n + 1) + j, (i + 1) * (n + 1) + j, (i + 1) * (n + 1) + j + 1, i * (n + 1) + j + 1
            t += [(a, b, c), (a, c, d)]
    return p, t


def torus(a, b):
    p = []
    for i in range(a):
        for j in range(b):
            u, v = 2 * math.pi * i / a, 2 * math.pi * j / b
            w = 1.5 + 0.6 * math.cos(v)
            p.append((w * math.cos(u), w * math.sin(u), 0.6 * math.sin(v) + 0.05 * (i % 2)))
    t = []
    for i in range(a):
        for j in range(b):
            q = lambda x, y: (x % a) * b + y % b
            t += [(q(i, j), q(i + 1, j), q(i + 1, j + 1)), (q(i, j), q(i + 1, j + 1), q(i, j + 1))]
    return p, t


def without(m, drop):
    p, t = m
    return p, [f for i, f in enumerate(t) if i not in drop]


def flat(m):
    return [[float(c) for c in q] for q in m[0]], [int(v) for f in m[1] for v in f]


tetra = ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)])
MESHES = {
    "tetrahedron": tetra,
    "octahedron": octahedron(),
    "bipyramid5": bipyramid(5),
    "icosahedron": icosahedron(),
    "torus": torus(5, 6),
    "sheet": grid(3),
    "fan": ([(0, 0, 0.5), (1, 0, 0), (0, 1, 0.2), (-1, 0, 0), (0, -1, 0.1)], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]),
    "triangle": ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(0, 1, 2)]),
    "octahedron-1": without(octahedron(), {0}),
    "icosahedron-2": without(icosahedron(), {0, 14}),
    "icosahedron-5": without(icosahedron(), {0, 1, 2, 3, 4}),
    "two": (tetra[0] + [(x + 4, y, z) for x, y, z in octahedron()[0]], tetra[1] + [(a + 4, b + 4, c + 4) for a, b, c in octahedron()[1]]),
}
NAMES = list(MESHES)
FLAT = {k: flat(m) for k, m in MESHES.items()}

# ---- options: name, values, value when left out ----
NO = object()
OPTIONS = {
    "get_principal_curvatures": [("smooth_tensors", [True], False)],
    "get_principal_curvatures_with_derivatives": [("smooth_tensors", [True], False)],
    "get_feature_line_field": [("smooth_tensors", [True], False)],
    "get_feature_line_field_with_flags": [("smooth_tensors", [True], False)],
    "smooth_laplacian": [("epsilon", [0.5, 0], 1.0), ("cotangent_weight", [True], False), ("iterations", [0, 1], 3)],
    "smooth_taubin": [("shrink", [0.25], 0.5), ("inflate", [0.4], 0.53), ("iterations", [0, 1], 3)],
    "implicit_fairing": [("epsilon", [0.5], 1.0), ("iterations", [0, 2], 1)],
    "denoise_normal_gaussian": [("sigma", [0.5], 0.2), ("iterations", [0, 1], 3)],
    "denoise_normal_bilateral": [("sigma_c", [0.5], 0.2), ("sigma_s", [0.4], 0.1), ("iterations", [0, 1], 3)],
    "denoise_l0_smooth": [("alpha", [0.3], 0.1), ("beta", [0.02], 0.001)],
    "remesh_triangular": [("short_length", [0.5], 0.8), ("long_length", [1.2], 1.333), ("angle_keep_less_than", [1.0], 0.0), ("iterations", [0, 1], 5), ("verbose", [True], False)],
    "simplify_qem": [("n_triangles", [4, 8, 0], NO), ("n_trials", [1], 10), ("verbose", [True], False)],
}
FUNCS = list(OPTIONS)


def outcome_of(fn):
    try:
        return ("value", fn())
    except (RuntimeError, ValueError, IndexError) as e:
        return ("error", type(e).__name__)


def close(a, b, what):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.size == 0 and b.size == 0:
        return
    if a.shape != b.shape:
        bad("%s has shape %s instead of %s", what, a.shape, b.shape)
    # zero vectors may be scaled to anything
    ok = np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
    if not ok.all():
        i = np.argwhere(~ok)[0]
        bad("%s %s is %r instead of %r", what, tuple(int(x) for x in i), float(a[tuple(i)]), float(b[tuple(i)]))
    _vp.add(EVALS, int(a.size))


def cxx(name, mesh, args=(), other=None, file=""):
    p, t = FLAT[mesh]
    p2, t2 = FLAT[other] if other else ([], [])
    return outcome_of(lambda: _vp.call(name, p, t, [float(x) for x in args], p2, t2, file))


def ask(f, n=1):  # queries of degenerate elements may be refused
    try:
        return f()
    except RuntimeError:
        return 1e300 if n == 1 else [1e300] * n


def export(m):
    r = {"vertices": [list(v) for v in m.get_vertices()], "indices": [[i] for i in m.get_vertex_indices()]}
    r["faces"] = []
    for k in range(m.num_faces()):
        f = m.face(k)
        r["faces"].append([f.is_hole(), f.is_boundary(), f.is_locked(), 0.0 if f.is_hole() else ask(f.area)])
    r["elements"] = []
    for k in range(m.num_vertices()):
        v = m.vertex(k)
        b = v.is_boundary()
        r["elements"].append([*v.pos(), *ask(v.normal, 3), b, v.is_locked(), 0.0 if b else ask(v.K), 0.0 if b else ask(v.H)])
    r["counts"] = [[m.num_vertices(), m.num_edges(), m.num_halfedges(), m.num_faces(), m.verify()]]
    return r


def same(got, want, what):
    if got[0] != want[0]:
        bad("%s: %s in Python, %s in C++", what, got, want[0] if want[0] == "value" else want)
    if got[0] == "error":
        return
    g, w = got[1], want[1]
    if set(g) != set(w):
        bad("%s: %d results instead of %d", what, len(g), len(w))
    for k in w:
        close(g[k], w[k], "%s: %s" % (what, k))


def results(r):
    if not isinstance(r, tuple):
        r = (r,)
    out = {}
    for i, x in enumerate(r):
        a = np.asarray(x, dtype=float)
        out[str(i)] = a.reshape(len(a), -1) if a.ndim else a.reshape(1, 1)
    return out


def mesh_of(name):
    p, t = FLAT[name]
    return tm.Mesh(p, t)


# every way of passing the options: each is left out or has one of its values; a prefix goes by position
def ways(name):
    opts = OPTIONS[name]
    out = []
    for pick in itertools.product(*[([NO] if d is not NO else []) + v for _, v, d in opts]):
        lead = 0
        while lead < len(pick) and pick[lead] is not NO:
            lead += 1
        for pos in range(lead + 1):
            args = [pick[i] for i in range(pos)]
            kw = {opts[i][0]: pick[i] for i in range(pos, len(pick)) if pick[i] is not NO}
            full = [opts[i][2] if pick[i] is NO else pick[i] for i in range(len(pick))]
            out.append((args, kw, full))
    return out


def run_options(i):
    name, mesh = FUNCS[i // len(NAMES)], NAMES[i % len(NAMES)]
    f = getattr(tm, name)
    _vp.add(STATES, 1)
    want = {}
    for args, kw, full in ways(name):
        key = tuple(full)
        if key not in want:
            want[key] = cxx(name, mesh, full)
            if name == "remesh_triangular":  # only if the order of the work is settled
                again = cxx(name, mesh, full)
                try:
                    same(again, want[key], "")
                except Violation:
                    want[key] = None
        if want[key] is None:
            continue
        for bykey in (False, True):
            m = mesh_of(mesh)
            if bykey and args:
                continue
            call = (lambda: f(mesh=m, **kw)) if bykey else (lambda: f(m, *args, **kw))
            r = outcome_of(call)
            what = "%s(%s%s)" % (name, mesh, "".join(", %s" % a for a in args) + "".join(", %s=%s" % x for x in kw.items()))
            if r[0] == "value":
                r = ("value", export(m) if r[1] is None else results(r[1]))
            same(r, want[key], what)
            _vp.add(TRANSITIONS, 1)
            _vp.add(TRACES, 1)
            _vp.outcome(what + repr(sorted(want[key][1]) if want[key][0] == "value" else want[key]))
    _vp.sample("%s on %s: %d ways" % (name, mesh, len(ways(name))))


# ---- functions of two meshes and with special arguments ----
def run_pairs(i):
    a, b = NAMES[i // len(NAMES)], NAMES[i % len(NAMES)]
    _vp.add(STATES, 1)
    for name, k0, k1 in (("get_hausdorff_distance", "mesh0", "mesh1"), ("get_per_vertex_shortest_distances", "src", "dst")):
        want = cxx(name, a, (), b)
        f = getattr(tm, name)
        for call in (lambda: f(mesh_of(a), mesh_of(b)), lambda: f(**{k1: mesh_of(b), k0: mesh_of(a)}), lambda: f(mesh_of(a), **{k1: mesh_of(b)})):
            r = outcome_of(call)
            if r[0] == "value":
                r = ("value", results(r[1]))
            same(r, want, "%s(%s, %s)" % (name, a, b))
            _vp.add(TRANSITIONS, 1)
            _vp.add(TRACES, 1)


def run_single(i):
    mesh = NAMES[i]
    _vp.add(STATES, 1)
    p, t = FLAT[mesh]
    same(("value", export(mesh_of(mesh))), cxx("construct", mesh), "construction of " + mesh)
    # forms in which points and indices can be given
    pts = [p, [tuple(q) for q in p], np.array(p), [np.array(q) for q in p], np.asfortranarray(np.array(p)), np.array(p + [[9.0, 9, 9]])[: len(p)], np.repeat(np.array(p), 2, axis=1)[:, ::2]]
    idx = [t, tuple(t), np.array(t), np.array(t, dtype=np.uint32), np.array(t, dtype=np.int64), np.repeat(np.array(t), 2)[::2]]
    for q in pts:
        for s in idx:
            same(("value", export(tm.Mesh(q, s))), cxx("construct", mesh), "construction of %s from %s and %s" % (mesh, type(q), type(s)))
            _vp.add(TRANSITIONS, 1)
            _vp.add(TRACES, 1)
    whole = [[float(round(c * 8)) for c in q] for q in p]
    for q in (np.array(whole, dtype=np.float32), np.array(whole, dtype=np.int32), [[int(c) for c in x] for x in whole]):
        got = tm.Mesh(q, t).get_vertices()
        close(got, tm.Mesh(whole, t).get_vertices(), "points of %s given as %s" % (mesh, getattr(q, "dtype", type(q))))
    # methods
    for name in ("fill_holes", "clone"):
        m = mesh_of(mesh)
        r = outcome_of(lambda: getattr(m, name)())
        if r[0] == "value":
            r = ("value", export(m if r[1] is None else r[1]))
        same(r, cxx(name, mesh), "%s.%s()" % (mesh, name))
    # Laplacians
    for k, kind in enumerate((tm.MeshLaplace.ADJACENT, tm.MeshLaplace.COTANGENT, tm.MeshLaplace.BELKIN08)):
        for call in (lambda: tm.get_mesh_laplacian(mesh_of(mesh), kind), lambda: tm.get_mesh_laplacian(mesh=mesh_of(mesh), type=kind)):
            r = outcome_of(call)
            if r[0] == "value":
                r = ("value", {"0": r[1].toarray()})
            same(r, cxx("get_mesh_laplacian", mesh, (k,)), "Laplacian %s of %s" % (kind, mesh))
            _vp.add(TRANSITIONS, 1)
            _vp.add(TRACES, 1)
    L = outcome_of(lambda: tm.get_mesh_laplacian(mesh_of(mesh), tm.MeshLaplace.COTANGENT))
    if L[0] == "value":
        for K in (1, 2, 3, len(p) - 1, 300):
            for n in (1, 4, 100):
                want = cxx("get_heat_kernel_signatures", mesh, (K, n))
                calls = [lambda: tm.get_heat_kernel_signatures(L[1], K, n), lambda: tm.get_heat_kernel_signatures(mesh=L[1], n_times=n, K=K)]
                if n == 100:
                    calls.append(lambda: tm.get_heat_kernel_signatures(L[1], K))
                    if K == 300:
                        calls.append(lambda: tm.get_heat_kernel_signatures(L[1]))
                for call in calls:
                    r = outcome_of(call)
                    if r[0] == "value":
                        r = ("value", {"0": r[1]})
                    same(r, want, "signatures of %s with %d values at %d times" % (mesh, K, n))
                    _vp.add(TRANSITIONS, 1)
                    _vp.add(TRACES, 1)
    # filling one hole
    m = mesh_of(mesh)
    for k in range(m.num_faces()):
        if not m.face(k).is_hole():
            continue
        for bound in (NO, math.pi, 1.0, 0.1):
            want = cxx("hole_fill_min_dihedral", mesh, (k, math.pi if bound is NO else bound))
            for style in range(2 if bound is NO else 3):
                x = mesh_of(mesh)
                if style == 0:
                    call = lambda: tm.hole_fill_min_dihedral(x, x.face(k), *([] if bound is NO else [bound]))
                elif style == 1:
                    call = lambda: tm.hole_fill_min_dihedral(mesh=x, face=x.face(k), **({} if bound is NO else {"dihedral_bound": bound}))
                else:
                    call = lambda: tm.hole_fill_min_dihedral(x, x.face(k), dihedral_bound=bound)
                r = outcome_of(call)
                if r[0] == "value":
                    r = ("value", export(x))
                same(r, want, "filling of face %d of %s with bound %s" % (k, mesh, bound))
                _vp.add(TRANSITIONS, 1)
                _vp.add(TRACES, 1)
        for style in range(2):
            x = mesh_of(mesh)
            r = outcome_of((lambda: tm.hole_fill_advancing_front(x, x.face(k))) if style == 0 else (lambda: tm.hole_fill_advancing_front(face=x.face(k), mesh=x)))
            if r[0] == "value":
                r = ("value", export(x))
            same(r, cxx("hole_fill_advancing_front", mesh, (k,)), "advancing front in face %d of %s" % (k, mesh))
            _vp.add(TRANSITIONS, 1)
            _vp.add(TRACES, 1)
    # the elements
    for k in range(m.num_vertices()):
        v = m.vertex(k)
        old = v.pos()
        if not isinstance(old, np.ndarray) or old.shape != (3,) or old.dtype != np.float64:
            bad("position of a vertex of %s is %r", mesh, old)
        for q in ((1.5, 2.0, -3.0), [4, 5, 6], np.array([7.0, 8, 9]), np.array([1, 2, 3], dtype=np.float32), np.arange(6.0)[::2]):
            v.set_pos(q)
            close(v.pos(), np.asarray(q, dtype=float), "position")
            close(m.vertex(k).pos(), np.asarray(q, dtype=float), "position seen through the mesh")
            close(m.get_vertices()[k], np.asarray(q, dtype=float), "exported position")
        v.set_pos(old)
        if v.is_locked():
            bad("a fresh vertex is locked")
        v.lock()
        if not v.is_locked() or not m.vertex(k).is_locked():
            bad("locking a vertex has no effect")
        v.unlock()
        if v.is_locked() or m.vertex(k).is_locked():
            bad("unlocking a vertex has no effect")
        _vp.add(TRANSITIONS, 7)
    same(("value", export(m)), cxx("construct", mesh), mesh + " after moving and locking vertices and back")
    _vp.sample(mesh)


# ---- completion needs more than three hundred vertices ----
BIG = torus(18, 18)
FLAT["big"] = flat((BIG[0], [f for f in BIG[1] if 170 not in f]))
WAYS = [([0], {}), ([], {"maxiters": 0}), ([1], {}), ([], {"maxiters": 2})]


def run_completion(i):
    args, kw = WAYS[i]
    _vp.add(STATES, 1)
    want = cxx("hole_fill_context_coherent", "big", args or list(kw.values()))
    for style in range(2):
        x = mesh_of("big")
        r = outcome_of((lambda: tm.hole_fill_context_coherent(x, *args, **kw)) if style == 0 else (lambda: tm.hole_fill_context_coherent(mesh=x, maxiters=(args or list(kw.values()))[0])))
        if r[0] == "value":
            r = ("value", export(x))
        same(r, want, "completion with %s%s" % (args, kw))
        _vp.add(TRANSITIONS, 1)
        _vp.add(TRACES, 1)


# ---- files ----
def run_files(i):
    mesh, ext = NAMES[i // 2], ("obj", "ply")[i % 2]
    d = os.path.join(_vp.scratch(), "y01-%d" % i)
    os.makedirs(d, exist_ok=True)
    a, b = os.path.join(d, "a." + ext), os.path.join(d, "b." + ext)
    _vp.add(STATES, 1)
    try:
        mesh_of(mesh).save(a)
        cxx("save", mesh, (), None, b)
        if open(a, "rb").read() != open(b, "rb").read():
            bad("%s: Python and C++ save different files", mesh)
        for name in ("open", "load"):
            want = cxx(name, "tetrahedron", (), None, b)
            if name == "open":
                r = outcome_of(lambda: export(tm.Mesh(a)))
            else:
                x = mesh_of("tetrahedron")
                r = outcome_of(lambda: (x.load(a), export(x))[1])
            same(r, want, "%s %s through %s" % (name, mesh, ext))
            x = tm.Mesh()
            if name == "load":
                same(outcome_of(lambda: (x.load(a), export(x))[1]), want, "loading into an empty mesh")
            _vp.add(TRANSITIONS, 2)
            _vp.add(TRACES, 1)
    finally:
        for p in (a, b):
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(d)


# ---- misuse raises an exception and nothing else ----
def misuses():
    p, t = FLAT["octahedron"]
    m = lambda: mesh_of("octahedron")
    out = [
        ("missing file", RuntimeError, lambda: tm.Mesh("/nonexistent/x.obj")),
        ("missing file on load", RuntimeError, lambda: m().load("/nonexistent/x.ply")),
        ("unknown extension", RuntimeError, lambda: m().load("x.stl")),
        ("unwritable file", RuntimeError, lambda: m().save("/nonexistent/x.obj")),
        ("index out of range", RuntimeError, lambda: tm.Mesh(p, t + [0, 1, 99])),
        ("length not a multiple of three", RuntimeError, lambda: tm.Mesh(p, t + [0, 1])),
        ("wrong number of coordinates", TypeError, lambda: tm.Mesh([[0.0, 1], [1, 0], [0, 0]], [0, 1, 2])),
        ("no coordinates", TypeError, lambda: tm.Mesh([1.0, 2.0, 3.0], [0, 1, 2])),
        ("negative index", TypeError, lambda: tm.Mesh(p, [-1, 0, 1])),
        ("text as points", TypeError, lambda: tm.Mesh("abc", t)),
        ("text as coordinate", TypeError, lambda: tm.Mesh([["a", "b", "c"]] * 6, t)),
        ("position of four coordinates", TypeError, lambda: m().vertex(0).set_pos([1, 2, 3, 4])),
        ("position of rank two", TypeError, lambda: m().vertex(0).set_pos([[1, 2, 3]])),
        ("position none", TypeError, lambda: m().vertex(0).set_pos(None)),
        ("no mesh", TypeError, lambda: tm.smooth_laplacian(None)),
        ("unknown option", TypeError, lambda: tm.smooth_laplacian(m(), strength=1.0)),
        ("option twice", TypeError, lambda: tm.smooth_laplacian(m(), 1.0, epsilon=1.0)),
        ("too many options", TypeError, lambda: tm.smooth_taubin(m(), 1, 2, 3, 4)),
        ("missing target", TypeError, lambda: tm.simplify_qem(m())),
        ("no face", TypeError, lambda: tm.hole_fill_min_dihedral(m(), None) if False else tm.hole_fill_min_dihedral(m(), 3)),
        ("text for a number", TypeError, lambda: tm.implicit_fairing(m(), "1")),
        ("fractional iterations", TypeError, lambda: tm.smooth_laplacian(m(), iterations=1.5)),
        ("target zero", RuntimeError, lambda: tm.simplify_qem(m(), 0)),
        ("curvature of an open mesh", RuntimeError, lambda: tm.get_principal_curvatures(mesh_of("sheet"))),
        ("too many eigenvalues", RuntimeError, lambda: tm.get_heat_kernel_signatures(tm.get_mesh_laplacian(m(), tm.MeshLaplace.COTANGENT))),
    ]
    for k in (-1, 6, 1 << 20, -(1 << 31), (1 << 31) - 1):
        out.append(("vertex %d" % k, RuntimeError, lambda k=k: m().vertex(k)))
    for k in (-1, 8, 1 << 20):
        out.append(("face %d" % k, RuntimeError, lambda k=k: m().face(k)))
    for k in (1 << 31, 1.5, "0", None):
        out.append(("vertex %r" % (k,), TypeError, lambda k=k: m().vertex(k)))
    return out


MISUSES = misuses()


def run_misuse(i):
    # every pair of misuses, then ordinary work
    _vp.add(STATES, 1)
    for j in range(len(MISUSES)):
        for what, kind, f in (MISUSES[i], MISUSES[j]):
            try:
                f()
            except kind:
                pass
            except Exception as e:
                bad("%s: %s instead of %s", what, type(e).__name__, kind.__name__)
            else:
                bad("%s is accepted", what)
            _vp.add(TRANSITIONS, 1)
        same(("value", export(mesh_of("bipyramid5"))), cxx("construct", "bipyramid5"), "construction after %s and %s" % (MISUSES[i][0], MISUSES[j][0]))
        _vp.add(TRACES, 1)
    _vp.outcome(MISUSES[i][0])
    _vp.sample("misuse: " + MISUSES[i][0])


def groups():
    return [("options", len(FUNCS) * len(NAMES), 120.0), ("pairs", len(NAMES) ** 2, 30.0), ("single", len(NAMES), 60.0), ("completion", len(WAYS), 120.0), ("files", 2 * len(NAMES), 30.0), ("misuse", len(MISUSES), 60.0)]


def describe(g, i):
    if g == "options":
        return "%s on %s" % (FUNCS[i // len(NAMES)], NAMES[i % len(NAMES)])
    if g == "pairs":
        return "%s and %s" % (NAMES[i // len(NAMES)], NAMES[i % len(NAMES)])
    if g == "misuse":
        return MISUSES[i][0]
    return "%s #%d" % (g, i)


def run(g, i):
    try:
        {"options": run_options, "pairs": run_pairs, "single": run_single, "files": run_files, "completion": run_completion, "misuse": run_misuse}[g](i)
    except Violation as e:
        return str(e)
