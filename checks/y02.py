# Y02: meshes, vertices, faces and arrays held by Python, over all short histories of taking, changing and dropping them.
import gc, math
import tinymesh as tm
import _vp

STATES, TRANSITIONS, TRACES, EVALS = 0, 1, 2, 3


class Violation(Exception):
    pass


def bad(fmt, *a):
    raise Violation(fmt % a)


# an octahedron that lacks one triangle
POINTS = [(1, 0, 0), (-1.25, 0, 0), (0, 1.5, 0.125), (0, -1, 0), (0.25, 0, 1.75), (0, 0.375, -2)]
TRIS = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5)]
FLAT = [i for t in TRIS for i in t]
CORNERS = frozenset(frozenset(t) for t in TRIS)
LAST = frozenset((0, 3, 5))
V = 3  # the vertex that handles refer to; on the boundary
T = 2  # the triangle that handles refer to; has that vertex as a corner


class Model:
    """One mesh object: what its owner may observe."""

    def __init__(self, like=None):
        self.pos = dict(like.pos) if like else {i: tuple(map(float, p)) for i, p in enumerate(POINTS)}
        self.locked = set(like.locked) if like else set()
        self.closed = like.closed if like else False


def area(m, t):
    a, b, c = (m.pos[i] for i in TRIS[t])
    u, v = [b[k] - a[k] for k in range(3)], [c[k] - a[k] for k in range(3)]
    return 0.5 * math.hypot(u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


# the order of vertices and faces is left to the library
def find_vertex(r, m):
    for k in range(r.num_vertices()):
        if near(r.vertex(k).pos(), m.pos[V]):
            return r.vertex(k)
    bad("no vertex at %s", m.pos[V])


def find_face(r, m):
    want = area(m, T)
    for k in range(r.num_faces()):
        f = r.face(k)
        if not f.is_hole() and abs(f.area() - want) < 1e-9:
            return f
    bad("no triangle with the area %r", want)


class World:
    """Names bound in Python next to what they stand for."""

    def __init__(self):
        self.real = {}
        self.model = {}

    def drop(self, n):
        self.real.pop(n, None)
        self.model.pop(n, None)

    def put(self, n, r, m):
        self.real[n] = r
        self.model[n] = m


def new(n):
    def f(w):
        w.put(n, tm.Mesh(POINTS, FLAT), Model())
    return f


def clone(a, b):
    def f(w):
        if a not in w.real:
            return False
        r, m = w.real[a].clone(), Model(w.model[a])
        m.locked = {V} if find_vertex(r, m).is_locked() else set()  # not settled whether locks are copied
        w.put(b, r, m)
    return f


def alias(a, b):
    def f(w):
        if a not in w.real:
            return False
        w.put(b, w.real[a], w.model[a])
    return f


def drop(*names):
    def f(w):
        if not any(n in w.real for n in names):
            return False
        for n in names:
            w.drop(n)
    return f


def vertex(m, h):
    def f(w):
        if m not in w.real:
            return False
        w.put(h, find_vertex(w.real[m], w.model[m]), ("vertex", w.model[m]))
    return f


def face(m, h):
    def f(w):
        if m not in w.real:
            return False
        w.put(h, find_face(w.real[m], w.model[m]), ("face", w.model[m]))
    return f


def move(h, to):
    def f(w):
        if h not in w.real:
            return False
        w.real[h].set_pos(to)
        w.model[h][1].pos[V] = tuple(float(c) for c in to)
    return f


def lock(h):
    def f(w):
        if h not in w.real:
            return False
        w.real[h].lock()
        w.model[h][1].locked.add(V)
    return f


def unlock(h):
    def f(w):
        if h not in w.real:
            return False
        w.real[h].unlock()
        w.model[h][1].locked.discard(V)
    return f


def take(h, p):
    def f(w):
        if h not in w.real:
            return False
        w.put(p, w.real[h].pos(), ("array", [list(w.model[h][1].pos[V])]))
    return f


def export(m, p):
    def f(w):
        if m not in w.real:
            return False
        r = w.real[m].get_vertices()
        w.put(p, r, ("array", [[float(c) for c in q] for q in r]))
    return f


def scribble(p):
    def f(w):
        if p not in w.real:
            return False
        a, m = w.real[p], w.model[p][1]
        if isinstance(a, list):
            for q in a:
                q[0] = 77.0
        else:
            a[0] = 77.0
        for q in m:
            q[0] = 77.0
    return f


def fill(m):
    def f(w):
        if m not in w.real:
            return False
        w.real[m].fill_holes()
        w.model[m].closed = True
    return f


def collect(w):
    gc.collect()


def rebuild(n):
    """Replaces a mesh with another one built right afterwards, likely in the same memory."""
    def f(w):
        if n not in w.real:
            return False
        w.drop(n)
        w.put(n, tm.Mesh(POINTS, FLAT), Model())
    return f


OPS = [
    ("a = Mesh()", new("a")), ("b = a.clone()", clone("a", "b")), ("b = a", alias("a", "b")), ("a = b", alias("b", "a")),
    ("del a", drop("a")), ("del b", drop("b")), ("del a; a = Mesh()", rebuild("a")),
    ("v = a.vertex()", vertex("a", "v")), ("w = b.vertex()", vertex("b", "w")), ("f = a.face()", face("a", "f")), ("g = b.face()", face("b", "g")),
    ("del v", drop("v")), ("v.set_pos()", move("v", (0.25, -2.0, 0.5))), ("w.set_pos()", move("w", (0.5, -3.0, -0.25))),
    ("v.lock()", lock("v")), ("w.unlock()", unlock("w")), ("p = v.pos()", take("v", "p")), ("p = b.get_vertices()", export("b", "p")),
    ("p[..] = 77", scribble("p")), ("a.fill_holes()", fill("a")), ("gc", collect),
]
# histories start from the states these lead to
STARTS = [[], [0], [0, 7], [0, 7, 9, 1, 8, 10], [0, 7, 4], [0, 7, 14, 12, 1], [0, 2, 7, 8, 16]]


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= 1e-12 for x, y in zip(a, b))


def observe(w):
    for n, r in w.real.items():
        m = w.model[n]
        if isinstance(m, Model):
            got = [tuple(q.tolist()) for q in r.get_vertices()]
            if len(got) != len(POINTS) or r.num_vertices() != len(POINTS):
                bad("%s has %d vertices", n, len(got))
            name = {p: i for i, p in m.pos.items()}
            at = [name.get(q) for q in got]
            if None in at or len(set(at)) != len(at):
                bad("the vertices of %s are at %s instead of %s", n, got, list(m.pos.values()))
            x = r.vertex(at.index(V))
            if x.is_locked() != (V in m.locked):
                bad("vertex of %s is %slocked", n, "" if x.is_locked() else "not ")
            idx = r.get_vertex_indices()
            c = frozenset(frozenset(at[j] for j in idx[i : i + 3]) for i in range(0, len(idx), 3))
            if c != (CORNERS | {LAST} if m.closed else CORNERS):
                bad("%s has the triangles %s", n, sorted(map(sorted, c)))
            if not r.verify():
                bad("%s is inconsistent", n)
        elif m[0] == "vertex":
            o = m[1]
            if not near(r.pos(), o.pos[V]):
                bad("%s is at %s instead of %s", n, r.pos(), o.pos[V])
            if r.is_locked() != (V in o.locked):
                bad("%s is %slocked", n, "" if r.is_locked() else "not ")
            if r.is_boundary() == o.closed:
                bad("%s is %son the boundary", n, "" if r.is_boundary() else "not ")
            k = r.normal()
            if not abs(math.hypot(*k) - 1) < 1e-9:
                bad("%s has the normal %s", n, k)
        elif m[0] == "face":
            want = area(m[1], T)
            # a triangle counts as locked if one of its corners is
            if r.is_hole() or r.is_locked() != (V in m[1].locked) or not abs(r.area() - want) < 1e-9:
                bad("%s has the area %r instead of %r, or is %slocked", n, r.area(), float(want), "" if r.is_locked() else "not ")
        else:
            a = r if isinstance(r, list) else [r]
            if len(a) != len(m[1]):
                bad("%s has %d rows", n, len(a))
            for i, q in enumerate(a):
                if not near(q, m[1][i]):
                    bad("row %d of %s is %s instead of %s", i, n, list(q), m[1][i])
        _vp.add(EVALS, 1)


def key(w):
    """Canonical form of what Python can observe, for counting states."""
    ids = {}
    out = []
    for n in sorted(w.model):
        m = w.model[n]
        o = m if isinstance(m, Model) else m[1]
        if isinstance(o, Model):
            ids.setdefault(id(o), len(ids))
            out.append((n, ids[id(o)], tuple(sorted(o.pos.items())), tuple(sorted(o.locked)), o.closed))
        else:
            out.append((n, repr(o)))
    return tuple(out)


def play(seq, quiet=0):
    """Executes a history from nothing and observes from step quiet on; None if one of its steps does not apply."""
    w = World()
    for k, i in enumerate(seq):
        if OPS[i][1](w) is False:
            return None, k
        if k >= quiet:
            observe(w)
            _vp.add(TRANSITIONS, 1)
            _vp.outcome(key(w))
    return w, len(seq)


def text(seq):
    return "; ".join(OPS[i][0] for i in seq)


DEPTH = [5, 4, 4, 4, 4, 4, 4] if _vp.thorough() else [4, 4, 3, 3, 3, 3, 3]
N = len(OPS)
gc.freeze()
CASES = [(s, d, a, b) for s, d in zip(STARTS, DEPTH) for a in range(N) for b in range(N)]


def run(g, i):
    start, depth, a, b = CASES[i]
    head = start + [a, b]
    try:
        w, _ = play(head, len(start))
        if w is None:
            return None
        _vp.add(STATES, 1)
        w = None
        # depth first, one history per leaf; steps that do not apply cut their branch
        def extend(seq, left):
            for x in range(N):
                s = seq + [x]
                w, _ = play(s, len(s) - 1)
                if w is None:
                    continue
                _vp.add(STATES, 1)
                # at last the meshes go, while everything taken from them stays in use
                w.drop("a")
                w.drop("b")
                observe(w)
                _vp.add(TRACES, 1)
                w = None
                if left > 1:
                    extend(s, left - 1)
        extend(head, depth - 2)
        if i % 97 == 0:
            _vp.sample(text(head))
    except Violation as e:
        return "%s (history %s ...)" % (e, text(head))


def groups():
    return [("histories", len(CASES), 300.0)]


def describe(g, i):
    start, depth, a, b = CASES[i]
    return text(start + [a, b])
