#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, checks/registry.json, the evidence of the last run and seeded/."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
 "C01": "A set-level builder: weld equal positions, drop triangles with repeated corners or used directed edges, then count directed edges and walk the link of every vertex. Accepted lists must give exactly the reference surface (full audit of every link, number and flag), all others an error.",
 "C02": "The last build or load of the history, made on a fresh object, and the reference model of the input. Everything readable is compared: counts, links, flags, positions, exported lists.",
 "C03": "The reference model of the history for the export; a second audit of the untouched side after every edit of the other one, bit for bit.",
 "E01": "The set model: two triangles out, two in, under the stated condition on neighbours; else the concrete state must be bit-identical.",
 "E02": "The set model: midpoint vertex, four triangles for two; refused exactly on the boundary with the concrete state bit-identical.",
 "E03": "The set model with the stated refusal conditions (link condition, valence, boundary, triangles turned over, computed from the triangle set); Euler characteristic and boundary loops compared.",
 "E04": "The set models of all operations together; after every step the audit, the library's own self check and the Euler/boundary bookkeeping must agree.",
 "T01": "The cyclic or linear order of neighbours derived from the triangle set, for 24 kinds of walk; walks are cut off when longer than the mesh.",
 "B01": "Counts of triangles on both sides of every directed edge of the set model; lock flags kept as a plain set.",
 "H01": "Set difference before/after: n-2 oriented triangles on the loop's vertices only, the loop gone, nothing else changed.",
 "H02": "Set inclusion of the old triangles, exact old positions, hole gone, audit, finite new positions; a hang is a verdict.",
 "H03": "Signed area of each new triangle in the plane and the total against the polygon's area; whether a fold-free filling exists under the loop's adjacency is decided by an own dynamic programme.",
 "I01": "The reference model rounded to single precision, the oriented triangle set, order of vertices; hand-written files of other programs with known content.",
 "I02": "Each fault scenario is known to be harmful or harmless by construction; harmful ones must be reported, harmless ones must not, and the process must live.",
 "G01": "Minimum over the seven closed-form regions (corners, sides, interior) in long double; the returned point must also satisfy the triangle's inequalities.",
 "G02": "Brute force over all triangles with the oracle of G01.",
 "G03": "Brute force over all vertices and triangles in both directions.",
 "D01": "Cross products, mixed Voronoi cells and weighted normals recomputed from the triangle list in long double.",
 "D02": "Angle defects and cotangent sums from the triangle list in long double; Gauss-Bonnet with the Euler characteristic of the triangle set.",
 "D03": "Averages over the set of undirected edges and over the triangles.",
 "V01": "The same operation on plain arrays; guard words around the vector and the address sanitiser for memory.",
 "V02": "atan2 of exact integer cross and dot products; rotation matrices checked for orthogonality, determinant, image and angle.",
 "V03": "Plain interval arithmetic per axis; distance by clamping.",
 "L01": "A dense matrix filled triangle by triangle from the definition; quadratic form against the summed Dirichlet energy.",
 "L02": "A dense self-adjoint eigenvalue decomposition of the same matrix and the stated sum.",
 "L03": "Least-squares curvature tensors per triangle as 3x3 matrices, without frames, in long double; the same surface in all listings and motions must agree.",
 "L04": "The tensor derivative per triangle from least squares without frames; the field from a dense solve with the marks held fixed.",
 "S01": "One simultaneous step in long double from the triangle list; fixed vertices must be bit-identical.",
 "S02": "Two simultaneous steps per iteration, as S01.",
 "S03": "A dense LU solution in long double of the stated system, assembled from the triangle list.",
 "N01": "A literal transcription of the stated three steps on the triangle list in long double, also in a moved frame.",
 "N02": "The alternating minimisation with dense matrices; motions and listings must give the moved result.",
 "P01": "The sequential result, bit for bit; and per parallel region the disjointness of every thread's write set with every other thread's access set, which proves that all interleavings are equivalent to the executed one.",
 "P02": "Each operation's result on its own, and the disjointness of one thread's write set with the other thread's access set (common locks, guarded initialisation, thread-local variables and atomic reference counts are understood), which proves that all interleavings are equivalent to the executed ones.",
 "R01": "Topology (pieces, Euler characteristic), boundary polygons and fixed positions of the set model before the call; audit of the result.",
 "R02": "As R01 with face counts; flat sheets must stay in their plane; regular closed meshes must reach the target.",
 "R03": "The silent call with the same orders; clocks that stand still, run, jump or run backwards.",
 "R04": "From the edge lengths of the triangle set: the set of edges that must be split; for collapses and flips, necessary conditions on every change and existence when possible; the final positions from the reference Taubin step.",
 "M01": "The same call as the first one of a fresh process (forked before anything ran).",
 "M02": "The complete concrete state before and after, bit for bit, and the answer of the first query.",
 "M03": "The same call with the ordinary allocator.",
 "A01": "The valid range itself; refusals must leave the concrete state bit-identical.",
 "W01": "Whether each call is valid is known by construction; the way the process ends (returned, aborted, exit status), sanitiser reports and the captured output are compared; for messages the text itself.",
 "W02": "All files below the case's directory before and after, byte for byte; the results, read by a parser of the check, against the triangle list of the filled input (pieces, Euler characteristic, closedness, neighbour counts; positions for the copy). The programs run as an unprivileged user who can write only in the directory of the case.",
 "X01": "Known vertices by position and known triangles by vertex in the set model; pieces, Euler characteristic and loops.",
 "Y01": "The same call in C++ through a second door of the same process, values compared exactly or to rounding.",
 "Y02": "A model of names, objects and meshes; the address sanitiser for lifetime.",
}
reg = json.load(open(os.path.join(V, "checks", "registry.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(os.path.join(V, "design_head.md")).read().rstrip(), "", "## Per property", ""]
for p in props:
    i, r = p["id"], reg[p["id"]]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["- *Explored:* " + r["technique"][0].upper() + r["technique"][1:] + "."]
    out += ["- *Bounds:* " + r["note"]]
    out += ["- *Oracle:* " + ORACLE[i]]
    if r.get("rule"):
        out += ["- *Counting:* " + r["rule"] + "."]
    e = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(e):
        e = json.load(open(e))
        c = e["coverage"]
        out += ["- *Cost (%s tier, eight cores):* %s cases, %s states, %s transitions, %s traces validated, %.0f s." % (e["tier"], c.get("cases", "-"), c.get("states", 0), c.get("transitions", 0), c.get("traces_validated_against_impl", 0), e["wall_s"])]
    why = p["why_tests_cant"].split("fixed model files. ")[-1]
    out += ["- *Why tests cannot settle it:* " + why]
    if i in seeds:
        out += ["- *Planted changes caught:* " + ", ".join("`%s`" % n for n, _ in seeds[i]) + "."]
    out += [""]
out += ["## Planted changes", "", "Every one compiles, passes the 176 tests and is caught by the quick tier of the check of its property.", "", "| change | property | what it breaks | needs |", "|---|---|---|---|"]
for p in props:
    for n, m in seeds.get(p["id"], []):
        out += ["| `%s` | %s | %s | %s |" % (n, p["id"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))]
out += ["", open(os.path.join(V, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
