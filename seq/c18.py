#!/usr/bin/env python3
"""C18: every Python entry point x input form against the C++ library called directly (module sgref) and brute force."""
import sys, os, gc, tempfile, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyseq
from pyseq import family, Odo, OPT, step, state
if not OPT.list: sys.path.insert(0, OPT.mod)
import numpy as np
if not OPT.list:
    import small_gicp as sg
    import sgref
TH = OPT.tier == "thorough"
NF = 2 ** 64 - 1  # size_t(-1)
def notfound(i): return int(i) in (NF, -1)

def frac(x): return x - np.floor(x)
def generic(n, seed=0.0, scale=4.0):
    """n points without ties: three noisy faces of a box (deterministic)"""
    i = np.arange(1, n + 1)
    u, v, w = frac(i * 0.754877666 + seed) * scale, frac(i * 0.569840296 + seed) * scale, frac(i * 0.4123105 + seed) * 0.05
    p = np.empty((n, 3))
    for k in range(n): p[k] = ([u[k], v[k], w[k]], [w[k], u[k], v[k]], [u[k], w[k], v[k]])[k % 3]
    # an additive recurrence alone repeats its differences (equidistant neighbours, whose order the search tree decides)
    return p + 0.03 * frac(np.sin(np.outer(i, [12.9898, 78.233, 37.719]) + seed) * 43758.5453) + np.array([1.3, -0.7, 0.4])
def lattice(mask, shift=-0.5):
    g = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
    return np.array([g[b] for b in range(8) if mask >> b & 1], dtype=float).reshape(-1, 3) + shift

FORMS = ["n3", "n4", "n3F", "n4F", "slice", "f32", "int", "list", "rev", "cloud3", "cloud4", "ro"]
def form(p, f):
    """(argument, coordinates that argument carries)"""
    p = np.ascontiguousarray(p, dtype=float).reshape(-1, 3)
    h = np.hstack([p, np.ones((len(p), 1))])
    if f == "n3": return p.copy(), p
    if f == "n4": return h.copy(), p
    if f == "n3F": return np.asfortranarray(p), p
    if f == "n4F": return np.asfortranarray(h), p
    if f == "slice":
        a = np.full((2 * len(p), 7), 99.0); a[::2, 2:5] = p
        return a[::2, 2:5], p
    if f == "f32":
        q = p.astype(np.float32); return q, q.astype(float)
    if f == "int":
        q = np.rint(p).astype(np.int64); return q, q.astype(float)
    if f == "list": return [list(map(float, r)) for r in p] if len(p) else np.empty((0, 3)), p
    if f == "rev": return p[::-1].copy()[::-1], p
    if f == "cloud3": return sg.PointCloud(p.copy()), p
    if f == "cloud4": return sg.PointCloud(h.copy()), p
    if f == "ro":
        q = p.copy(); q.flags.writeable = False; return q, p
def snap(a): return a.points().copy() if isinstance(a, (sg.PointCloud,)) else np.array(a, copy=True)
def same(a, b, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
def hom(p): return np.hstack([p, np.ones((len(p), 1))])
def srt(p): return p[np.lexsort(np.round(p, 9).T[::-1])] if len(p) else p

# ---------------------------------------------------------------- point cloud object
CL = [np.empty((0, 3)), lattice(1), lattice(0b11), lattice(0b10110), lattice(255), generic(7), generic(40), np.repeat(generic(3), 4, axis=0), generic(9) * 1e4, generic(5) - 1e3]
def pc(i):
    o = Odo(i); p0 = CL[o(len(CL))]; f = FORMS[o(len(FORMS))]
    if f.startswith("cloud"): return ""
    a, p = form(p0, f); before = snap(a)
    c = sg.PointCloud(a); step()
    if not same(snap(a), before): return "PointCloud(%s) modified its input" % f
    del a; gc.collect()
    junk = [np.full((len(p), 4), -7.7) for _ in range(4)]
    if c.size() != len(p) or len(c) != len(p) or c.empty() != (len(p) == 0): return "size/len/empty wrong for %d points (%s)" % (len(p), f)
    m = c.points()
    if m.shape != (len(p), 4) or not same(m, hom(p), 0): return "points() is not the stored %d points (%s)" % (len(p), f)
    for k in range(len(p)):
        if not same(c.point(k), hom(p)[k], 0): return "point(%d) wrong" % k
        if np.asarray(c.normal(k)).shape != (4,) or np.asarray(c.cov(k)).shape != (4, 4): return "shape of normal(i)/cov(i)"
    if c.normals().shape != (len(p), 4) or len(c.covs()) != len(p): return "shape of normals()/covs()"
    if str(len(p)) not in repr(c): return "repr does not show the size"
    state("pc", f, len(p)); return ""
family("pointcloud/forms", len(CL) * len(FORMS), pc)

# ---------------------------------------------------------------- k-d tree
KC = [lattice(m) for m in ([1, 3, 9, 0b10110, 0b1101001, 255] if not TH else range(1, 256))] + [generic(3), generic(12), generic(30), generic(70), np.repeat(generic(2), 3, axis=0), lattice(255) * 3]
KQ = [(0.0, 0, 0), (0.5, 0.5, 0.5), (-0.5, -0.5, -0.5), (1.7, -0.2, 0.9), (-3, 5, 100), (1e6, -1e6, 3)]
def truth(p, q): return np.sort(np.sum((p - np.asarray(q)) ** 2, axis=1))
def check_knn(p, q, k, idx, sq, where):
    t = truth(p, q)[:k]; n = len(t)
    if len(idx) != k or len(sq) != k: return "%s returned %d/%d entries for k=%d" % (where, len(idx), len(sq), k)
    for j in range(n):
        if notfound(idx[j]) or int(idx[j]) >= len(p): return "%s: neighbour %d of %d has index %s" % (where, j, n, idx[j])
        d = float(np.sum((p[int(idx[j])] - np.asarray(q)) ** 2))
        if abs(d - sq[j]) > 1e-9 * (1 + d): return "%s: reported distance %g, true %g" % (where, sq[j], d)
        if abs(t[j] - sq[j]) > 1e-9 * (1 + t[j]): return "%s: neighbour %d at %g, brute force %g" % (where, j, sq[j], t[j])
    if len(set(int(x) for x in idx[:n])) != n: return "%s: repeated neighbour" % where
    for j in range(n, k):
        if not notfound(idx[j]): return "%s: slot %d beyond the cloud not marked as not found" % (where, j)
    return ""
def kd(i):
    o = Odo(i); p0 = KC[o(len(KC))]; f = FORMS[o(len(FORMS))]; nt = (1, 2, 3)[o(3)]; qf = o(3)
    a, p = form(p0, f); before = snap(a)
    t = sg.KdTree(a, num_threads=nt)
    if not same(snap(a), before): return "KdTree(%s) modified its input" % f
    del a; gc.collect(); junk = [np.full((len(p) + 1, 4), 13.5) for _ in range(8)]
    qs = np.array(list(KQ) + list(p[:4]), dtype=float)
    qa = [qs.copy(), hom(qs), np.asfortranarray(hom(qs))][qf]
    qb = qa.copy()
    for q in qs:
        found, idx, sq = t.nearest_neighbor_search(np.array(q)); step()
        if found != 1: return "nearest_neighbor_search found=%s on %d points" % (found, len(p))
        m = check_knn(p, q, 1, [idx], [sq], "nearest_neighbor_search")
        if m: return m
    bi, bd = t.batch_nearest_neighbor_search(qa, num_threads=nt)
    if len(bi) != len(qs) or len(bd) != len(qs): return "batch_nearest_neighbor_search returned %d entries for %d queries" % (len(bi), len(qs))
    for j, q in enumerate(qs):
        m = check_knn(p, q, 1, [bi[j]], [bd[j]], "batch_nearest_neighbor_search")
        if m: return m
    for k in (1, 2, 3, len(p), len(p) + 2):
        for q in qs:
            idx, sq = t.knn_search(np.array(q), k); step()
            m = check_knn(p, q, k, idx, sq, "knn_search")
            if m: return m
        bi, bd = t.batch_knn_search(qa, k, num_threads=nt); step()
        bi, bd = np.asarray(bi), np.asarray(bd)
        if bi.shape != (len(qs), k) or bd.shape != (len(qs), k): return "batch_knn_search shape %s for %d queries, k=%d" % (bi.shape, len(qs), k)
        for j, q in enumerate(qs):
            m = check_knn(p, q, k, bi[j], bd[j], "batch_knn_search")
            if m: return m
    if not same(qa, qb, 0): return "queries modified"
    state("kd", f, nt, len(p)); return ""
family("kdtree/forms", len(KC) * len(FORMS) * 9, kd)

def kdempty(i):
    o = Odo(i); f = ("n3", "n4", "cloud3")[o(3)]; nt = (1, 2, 4)[o(3)]; k = (1, 2, 5)[o(3)]
    a, p = form(np.empty((0, 3)), f)
    t = sg.KdTree(a, num_threads=nt)
    found, idx, sq = t.nearest_neighbor_search(np.zeros(3))
    if found != 0: return "empty tree: nearest_neighbor_search found %s" % found
    qs = np.array(KQ)
    for j in range(len(qs)):
        idx, sq = t.knn_search(qs[j], k)
        if len(idx) != k or not all(notfound(x) for x in idx): return "empty tree: knn_search %s" % idx
    bi, bd = t.batch_nearest_neighbor_search(qs, num_threads=nt)
    if len(bi) != len(qs) or not all(notfound(x) for x in bi): return "empty tree: batch_nearest_neighbor_search %s" % bi
    bi, bd = t.batch_knn_search(qs, k, num_threads=nt)
    if np.asarray(bi).shape != (len(qs), k) or not all(notfound(x) for x in np.asarray(bi).ravel()): return "empty tree: batch_knn_search"
    bi, bd = t.batch_knn_search(np.empty((0, 3)), k, num_threads=nt)
    if len(bi): return "no queries: entries returned"
    step(8); return ""
family("kdtree/empty", 27, kdempty)

# batch sizes around the thread count and the scheduling chunk
def kdbatch(i):
    o = Odo(i); n = o(19); nt = 1 + o(5); k = 1 + o(3)
    p = generic(23); t = sg.KdTree(p); q = generic(max(n, 1), 0.37)[:n]
    bi, bd = t.batch_knn_search(q, k, num_threads=nt); ni, nd = t.batch_nearest_neighbor_search(q, num_threads=nt); step(2)
    if np.asarray(bi).shape != (n, k) or len(ni) != n: return "batch of %d queries: shapes %s, %d" % (n, np.asarray(bi).shape, len(ni))
    for j in range(n):
        m = check_knn(p, q[j], k, bi[j], bd[j], "batch_knn_search(n=%d,nt=%d)" % (n, nt)) or check_knn(p, q[j], 1, [ni[j]], [nd[j]], "batch_nearest_neighbor_search(n=%d,nt=%d)" % (n, nt))
        if m: return m
    state("batch", n, nt, k); return ""
family("kdtree/batch-sizes", 19 * 5 * 3, kdbatch)

# sizes beyond 8 and 16 bits: many queries, many points, many neighbours
def kdlarge(i):
    o = Odo(i); kind, nt = o(6), (1, 4)[o(2)]
    if kind < 3:
        p = generic(37); q = generic(70001, 0.37, 6.0); k = (1, 5, 40)[kind]
        t = sg.KdTree(p); bi, bd = t.batch_knn_search(q, k, num_threads=nt); bi, bd = np.asarray(bi), np.asarray(bd); step()
        D = np.sort(((q[:, None, :] - p[None, :, :]) ** 2).sum(-1), axis=1); n = min(k, 37)
        if bi.shape != (70001, k) or bd.shape != (70001, k): return "70001 queries: shape %s" % (bi.shape,)
        bad = np.where(np.abs(bd[:, :n] - D[:, :n]).max(axis=1) > 1e-9)[0]
        if len(bad): return "k=%d: query %d of 70001 reports distances %s, brute force %s" % (k, bad[0], bd[bad[0]][:4], D[bad[0]][:4])
        own = ((p[bi[:, :n].astype(np.int64)] - q[:, None, :]) ** 2).sum(-1)
        if np.abs(own - bd[:, :n]).max() > 1e-9: return "k=%d: an index and its distance do not match" % k
        if not all(notfound(x) for x in bi[::997, n:].ravel()): return "slots beyond the cloud not marked"
        ni, nd = t.batch_nearest_neighbor_search(q, num_threads=nt); nd = np.asarray(nd); ni = np.asarray(ni).astype(np.int64)
        if nd.shape != (70001,) or np.abs(nd - D[:, 0]).max() > 1e-9 or np.abs(((p[ni] - q) ** 2).sum(-1) - nd).max() > 1e-9: return "batch_nearest_neighbor_search of 70001 queries differs from brute force"
    else:
        p = generic(70001, 0.0, 30.0); a = (p, hom(p), sg.PointCloud(p))[kind - 3]; t = sg.KdTree(a, num_threads=nt)
        for q, k in (((1.0, 2.0, 0.3), 1), ((15.0, 3.0, 0.2), 500), ((0.4, 12, 20), 5000), (tuple(p[70000]), 3), (tuple(p[65536]), 300)):
            D = ((p - np.array(q)) ** 2).sum(-1); idx, sq = t.knn_search(np.array(q), k); step()
            ref = np.sort(np.partition(D, k)[:k])
            if len(idx) != k or np.abs(np.asarray(sq) - ref).max() > 1e-9: return "70001 points, k=%d: distances differ from brute force" % k
            if np.abs(D[np.asarray(idx).astype(np.int64)] - np.asarray(sq)).max() > 1e-9 or len(set(idx)) != k: return "70001 points, k=%d: indices do not match the distances or repeat" % k
            f, j, d = t.nearest_neighbor_search(np.array(q))
            if f != 1 or abs(d - D.min()) > 1e-9 or abs(D[j] - d) > 1e-9: return "70001 points: nearest neighbour wrong"
    state("large", kind, nt); return ""
family("kdtree/large", 12, kdlarge)

# ---------------------------------------------------------------- invalid shapes
def badarrays():
    out = []
    for r in (0, 1, 2, 3, 4, 5):
        for c in (0, 1, 2, 5, 6): out.append(np.full((r, c), 0.5))
    out += [np.zeros(0), np.zeros(1), np.zeros(3), np.zeros(4), np.zeros((2, 3, 1)), np.zeros((2, 2, 3)), np.float64(3.0), None, "abc", {}, np.array([["a", "b", "c"]])]
    return out
BAD = badarrays()
OK = generic(12)
def calls(b):
    c = sg.PointCloud(OK); t = sg.KdTree(c)
    return [
        ("PointCloud", lambda: sg.PointCloud(b)), ("KdTree", lambda: sg.KdTree(b)), ("KdTree_nt", lambda: sg.KdTree(b, num_threads=2)),
        ("voxelgrid", lambda: sg.voxelgrid_sampling(b, 0.5)), ("voxelgrid_nt", lambda: sg.voxelgrid_sampling(b, 0.5, num_threads=2)),
        ("preprocess", lambda: sg.preprocess_points(b)), ("preprocess_nt", lambda: sg.preprocess_points(b, num_threads=2)),
        ("batch_nn", lambda: t.batch_nearest_neighbor_search(b)), ("batch_knn", lambda: t.batch_knn_search(b, 2)), ("batch_knn_nt", lambda: t.batch_knn_search(b, 2, num_threads=3)),
        ("align_t", lambda: sg.align(b, OK)), ("align_s", lambda: sg.align(OK, b)), ("align_init", lambda: sg.align(OK, OK, b)), ("align_cloud_init", lambda: sg.align(c, c, t, b)),
        ("align_c_t", lambda: sg.align(b, c)), ("align_c_s", lambda: sg.align(c, b)), ("align_c_tree", lambda: sg.align(c, c, b if b is not None else "x")),
        ("estimate_n", lambda: sg.estimate_normals(b)), ("estimate_c", lambda: sg.estimate_covariances(b)), ("estimate_nc", lambda: sg.estimate_normals_covariances(b)),
        ("insert", lambda: sg.GaussianVoxelMap(0.5).insert(b)), ("align_vox", lambda: sg.align(sg.GaussianVoxelMap(0.5), b)), ("insert_T", lambda: sg.IncrementalVoxelMap(0.5).insert(c, b)),
        ("factor", lambda: sg.ICPFactor().linearize(b, c, t, np.eye(4), 0, sg.DistanceRejector())), ("factor_tree", lambda: sg.ICPFactor().linearize(c, c, b, np.eye(4), 0, sg.DistanceRejector())),
        ("nn", lambda: t.nearest_neighbor_search(b)), ("knn", lambda: t.knn_search(b, 2)),
    ]
NCALL = 27
def bad(i):
    o = Odo(i); k = o(len(BAD)); b = BAD[k]; name, f = calls(b)[o(NCALL)]
    try: r = f()
    except Exception as e:
        step(); state("bad", name, type(e).__name__); return ""
    step(); state("bad", name, "value")
    arr = None if b is None else np.asarray(b, dtype=object)
    # a 4x4-compatible / 3-vector-compatible argument is valid for these two
    if name in ("nn", "knn") and b is not None and np.asarray(b).size == 3: return ""
    if r is None or isinstance(r, tuple) and all(x is None for x in r): return ""
    if isinstance(r, sg.PointCloud) and r.size() == 0: return ""
    if isinstance(r, sg.RegistrationResult) and not r.converged and same(r.T_target_source, np.eye(4), 0) and r.num_inliers == 0: return ""
    if name in ("batch_nn", "batch_knn", "batch_knn_nt") and len(r[0]) == 0: return ""
    return "%s accepted an array of shape %s and returned %r" % (name, getattr(b, "shape", type(b)), r)
family("invalid-shapes", len(BAD) * NCALL, bad)

# ---------------------------------------------------------------- preprocessing
PC = [generic(n) for n in (1, 2, 4, 5, 6, 11, 25, 60)] + [generic(200, 0.1)]
DRES = (0.05, 0.5, 1.0, 3.0)
def vg(i):
    o = Odo(i); p0 = PC[o(len(PC))]; f = FORMS[o(len(FORMS))]; r = DRES[o(4)]; nt = 1 + o(3)
    a, p = form(p0, f); before = snap(a)
    c = sg.voxelgrid_sampling(a, r, num_threads=nt); step()
    if not same(snap(a), before): return "voxelgrid_sampling modified its input"
    if c is a: return "voxelgrid_sampling returned its input"
    if isinstance(a, sg.PointCloud) and c.size() == a.size(): pass
    ref = sgref.Cloud(p).downsample(r).points()
    if not same(srt(c.points()), srt(ref), 1e-9): return "voxelgrid_sampling(%s, r=%g, nt=%d): %d points, C++ gives %d" % (f, r, nt, c.size(), len(ref))
    if f == "n3":
        d = sg.voxelgrid_sampling(a, downsampling_resolution=r)
        if not same(srt(d.points()), srt(ref), 1e-9): return "default num_threads differs"
    state("vg", f, r, nt, c.size()); return ""
family("voxelgrid/forms", len(PC) * len(FORMS) * 12, vg)

def cov_same(a, b): return len(a) == len(b) and all(same(x, y, 1e-6) for x, y in zip(a, b))
def est(i):
    o = Odo(i); p = PC[o(len(PC))]; which = o(3); k = (1, 4, 5, 6, 10, 20, None)[o(7)]; nt = (1, 2, 3)[o(3)]; tree = o(3); pre = o(2)
    c = sg.PointCloud(p)
    if pre: sg.estimate_normals_covariances(c, num_neighbors=7)
    n0, c0 = c.normals().copy(), np.array(c.covs())
    t = None if tree == 0 else sg.KdTree(c, num_threads=nt) if tree == 1 else sg.KdTree(p)
    fn = (sg.estimate_normals, sg.estimate_covariances, sg.estimate_normals_covariances)[which]
    kw = dict(num_threads=nt)
    if k is not None: kw["num_neighbors"] = k
    fn(c, t, **kw) if tree else fn(c, **kw)
    step()
    ref = sgref.Cloud(p); ref.estimate(which, 20 if k is None else k)
    if not same(c.points(), hom(p), 0): return "points modified"
    w = "estimate(which=%d, k=%s, nt=%d, tree=%d, N=%d)" % (which, k, nt, tree, len(p))
    if which != 1 and not same(c.normals(), ref.normals(), 1e-6): return w + ": normals differ from C++"
    if which != 0 and not cov_same(c.covs(), ref.covs()): return w + ": covariances differ from C++"
    if pre and which == 1 and not same(c.normals(), n0, 0): return w + ": the normals estimated before were changed"
    if pre and which == 0 and not same(np.array(c.covs()), c0, 0): return w + ": the covariances estimated before were changed"
    for j in range(len(p)):
        if which != 1 and not same(c.normal(j), c.normals()[j], 0): return "normal(i) != normals()[i]"
        if which != 0 and not same(c.cov(j), c.covs()[j], 0): return "cov(i) != covs()[i]"
    state("est", which, k, nt, tree, len(p)); return ""
family("estimate", len(PC) * 3 * 7 * 3 * 3 * 2, est)

def prep(i):
    o = Odo(i); p0 = PC[o(len(PC))]; f = FORMS[o(len(FORMS))]; r = (None,) + DRES[:3]; r = r[o(4)]; k = (None, 5, 20)[o(3)]; nt = (1, 2, 3)[o(3)]
    a, p = form(p0, f); before = snap(a); kw = dict(num_threads=nt)
    if r is not None: kw["downsampling_resolution"] = r
    if k is not None: kw["num_neighbors"] = k
    c, t = sg.preprocess_points(a, **kw); step()
    if not same(snap(a), before): return "preprocess_points modified its input"
    ref = sgref.Cloud(p).downsample(0.25 if r is None else r); ref.estimate(2, 10 if k is None else k)
    cp, rp = c.points(), ref.points()
    w = "preprocess_points(%s, r=%s, k=%s, nt=%d, N=%d)" % (f, r, k, nt, len(p))
    if not same(srt(cp), srt(rp), 1e-9): return w + ": points differ from C++ (%d vs %d)" % (len(cp), len(rp))
    if f != "int":  # integer grids have ties, the neighbourhood is then not unique
        cn, rn, cc, rc = c.normals(), ref.normals(), c.covs(), ref.covs()
        for j in range(len(cp)):
            q = int(np.argmin(np.sum((rp - cp[j]) ** 2, axis=1)))
            if not same(cn[j], rn[q], 1e-6): return w + ": normal %d differs from C++" % j
            if not same(cc[j], rc[q], 1e-6): return w + ": covariance %d differs from C++" % j
    del a, c; gc.collect(); junk = [np.full((len(p) + 1, 4), 3.25) for _ in range(8)]
    for q in (cp[0, :3], np.array([0.1, 0.2, 0.3])):
        idx, sq = t.knn_search(q, 3)
        m = check_knn(cp[:, :3], q, 3, idx, sq, w + " tree")
        if m: return m
    state("prep", f, r, k, nt, len(cp)); return ""
family("preprocess/forms", len(PC) * len(FORMS) * 36, prep)
def prepempty(i):
    o = Odo(i); f = ("n3", "n4", "cloud3")[o(3)]; nt = 1 + o(3); w = o(3)
    a, p = form(np.empty((0, 3)), f)
    if w == 0:
        c, t = sg.preprocess_points(a, num_threads=nt)
        if c is not None and c.size(): return "points out of nothing"
    elif w == 1:
        c = sg.voxelgrid_sampling(a, 0.5, num_threads=nt)
        if c is not None and c.size(): return "points out of nothing"
    else:
        c = sg.PointCloud(np.empty((0, 3)))
        for fn in (sg.estimate_normals, sg.estimate_covariances, sg.estimate_normals_covariances): fn(c, num_threads=nt)
        if c.size(): return "points out of nothing"
    step(); return ""
family("preprocess/empty", 27, prepempty)

# ---------------------------------------------------------------- voxel maps: all operation histories
def T(rx=0, ry=0, rz=0, x=0, y=0, z=0):
    cx, sx, cy, sy, cz, sz = np.cos(rx), np.sin(rx), np.cos(ry), np.sin(ry), np.cos(rz), np.sin(rz)
    R = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) @ np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    M = np.eye(4); M[:3, :3] = R; M[:3, 3] = (x, y, z); return M
MAPS = ["IncrementalVoxelMap", "IncrementalVoxelMapNormal", "IncrementalVoxelMapCov", "IncrementalVoxelMapNormalCov", "GaussianVoxelMap"]
MC = [generic(14), generic(9, 0.21) - 2.0, lattice(255) * 0.3]
MT = [None, T(0.3, -0.2, 0.5, 1, 2, -3)]
_mc = []
def mclouds():
    if not _mc:
        for p in MC:
            c = sg.PointCloud(p); r = sgref.Cloud(p); r.estimate(2, 6)
            sg.estimate_normals_covariances(c, num_neighbors=6)
            for j in range(len(p)): r.set(j, c.normal(j), c.cov(j))
            _mc.append((c, r))
        c = sg.PointCloud(np.empty((0, 3))); _mc.append((c, sgref.Cloud(np.empty((0, 3)))))
    return _mc
MOPS = [(c, t) for c in range(4) for t in range(2)] + ["lru22", "lru11", "lrudef"]
DEPTH = 4 if TH else 3
def vmap(i):
    o = Odo(i); name = MAPS[o(5)]; leaf = (0.5, 1.7)[o(2)]; ops = [MOPS[o(len(MOPS))] for _ in range(DEPTH)]
    v, r = getattr(sg, name)(leaf), getattr(sgref, name)(leaf)
    for k, op in enumerate(ops):
        if op == "lru22": v.set_lru(2, 2); r.set_lru(2, 2)
        elif op == "lru11": v.set_lru(horizon=1, clear_cycle=1); r.set_lru(1, 1)
        elif op == "lrudef": v.set_lru(); r.set_lru(100, 10)
        else:
            c, q = mclouds()[op[0]]; M = MT[op[1]]
            v.insert(c) if M is None else v.insert(c, M)
            r.insert(q, np.eye(4) if M is None else M)
        step()
        w = "%s(%g) after %s" % (name, leaf, ops[:k + 1])
        if v.size() != r.size() or len(v) != r.size(): return w + ": size %d, C++ %d" % (v.size(), r.size())
        if name == "GaussianVoxelMap" and r.size() == 0: pass
        if not same(v.voxel_points(), r.points()): return w + ": voxel_points differ from C++"
        if hasattr(v, "voxel_normals"):
            if not same(v.voxel_normals(), r.normals()): return w + ": voxel_normals differ from C++"
        elif "Normal" in name: return "no voxel_normals"
        if hasattr(v, "voxel_covs"):
            a, b = v.voxel_covs(), r.covs()
            if len(a) != len(b): return w + ": %d covariances, C++ %d" % (len(a), len(b))
            if len(b) and np.asarray(a).shape != (len(b), 4, 4): return w + ": voxel_covs shape %s, documented (N, 4, 4)" % (np.asarray(a).shape,)
            if any(not same(x, y) for x, y in zip(a, b)): return w + ": voxel_covs differ from C++"
        elif "Cov" in name or "Gauss" in name: return "no voxel_covs"
        if name not in repr(v) or str(r.size()) not in repr(v): return "repr"
        state("map", name, leaf, v.size(), round(float(np.sum(v.voxel_points())), 6))
    return ""
LH, LC = [0, 1, 2, 3, 4, 7, 100, 2 ** 31, 2 ** 32, 2 ** 40], [1, 2, 3, 5, 10, 2 ** 32 + 2]
def vlru(i):
    o = Odo(i); name = MAPS[o(5)]; h, cyc, at, kw = LH[o(len(LH))], LC[o(len(LC))], (0, 5)[o(2)], o(2)
    v, r = getattr(sg, name)(0.5), getattr(sgref, name)(0.5)
    for k in range(21):
        if k == at:
            r.set_lru(h, cyc)
            v.set_lru(clear_cycle=cyc, horizon=h) if kw else v.set_lru(h, cyc)
        c, q = mclouds()[2 if k in (0, 9) else 1 if k % 6 == 1 else 0]
        v.insert(c); r.insert(q, np.eye(4)); step()
        if v.size() != r.size() or not same(v.voxel_points(), r.points()): return "%s with set_lru(%d, %d) at insertion %d: %d voxels after insertion %d, C++ %d" % (name, h, cyc, at, v.size(), k + 1, r.size())
    state("lru", name, h, cyc, at, v.size()); return ""
family("voxelmap/lru", 5 * len(LH) * len(LC) * 4, vlru)
VA, VT = [0, 1e-3, 0.05, -0.3, 1.5, np.pi], [(0, 0, 0), (0.01, 0, 0), (0, -0.2, 0.1), (0, 0, 5), (-300, 20, 1)]
def vpose(i):
    o = Odo(i); name = MAPS[o(5)]; ax, a, t, a2, two = o(3), VA[o(len(VA))], VT[o(len(VT))], VA[o(len(VA))], o(2)
    v, r = getattr(sg, name)(0.5), getattr(sgref, name)(0.5)
    M = T(*[a if k == ax else 0 for k in range(3)], *t) @ T(*[a2 if k == (ax + 1) % 3 else 0 for k in range(3)])
    c, q = mclouds()[0]
    if two: v.insert(c); r.insert(q, np.eye(4))
    v.insert(points=c, T=M); r.insert(q, M); step()
    if v.size() != r.size() or not same(v.voxel_points(), r.points()): return "%s: insertion with T=%s gives %d voxels, C++ %d, or other points" % (name, M.tolist(), v.size(), r.size())
    if hasattr(v, "voxel_normals") and not same(v.voxel_normals(), r.normals()): return "%s: normals after an insertion with T=%s differ from C++" % (name, M.tolist())
    if hasattr(v, "voxel_covs") and any(not same(x, y) for x, y in zip(v.voxel_covs(), r.covs())): return "%s: covariances after an insertion with T=%s differ from C++" % (name, M.tolist())
    state("vpose", name, ax, a, t, a2, two); return ""
family("voxelmap/poses", 5 * 3 * len(VA) ** 2 * len(VT) * 2, vpose)
family("voxelmap/histories", 10 * len(MOPS) ** DEPTH, vmap)

# ---------------------------------------------------------------- factors
TG, SR = generic(24), None
POSES = [np.eye(4), T(0.02, -0.03, 0.01, 0.1, -0.05, 0.08), T(0.5, 0.2, -0.3, 1, -1, 0.5), T(3.0, 0, 0, 50, 0, 0), T(-0.1, 0.2, 0.05, -700, 300, 20), T(0, 0, np.pi, 3, 3, 0)]
_fc = []
def fclouds():
    if not _fc:
        a = generic(24); b = (generic(24)[::2] - np.array([0.03, -0.02, 0.05])) @ T(0.01, 0.02, -0.03)[:3, :3]
        for p in (a, b):
            c, r = sg.PointCloud(p), sgref.Cloud(p)
            sg.estimate_normals_covariances(c, num_neighbors=6)
            for j in range(len(p)): r.set(j, c.normal(j), c.cov(j))
            _fc.append((c, r))
        _fc.append(sg.KdTree(_fc[0][0]))
    return _fc
FACT = [("ICPFactor", "lin0"), ("PointToPlaneICPFactor", "lin1"), ("GICPFactor", "lin2")]
def factor(i):
    o = Odo(i); (pn, rn) = FACT[o(3)]; P = POSES[o(6)]; idx = o(12); md = (None, 0, 1e-3, 0.05, 0.5, 3.0, 70.0, 760.0, 1e4)[o(9)]
    (tc, tr), (sc, sr), tree = fclouds()
    if not hasattr(sg, pn): pn = {"PointToPlaneICPFactor": "PlaneICPFactor"}.get(pn, pn)
    rej = sg.DistanceRejector()
    if md is not None: rej.set_max_distance(md)
    f = getattr(sg, pn)()
    for rep in range(2):  # a factor object may be reused
        ok, H, b, e = f.linearize(tc, sc, tree, P, idx, rej); step()
        ok2, H2, b2, e2 = getattr(sgref, rn)(tr, sr, P, idx, -1 if md is None else md)
        if bool(ok) != bool(ok2): return "%s: success %s, C++ %s" % (pn, ok, ok2)
        H, b = np.asarray(H), np.asarray(b)
        if H.shape != (6, 6) or b.shape != (6,): return "shape of H, b"
        if not ok and (H.any() or b.any() or e): return "rejected but non-zero"
        if ok and not (same(H, H2, 1e-9) and same(b, b2, 1e-9) and same(e, e2, 1e-9)): return "%s: H/b/e differ from C++" % pn
    state("factor", pn, idx, md, bool(ok)); return ""
family("factors", 3 * 6 * 12 * 9, factor)

# ---------------------------------------------------------------- align
TYPES = ["ICP", "PLANE_ICP", "GICP", "VGICP"]
def rcmp(r, ref, w):
    Tr, cv, it, inl, H, b, e = ref
    if not same(r.T_target_source, Tr, 1e-6): return w + ": pose differs from C++\n%s\n%s" % (r.T_target_source, Tr)
    if bool(r.converged) != bool(cv) or int(r.iterations) != int(it) or int(r.num_inliers) != int(inl): return w + ": converged/iterations/num_inliers %s, C++ %s" % ((r.converged, r.iterations, r.num_inliers), (cv, it, inl))
    sc = max(1.0, float(np.max(np.abs(H))))
    if np.asarray(r.H).shape != (6, 6) or np.max(np.abs(np.asarray(r.H) - H)) > 1e-6 * sc: return w + ": H differs from C++"
    if np.asarray(r.b).shape != (6,) or np.max(np.abs(np.asarray(r.b) - b)) > 1e-6 * sc: return w + ": b differs from C++"
    if abs(r.error - e) > 1e-6 * max(1.0, abs(e)): return w + ": error differs from C++"
    rp = repr(r)
    if "iterations=%d" % it not in rp or "num_inliers=%d" % inl not in rp: return "repr"
    return ""
AT = generic(150, 0.0, 3.0); AS = (generic(150, 0.0, 3.0)[::2] - np.array([0.06, -0.04, 0.05])) @ T(0.02, -0.01, 0.03)[:3, :3]
INIT = [None, T(0.01, 0.0, 0.01, 0.03, 0, 0.02), T(0, 0, 0.2, 0.3, -0.2, 0.1)]
RAW = [dict(), dict(voxel_resolution=0.4), dict(downsampling_resolution=0.6), dict(max_correspondence_distance=0.08), dict(max_iterations=1), dict(max_iterations=3), dict(rotation_epsilon=0.5), dict(translation_epsilon=0.5), dict(rotation_epsilon=0.5, translation_epsilon=0.5), dict(rotation_epsilon=2e-6, translation_epsilon=2e-6), dict(voxel_resolution=2.5, downsampling_resolution=0.1, max_correspondence_distance=2.0)]
def refraw(ty, t, s, init, kw):
    return sgref.align_raw(t, s, np.eye(4) if init is None else init, TYPES.index(ty), kw.get("voxel_resolution", 1.0), kw.get("downsampling_resolution", 0.25), kw.get("max_correspondence_distance", 1.0), kw.get("max_iterations", 20), kw.get("rotation_epsilon", 0.1 * np.pi / 180), kw.get("translation_epsilon", 1e-3))
def alraw(i):
    o = Odo(i); ty = (None,) + tuple(TYPES); ty = ty[o(5)]; kw = dict(RAW[o(len(RAW))]); init = INIT[o(3)]; nt = (None, 1, 2, 3)[o(4)]; ff = o(4)
    ft, fs = (("n3", "n3"), ("n4", "n3"), ("n3F", "n4F"), ("slice", "f32"))[ff]
    a, ap = form(AT, ft); s, sp = form(AS, fs); b1, b2 = snap(a), snap(s)
    k2 = dict(kw)
    if nt is not None: k2["num_threads"] = nt
    if init is not None: k2["init_T_target_source"] = init
    if ty is not None: k2["registration_type"] = ty
    r = sg.align(a, s, **k2); step()
    if not (same(snap(a), b1, 0) and same(snap(s), b2, 0)): return "align modified its input"
    w = "align(%s,%s,%s)" % (ft, fs, {k: (v if k != "init_T_target_source" else "T") for k, v in k2.items()})
    m = rcmp(r, refraw(ty or "GICP", ap, sp, init, kw), w)
    if not m: state("raw", ty, sorted(kw.items()), r.iterations, r.num_inliers)
    return m
family("align/arrays", 5 * len(RAW) * 3 * 4 * 4, alraw)
PRE = [dict(), dict(max_correspondence_distance=0.08), dict(max_iterations=1), dict(max_iterations=3), dict(rotation_epsilon=0.5), dict(translation_epsilon=0.5), dict(rotation_epsilon=0.5, translation_epsilon=0.5), dict(rotation_epsilon=2e-6, translation_epsilon=2e-6)]
_al = []
def aclouds():
    if not _al:
        for p in (AT, AS):
            c, r = sg.PointCloud(p), sgref.Cloud(p)
            sg.estimate_normals_covariances(c, num_neighbors=10)
            for j in range(len(p)): r.set(j, c.normal(j), c.cov(j))
            _al.append((c, r))
    return _al
def alpre(i):
    o = Odo(i); ty = (None, "ICP", "PLANE_ICP", "GICP", "VOX")[o(5)]; kw = dict(PRE[o(len(PRE))]); init = INIT[o(3)]; nt = (None, 1, 2, 3)[o(4)]; tree = o(3)
    (tc, tr), (sc, sr) = aclouds()
    k2 = dict(kw)
    if nt is not None: k2["num_threads"] = nt
    if init is not None: k2["init_T_target_source"] = init
    I = np.eye(4) if init is None else init
    a = (kw.get("max_correspondence_distance", 1.0), kw.get("max_iterations", 20), kw.get("rotation_epsilon", 0.1 * np.pi / 180), kw.get("translation_epsilon", 1e-3))
    w = "align(%s, %s, tree=%d)" % (ty, {k: (v if k != "init_T_target_source" else "T") for k, v in k2.items()}, tree)
    before = [tc.points().copy(), sc.points().copy(), np.array(tc.covs()), np.array(sc.covs()), tc.normals().copy()]
    if ty == "VOX":
        leaf = (0.3, 0.7, 1.5)[tree]
        v, q = sg.GaussianVoxelMap(leaf), sgref.GaussianVoxelMap(leaf)
        v.insert(tc); q.insert(tr, np.eye(4))
        m = rcmp(sg.align(v, sc, **k2), sgref.align_vox(q, sr, I, *a), w)
    else:
        if ty: k2["registration_type"] = ty
        if tree == 1: k2["target_tree"] = sg.KdTree(tc)
        if tree == 2: k2["target_tree"] = sg.KdTree(AT, num_threads=2)
        m = rcmp(sg.align(tc, sc, **k2), sgref.align_pre(tr, sr, I, TYPES.index(ty or "GICP"), *a), w)
    step()
    after = [tc.points(), sc.points(), np.array(tc.covs()), np.array(sc.covs()), tc.normals()]
    if not m and any(not same(x, y, 0) for x, y in zip(before, after)): m = w + " modified its inputs"
    if not m: state("pre", ty, sorted(kw.items()), nt, tree)
    return m
family("align/clouds", 5 * len(PRE) * 3 * 4 * 3, alpre)
def albad(i):
    ty = ("", "icp", "VGICP", "NDT", None, 3)[i % 6]
    (tc, tr), (sc, sr) = aclouds()
    try: r = sg.align(tc, sc, registration_type=ty) if i < 6 else sg.align(AT, AS, registration_type=ty if ty != "VGICP" else "GICP_X")
    except Exception: return ""
    step()
    return "" if not r.converged and same(r.T_target_source, np.eye(4), 0) else "invalid registration type %r accepted" % ty
family("align/invalid-type", 12, albad)

# ---------------------------------------------------------------- read_ply (intact files, xyz + intensity)
def ply(i):
    o = Odo(i); n = (0, 1, 2, 3, 4, 5, 40, 300, 70001)[o(9)]; kind, props = o(6), 3 + o(2)
    p = (generic(max(n, 1))[:n]).astype(np.float32)
    if kind == 1: p[-1:] = 0                                  # a last point at the origin
    elif kind == 2: p[:] = 0
    elif kind == 3: p[::2] = p[:1]                            # repeated points
    elif kind == 4: p *= np.float32(1e20)
    elif kind == 5: p[::3] = -0.0; p[1::3] = np.float32(1e-42)  # signed zeros, denormals
    d = tempfile.mkdtemp(dir=OPT.out or None); f = os.path.join(d, "a.ply")
    try:
        with open(f, "wb") as h:
            h.write(b"ply\nformat binary_little_endian 1.0\nelement vertex %d\nproperty float x\nproperty float y\nproperty float z\n%send_header\n" % (n, b"property float intensity\n" if props == 4 else b""))
            q = np.full((n, props), 7.0, dtype=np.float32); q[:, :3] = p; h.write(q.tobytes())
        c = sg.read_ply(f); step()
        w = "read_ply (%d points, %d properties, content %d): " % (n, props, kind)
        if c.size() != n: return w + "%d points" % c.size()
        if n and not same(c.points(), hom(p.astype(float)), 0): return w + "wrong points"
    finally:
        if os.path.exists(f): os.remove(f)
        os.rmdir(d)
    state("ply", n, kind, props); return ""
family("read_ply", 9 * 6 * 2, ply)

# ---------------------------------------------------------------- large arrays (beyond 16-bit indices)
def large(i):
    o = Odo(i); op = o(6); f = ("n3", "n4", "f32")[o(3)]; nt = (1, 3)[o(2)]; n = 70001
    p0 = generic(n, 0.0, 40.0); a, p = form(p0, f); step()
    if op == 0:
        c = sg.PointCloud(a)
        return "" if c.size() == n and same(c.points(), hom(p), 0) else "cloud of %d points (%s) differs from the array" % (n, f)
    if op == 1:
        if len(np.unique(p, axis=0)) != n: return ""
        t = sg.KdTree(a, num_threads=nt); del a; gc.collect()
        idx, sq = t.batch_nearest_neighbor_search(p, num_threads=nt)
        if not np.array_equal(np.asarray(idx, dtype=np.int64), np.arange(n)) or np.any(np.asarray(sq) != 0): return "batch_nearest_neighbor_search (%s, nt=%d): a point of %d does not find itself" % (f, nt, n)
        idx, sq = t.batch_knn_search(p, 2, num_threads=nt); idx, sq = np.asarray(idx, dtype=np.int64), np.asarray(sq)
        if idx.shape != (n, 2) or not np.array_equal(idx[:, 0], np.arange(n)): return "batch_knn_search (%s, nt=%d): a point of %d does not find itself" % (f, nt, n)
        for j in list(range(0, n, 1750)) + [65535, 65536, n - 1]:
            d = np.sum((p - p[j]) ** 2, axis=1); d[j] = np.inf
            if abs(np.min(d) - sq[j, 1]) > 1e-9 * (1 + sq[j, 1]) or abs(d[idx[j, 1]] - sq[j, 1]) > 1e-9 * (1 + sq[j, 1]): return "batch_knn_search: second neighbour of %d" % j
        return ""
    if op == 2:
        if nt > 1: return ""  # the parallel sampler may split voxels
        c = sg.voxelgrid_sampling(a, 0.5, num_threads=nt); r = sgref.Cloud(p).downsample(0.5).points()
        return "" if same(srt(c.points()), srt(r), 1e-9) else "voxelgrid_sampling of %d points (%s): %d points, C++ gives %d" % (n, f, c.size(), len(r))
    if op == 3:
        c = sg.PointCloud(a); sg.estimate_normals_covariances(c, num_neighbors=8, num_threads=nt); r = sgref.Cloud(p); r.estimate(2, 8)
        if not same(c.normals(), r.normals(), 1e-6): return "normals of %d points (%s, nt=%d) differ from C++" % (n, f, nt)
        return "" if same(np.array(c.covs()), np.array(r.covs()), 1e-6) else "covariances of %d points (%s, nt=%d) differ from C++" % (n, f, nt)
    if op == 4:
        c = sg.PointCloud(a); r = sgref.Cloud(p)
        for name in MAPS:
            if nt > 1 and name != "IncrementalVoxelMap": continue
            v, q = getattr(sg, name)(0.4 if nt == 1 else 8.0), getattr(sgref, name)(0.4 if nt == 1 else 8.0)
            if name in ("IncrementalVoxelMap",) or nt == 1:
                v.insert(c, MT[1]); q.insert(r, MT[1])
                if v.size() != q.size() or not same(v.voxel_points(), q.points()): return "%s of %d points (%s) differs from C++" % (name, n, f)
        return ""
    ref = refraw("GICP", p, p[::3] + np.array([0.02, -0.01, 0.03]), None, dict(downsampling_resolution=0.3))
    s = p[::3] + np.array([0.02, -0.01, 0.03])
    if nt > 1: return ""
    return rcmp(sg.align(a, s, downsampling_resolution=0.3, num_threads=nt), ref, "align of %d points (%s)" % (n, f))
family("large", 36, large)

sys.exit(pyseq.main("C18"))
