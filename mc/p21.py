"""P21: multi-level scale separation (mrCOSTS)."""
import itertools
import os
import shutil
import tempfile
import warnings
import copy
import numpy as np
from .p20 import QUIET, Script, bands, data, expected_windows, gauss, trans

PROPERTY = "P21"
TECHNIQUE = "exhaustive enumeration of level counts x windows x steps x ranks x band counts on the real code against levels run one by one; clusterings are choice points of the explorer: every pattern of windows without fast frequencies, every assignment of the distinct frequencies to global classes, every order of the saved files"
ASSUMPTIONS = ["each level is judged against a COSTS run on its own (COSTS itself is judged by P20)",
               "exact classes are claimed where the windows of the first level are at least as dense as those of every other level: each window's nearest base time has that window as its own nearest",
               "files are read back for increasing windows (file names and the order after reading are by window)"]
DESIGN = """
Kind `lev`: for every combination of levels the fit is replayed with one COSTS per level, each fed the low-frequency part of the one before. Kind
`glob`: for every pattern of windows with and without fast frequencies and every assignment of the distinct frequencies to global classes (scripted
clustering, labels in every order) the class of every level, window and mode, every global band against sums built window by window, the background
and the global reconstruction are judged, before and after a sweep. Kind `km`: the same with the library's clusterings, and the sweep's scores.
Kind `file`: all levels are written to a scratch directory and read back in every file order.
"""
CHUNK = 2


def space(tier):
    q = tier == "quick"
    lv = [((6,), (2,)), ((5, 9), (2, 3)), ((6, 10), (2, 4)), ((5, 12), (2, 6)), ((4, 6, 10), (1, 3, 4)), ((10, 6), (3, 2)), ((6, 10, 14), (2, 2, 5)), ((7, 7), (3, 4)), ((6, 17), (2, 1)), ((5, 8, 17), (2, 4, 17))]
    return {"levels": lv, "record": [17, 20] if q else [16, 17, 18, 19, 20, 21, 24], "ranks": ["2", "2/4", "4/2", "0", "mixed"], "svd": ["global", "local", "default", "mixed"],
            "bands": ["2", "2/3", "sweep", "nan"], "transform": [None, "absolute", "log10", "square_frequencies", "period"]}


def bounds(tier):
    return space(tier)


def cases(tier):
    sp = space(tier)
    for (w, s), m, r, g, b, tm in itertools.product(sp["levels"], sp["record"], sp["ranks"], sp["svd"], sp["bands"], sp["transform"]):
        if tier == "quick" and (sp["ranks"].index(r) + sp["svd"].index(g) + sp["bands"].index(b) + sp["transform"].index(tm) + m) % 10:
            continue
        if tier == "thorough" and (sp["ranks"].index(r) + sp["svd"].index(g) + sp["bands"].index(b) + sp["transform"].index(tm) + m) % 7:
            continue
        yield dict(kind="lev", w=list(w), s=list(s), m=m, r=r, g=g, b=b, tm=tm)
    for (w, s), m, r, tm, k in itertools.product(sp["levels"], sp["record"][:1] if tier == "quick" else sp["record"][:3], ["2", "2/4", "4/2"],
                                                 [None, "absolute", "period", "log10", "square_frequencies"], [1, 2, 3]):
        if tier == "quick" and len(w) == 3 and r == "2/4":
            continue
        if tier == "quick" and tm in ("absolute", "log10") or tier == "quick" and (r != "2") and k == 3:
            continue
        yield dict(kind="glob", w=list(w), s=list(s), m=m, r=r, tm=tm, k=k, full=tier == "thorough")
    for (w, s), m, r, tm, k in itertools.product(sp["levels"], sp["record"], ["2", "2/4", "0"], [None, "absolute", "log10", "period", "square_frequencies"], [2, 3]):
        if tier == "quick" and m == 20:
            continue
        yield dict(kind="km", w=list(w), s=list(s), m=m, r=r, tm=tm, k=k)
    for (w, s), m, r, tm in itertools.product([l for l in sp["levels"] if list(l[0]) == sorted(set(l[0]))], sp["record"][:2], ["2", "2/4", "0"], [None, "log10", "square_frequencies"]):
        for perm in itertools.permutations(range(len(w))):
            for pk in (range(len(KW)) if perm == tuple(range(len(w))) and tm is None else [0]):
                yield dict(kind="file", w=list(w), s=list(s), m=m, r=r, tm=tm, perm=list(perm), pk=pk)
    yield dict(kind="err")


KW = [QUIET, dict(QUIET, eig_constraints={"stable", "conjugate_pairs"}), dict(QUIET, eig_constraints=None), dict(QUIET, eig_constraints={"imag"}, use_proj=True),
      {"varpro_opts_dict": {"maxiter": 3, "tol": 1e-5}, "eig_sort": "real"}]


def ranks(case):
    return [min(r, 2) if w < 6 else r for r, w in zip(ranks0(case), case["w"])]


def ranks0(case):
    L = len(case["w"])
    return {"2": [2] * L, "2/4": ([2, 4, 2])[:L], "4/2": [4, 2, 4][:L], "0": [0] * L, "mixed": [4, 0, 0.9][:L], None: [2] * L}[case["r"]]


def make(case, **kw):
    from pydmd.mrcosts import mrCOSTS
    L = len(case["w"])
    kw.setdefault("n_components_array", [2] * L)
    return mrCOSTS(window_length_array=list(case["w"]), step_size_array=list(case["s"]), svd_rank_array=ranks(case), transform_method=case["tm"],
                   pydmd_kwargs=dict(KW[case.get("pk", 0)]), **kw)


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["kind"]](case, rec)


def levels(case, X, t, gs, nb, tm, recon):
    """One COSTS per level, by hand; None when a level cannot be clustered."""
    from pydmd.costs import COSTS
    out, x = [], X
    for l, (w, s, r) in enumerate(zip(case["w"], case["s"], ranks(case))):
        c = COSTS(svd_rank=r, global_svd=gs[l], pydmd_kwargs=dict(QUIET))
        c.fit(x, t, w, s)
        k = nb[l]
        if k is None or np.isnan(k):
            k = c.cluster_hyperparameter_sweep(transform_method=tm)
        c.cluster_omega(int(k), transform_method=tm)
        out.append((c, x))
        x = c.scale_separation(recon)[0]
    return out


def _lev(case, rec):
    X, t = data(4, case["m"], 0, "late")
    L = len(case["w"])
    gs = {"global": [True] * L, "local": [False] * L, "default": [True] * L, "mixed": [True, False, True][:L]}[case["g"]]
    nb = {"2": [2] * L, "2/3": [2, 3, 2][:L], "sweep": [None] * L, "nan": [2, np.nan, np.nan][:L] if L > 1 else [np.nan]}[case["b"]]
    recon = {"include_means": False} if case["g"] == "mixed" else None
    try:
        want = levels(case, X, t, gs, nb, case["tm"], recon)
    except Exception:
        return          # a level cannot be fitted or clustered on its own either
    kw = {}
    if case["g"] != "default":
        kw["global_svd_array"] = gs
    kw["n_components_array"] = None if case["b"] == "sweep" else nb
    if case["b"] == "sweep":
        kw["cluster_sweep"] = True
    if recon:
        kw["costs_recon_kwargs"] = recon
    rec.at("fit")
    d = make(case, **kw)
    d.fit(X, t[0] if case["m"] % 2 else t, verbose=False)
    rec.need(len(d.costs_array) == L and d.n_decompositions == L, "number of levels", got=len(d.costs_array))
    for l, (c, x) in enumerate(want):
        g = d.costs_array[l]
        rec.at(f"level {l}")
        rec.check(g.window_length == case["w"][l] and g.step_size == case["s"][l], "levels are not in the supplied order", got=g.window_length)
        rec.close(g.window_means_array, c.window_means_array, "a level does not decompose the low-frequency part of the one before (means)", tol=1e-9)
        sc = max(1, np.abs(c.amplitudes_array).max())
        rec.close(g.global_reconstruction(), c.global_reconstruction(), "a level does not decompose the low-frequency part of the one before", tol=1e-8, scale=sc)
        rec.check(g.n_components == c.n_components and d.n_components_array[l] == c.n_components, "number of bands of a level", got=g.n_components, want=c.n_components)
        for a, gl in ((d.ragged_omega_array, c.omega_array), (d.ragged_modes_array, c.modes_array), (d.ragged_amplitudes_array, c.amplitudes_array)):
            rec.close(a[l], gl, "results of a level", tol=1e-7)
        rec.check(np.array_equal(g.omega_classes, c.omega_classes), "classes of a level")
        rec.close(g.cluster_centroids, c.cluster_centroids, "centroids of a level", tol=1e-8)
    rec.close(d.get_background(), want[-1][0].scale_reconstruction()[0], "the background is not the lowest band of the last level", tol=1e-8)
    rec.state(case, d.ragged_omega_array)


def dense(case, t):
    """True / False / None (too close to call): is the first level dense enough for every other?"""
    C = [np.array([t[0, i].mean() for i in expected_windows(case["m"], w, s)]) for w, s in zip(case["w"], case["s"])]
    base = C[0]
    eps = 1e-6
    for c in C[1:]:
        delta = c[1] - c[0] if len(c) > 1 else np.inf
        for k, x in enumerate(c):
            db = np.abs(base - x)
            o = np.sort(db)
            if len(o) > 1 and o[1] - o[0] < eps:
                # tie: either neighbour may be taken, both must qualify
                near = base[db < o[0] + eps]
            else:
                near = [base[np.argmin(db)]]
            for b in near:
                dc = np.abs(c - b)
                o = np.sort(dc)
                if len(o) > 1 and (o[1] - o[0] < eps or np.argmin(dc) != k):
                    return False
                if b < c[0] - delta / 2 + eps or b > c[-1] + delta / 2 - eps:
                    return False
    return True


def judge(case, rec, d, X, t, klass, k):
    """klass: rounded transformed value -> global class."""
    tm = case["tm"]
    rag = d.ragged_omega_classes
    sc = max([np.abs(X).max()] + [np.abs(c.amplitudes_array).sum(axis=1).max() for c in d.costs_array])
    full = d.global_scale_reconstruction()
    rec.need(full.shape == (len(case["w"]), k) + X.shape, "shape of the global bands", got=full.shape)
    for l, c in enumerate(d.costs_array):
        v = trans(np.array(c.omega_array), None if tm == "log10" else tm)
        want = np.full(c.omega_array.shape, -1)
        for i in np.ndindex(*want.shape):
            if c.omega_classes[i] > 0:
                want[i] = klass(v[i])
        r = want.shape[1]
        got = np.asarray(rag[l])
        rec.need(got.shape[0] == want.shape[0] and got.shape[1] >= r, "shape of the global classes of a level", got=got.shape, want=want.shape)
        if not rec.check(np.array_equal(got[:, :r], want) and (got[:, r:] == -1).all(), "a window or mode does not have its own global class", level=l, got=got, want=want):
            continue
        W = expected_windows(case["m"], c.window_length, c.step_size)
        rec.close(full[l], bands(c, X, t, W, want, k, False), "a global band is not the weighted average of its windows", tol=1e-9, scale=sc)
    back = bands(d.costs_array[-1], X, t, expected_windows(case["m"], case["w"][-1], case["s"][-1]), d.costs_array[-1].omega_classes, d.costs_array[-1].n_components, False)[0]
    g = gauss(case["w"][-1])
    mean, wt = np.zeros(X.shape), np.zeros(X.shape[1])
    for a, idx in enumerate(expected_windows(case["m"], case["w"][-1], case["s"][-1])):
        mean[:, idx] += d.costs_array[-1].window_means_array[a][:, None] * g
        wt[idx] += g
    back = back + mean / wt
    rec.close(d.get_background(), back, "the background is not the lowest band of the last level", tol=1e-9, scale=sc)
    G = d.global_reconstruction()
    rec.close(G, full.sum(axis=(0, 1)) + back, "bands of all levels and background do not add up to the global reconstruction", tol=1e-9, scale=sc)
    return full


class ByValue:
    """A clustering method: the label of a value is the explorer's choice."""
    table = None        # sorted list of distinct values
    labels = None
    centers = None

    def __init__(self, n_clusters, **kw):
        pass

    def fit_predict(self, x):
        self.cluster_centers_ = np.array(ByValue.centers, float)[:, None]
        x = np.asarray(x).ravel()
        out = np.empty(len(x), int)
        for i, v in enumerate(x):
            j = int(np.argmin(np.abs(ByValue.table - v)))
            if abs(ByValue.table[j] - v) > 2e-7 * max(1, abs(v)):
                raise LookupError("a frequency which is not in any fast band")
            out[i] = ByValue.labels[j]
        return out


def patterns(d, full):
    """Local class patterns: for every level, which windows have fast frequencies."""
    sizes = [c.omega_array.shape[0] for c in d.costs_array]
    for l, nwin in enumerate(sizes):
        if nwin > (6 if full else 4):
            opts = [(1,) * nwin, (0,) + (1,) * (nwin - 1), (1,) * (nwin - 1) + (0,), (0, 0) + (1,) * (nwin - 2), tuple(i % 2 for i in range(nwin))]
        else:
            opts = [p for p in itertools.product((0, 1), repeat=nwin) if any(p)]
        for p in opts:
            yield l, p


def _glob(case, rec):
    X, t = data(4, case["m"], 1, "late")
    dn = dense(case, t)
    if not dn:
        return
    rec.at("fit")
    d = make(case)
    try:
        d.fit(X, t[0], verbose=False)
    except ValueError:
        if case["tm"] in ("period", "log10"):
            return      # frequencies of zero
        raise
    k, tm = case["k"], case["tm"]
    for lev, pat in patterns(d, case["full"]):
        # local classes: mode i of a window is fast when its window is and (for rank 4) it is not the first
        vals = []
        for l, c in enumerate(d.costs_array):
            r = c.omega_array.shape[1]
            lab = np.ones(c.omega_array.shape, int)
            if l == lev:
                lab[np.array(pat) == 0] = 0
            if r > 2:
                lab[:, :2] = 0
            lab[0, 0] = 0 if (lab == 1).all() else lab[0, 0]
            if l != lev:
                lab[:, 0] = 0
            if not (lab == 0).any() or not (lab == 1).any():
                lab[0, 0] = 0
                lab[-1, -1] = 1
            Script.labels = (1 - lab if tm == "period" else lab).ravel()
            Script.centers = [1.0, 2.0]
            c.cluster_omega(2, transform_method=tm, method=Script)
            if not np.array_equal(c.omega_classes, lab):
                return rec.fail("local classes are not the assigned ones")
            vals.append(trans(c.omega_array, None if tm == "log10" else tm)[lab > 0])
        v = np.unique(np.concatenate(vals))
        keep = [0]
        for i in range(1, len(v)):
            if v[i] - v[keep[-1]] > 1e-7 * max(1, abs(v[i])):
                keep.append(i)
        v = v[keep]
        if tm == "log10" and (v <= 0).any() or not np.isfinite(v).all():
            continue
        table = np.log10(v) if tm == "log10" else v
        D = len(v)
        if D < k:
            continue
        centers = [1.0 + 2 * j for j in range(k)]
        lists = itertools.product(range(k), repeat=D) if k ** D <= (64 if case["full"] else 16) and lev == len(case["w"]) - 1 else \
            [tuple(i * k // D for i in range(D)), tuple(i % k for i in range(D)), tuple((D - 1 - i) * k // D for i in range(D))]
        for n, labels in enumerate(lists):
            for o in itertools.permutations(range(k)) if n < 2 else [tuple(range(k))]:
                ByValue.table, ByValue.labels, ByValue.centers = table, labels, [centers[x] for x in o]
                rec.at("cluster")
                e = shallow(d)
                e.global_cluster_omega(k, method=ByValue)
                look = lambda x: o[labels[int(np.argmin(np.abs(v - x)))]]
                judge(case, rec, e, X, t, look, k)
                rec.close(e.cluster_centroids, np.array(centers), "centroids of the global classes are not ordered", tol=1e-12)
                if rec.viol:
                    return
        rec.state(case["w"], case["s"], case["m"], lev, pat, k)


def shallow(d):
    """An mrCOSTS with the same levels which has not been clustered yet."""
    from pydmd.mrcosts import mrCOSTS
    e = mrCOSTS(window_length_array=d.window_length_array, step_size_array=d.step_size_array, svd_rank_array=d.svd_rank_array, n_components_array=d.n_components_array,
                transform_method=d.transform_method)
    e.__dict__.update({a: v for a, v in d.__dict__.items()})
    for a in ("_da_omega", "_omega_classes", "_cluster_centroids", "_n_components_global"):
        setattr(e, a, None)
    return e


def _km(case, rec):
    from sklearn.metrics import silhouette_score, calinski_harabasz_score
    X, t = data(4, case["m"], 0, "late")
    rec.at("fit")
    d = make(case)
    try:
        d.fit(X, t[0], verbose=False)
    except ValueError as e:
        if case["tm"] in ("period", "log10") or "n_samples" in str(e):
            return
        raise
    dn = dense(case, t)
    if not dn:
        return
    k, tm = case["k"], case["tm"]
    distinct = np.concatenate([trans(c.omega_array, None)[c.omega_classes > 0] for c in d.costs_array])
    if len(np.unique(np.round(distinct, 6))) < 5 or (distinct < 1e-9).any():
        return
    rec.at("cluster")
    cen, cl, om = d.global_cluster_omega(k)
    rec.check(np.all(np.diff(cen) > 0), "global centroids are not ordered", got=cen)
    rec.check(np.array_equal(cen, d.cluster_centroids) and np.array_equal(cl, d.omega_classes_interpolated) and d.n_components_global == k, "returned and stored classes differ")
    rec.check(len(cl) == len(om) and np.array_equal(cl, [int(np.argmin(np.abs(cen - x))) for x in om]), "a frequency is not in the nearest class")
    near = lambda x: int(np.argmin(np.abs(cen - (np.log10(x) if tm == "log10" else x))))
    full = judge(case, rec, d, X, t, near, k)
    rec.at("sweep")
    for meth, fn in (("silhouette", silhouette_score), ("calinski-harabasz", calinski_harabasz_score), (None, silhouette_score)):
        want = []
        for q in (2, 3, 4):
            c2, o2, v2 = copy.deepcopy(d).global_cluster_omega(q)
            want.append(fn(v2[:, None], o2) if len(set(o2)) > 1 else np.nan)
        sc, best = d.global_cluster_hyperparameter_sweep(np.array([2, 3, 4]), score_method=meth, verbose=False)
        rec.close(sc, np.array(want), "scores of the sweep", tol=1e-9)
        rec.check(best == [2, 3, 4][int(np.argmax(want))] and d.n_components_global == best, "the sweep does not return the best number", got=best, scores=want)
        rec.close(d.global_scale_reconstruction(), full, "a sweep changed the bands of the last clustering", tol=1e-10, scale=np.abs(full).max() or 1)
    rec.at("cluster the best")
    cen2, cl2, _ = d.global_cluster_omega()
    rec.check(len(cen2) == best, "clustering without a number does not take the one of the sweep", got=len(cen2), want=best)
    near2 = lambda x: int(np.argmin(np.abs(cen2 - (np.log10(x) if tm == "log10" else x))))
    judge(case, rec, d, X, t, near2, best)
    rec.state(case, cl)


def _file(case, rec):
    from pydmd.mrcosts import mrCOSTS
    X, t = data(4, case["m"], 0, "late")
    rec.at("fit")
    d = make(case)
    try:
        d.fit(X, t[0], verbose=False)
    except ValueError as e:
        if case["tm"] == "log10" or case["pk"] == 1 or "n_samples" in str(e):
            return
        raise
    tmp = tempfile.mkdtemp(prefix="p21-")
    try:
        rec.at("write")
        d.to_netcdf("fit", tmp)
        names = sorted(os.listdir(tmp))
        rec.need(len(names) == len(case["w"]), "one file per level", got=names)
        files = [os.path.join(tmp, x) for x in names]
        rec.at("read")
        e = mrCOSTS()
        e.from_netcdf([files[i] for i in case["perm"]])
    finally:
        shutil.rmtree(tmp)
    for a in ("window_length_array", "step_size_array", "n_components_array"):
        rec.check([int(x) for x in getattr(e, a)] == [int(x) for x in getattr(d, a)], "reading changed a setting", item=a, got=getattr(e, a))
    rec.check(e.n_decompositions == d.n_decompositions and e.transform_method == d.transform_method, "reading changed a setting", got=[e.n_decompositions, e.transform_method])
    for l, (a, b) in enumerate(zip(d.costs_array, e.costs_array)):
        for x in ("omega_array", "modes_array", "amplitudes_array", "window_means_array", "time_array", "cluster_centroids", "omega_classes"):
            rec.check(np.array_equal(getattr(a, x), getattr(b, x)), "reading changed a result", item=x, level=l)
        rec.check(a.svd_rank == b.svd_rank and a.window_length == b.window_length and a.n_slides == b.n_slides and bool(a.global_svd) == bool(b.global_svd), "reading changed a level's settings", level=l)
        rec.close(b.scale_reconstruction(), a.scale_reconstruction(), "reading changed the bands of a level", tol=1e-12)
    rec.close(e.get_background(), d.get_background(), "reading changed the background", tol=1e-12)
    if dense(case, t):
        v = np.concatenate([trans(c.omega_array, None)[c.omega_classes > 0] for c in d.costs_array])
        if len(np.unique(np.round(v, 6))) >= 3 and (v > 1e-9).all():
            rec.at("cluster")
            r1, r2 = d.global_cluster_omega(2), e.global_cluster_omega(2)
            rec.check(all(np.array_equal(x, y) for x, y in zip(r1, r2)), "a read fit is clustered differently")
            rec.check(all(np.array_equal(x, y) for x, y in zip(d.ragged_omega_classes, e.ragged_omega_classes)), "global classes after reading")
            rec.close(e.global_reconstruction(), d.global_reconstruction(), "global reconstruction after reading", tol=1e-12)
    rec.at("fit again")
    e.fit(X, t[0], verbose=False)
    for a, b in zip(d.costs_array, e.costs_array):
        rec.close(b.global_reconstruction(), a.global_reconstruction(), "a read object fits differently", tol=1e-9)
    rec.state(case, d.ragged_omega_array)


def _err(case, rec):
    from pydmd.mrcosts import mrCOSTS
    d = mrCOSTS(window_length_array=[6, 10], step_size_array=[2, 4], svd_rank_array=[2, 2], n_components_array=[2, 2], pydmd_kwargs=dict(QUIET))
    for a in ("ragged_omega_array", "ragged_modes_array", "ragged_amplitudes_array", "omega_classes_interpolated", "ragged_omega_classes", "cluster_centroids", "n_components_global"):
        rec.at(a)
        rec.raises(lambda: getattr(d, a), f"{a} before the fit", exc=ValueError)
    X, t = data(4, 18, 0)
    rec.at("fit")
    d.fit(X, t[0], verbose=False)
    for a in ("omega_classes_interpolated", "ragged_omega_classes", "cluster_centroids", "n_components_global"):
        rec.raises(lambda: getattr(d, a), f"{a} before the clustering", exc=ValueError)
    rec.raises(lambda: d.global_cluster_omega(), "clustering without a number", exc=ValueError)
    rec.raises(lambda: mrCOSTS().from_netcdf(["/nonexistent/file.nc"]), "reading a missing file", exc=ValueError)
    rec.raises(lambda: mrCOSTS(step_size_array=[1, 2], n_components_array=[2]), "lengths which do not agree", exc=ValueError)
    rec.raises(lambda: mrCOSTS(window_length_array=[6], step_size_array=[2], svd_rank_array=[2], n_components_array=[2], cluster_sweep=True, pydmd_kwargs=dict(QUIET)).fit(X, t[0], verbose=False),
               "a sweep and given numbers", exc=ValueError)
