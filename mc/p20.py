"""P20: sliding-window scale separation (COSTS)."""
import itertools
import math
import warnings
import numpy as np
from . import ref
from .lib import product

PROPERTY = "P20"
TECHNIQUE = "exhaustive enumeration of record lengths x windows x steps x ranks x options on the real code against windows built one by one; the clustering is a choice point of the explorer: every assignment of the window frequencies to classes, in every order of the labels"
ASSUMPTIONS = ["steps are at most the window (longer steps leave samples uncovered)", "data are real, times are a row vector, as the class documents",
               "each window is judged against BOPDMD on that window (BOPDMD itself is judged by P15 and P16)"]
DESIGN = """
Kind `win`: every (record, window, step) up to a bound; number, place, times and means of the windows, the taper, and each window's spectrum, modes
and amplitudes against a BOPDMD of that window alone. Kind `cls`: a scripted clustering method returns every assignment of all window frequencies to
k labels, with the label centres in every order; class numbers, bands (each against filter-weighted sums built window by window), their sum, the
low/high split, periods and the export/import round trip are judged each time. Kind `km`: the library's own clusterings for every transformation and
number of bands: classes are the nearest centres, ordered from low to high frequency, the sweep returns the best silhouette and leaves the fit as it
was. Kind `err`: inadmissible requests.
"""
CHUNK = 12
QUIET = {"varpro_opts_dict": {"maxiter": 4}, "eig_constraints": {"stable"}}


def data(n, m, salt, tk="unit"):
    t = {"unit": np.arange(m, dtype=float), "late": 50 + 0.1 * np.arange(m), "uneven": np.cumsum(0.05 + 0.1 * (np.arange(m) % 3))}[tk][None]
    x = np.linspace(0, 1, n)[:, None]
    u = np.linspace(0, 1, m)[None]
    X = (1.5 + x) + np.cos((2 + salt) * u * 3 + 2 * x) + 0.6 * np.sin(23 * u + 5 * x * (1 + salt)) * (1 + 0.5 * x) + 0.3 * u * x + 0.2 * np.cos(11 * u * (1 + x))
    return X, t


def expected_windows(m, w, s):
    out = []
    i = 0
    while i + w <= m:
        out.append(list(range(i, i + w)))
        i += s
    if out[-1][-1] != m - 1:
        out.append(list(range(m - w, m)))
    return out


def gauss(w):
    i = np.arange(w)
    return np.exp(-((i - (w - 1) / 2) / (w / 8)) ** 2)


def taper(w, c=None):
    c = 16 if c is None else c
    i = np.arange(w)
    return np.tanh(c * i / w) - np.tanh(c * (i - w - 1) / w) - 1


def space(tier):
    q = tier == "quick"
    return {"record": list(range(5, 15 if q else 21)), "window": "4 .. record", "step": "1 .. window", "spatial points": [3, 4],
            "assignments": "all with at most %d window frequencies" % (6 if q else 8), "bands": [1, 2, 3] if q else [1, 2, 3, 4]}


def bounds(tier):
    return space(tier)


def cases(tier):
    sp = space(tier)
    for m in sp["record"]:
        for w in range(4, m + 1):
            for s in range(1, w + 1):
                if tier == "quick" and m > 9 and (m + w + s) % 3:
                    continue
                yield dict(kind="win", n=3, m=m, w=w, s=s, rank=2, svd="global", t="unit", extra=None)
    for n, rank, svd, t, extra in itertools.product([4], [2, 4, 0, 0.95, -1], ["global", "local"], ["unit", "late", "uneven"],
                                                    [None, "sharp", "last", "reset", "max", "alpha", "odd", "proj"]):
        if (svd == "global") and extra in ("last", "reset", "max", "odd"):
            continue
        if svd == "local" and rank == -1 and extra is None:
            continue
        for m, w, s in ((14, 8, 3), (16, 8, 4), (13, 13, 2)) if tier == "quick" else ((14, 8, 3), (16, 8, 4), (13, 13, 2), (19, 7, 7), (20, 9, 5), (17, 16, 1)):
            yield dict(kind="win", n=n, m=m, w=w, s=s, rank=rank, svd=svd, t=t, extra=extra)
    nmax = 6 if tier == "quick" else 8
    for (m, w, s), rank, svd, tm in itertools.product([(10, 8, 4), (9, 6, 3), (8, 8, 3), (12, 7, 4), (11, 6, 3)], [2, 4, 0], ["global", "local"],
                                                      [None, "absolute", "period", "log10", "square_frequencies"]):
        N = len(expected_windows(m, w, s)) * (rank or 4)
        if N > nmax:
            continue
        for k in sp["bands"]:
            if k ** N * math.factorial(k) > 8000:
                continue
            for ci, perm in enumerate(itertools.permutations(range(k))):
                yield dict(kind="cls", n=4, m=m, w=w, s=s, rank=rank, svd=svd, tm=tm, k=k, perm=list(perm))
    for (m, w, s), rank, svd, tm, meth in itertools.product([(24, 12, 4), (30, 10, 10), (26, 11, 4)], [2, 4], ["global", "local"],
                                                            [None, "absolute", "period", "log10", "square_frequencies"], ["mini", "kmeans", "seeded", "raw"]):
        for salt in range(1 if tier == "quick" else 4):
            yield dict(kind="km", n=4, m=m, w=w, s=s, rank=rank, svd=svd, tm=tm, meth=meth, salt=salt)
    for what in ("window", "time", "odd", "rank", "transform", "periods"):
        yield dict(kind="err", what=what)


def make(case, **kw):
    from pydmd.costs import COSTS
    return COSTS(svd_rank=case["rank"], global_svd=case["svd"] == "global", pydmd_kwargs=dict(QUIET), **kw)


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["kind"]](case, rec)


def opts(case):
    e = case["extra"]
    kw, fkw, pk = {}, {}, dict(QUIET)
    if e == "sharp":
        fkw["corner_sharpness"] = 5
    elif e == "last":
        kw["use_last_freq"] = True
    elif e == "reset":
        kw["reset_alpha_init"] = True
    elif e == "max":
        kw["max_rank"] = 2
    elif e == "odd":
        kw["force_even_eigs"] = False
    elif e == "proj":
        pk["use_proj"] = True
        pk["eig_sort"] = "real"
    return kw, fkw, pk


def _win(case, rec):
    from pydmd.costs import COSTS
    n, m, w, s = (case[a] for a in "nmws")
    X, t = data(n, m, 0, case["t"])
    kw, fkw, pk = opts(case)
    W = expected_windows(m, w, s)
    T = taper(w, fkw.get("corner_sharpness"))
    tap = [(X[:, i] - X[:, i].mean(axis=1, keepdims=True)) * T for i in W]
    glob = case["svd"] == "global"
    req = case["rank"]
    if glob:
        U = ref.svd(X, req)[0]
        ranks = [U.shape[1]] * len(W)
    else:
        ranks = []
        for d in tap:
            r = ref.svd(d, req)[0].shape[1]
            r += r % 2 if kw.get("force_even_eigs", True) else 0
            ranks.append(min(r, n, w, kw.get("max_rank", r)))
    if case["extra"] == "alpha":
        if len(set(ranks)) > 1:
            return
        kw = dict(kw, initialize_artificially=True, init_alpha=np.array([1j, -1j, 3j, -3j])[:ranks[0]] * 6.28 / (t[0, w - 1] - t[0, 0]))
    if case["extra"] == "last" and len(set(ranks)) > 1:
        return
    rec.at("fit")
    d = COSTS(svd_rank=req, global_svd=glob, pydmd_kwargs=pk, **kw)
    d.fit(X, t, w, s, **fkw)
    rec.need(d.n_slides == len(W), "number of windows", got=d.n_slides, want=len(W))
    seen = np.zeros(m)
    for k, idx in enumerate(W):
        got = np.arange(m)[d.get_window_indices(k)]
        rec.need(list(got) == idx, "window does not start at its multiple of the step (or end with the record)", k=k, got=got, want=idx)
        seen[got] += 1
    rec.check((seen > 0).all(), "samples no window covers")
    rec.check(d.window_length == w and d.step_size == s, "window and step are not the requested ones")
    rec.close(d.time_array, np.array([t[0, i] for i in W]), "times of the windows", tol=1e-13)
    rec.close(d.window_means_array, np.array([X[:, i].mean(axis=1) for i in W]), "means of the windows", tol=1e-12)
    rec.close(d.build_kern(w), gauss(w), "weights of the window average", tol=1e-12)
    r0 = d.omega_array.shape[1]
    rec.need(d.modes_array.shape == (len(W), n, r0) and d.amplitudes_array.shape == (len(W), r0) and r0 >= max(ranks), "shape of the window results", got=d.modes_array.shape)
    if glob:
        rec.check(d.svd_rank == ranks[0], "rank of the global SVD", got=d.svd_rank, want=ranks[0])
    # every window alone
    from pydmd import BOPDMD
    init = kw.get("init_alpha")
    for k, idx in enumerate(W):
        tw = t[:, idx] - t[0, idx[0]]
        args = dict(svd_rank=ranks[k], init_alpha=None if init is None else np.array(init), proj_basis=U if glob else None, use_proj=pk.get("use_proj", False),
                    eig_sort=pk.get("eig_sort", "imag"), **QUIET)
        b = BOPDMD(**args)
        b.fit(tap[k], tw)
        b2 = BOPDMD(**args)
        b2.fit(tap[k] * (1 + 1e-9 * np.cos(np.arange(w) * 2.0 + np.arange(n)[:, None])), tw)
        r = ranks[k]
        rec.transitions += 1
        if np.abs(b.amplitudes).max() > 1e3 * np.abs(tap[k]).max() or np.abs(b2.eigs - b.eigs).max() > 1e-7 * np.abs(b.eigs).max():
            if glob and init is None or case["extra"] == "last":
                return              # nearly parallel modes or a fit which has not settled: not decided
            continue
        rec.close(d.omega_array[k, :r], b.eigs, "spectrum of a window is not that of its tapered data", tol=1e-6, k=k)
        rec.close((d.modes_array[k, :, :r] * d.amplitudes_array[k, :r]) @ np.exp(np.outer(d.omega_array[k, :r], tw[0])),
                  (b.modes * b.amplitudes) @ np.exp(np.outer(b.eigs, tw[0])), "fit of a window is not that of its tapered data", tol=1e-6, k=k)
        rec.close(d.amplitudes_array[k, :r], b.amplitudes, "amplitudes of a window", tol=1e-6, k=k)
        rec.check(not d.omega_array[k, r:].any() and not d.modes_array[k, :, r:].any() and not d.amplitudes_array[k, r:].any(), "unused ranks of a window are not empty", k=k)
        if glob and init is None:
            init = b.init_alpha
        elif case["extra"] == "last":
            init = b.eigs
    rec.state(case, d.omega_array)


class Script:
    """A clustering method whose answer the explorer chooses."""
    labels = None
    centers = None
    seen = None

    def __init__(self, n_clusters, **kw):
        self.n_clusters = n_clusters

    def fit_predict(self, x):
        Script.seen = np.array(x)
        self.cluster_centers_ = np.array(Script.centers, float)[:, None]
        return np.array(Script.labels)


def trans(w, tm):
    f = np.abs(w.imag)
    if tm == "square_frequencies":
        return f ** 2
    if tm == "period":
        with np.errstate(all="ignore"):
            return 1 / f
    if tm == "log10":
        with np.errstate(all="ignore"):
            v = np.log10(f)
        v[~np.isfinite(v)] = v[np.isfinite(v)].min()
        return v
    return f


def bands(d, X, t, W, classes, k, means=True):
    """Filter-weighted average of the window reconstructions, band by band."""
    n, m = X.shape
    out = np.zeros((k, n, m))
    weight = np.zeros(m)
    g = gauss(len(W[0]))
    for a, idx in enumerate(W):
        tw = t[0, idx] - t[0, idx[0]]
        for j in range(k):
            c = [i for i in range(d.omega_array.shape[1]) if classes[a][i] == j]
            part = ((d.modes_array[a][:, c] * d.amplitudes_array[a][c]) @ np.exp(np.outer(d.omega_array[a][c], tw))).real
            if j == 0 and means:
                part = part + X[:, idx].mean(axis=1, keepdims=True)
            out[j][:, idx] += part * g
        weight[idx] += g
    return out / weight


def judge(rec, d, X, t, W, classes, k):
    rec.need(np.array_equal(d.omega_classes, classes), "frequencies are in the wrong classes", got=d.omega_classes, want=classes)
    rec.check(d.n_components == k, "number of bands", got=d.n_components)
    B = bands(d, X, t, W, classes, k)
    sc = max(np.abs(X).max(), np.abs(d.amplitudes_array).sum(axis=1).max())
    rec.close(d.scale_reconstruction(), B, "a band is not the weighted average of its windows", tol=1e-9, scale=sc)
    rec.close(d.scale_reconstruction(include_means=False), bands(d, X, t, W, classes, k, False), "a band without the means", tol=1e-9, scale=sc)
    G = d.global_reconstruction()
    rec.close(G, B.sum(axis=0), "the bands do not add up to the global reconstruction", tol=1e-9, scale=sc)
    rec.close(d.global_reconstruction({"include_means": False}), bands(d, X, t, W, classes, k, False).sum(axis=0), "global reconstruction without the means", tol=1e-9, scale=sc)
    lo, hi = d.scale_separation()
    rec.close(lo, B[0], "the low part is not the lowest band", tol=1e-9, scale=sc)
    rec.close(hi, B[1:].sum(axis=0), "the high part is not the rest", tol=1e-9, scale=sc)
    with np.errstate(all="ignore"):
        rec.close(np.sort(d.periods()), np.sort(2 * np.pi / np.abs(d.omega_array[classes > 0].imag)), "periods of the bands above the lowest", tol=1e-9)
    return B


def trip(rec, d, d2, B):
    for a in ("omega_array", "modes_array", "amplitudes_array", "window_means_array", "time_array", "cluster_centroids", "omega_classes"):
        rec.check(np.array_equal(np.asarray(getattr(d, a)), np.asarray(getattr(d2, a))), "export and import changed a result", item=a)
    for a in ("svd_rank", "global_svd", "window_length", "step_size", "n_slides", "n_components"):
        rec.check(getattr(d, a) == getattr(d2, a), "export and import changed a setting", item=a, got=getattr(d2, a), want=getattr(d, a))
    rec.close(d2.scale_reconstruction(), d.scale_reconstruction(), "export and import changed the bands", tol=1e-12)
    for k in range(d.n_slides):
        m = np.asarray(B).shape[-1]
        rec.check(np.array_equal(np.arange(m)[d.get_window_indices(k)], np.arange(m)[d2.get_window_indices(k)]), "export and import moved a window", k=k)


def _cls(case, rec):
    from pydmd.costs import COSTS
    n, m, w, s, k = (case[a] for a in "nmws") if False else (case["n"], case["m"], case["w"], case["s"], case["k"])
    X, t = data(n, m, 1, "late")
    W = expected_windows(m, w, s)
    kw = {} if case["rank"] else {"max_rank": 4}
    try:
        d = make(case, **kw)
        rec.at("fit")
        d.fit(X, t, w, s)
    except Exception:
        if not case["rank"] and case["svd"] == "local":
            return
        raise
    N = d.omega_array.size
    if N > 8:
        return
    tm = case["tm"]
    if tm == "log10" and not d.omega_array.imag.any():
        return
    centers = [1.0 + 3 * j for j in range(k)]
    order = case["perm"]
    # label l has centre centers[order[l]]
    Script.centers = [centers[o] for o in order]
    want_of = {l: (k - 1 - order[l] if tm == "period" else order[l]) for l in range(k)}
    first = True
    for labels in itertools.product(range(k), repeat=N):
        Script.labels = labels
        rec.at("cluster")
        d.cluster_omega(k, transform_method=tm, method=Script)
        rec.close(Script.seen.ravel(), trans(d.omega_array.ravel(), tm), "the clustered values are not the transformed frequencies", tol=1e-12)
        classes = np.array([want_of[l] for l in labels]).reshape(d.omega_array.shape)
        B = judge(rec, d, X, t, W, classes, k)
        want = sorted(centers, reverse=tm == "period")
        rec.close(d.cluster_centroids, np.array(want), "centroids are not ordered from low to high frequency", tol=1e-14)
        if first or labels == (0,) * N:
            rec.at("round trip")
            trip(rec, d, COSTS().from_xarray(d.to_xarray()), B)
            first = False
    rec.state(case["m"], case["w"], case["s"], k, order, tm, d.omega_array)


def _km(case, rec):
    from pydmd.costs import COSTS
    from sklearn.cluster import KMeans, MiniBatchKMeans
    from sklearn.metrics import silhouette_score
    n, m, w, s = case["n"], case["m"], case["w"], case["s"]
    X, t = data(n, m, case["salt"], "late")
    W = expected_windows(m, w, s)
    d = make(case)
    rec.at("fit")
    d.fit(X, t, w, s)
    tm = case["tm"]
    meth = {"mini": MiniBatchKMeans, "kmeans": KMeans, "seeded": MiniBatchKMeans, "raw": KMeans}[case["meth"]]
    kk = {"mini": None, "kmeans": None, "seeded": {"random_state": 3, "n_init": 2}, "raw": {"random_state": 1, "init": "random", "n_init": 1}}[case["meth"]]
    if not d.omega_array.imag.any():
        return
    v = trans(d.omega_array.ravel(), tm)
    if not np.isfinite(v).all() or len(np.unique(np.round(v, 9))) < 5:
        return
    own = {}
    kn = [2, 3, 4]
    for k in kn:
        c = meth(n_clusters=k, **(kk or {"random_state": 0}))
        lab = c.fit_predict(v[:, None])
        o = np.argsort(c.cluster_centers_.ravel())
        if tm == "period":
            o = o[::-1]
        pos = np.empty(k, int)
        pos[o] = np.arange(k)
        own[k] = pos[lab], c.cluster_centers_.ravel()[o]
    for k in kn:
        if len(set(own[k][0])) < k:
            continue
        rec.at(f"cluster {k}")
        args = dict(kmeans_kwargs=kk, transform_method=tm, method=meth)
        if case["meth"] == "mini" and k == 2:
            args.pop("method")
        d.cluster_omega(k, **args)
        classes = own[k][0].reshape(d.omega_array.shape)
        rec.close(d.cluster_centroids, own[k][1], "centroids of the classes", tol=1e-9)
        f = np.abs(d.omega_array.imag)
        for j in range(k - 1):
            rec.check(f[d.omega_classes == j].max() <= f[d.omega_classes == j + 1].min() + 1e-12, "a lower class holds a higher frequency", k=k, j=j)
        B = judge(rec, d, X, t, W, classes, k)
        rec.at("sweep")
        before = (d.omega_classes.copy(), d.cluster_centroids.copy(), d.n_components)
        sc = [silhouette_score(v[:, None], own[q][0]) if len(set(own[q][0])) > 1 else np.nan for q in kn]
        best = np.sort(sc)[::-1]
        if best[0] - best[1] > 1e-9:
            got = d.cluster_hyperparameter_sweep(np.array(kn), transform_method=tm, method=meth, clustering_kwargs=kk)
            rec.check(got == kn[int(np.argmax(sc))], "the sweep does not return the best number of bands", got=got, scores=sc)
        rec.check(np.array_equal(d.omega_classes, before[0]) and np.array_equal(d.cluster_centroids, before[1]) and d.n_components == before[2], "the sweep changed the classes")
        rec.at("round trip")
        d2 = COSTS().from_xarray(d.to_xarray())
        trip(rec, d, d2, B)
        d2.cluster_omega(k, **args)
        rec.check(np.array_equal(d2.omega_classes, classes), "an imported fit is clustered differently", k=k)
        rec.state(case, k, classes)
    if case["rank"] == 4 and kk is None:
        rec.at("default sweep")
        with np.errstate(all="ignore"):
            got = d.cluster_hyperparameter_sweep(transform_method=tm, method=meth)
        rec.check(got == 2, "the default sweep leaves its range", got=got)


def _err(case, rec):
    from pydmd.costs import COSTS
    X, t = data(4, 12, 0)
    rec.at(case["what"])
    d = COSTS(svd_rank=2, global_svd=True, pydmd_kwargs=dict(QUIET))
    w = case["what"]
    if w == "window":
        rec.raises(lambda: d.fit(X, t, 13, 2), "window longer than the record", exc=ValueError)
    elif w == "time":
        rec.raises(lambda: d.fit(X, t[:, :-1], 5, 2), "times which do not fit the data", exc=ValueError)
    elif w == "odd":
        rec.raises(lambda: COSTS(svd_rank=3, global_svd=False, pydmd_kwargs=dict(QUIET)).fit(X, t, 6, 3), "odd rank with even spectra", exc=ValueError)
    elif w == "rank":
        rec.raises(lambda: COSTS(svd_rank=6, global_svd=False, pydmd_kwargs=dict(QUIET)).fit(X, t, 6, 3), "rank above the number of points", exc=ValueError)
    elif w == "transform":
        d.fit(X, t, 6, 3)
        rec.raises(lambda: d.cluster_omega(2, transform_method="cube"), "unknown transformation", exc=ValueError)
    else:
        rec.raises(d.periods, "periods before the fit", exc=ValueError)
