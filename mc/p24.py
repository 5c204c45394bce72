"""P24: compressed and randomized variants depend only on their documented sketch."""
import itertools
from unittest import mock
import numpy as np
from . import ref
from .lib import System, match, product
from .zoo import CDMD, RDMD, DMD, noise, randomized_preprocessing

PROPERTY = "P24"
TECHNIQUE = "exhaustive enumeration of sketches on the real code: every selection of rows, every outcome of the random selection (the random source is a choice point of the explorer), every named sketch, rank, oversampling, power and seed within the bounds"
ASSUMPTIONS = ["random matrices drawn through numpy.random/scipy.sparse are observed at the call when the library uses these functions; otherwise only the results are judged",
               "exactness on low-rank data is required of sketches whose product with the modes is well conditioned (below 1e6)"]
DESIGN = """
Selections of rows: every subset of rows of at least the rank is given as matrix (and, for the named sketch, forced as outcome of the random choice);
on data of the target rank spectrum, modes and reconstruction must be the true ones, on noisy data those of the formulas applied to the compressed data.
Named sketches: for every seed and shape of the data the drawn matrix (if observable) has the documented size and distribution range and the
result is the formula's for that very matrix. Randomized variants: for every rank rule, oversampling, power, seed, test matrix the reported compression
has orthonormal rows, spans the independent range finder's space, and gives the same results when handed to the compressed variant; global
random state neither matters nor changes. compute_rqb is checked on the same grid.
"""
CHUNK = 10
SYS = [("pair+real", 5, 4, False), ("pair+real", 6, 6, False), ("c2r", 6, 4, True), ("four", 6, 9, False), ("c3", 5, 8, True), ("pair", 7, 5, False), ("r1", 4, 3, False)]
NAMES = ["uniform", "normal", "sparse", "sample"]


def bounds(tier):
    return {"systems": SYS if tier == "quick" else SYS + MORE, "rows": "every subset of at least the rank", "seeds": SEEDS[tier], "oversampling": OVER[tier], "power iterations": POW[tier],
            "target rank": ["true rank", "-1", "0", "0.999999"]}


MORE = [("osc", 8, 12, False), ("four", 8, 7, False), ("neg", 9, 8, False), ("c3", 8, 5, True)]
SEEDS = {"quick": 4, "thorough": 20}
OVER = {"quick": [0, 1, 3, 10], "thorough": [0, 1, 2, 3, 5, 10, 20]}
POW = {"quick": [0, 1, 2], "thorough": [0, 1, 2, 3, 5]}


def cases(tier):
    S = SYS if tier == "quick" else SYS + MORE
    for k, (spec, n, m, c) in enumerate(S):
        r = len(System(spec, n, c).eigs)
        for q in range(r, n + 1):
            for rows in itertools.combinations(range(n), q):
                for eps in (0, 0.05):
                    yield {"kind": "rows", "k": k, "rows": list(rows), "eps": eps}
        for name in NAMES:
            for eps in (0, 0.05):
                for s in range(SEEDS[tier]):
                    yield {"kind": "named", "k": k, "name": name, "seed": s, "eps": eps}
        if m <= n:
            for rows in itertools.combinations(range(n), m):
                yield {"kind": "sample", "k": k, "rows": list(rows)}
        for d in product(over=OVER[tier], power=POW[tier], eps=[0, 0.05], rank=[r, -1, 0.999999], src=["seed", "matrix", "cmatrix"], salt=range(1 if tier == "quick" else 3)):
            yield {"kind": "rdmd", "k": k, **d}
            yield {"kind": "rqb", "k": k, **d}
    for d in product(k=range(len(S)), C=["complex", "tall", "rows"], rank=["true", 0, 0.9, -1], tlsq=[0, 1, 2, 3], fb=[False, True], rescale=[None, "auto"], tik=[None, 0.01], opt=[False, True, -1]):
        if tier == "quick" and d["opt"] == -1 and (d["tik"] or d["C"] == "tall"):
            continue
        yield {"kind": "opts", **d, "eps": 0.05}
    for d in product(k=range(len(S)), C=["complex", "int", "scaled", "tall", "perm"], eps=[0, 0.05]):
        yield {"kind": "matrix", **d}


def run_case(case, rec):
    spec, n, m, c = (SYS + MORE)[case["k"]]
    s = System(spec, n, c, salt=case.get("salt", 0))
    X = s.data(m)
    if case.get("eps"):
        X = X + case["eps"] * noise(X.shape, 8 + case.get("salt", 0), c)
    globals()["_" + case["kind"]](case, rec, s, X)


def truth(rec, d, s, X, C, what):
    """results on data of the target rank."""
    if np.linalg.cond(C @ s.Phi) > 1e6:
        return
    tol = 1e-12 * np.linalg.cond(C @ s.Phi) ** 2 * np.linalg.cond(np.vander(s.eigs, X.shape[1] - 1, True)) ** 2
    if tol > 1e-4:
        return
    tol = max(tol, 1e-8)
    e, p = match(d.eigs, s.eigs)
    rec.need(e < tol * 10, f"{what}: eigenvalues are not those of the uncompressed method", got=d.eigs, want=s.eigs)
    rec.need(d.modes.shape == (s.n, s.r), f"{what}: modes are not in the full space", shape=d.modes.shape)
    W = s.Phi[:, p]
    G = W * (np.sum(W.conj() * d.modes, 0) / np.sum(W.conj() * W, 0))
    rec.close(d.modes, G, f"{what}: modes are not those of the uncompressed method", tol=tol * 100)
    rec.close(d.reconstructed_data, X, f"{what}: reconstruction is not that of the uncompressed method", tol=tol * 100)


def formula(rec, d, X, C, rank, what, **kw):
    Z = C @ X[:, :-1]
    U, sv, V = ref.svd(Z, rank)
    full = np.linalg.svd(Z, compute_uv=False)
    if sv[-1] < 1e-7 * sv[0] or (len(sv) < len(full) and full[len(sv) - 1] - full[len(sv)] < 1e-4 * full[0]):
        return None
    R = ref.RefDMD(X[:, :-1], X[:, 1:], rank, exact=True, compress=C, **kw)
    sc = max(1.0, np.abs(R.eigs).max())
    e, p = match(d.eigs, R.eigs)
    cond = np.linalg.cond(R.W)
    if cond > 1e6:
        return None
    ok = e < 1e-6 * sc * max(1, cond)
    if ok:
        rec.close(d.reconstructed_data, ref.evolve(R.modes, R.eigs, R.amplitudes(X, False), np.arange(X.shape[1])), f"{what}: reconstruction is not the formula's for this sketch",
                  tol=1e-5 * max(1, cond), scale=np.abs(X).max())
    return ok


def _rows(case, rec, s, X):
    C = np.eye(s.n)[case["rows"]]
    rec.at("fit")
    d = CDMD(svd_rank=s.r, compression_matrix=C).fit(X)
    rec.state(d.eigs, d.modes)
    if case["eps"] == 0:
        truth(rec, d, s, X, C, "selection of rows")
        P = CDMD(svd_rank=s.r, compression_matrix=C[::-1].copy()).fit(X)
        rec.check(match(P.eigs, d.eigs)[0] < 1e-6, "the order of the selected rows matters")
    else:
        rec.check(formula(rec, d, X, C, s.r, "selection of rows") is not False, "selection of rows: eigenvalues are not the formula's", got=d.eigs)
    rec.check(d.compression_matrix is C or np.array_equal(d.compression_matrix, C), "the compression matrix is not the given one")


def _matrix(case, rec, s, X):
    n, m = s.n, X.shape[1]
    k = case["C"]
    C = {"complex": noise((n - 1, n), 40, True), "int": np.array([[(3 * i + 5 * j + i * j) % 7 - 3 for j in range(n)] for i in range(n)]), "scaled": 1e6 * noise((m, n), 41),
         "tall": noise((2 * n, n), 42), "perm": np.eye(n)[::-1].copy()}[k]
    rec.at("fit")
    d = CDMD(svd_rank=s.r, compression_matrix=C).fit(X)
    rec.state(d.eigs, d.modes)
    if case["eps"] == 0:
        truth(rec, d, s, X, C, "given matrix")
    rec.check(formula(rec, d, X, C, s.r, "given matrix") is not False, "given matrix: eigenvalues are not the formula's", got=d.eigs)
    if k == "perm":
        rec.check(match(d.eigs, DMD(svd_rank=s.r, exact=True).fit(X).eigs)[0] < 1e-6, "a permutation of the points changes the spectrum")


def _opts(case, rec, s, X):
    """every option of the compressed method acts on the compressed snapshots, and the modes are lifted with the full ones."""
    n = s.n
    C = {"complex": noise((n - 1, n), 40, True), "tall": noise((2 * n, n), 42), "rows": np.eye(n)[:n - 1]}[case["C"]]
    rank = s.r if case["rank"] == "true" else case["rank"]
    kw = dict(tlsq_rank=case["tlsq"], rescale_mode=case["rescale"], forward_backward=case["fb"], tikhonov_regularization=case["tik"])
    R = ref.RefDMD(X[:, :-1], X[:, 1:], rank, exact=True, compress=C, fb=case["fb"], rescale=case["rescale"], tik=case["tik"], tlsq_rank=case["tlsq"])
    A, B = ref.tlsq(C @ X[:, :-1], C @ X[:, 1:], case["tlsq"])
    for M in (A, B) if case["fb"] else (A,):
        full = np.linalg.svd(M, compute_uv=False)
        q = len(R.s)
        if full[q - 1] < 1e-6 * full[0] or (q < len(full) and full[q - 1] - full[q] < 1e-4 * full[0]):
            return
    if np.linalg.cond(R.W) > 1e5 or (case["fb"] and np.abs(np.angle(R.eigs)).max() > np.pi / 2 - 1e-3) or np.abs(R.eigs).min() < 1e-4:
        return
    from .p09 import degenerate
    if degenerate(np.linalg.svd(A, compute_uv=False), A.shape, rank):
        return
    rec.at("fit")
    d = CDMD(svd_rank=rank, compression_matrix=C.copy(), opt=case["opt"], **kw).fit(X)
    tol = 1e-7 * max(1, np.linalg.cond(R.W)) * max(1.0, np.abs(R.eigs).max())
    rec.state(case, d.eigs)
    rec.need(len(d.eigs) == len(R.eigs), "the number of modes is not the documented rank of the compressed snapshots", got=len(d.eigs), want=len(R.eigs))
    rec.need(match(d.eigs, R.eigs)[0] < tol, "eigenvalues are not the formula's for this sketch and these options", got=d.eigs, want=R.eigs)
    t = np.arange(X.shape[1]) - (0 if case["opt"] != -1 else X.shape[1] - 1)
    if case["opt"] == -1 and np.abs(R.eigs).min() < 0.05:
        return
    if np.linalg.cond(R.modes) < 1e4:
        rec.close(d.reconstructed_data, ref.evolve(R.modes, R.eigs, R.amplitudes(X, case["opt"]), t), "reconstruction is not the formula's for this sketch and these options", tol=1e-5)


class Watch:
    """records matrices drawn from numpy.random / scipy.sparse during a fit."""

    def __init__(self, shape):
        self.shape, self.seen = shape, []

    def __enter__(self):
        import scipy.sparse
        self.p = []
        for mod, name in ((np.random, "uniform"), (np.random, "normal"), (scipy.sparse, "random")):
            f = getattr(mod, name)

            def g(*a, f=f, **k):
                out = f(*a, **k)
                if getattr(out, "shape", None) == self.shape:
                    self.seen.append((name, out.toarray() if hasattr(out, "toarray") else np.array(out)))
                return out
            p = mock.patch.object(mod, name, g)
            p.start()
            self.p.append(p)
        return self

    def __exit__(self, *a):
        for p in self.p:
            p.stop()


def _named(case, rec, s, X):
    name, n, m = case["name"], s.n, X.shape[1]
    out = []
    for rep in range(2):
        np.random.seed(500 + case["seed"])
        rec.at("fit")
        with Watch((m, n)) as w:
            out.append(CDMD(svd_rank=s.r, compression_matrix=name).fit(X))
    d, e = out
    rec.check(np.array_equal(d.eigs, e.eigs) and np.array_equal(d.modes, e.modes), "the same random state gives different results")
    rec.check(d.compression_matrix == name, "the name of the sketch is lost")
    rec.state(name, d.eigs)
    if name == "sample":
        if case["eps"] == 0:
            return sample_truth(rec, d, s, X)
        if m <= n:
            ok = [formula(rec_null(rec), d, X, np.eye(n)[list(rows)], s.r, "") for rows in itertools.combinations(range(n), m)]
            rec.check(any(o is not False for o in ok), "the result is not that of any selection of points", got=d.eigs)
        return
    C = w.seen[-1][1] if w.seen else None
    if C is None:
        if case["eps"] == 0:
            rec.check(match(d.eigs, s.eigs)[0] < 1e-3, f"{name}: eigenvalues are not those of the uncompressed method", got=d.eigs, want=s.eigs)
        return
    if name in ("uniform", "sparse"):
        rec.check(C.min() >= 0 and C.max() <= 1 and C.max() > 0.5 and C.min() < 0.5, f"{name}: entries are not between 0 and 1", lo=C.min(), hi=C.max())
    if name == "normal":
        rec.check(C.min() < 0 < C.max(), "normal: entries have one sign only")
        rec.check(abs(C.mean()) < 6 / np.sqrt(C.size) and 0.3 < C.std() < 2.5, "normal: entries are not standard normal", mean=C.mean(), std=C.std())
    if case["eps"] == 0:
        truth(rec, d, s, X, C, name)
    else:
        rec.check(formula(rec, d, X, C, s.r, name) is not False, f"{name}: the result is not that of the drawn matrix", got=d.eigs)


def rec_null(rec):
    return type(rec)({})


def sample_truth(rec, d, s, X):
    n, m = s.n, X.shape[1]
    k = min(n, m)
    if k < s.r:
        return
    worst = max(np.linalg.cond(s.Phi[list(rows)]) for rows in itertools.combinations(range(n), k))
    if worst < 1e3:
        if k == n:
            truth(rec, d, s, X, np.eye(n), "sample")
        e, p = match(d.eigs, s.eigs)
        tol = 1e-11 * worst ** 2 * np.linalg.cond(np.vander(s.eigs, m - 1, True)) ** 2
        if tol < 1e-3:
            rec.check(e < max(tol, 1e-7), "sample: eigenvalues are not those of the uncompressed method", got=d.eigs, want=s.eigs)


def _sample(case, rec, s, X):
    """the explorer decides the outcome of the random selection."""
    rows, n, m = case["rows"], s.n, X.shape[1]
    rest = [i for i in range(n) if i not in rows]
    hits = []
    real = (np.random.choice, np.random.permutation)

    def choice(a, size=None, replace=True, p=None):
        if a == n and size == m and not replace:
            hits.append(1)
            return np.array(rows)
        return real[0](a, size, replace, p)

    def permutation(x):
        if np.ndim(x) == 0 and x == n:
            hits.append(1)
            return np.array(rows + rest)
        return real[1](x)

    Xn = X + 0.05 * noise(X.shape, 21, s.cplx)
    rec.at("fit")
    with mock.patch.object(np.random, "choice", choice), mock.patch.object(np.random, "permutation", permutation):
        d = CDMD(svd_rank=s.r, compression_matrix="sample").fit(Xn)
    rec.state(rows, d.eigs)
    if hits:
        rec.check(formula(rec, d, Xn, np.eye(n)[rows], s.r, "sample") is not False, "the result is not that of the selected points", got=d.eigs, rows=rows)


def finder(X, T, p):
    Y = X @ T
    for _ in range(p):
        Y = X @ (X.conj().T @ np.linalg.qr(Y)[0])
        Y = np.linalg.qr(Y)[0]
    return Y


def _rdmd(case, rec, s, X):
    n, m = X.shape
    rank, over, p = case["rank"], case["over"], case["power"]
    r = ref.svd(X, rank)[1].size
    kw, kw2 = {}, {}
    if case["src"] == "seed":
        kw = {"seed": (0, 11, 2**32 - 1)[case["salt"]]}
        kw2 = dict(kw)
    else:
        T = noise((m, min(n, m, r + over)), 44 + case["salt"], case["src"] == "cmatrix")
        kw, kw2 = {"test_matrix": T, "seed": 1}, {"test_matrix": T.copy(), "seed": 2}
    np.random.seed(3)
    st = np.random.get_state()[1].copy()
    rec.at("fit")
    d = RDMD(svd_rank=rank, oversampling=over, power_iters=p, **kw).fit(X)
    rec.check(np.array_equal(np.random.get_state()[1], st), "a seeded decomposition uses the global random state")
    np.random.seed(99)
    e = RDMD(svd_rank=rank, oversampling=over, power_iters=p, **kw2).fit(X)
    rec.check(np.array_equal(d.eigs, e.eigs) and np.array_equal(d.modes, e.modes) and np.array_equal(d.reconstructed_data, e.reconstructed_data), "the same sketch gives different results")
    C = np.asarray(d.compression_matrix)
    rec.state(C, d.eigs)
    hi = min(n, r + over) if case["src"] == "seed" else T.shape[1]
    k = len(C)
    rec.need(C.shape[1] == n and min(hi, m) <= k <= hi, "the compression has not the documented size", got=C.shape, want=(hi, n))
    rec.close(C @ C.conj().T, np.eye(k), "the basis is not orthonormal", tol=1e-10)
    spectrum = np.linalg.svd(X, compute_uv=False)
    num = int(np.sum(spectrum > 1e-10 * spectrum[0]))
    if case["src"] != "seed" and k <= num:
        F = np.linalg.qr(finder(X, T, p))[0]
        ang = np.linalg.svd(C @ F, compute_uv=False).min()
        rec.check(ang > 1 - 1e-6, "the basis does not span the range found by the test matrix", cosine=ang)
    if k >= num:
        rec.close(C.conj().T @ (C @ X), X, "the basis does not capture the data", tol=1e-8)
    if k < num:
        best = np.sqrt(np.sum(spectrum[k:] ** 2))
        err = np.linalg.norm(X - C.conj().T @ (C @ X))
        rec.check(err >= best * (1 - 1e-9), "impossible capture", err=err, best=best)
        if p >= 2 and over >= 1:
            rec.check(err <= 10 * np.sqrt(np.sum(spectrum[r:] ** 2)), "the basis misses the leading directions", err=err, best=best)
    if case["eps"] == 0 and len(d.eigs) == s.r:
        truth(rec, d, s, X, C, "randomized")
    elif case["eps"] == 0 and rank == s.r:
        rec.fail("number of modes", got=len(d.eigs), want=s.r)
    if case["eps"]:
        rec.check(formula(rec, d, X, C, rank, "randomized") is not False, "randomized: eigenvalues are not those of the reported compression", got=d.eigs)
        c = CDMD(svd_rank=rank, compression_matrix=C.copy()).fit(X)
        rec.check(match(c.eigs, d.eigs)[0] < 1e-6 * max(1, np.abs(c.eigs).max()), "the compressed variant with the reported compression gives another spectrum", got=d.eigs, want=c.eigs)
    if case["eps"] == 0 and rank == s.r:
        rec.at("preprocessing")
        P = randomized_preprocessing(DMD(svd_rank=rank, exact=True), svd_rank=rank, oversampling=over, power_iters=p, **kw)
        P.fit(X)
        rec.check(match(P.eigs, d.eigs)[0] < 1e-5, "the randomized pre-processing gives another spectrum", got=P.eigs, want=d.eigs)
        rec.close(P.reconstructed_data, X, "the randomized pre-processing does not reproduce data of the target rank", tol=1e-6)


def _rqb(case, rec, s, X):
    from pydmd.utils import compute_rqb
    n, m = X.shape
    rank, over, p = case["rank"], case["over"], case["power"]
    r = ref.svd(X, rank)[1].size
    T = None if case["src"] == "seed" else noise((m, min(n, m, r + over)), 46 + case["salt"], case["src"] == "cmatrix")
    rec.at("rqb")
    X0 = X.copy()
    A = compute_rqb(X, rank, over, p, None if T is None else T, 5)
    B = compute_rqb(X=X, svd_rank=rank, oversampling=over, power_iters=p, test_matrix=T, seed=5)
    for a, b, nm in zip(A, B, "QBT"):
        rec.check(np.array_equal(a, b), f"{nm} differs between equal calls")
    rec.check(np.array_equal(X, X0), "the data were changed")
    Q = A.Q
    rec.close(Q.conj().T @ Q, np.eye(Q.shape[1]), "the basis is not orthonormal", tol=1e-10)
    rec.close(A.B, Q.conj().T @ X, "the projected matrix is not the projection of the data", tol=1e-12)
    if T is not None:
        rec.check(A.test_matrix is T or np.array_equal(A.test_matrix, T), "the test matrix is not the given one")
    else:
        rec.check(A.test_matrix.shape == (m, r + over), "the test matrix has not the documented size", got=A.test_matrix.shape, want=(m, r + over))
        C = compute_rqb(X, rank, over, p, None, 6)
        rec.check(not np.array_equal(C.test_matrix, A.test_matrix), "the seed has no effect")
        U = compute_rqb(X, rank, over, p, A.test_matrix.copy(), 6)
        rec.check(np.array_equal(U.Q, Q), "the reported test matrix does not give the same basis")
    rec.state(Q)
    rec.raises(lambda: compute_rqb(X[0], rank, over, p), "data which are no matrix")
