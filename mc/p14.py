"""P14: parametric models agree with their training data at training parameters."""
import itertools
import os
import tempfile
import numpy as np
from .zoo import DMD, DMDc, HankelDMD, HODMD, SubspaceDMD, ParametricDMD, noise

PROPERTY = "P14"
TECHNIQUE = "exhaustive enumeration of parametric families x model layouts x histories of requests (parameters, time windows, save/load) on the real code, judged against the true parametric trajectories and an independent interpolation"
ASSUMPTIONS = ["the reduced basis holds the data exactly (its rank is at least that of the data), so that projection loses nothing",
               "library interpolators (RBF, Linear) are trusted to interpolate at training parameters; between them a polynomial interpolator of ours gives an independent prediction"]
DESIGN = """
A family X_mu(t) = Phi(mu) Lambda(mu)^t b is built for each number of training parameters, parameter dimension, order of the
parameters and rank (shared Lambda for the monolithic layout, different Lambda for the partitioned one). Whatever the layout the
model's answer at parameter mu and time t has to be sum_i L_i(mu) X_i(t) with L_i the interpolation weights: evaluated
without the library. Every history of up to two (thorough: three) operations out of {ask for each subset/order of parameters,
move the window by item or by assignment, save and load, fit again} is run and all observables are compared after every operation.
"""
CHUNK = 12


class Poly:
    """Polynomial least squares interpolation, complex valued, with the fit/predict protocol."""

    def __init__(self, terms):
        self.terms = terms

    def _v(self, p):
        p = np.asarray(p, float)
        return np.array([[np.prod(q ** np.array(t)) for t in self.terms] for q in p])

    def fit(self, p, v):
        assert np.ndim(p) == 2 and np.ndim(v) == 2 and len(p) == len(v)
        self.c = np.linalg.lstsq(self._v(p), np.asarray(v), rcond=None)[0]
        return self

    def predict(self, p):
        return self._v(p) @ self.c


PARAMS = {
    "1": [[0.7]],
    "2": [[1.0], [0.2]],
    "3": [[0.1], [0.9], [0.5]],
    "4": [[0.4], [1.3], [0.0], [0.8]],
    "5": [[0.0], [0.25], [0.5], [0.75], [1.0]],
    "2x2": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]],
    "3d": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.2], [0.3, 1.0, 0.0], [0.0, 0.5, 1.0]],
}
TERMS = {"1": [(0,)], "2": [(0,), (1,)], "3": [(0,), (1,), (2,)], "4": [(i,) for i in range(4)], "5": [(i,) for i in range(5)],
         "2x2": [(0, 0), (1, 0), (0, 1), (1, 1)], "3d": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}
EIGS = np.array([0.9 + 0.3j, 0.9 - 0.3j, 0.8])
M = 11


class Family:
    def __init__(self, P, n, part, cplx, s):
        self.P, self.n, self.cplx = np.array(P), n, cplx
        self.part = part
        Q = np.linalg.qr(noise((n, s), 3, cplx))[0]
        self.s = s
        self.Phi, self.e = [], []
        for i, p in enumerate(self.P):
            c = noise((s, 3), 50 + i, True) * 0.3 + np.eye(s, 3) + 0.5 * sum(p) * noise((s, 3), 9, True)
            e = EIGS.copy()
            if part:
                e = np.array([0.9 + 0.05 * i + 1j * (0.3 + 0.1 * i), 0, 0.8 - 0.1 * i])
                e[1] = e[0].conj()
            if not cplx:
                c[:, 1] = c[:, 0].conj()
                c[:, 2] = c[:, 2].real
            self.Phi.append(Q @ c)
            self.e.append(e)

    def at(self, i, t):
        t = np.atleast_1d(np.asarray(t, float))
        X = self.Phi[i] @ (self.e[i][:, None] ** t[None])
        return X if self.cplx else X.real

    def data(self):
        return np.array([self.at(i, np.arange(M)) for i in range(len(self.P))])


SUBS = {
    "DMD": lambda: DMD(svd_rank=3),
    "exact": lambda: DMD(svd_rank=-1, exact=True, opt=True),
    "Subspace": lambda: SubspaceDMD(svd_rank=3),
    "Hankel": lambda: HankelDMD(svd_rank=3, exact=True, opt=True, d=2),
    "HODMD": lambda: HODMD(svd_rank=3, svd_rank_extra=3, exact=True, opt=True, d=2),
}
WIN = [(0, 10, 1), (0, 17, 1), (3, 8, 1), (12, 20, 2), (-2, 4, 1), (1, 3, 0.5), (5, 5, 1)]


def reduce_of(name, s, n):
    if name == "mine":
        return Pod(s)
    from ezyrb import POD
    return POD(name, rank=s) if name != "svd-1" else POD("svd", rank=-1)


class Pod:
    def __init__(self, r):
        self.r = r

    def fit(self, X):
        self.U = np.linalg.svd(X, full_matrices=False)[0][:, :self.r]
        return self

    def reduce(self, X):
        return self.U.T.conj() @ X

    def expand(self, c):
        return self.U @ c


def approx_of(name, key):
    if name == "mine":
        return Poly(TERMS[key])
    import ezyrb
    return getattr(ezyrb, name)()


def bounds(tier):
    return {"training parameters": {k: v for k, v in PARAMS.items()}, "sub-models": list(SUBS), "bases": ["own POD", "ezyrb svd", "ezyrb svd -1", "ezyrb correlation_matrix"],
            "interpolators": ["own polynomial", "ezyrb RBF", "ezyrb Linear"], "windows": WIN, "requests": "all ordered selections of up to 3 training and 2 other parameters",
            "histories": f"all operation sequences of length {1 if tier == 'quick' else 2} to {2 if tier == 'quick' else 3} over requests, windows, save/load, refit"}


OPS = ["ask-train", "ask-rev", "ask-off", "ask-one", "win1", "win3", "winassign2", "saveload", "refit", "look"]


def cases(tier):
    # layouts
    for key in PARAMS:
        for part in (False, True):
            for cplx in (False, True):
                for n, s in ((4, 4), (6, 3), (3, 3), (5, 5)):
                    if tier == "quick" and (n, s) == (5, 5):
                        continue
                    for sub in SUBS:
                        if sub == "exact" and s > 3 and part:
                            continue
                        yield {"k": "layout", "key": key, "part": part, "cplx": cplx, "n": n, "s": s, "sub": sub, "pod": "mine", "ap": "mine", "light": (n == 6)}
                    for pod in ("svd", "svd-1", "correlation_matrix"):
                        if pod == "correlation_matrix" and cplx:
                            continue        # ezyrb's is not defined for complex data
                        for ap in ("mine", "RBF", "Linear"):
                            if ap == "Linear" and (len(PARAMS[key]) < 3 or key == "3d" or cplx):
                                continue
                            if ap == "RBF" and key == "1":
                                continue
                            yield {"k": "layout", "key": key, "part": part, "cplx": cplx, "n": n, "s": s, "sub": "DMD", "pod": pod, "ap": ap, "light": False}
    # requests: all orders and subsets
    for key in ("3", "2x2"):
        for part in (False, True):
            pts = list(range(3)) + ["a", "b"]
            sel = [q for L in (1, 2, 3) for q in itertools.product(pts, repeat=L)] if tier == "thorough" else \
                  [q for L in (1, 2) for q in itertools.product(pts, repeat=L)] + [q for q in itertools.permutations(pts, 3)]
            yield from ({"k": "ask", "key": key, "part": part, "q": list(q)} for q in sel)
    # histories
    for key in ("3", "2x2") if tier == "thorough" else ("3",):
        for part in (False, True):
            for cplx in (False, True):
                for L in ((1, 2) if tier == "quick" else (1, 2, 3)):
                    for h in itertools.product(OPS, repeat=L):
                        yield {"k": "hist", "key": key, "part": part, "cplx": cplx, "h": list(h)}
    for key in PARAMS:
        yield {"k": "err", "key": key}


OFF = {1: {"a": [0.33], "b": [1.1]}, 2: {"a": [0.3, 0.6], "b": [0.9, 0.1]}, 3: {"a": [0.2, 0.2, 0.4], "b": [0.5, 0.1, 0.1]}}


def build(case, K):
    n_sub = SUBS[case.get("sub", "DMD")]
    sub = [n_sub() for _ in range(K)] if case["part"] else n_sub()
    s, n = case.get("s", 3), case.get("n", 6)
    kw = {}
    if case.get("sub") == "control":
        kw["dmd_fit_kwargs"] = {"I": np.zeros((1, M - 1))}
    if case.get("light"):
        kw["light"] = True
    return ParametricDMD(sub, reduce_of(case.get("pod", "mine"), s, n), approx_of(case.get("ap", "mine"), case["key"]), **kw)


def pod_of(p):
    """The reduction the model works with (after loading it is a copy inside the model)."""
    return next(v for v in vars(p).values() if hasattr(v, "expand") and hasattr(v, "reduce"))


def weights(key, pts):
    a = Poly(TERMS[key]).fit(np.array(PARAMS[key]), np.eye(len(PARAMS[key])))
    return a.predict(np.array(pts))


def judge(rec, p, fam, case, pts, win, exact_only=False):
    """compare every observable with the truth."""
    t = win[0] + win[2] * np.arange(int(round((win[1] - win[0]) / win[2])) + 1)
    K = len(fam.P)
    tol = 1e-6
    tr = np.array([fam.at(i, t) for i in range(K)])
    sc = np.abs(tr).max()
    rec.close(p.dmd_timesteps, t, "time instants differ from the window", tol=1e-12)
    pod = pod_of(p)
    f = p.forecasted_modal_coefficients
    rec.need(f.shape == (K, case.get("s", 3) if case.get("pod") != "svd-1" else f.shape[1], len(t)), "shape of the forecasted coefficients", shape=f.shape)
    rec.close(np.array([pod.expand(c) for c in f]), tr, "forecasted coefficients do not expand to the training trajectories", tol=tol, scale=sc)
    if case.get("light"):
        rec.raises(lambda: p.training_modal_coefficients, "a light instance has training coefficients")
    else:
        c = p.training_modal_coefficients
        rec.close(np.array([pod.expand(x) for x in c]), fam.data(), "training coefficients do not expand to the training data", tol=tol)
    if pts is None:
        rec.raises(lambda: p.reconstructed_data, "reconstruction without parameters")
        rec.raises(lambda: p.interpolated_modal_coefficients, "interpolation without parameters")
        return
    rec.close(p.parameters, np.array(pts), "requested parameters are not reported", tol=1e-14)
    rec.close(p.training_parameters, fam.P, "training parameters are not reported", tol=1e-14)
    r = p.reconstructed_data
    rec.need(r.shape == (len(pts), fam.n, len(t)), "the result has not one block of the snapshot shape per parameter", got=r.shape, want=(len(pts), fam.n, len(t)))
    g = p.interpolated_modal_coefficients
    rec.close(np.array([pod.expand(x) for x in g]), r, "reconstruction is not the expansion of the interpolated coefficients", tol=1e-10)
    if exact_only:
        for j, q in enumerate(pts):
            for i in range(K):
                if np.allclose(q, fam.P[i]):
                    rec.close(r[j], tr[i], "a training parameter does not give back its trajectory", tol=tol, scale=sc, block=j, parameter=q)
    else:
        w = weights(case["key"], pts)
        want = np.einsum("ji,int->jnt", w, tr)
        rec.close(r, want, "result differs from the interpolation of the training trajectories", tol=tol, scale=max(sc, np.abs(want).max()), parameters=pts)


def run_case(case, rec):
    key = case["key"]
    P = PARAMS[key]
    K, dim = len(P), len(P[0])
    if case["k"] == "err":
        fam = Family(P, 6, False, False, 3)
        X = fam.data()
        mk = lambda part, k=K: build({"key": key, "part": part}, k)
        for bad in (P[:-1], P + [P[0]]):
            rec.at("wrong number of parameters")
            rec.raises(lambda: mk(False).fit(X, bad), "a wrong number of training parameters was accepted")
            rec.raises(lambda: mk(True).fit(X, bad), "a wrong number of training parameters was accepted")
        for k in (K - 1, K + 1):
            if k:
                rec.raises(lambda: mk(True, k).fit(X, P), "a wrong number of sub-models was accepted")
        p = mk(False)
        rec.raises(lambda: p.training_modal_coefficients, "training coefficients before the fit")
        p.fit(X, P)

        def bad3():
            p.parameters = np.zeros((2, 2, 2))
        rec.raises(bad3, "three dimensional parameters accepted")
        return
    cplx = case.get("cplx", False)
    fam = Family(P, case.get("n", 6), case["part"], cplx, case.get("s", 3))
    X = fam.data()
    p = build(case, K)
    off = OFF[dim]
    allp = {i: P[i] for i in range(K)}
    allp.update(off)
    exact_only = case.get("ap", "mine") != "mine"
    form = {"3": lambda v: [q[0] for q in v], "4": lambda v: np.array([q[0] for q in v])}.get(key, lambda v: np.array(v))
    rec.at("fit")
    p.fit(X, form(P))
    cur, win = None, (0, M - 1, 1)
    if case["k"] == "layout":
        judge(rec, p, fam, case, cur, win)
        for q in ([0], list(range(K)), list(range(K))[::-1], ["a", 0, "b"]):
            cur = [allp[i] for i in q]
            rec.at(f"ask {q}")
            p.parameters = form(cur)
            for w in WIN:
                if case["sub"] == "control" and (w[1] - w[0] != M - 1 or w[2] != 1 or w[0] != 0):
                    continue
                if case["sub"] in ("Hankel", "HODMD") and (w[0] < 0 or w[2] != 1 or w[0] == w[1]):
                    continue
                rec.at(f"window {w}")
                p.dmd_time["t0"], p.dmd_time["tend"], p.dmd_time["dt"] = w
                judge(rec, p, fam, case, cur, w, exact_only)
            rec.state(case["key"], q, p.reconstructed_data)
        return
    if case["k"] == "ask":
        cur = [allp[i] for i in case["q"]]
        rec.at("ask")
        p.parameters = form(cur)
        judge(rec, p, fam, case, cur, win)
        rec.state(p.reconstructed_data)
        return
    for h in case["h"]:
        rec.at(h)
        if h == "ask-train":
            cur = [list(q) for q in P]
            p.parameters = form(cur)
        elif h == "ask-rev":
            cur = [list(q) for q in P[::-1]]
            p.parameters = np.array(cur)
        elif h == "ask-off":
            cur = [off["a"], P[1], off["b"]]
            p.parameters = np.array(cur)
        elif h == "ask-one":
            cur = [off["b"]]
            p.parameters = np.array(cur) if dim > 1 else [off["b"][0]]
        elif h == "look":
            p.forecasted_modal_coefficients
        elif h in ("win1", "win3"):
            win = WIN[int(h[-1])]
            p.dmd_time["t0"], p.dmd_time["tend"], p.dmd_time["dt"] = win
        elif h == "winassign2":
            win = WIN[2]
            d = p.dmd_time.copy()
            d["t0"], d["tend"], d["dt"] = win
            p.dmd_time = d
        elif h == "saveload":
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "m")
                p.save(f)
                p = ParametricDMD.load(f)
        elif h == "refit":
            fam = Family(P[::-1], fam.n, case["part"], cplx, fam.s)
            p.fit(fam.data(), np.array(P[::-1]))
            win = (0, M - 1, 1)
        # weights refer to PARAMS order: reorder truth if the family is reversed
        judge_h(rec, p, fam, case, cur, win, P)
        rec.state(h, cur, win)


def judge_h(rec, p, fam, case, pts, win, P):
    if np.array_equal(fam.P, np.array(P)):
        return judge(rec, p, fam, case, pts, win)

    class R:
        pass
    t = win[0] + win[2] * np.arange(int(round((win[1] - win[0]) / win[2])) + 1)
    tr = np.array([fam.at(i, t) for i in range(len(P))])
    f = p.forecasted_modal_coefficients
    rec.close(np.array([pod_of(p).expand(c) for c in f]), tr, "after a second fit the forecasted coefficients are not those of the new data", tol=1e-6)
    if pts is not None:
        w = weights(case["key"], pts)[:, ::-1]
        want = np.einsum("ji,int->jnt", w, tr)
        rec.close(p.reconstructed_data, want, "after a second fit the result is not that of the new data", tol=1e-6, scale=np.abs(tr).max())
