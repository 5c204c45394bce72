"""P10: delay embedding is lossless and consistent in time."""
import itertools
import numpy as np
from .lib import System, product, match
from .zoo import DMD, HankelDMD, HODMD, hankel_preprocessing, noise
from pydmd.utils import pseudo_hankel_matrix

PROPERTY = "P10"
TECHNIQUE = "exhaustive enumeration of data sizes x delays x reconstruction rules x windows x options on the real code, judged entry by entry against the generating system or a reference inverse"
ASSUMPTIONS = ["the first occurrence of a time is its copy in the earliest embedded snapshot",
               "windows start at or after the first sample minus five steps and are judged against the generating system"]
DESIGN = """
Five enumerations: (embed) every matrix size and delay number up to the bounds, entry by entry, for several numeric
types; (inverse) an arbitrary matrix in the place of the embedded reconstruction (a stub estimator inside the public
wrapper), so that *which* copy of a snapshot is used is visible: first occurrence, mean over the existing copies,
weighted mean with the weights of the existing copies; (model) scalar and vector linear systems, all delays, rules,
exact/amplitude options and windows inside, before, after and coarser than the data; (one) d=1 against the plain
decomposition on noisy data for every option; (size) every (length, delays) pair: too few snapshots must be an error,
enough must work; (projected) the higher-order variant against the unprojected one, full and truncated.
"""
CHUNK = 20


def bounds(tier):
    b = _b(tier)
    return {"embedding": f"all rows <= {b['n']}, columns <= {b['m']}, delays <= columns", "delays of models": b["d"], "windows": WIN,
            "rules": ["first", "mean", "weights (array, list)"], "systems": [list(s) for s in b["sys"]], "lengths x delays": f"<= {b['size']}"}


def _b(tier):
    t = tier == "thorough"
    return {"n": 4 if t else 3, "m": 10 if t else 7, "d": list(range(1, 9 if t else 7)), "size": 10 if t else 7,
            "sys": [(s, n) for s in ("r1", "pair", "pair+real", "four", "neg", "osc") for n in ((1, 2, 5) if t else (1, 5))] + [("c2r", 1), ("c2r", 3), ("c3", 4)]}


WIN = [(0, 9, 1), (0, 4, 1), (3, 7, 1), (5, 5, 1), (6, 18, 1), (14, 20, 1), (0, 12, 3), (1, 9, 2), (0.5, 5.5, 1), (2, 4, 0.5), (-2, 3, 1), (13, 25, 4)]
DEC = [(0, 0.1, [(0, 1.2, 0.3), (0.7, 2.8, 0.7), (0.3, 0.9, 0.1), (0.6, 0.6, 0.1), (0.1, 1.5, 0.7)]), (0.2, 0.1, [(0.2, 0.9, 0.1), (0.5, 2.0, 0.3), (0.9, 2.3, 0.7)]),
       (0, 0.07, [(0, 0.42, 0.14), (0.21, 0.98, 0.07), (0.07, 0.7, 0.21)])]
OPT = [dict(), dict(exact=True), dict(exact=True, opt=True), dict(opt=2), dict(exact=True, opt=-1), dict(sorted_eigs="abs", rescale_mode="auto"),
       dict(tlsq_rank=99)]


def cases(tier):
    b = _b(tier)
    for n, m in itertools.product(range(1, b["n"] + 1), range(1, b["m"] + 1)):
        for d in range(1, m + 1):
            yield {"k": "embed", "n": n, "m": m, "d": d}
            yield {"k": "inverse", "n": n, "m": m, "d": d}
    for s, n in b["sys"]:
        for d in b["d"]:
            for o in range(len(OPT)):
                yield {"k": "model", "sys": s, "n": n, "d": d, "opt": o}
    for o in product(svd_rank=[-1, 2, 0.9], exact=[False, True], opt=[False, True, 1, -1], sorted_eigs=[False, "abs", "real"],
                     rescale_mode=[None, "auto"], forward_backward=[False, True], tlsq_rank=[0, 3], tikhonov_regularization=[None, 1e-2]):
        if tier == "quick" and o["svd_rank"] == 0.9 and (o["tlsq_rank"] or o["sorted_eigs"] == "real"):
            continue
        yield {"k": "one", **o}
    for m, d in itertools.product(range(1, b["size"] + 1), range(1, b["size"] + 3)):
        for cls in ("HankelDMD", "HODMD", "wrap"):
            yield {"k": "size", "m": m, "d": d, "cls": cls}
    for n, d, c, extra, rule, o in itertools.product([1, 4, 7], [1, 2, 3, 4], [False, True], [-1, 2, 3], ["first", "mean", "w"], range(len(OPT))):
        yield {"k": "proj", "n": n, "d": d, "cplx": c, "extra": extra, "rule": rule, "opt": o}


def rules(d):
    w = np.array([1.0, 3.0, 2.0, 5.0, 1.5, 2.5, 4.0, 1.0][:d])
    return {"first": "first", "mean": "mean", "array": w, "list": list(w / 7)}


class Stub:
    """Estimator whose embedded reconstruction is whatever the test says."""

    def __init__(self, R):
        self.R = R

    def fit(self, X):
        self.X = X
        return self

    @property
    def reconstructed_data(self):
        return self.R


def embed(X, d):
    n, m = X.shape
    H = np.empty((n * d, m - d + 1), X.dtype)
    for k in range(d):
        for j in range(m - d + 1):
            for i in range(n):
                H[k * n + i, j] = X[i, j + k]
    return H


def inverse(R, d, rule):
    """Reference: copies of time t are the row blocks k with 0 <= t - k < columns."""
    n, c = R.shape[0] // d, R.shape[1]
    out = np.zeros((n, c + d - 1), R.dtype)
    for t in range(c + d - 1):
        ks = [k for k in range(d) if 0 <= t - k < c]
        cop = np.array([R[k * n:(k + 1) * n, t - k] for k in ks])
        if isinstance(rule, str) and rule == "first":
            out[:, t] = cop[int(np.argmax(ks))]
        elif isinstance(rule, str):
            out[:, t] = cop.mean(axis=0)
        else:
            w = np.asarray(rule, float)[ks]
            out[:, t] = (w[:, None] * cop).sum(axis=0) / w.sum()
    return out


def run_case(case, rec):
    globals()["k_" + case["k"]](case, rec)


def k_embed(case, rec):
    n, m, d = case["n"], case["m"], case["d"]
    base = np.arange(1, n * m + 1).reshape(n, m)
    for X in (base.astype(float), base.astype(int), base * (1 + 1j), np.asfortranarray(base * 0.5), np.repeat(base, 2, axis=1)[:, ::2].astype(float)):
        rec.at("embed")
        keep = X.copy()
        H = pseudo_hankel_matrix(X, d)
        rec.check(H.dtype == X.dtype and H.shape == (n * d, m - d + 1), "the embedded matrix has the wrong size or type", shape=H.shape)
        rec.check(np.array_equal(H, embed(X, d)), "the embedded matrix does not stack consecutive snapshots", got=H)
        rec.check(np.array_equal(X, keep), "embedding changed the data")
        S = Stub(None)
        w = hankel_preprocessing(S, d=d)
        w.fit(X)
        rec.check(np.array_equal(S.X, embed(X, d)), "the wrapper fits on something else than the embedded snapshots")
    rec.state(n, m, d)


def k_inverse(case, rec):
    n, m, d = case["n"], case["m"], case["d"]
    for cplx in (False, True):
        X = noise((n, m), n + 7 * m, cplx)
        H = embed(X, d)
        for R, lossless in ((H, True), (noise(H.shape, 5 + d, cplx), False), (noise((n * d, H.shape[1] + 3), 9 + d, cplx), False),
                            (noise((n * d, 1), 11 + d, cplx), False)):
            for name, rule in rules(min(d, 8)).items():
                if d > 8 and name in ("array", "list"):
                    continue
                rec.at(name)
                w = hankel_preprocessing(Stub(R), d=d, reconstruction_method=rule)
                w.fit(X)
                Y = w.reconstructed_data
                want = inverse(R, d, rule)
                rec.close(Y, want, "undoing the embedding does not use the copies the rule names", tol=1e-12, rule=name)
                if lossless:
                    rec.close(Y, X, "embedding and undoing it is not the identity", tol=1e-12, rule=name)
                rec.check(not isinstance(Y, np.ma.MaskedArray), "the reconstruction is a masked array")
    rec.state(n, m, d)


def k_model(case, rec):
    n, d = case["n"], case["d"]
    c = case["sys"] in ("c2r", "c3")
    if n == 1:
        sy = Scalar(case["sys"], c)
    else:
        sy = System(case["sys"], n, c)
    r = sy.r
    # the embedded snapshots determine the dynamics only when they span the r modes
    if n * d < r or (n > 1 and n < r and d < 2):
        return
    m = r + d + 3
    X = sy.data(m)
    # conditioning of the embedded matrix decides the tolerance
    H = embed(X, d)[:, :-1]
    s = np.linalg.svd(H, compute_uv=False)
    kappa = s[0] / s[r - 1]
    if kappa > 3e4:
        return
    tol = 1e-11 * kappa ** 2 + 1e-8
    o = dict(OPT[case["opt"]])
    if o.get("tlsq_rank"):
        o["tlsq_rank"] = r
    for name, rule in rules(d).items():
        for cls in ("HankelDMD", "HODMD"):
            rec.at(cls + "-" + name)
            kw = dict(o)
            if cls == "HODMD":
                kw["svd_rank_extra"] = -1
            D = (HankelDMD if cls == "HankelDMD" else HODMD)(svd_rank=r, d=d, reconstruction_method=rule, **kw)
            D.fit(X)
            e, _ = match(D.eigs, sy.eigs)
            rec.check(e <= tol, "a delay-embedded model does not find the eigenvalues", err=e, tol=tol)
            H2 = D.ho_snapshots
            if cls == "HankelDMD":
                rec.close(H2, embed(X, d), "ho_snapshots are not the embedded snapshots", tol=1e-12)
            rec.check(dict(D.original_time) == {"t0": 0, "tend": m - 1, "dt": 1} == dict(D.dmd_time), "wrong time windows after the fit")
            rec.close(D.reconstructed_data, sy.at(np.arange(m)), "a delay-embedded model does not reproduce the data", tol=tol)
            for w in WIN:
                D.dmd_time = {"t0": w[0], "tend": w[1], "dt": w[2]}
                ts = np.arange(w[0], w[1] + 1e-9, w[2])
                if any(abs(t - round(t)) > 1e-9 for t in ts) and not c and any(np.real(sy.eigs) < 0):
                    continue
                R = D.reconstructed_data
                want = sy.at(ts)
                rec.close(R, want, "a window of a delay-embedded model is wrong", tol=tol * 50 * max(1.0, np.abs(X).max() / max(np.abs(want).max(), 1e-9)), window=w)
                # wherever the windows overlap they agree: covered by comparing with the same truth
            # decimal sampling steps: the ratios of steps and times are integers only up to rounding
            for t0, dt, wins in DEC if case["opt"] in (0, 3) else []:
                for k, v in (("t0", t0), ("dt", dt), ("tend", t0 + dt * (m - 1))):
                    D.original_time[k] = v
                for w in wins:
                    D.dmd_time = {"t0": w[0], "tend": w[1], "dt": w[2]}
                    ts = w[0] + w[2] * np.arange(int(round((w[1] - w[0]) / w[2])) + 1)
                    want = sy.at(np.rint((ts - t0) / dt))
                    rec.close(D.reconstructed_data, want, "a window of a delay-embedded model is wrong", tol=tol * 50 * max(1.0, np.abs(X).max() / max(np.abs(want).max(), 1e-9)), window=w, sampling=[t0, dt])
            rec.state(case["sys"], n, d, name, cls, case["opt"])


class Scalar:
    """scalar observable of a linear system: needs delays."""

    def __init__(self, spec, cplx):
        from .lib import SPECTRA
        self.eigs = np.array(SPECTRA[spec], complex)
        self.r = len(self.eigs)
        self.cplx = cplx
        self.b = np.ones(self.r, complex)
        k = 0
        while k < self.r:
            if not cplx and abs(self.eigs[k].imag) > 0:
                self.b[k], self.b[k + 1] = 0.8 - 0.4j, 0.8 + 0.4j
                k += 2
            else:
                self.b[k] = 1.1 if not cplx else 1.1 + 0.3j * k
                k += 1

    def at(self, t):
        X = (self.b[:, None] * self.eigs[:, None] ** np.asarray(t, float)[None]).sum(axis=0)[None]
        return X if self.cplx else X.real

    def data(self, m):
        return self.at(np.arange(m))


def k_one(case, rec):
    kw = {k: v for k, v in case.items() if k != "k"}
    X = System("pair+real", 5, False).data(9) + 0.02 * noise((5, 9), 3)
    if kw["forward_backward"]:
        X = System("pair", 4, False).data(9) + 0.002 * noise((4, 9), 3)
        kw["svd_rank"] = 2 if kw["svd_rank"] != -1 else 2
    if kw["opt"] is True and not kw["exact"]:
        kw["exact"] = True
    rec.at("plain")
    p = DMD(**kw).fit(X)
    for rule in ("first", "mean", np.array([2.0])):
        rec.at("d=1")
        h = HankelDMD(d=1, reconstruction_method=rule, **kw).fit(X)
        for a in ("eigs", "modes", "amplitudes", "reconstructed_data", "snapshots", "dynamics", "frequency", "growth_rate"):
            rec.close(getattr(h, a), getattr(p, a), f"one delay differs from the plain decomposition: {a}", tol=1e-10)
        for w in ((0, 20, 1), (3, 9, 2), (5, 5, 1)):
            h.dmd_time = dict(zip(("t0", "tend", "dt"), w))
            p.dmd_time = dict(zip(("t0", "tend", "dt"), w))
            rec.close(h.reconstructed_data, p.reconstructed_data, "one delay differs from the plain decomposition in a window", tol=1e-10, window=w)
        p.dmd_time = dict(p.original_time)
    rec.state(case)


def k_size(case, rec):
    m, d = case["m"], case["d"]
    X = noise((3, m), m)
    rec.at("fit")
    mk = {"HankelDMD": lambda: HankelDMD(svd_rank=-1, d=d), "HODMD": lambda: HODMD(svd_rank=-1, d=d, svd_rank_extra=-1),
          "wrap": lambda: hankel_preprocessing(DMD(svd_rank=-1), d=d)}[case["cls"]]
    D = mk()
    if m < d + 1:
        rec.raises(lambda: D.fit(X), "too few snapshots for the number of delays were accepted")
    else:
        D.fit(X)
        rec.check(D.reconstructed_data.shape == (3, m), "the reconstruction of a minimal record has the wrong size", shape=D.reconstructed_data.shape)
        # the first m-d+1 ... embedded snapshots: 1 or more transitions; the first d snapshots are always reproduced at full rank
        rec.close(D.reconstructed_data[:, :d], X[:, :d], "the first snapshots are not reproduced at full rank", tol=1e-6)
    rec.state(case)


def k_proj(case, rec):
    n, d, c = case["n"], case["d"], case["cplx"]
    spec = "c2r" if c else "pair"
    m = 9 + d
    sy = System(spec, n, c) if n > 1 else None
    if n == 1:
        if d < 2:
            return
        X = Scalar(spec, c).data(m)
    else:
        X = sy.data(m) + 0.05 * noise((n, m), 13 + n, c)
    rule = {"first": "first", "mean": "mean", "w": np.arange(1.0, d + 1)}[case["rule"]]
    o = dict(OPT[case["opt"]])
    if o.get("tlsq_rank"):
        o["tlsq_rank"] = 3
    extra = case["extra"]
    rec.at("HODMD")
    P = HODMD(svd_rank=2, d=d, reconstruction_method=rule, svd_rank_extra=extra, **o).fit(X)
    rec.at("HankelDMD")
    if n == 1 or extra == -1:
        Y, U = X, np.eye(n)
    else:
        U = np.linalg.svd(X, full_matrices=False)[0][:, :extra]
        Y = U.conj().T @ X
    H = HankelDMD(svd_rank=2, d=d, reconstruction_method=rule, **o).fit(Y)
    e, p = match(P.eigs, H.eigs)
    rec.check(e < 1e-7, "the projected higher-order variant has other eigenvalues", err=e)
    rec.close(P.reconstructed_data, U @ H.reconstructed_data, "the projected higher-order variant has another reconstruction", tol=1e-7)
    rec.close(P.snapshots, X, "the projected variant reports other snapshots", tol=1e-12)
    for w in WIN[:8]:
        P.dmd_time = dict(zip(("t0", "tend", "dt"), w))
        H.dmd_time = dict(zip(("t0", "tend", "dt"), w))
        rec.close(P.reconstructed_data, U @ H.reconstructed_data, "the projected higher-order variant differs in a window", tol=1e-6, window=w)
    rec.state(case)
