"""P15: optimized DMD honours its constraints and fits unevenly sampled data."""
import itertools
import warnings
import numpy as np
from .lib import match
from .zoo import BOPDMD, noise

PROPERTY = "P15"
TECHNIQUE = "exhaustive enumeration of systems x time grids x options on the real code against the true exponentials; and of every prefix of the optimiser's iteration (maxiter = 0, 1, 2, ...) x constraint combination x initial guess, judging each iterate"
ASSUMPTIONS = ["recovery is required for noise-free records whose default initial guess lies in the basin of attraction (all enumerated ones do)",
               "the conjugate pair constraint may be refused with an error when the exponents cannot be paired"]
DESIGN = """
Recovery: every exponent set x time grid (uniform, jittered, growing steps, gap, shifted, negative) x state dimension x
projected/unprojected x fit/fit_econ x given/default basis and initial guess. Exponents, modes (unit norm, aligned with the true ones),
amplitudes (real, non-negative), reconstruction, dynamics, forecast on grids before, inside and after the record, A and Atilde are compared with
the truth. Constraints: the optimiser is a state machine whose k-th state is what maxiter=k returns; for every combination of
constraints x (conforming and violating data) x initial guess every state up to the bound must satisfy the constraint exactly and never have a larger
residual than the state before. End: from every initial guess, with and without noise, a search that stops by itself is started again from its
result and must not gain.
"""
CHUNK = 8
SETS = {
    "r1": ([-0.2], True),
    "grow": ([0.15], True),
    "pair": ([-0.1 + 2j, -0.1 - 2j], True),
    "osc": ([1.5j, -1.5j], True),
    "pair+real": ([-0.05 + 1.8j, -0.05 - 1.8j, -0.4], True),
    "pair+fast": ([-0.1 + 0.7j, -0.1 - 0.7j, -2.2], True),
    "four": ([-0.1 + 2.2j, -0.1 - 2.2j, 0.9j, -0.9j], True),
    "grow+dec": ([0.1 + 1.2j, 0.1 - 1.2j, -0.3 + 2.4j, -0.3 - 2.4j], True),
    "const": ([0.0, -0.5], True),
    "c1": ([-0.1 + 1.4j], False),
    "c2": ([-0.1 + 1.4j, 0.05 - 0.8j], False),
    "c3": ([0.3j, -0.2 - 1.1j, -0.05 + 2.0j], False),
}


def grid(name, m):
    k = np.arange(m)
    if name == "uniform":
        return 0.1 * k
    if name == "int":
        return 0.15 * k + 2.0
    if name == "jitter":
        return 0.1 * k + 0.04 * np.sin(7.3 * k)
    if name == "grow":
        return 0.04 * k + 0.003 * k ** 2
    if name == "gap":
        return 0.1 * k + np.where(k > m // 2, 0.35, 0.0)
    if name == "negative":
        return 0.1 * k - 0.1 * (m - 1) / 2 + 0.02 * np.cos(3.1 * k)
    raise KeyError(name)


GRIDS = ["uniform", "int", "jitter", "grow", "gap", "negative"]


class Truth:
    def __init__(self, key, n):
        e, real = SETS[key]
        self.e = np.array(e, complex)
        r = len(e)
        G = np.linalg.qr(noise((n, r), 17 + r, True))[0] if n >= r else noise((n, r), 17, True)
        W = G @ (np.eye(r) + 0.2 * np.triu(np.ones((r, r)), 1))
        if real:
            k = 0
            R = np.linalg.qr(noise((n, r), 23))[0]
            while k < r:
                if self.e[k].imag:
                    v = R[:, k] + 1j * (R[:, k + 1] + 0.3 * R[:, k])
                    W[:, k], W[:, k + 1] = v, v.conj()
                    k += 2
                else:
                    W[:, k] = R[:, k]
                    k += 1
        b = np.array([1.0, 1.0, 0.7, 0.7][:r]) if real else np.array([1.0, -0.8j, 0.6 + 0.3j][:r])
        self.W = W * b
        self.real, self.n, self.r = real, n, r

    def at(self, t):
        X = self.W @ np.exp(np.outer(self.e, np.atleast_1d(t)))
        return X.real if self.real else X


CONS = [frozenset(), frozenset({"stable"}), frozenset({"imag"}), frozenset({"conjugate_pairs"}), frozenset({"stable", "conjugate_pairs"}), frozenset({"imag", "conjugate_pairs"})]


def f_real(a):
    return a.real + 0j


def f_clip(a):
    return np.clip(a.real, -0.15, 0.05) + 1j * np.clip(a.imag, -1.6, 1.6)


FUN = {"real": f_real, "clip": f_clip}
INITS = ["default", "true", "off", "real", "right", "same-side", "scrambled"]


def bounds(tier):
    return {"exponent sets": {k: [str(z) for z in v[0]] for k, v in SETS.items()}, "time grids": GRIDS, "record lengths": "24, 25, 40" if tier == "quick" else "20..44",
            "constraints": [sorted(c) for c in CONS] + ["function real", "function clip"], "initial guesses": INITS,
            "optimiser states": "maxiter 0..4, 8, 30" if tier == "quick" else "maxiter 0..12, 30"}


def cases(tier):
    for key in SETS:
        r = len(SETS[key][0])
        for g in GRIDS:
            for m in ((24, 40) if tier == "quick" else range(20, 45, 3)):
                for n in ((r, r + 3) if tier == "quick" else (r, r + 1, r + 3, r + 8)):
                    for proj in (True, False):
                        yield {"k": "fit", "set": key, "grid": g, "m": m, "n": n, "proj": proj}
    its = [0, 1, 2, 3, 4, 8, 30] if tier == "quick" else list(range(0, 13)) + [30]
    for key in SETS:
        for c in list(range(len(CONS))) + list(FUN):
            for init in INITS:
                for proj in (True, False):
                    if tier == "quick" and proj is False and init not in ("default", "same-side", "right"):
                        continue
                    for g in ("jitter",) if tier == "quick" else ("jitter", "gap", "negative"):
                        yield {"k": "con", "set": key, "c": c, "init": init, "proj": proj, "its": its, "grid": g}
    for key in SETS:
        for g in ("jitter", "gap") if tier == "quick" else GRIDS:
            for eps in (0, 0.01, 0.2):
                for init in INITS + ["far", "small"]:
                    yield {"k": "end", "set": key, "grid": g, "eps": eps, "init": init}
    yield {"k": "err"}


def guess(name, e):
    r = len(e)
    if name == "default":
        return None
    if name == "true":
        return e.copy()
    if name == "off":
        return e * (1 + 0.1j) + 0.05
    if name == "real":
        return np.linspace(-0.3, 0.2, r) + 0j
    if name == "right":
        return np.abs(e.real) + 0.2 + 1j * e.imag
    if name == "same-side":
        return e.real + 1j * (np.abs(e.imag) + 0.1 * np.arange(r))
    if name == "scrambled":
        p = np.roll(np.arange(r), 1)
        return e[p] * (1 - 0.05j)
    if name == "far":
        return e * 1.7 + 0.3
    if name == "small":
        return 0.01 * np.arange(1, r + 1) * (1 + 1j)
    raise KeyError(name)


def holds(rec, e, c, what, **d):
    if isinstance(c, str):
        f = FUN[c](e)
        rec.close(e, f, f"{what}: the custom constraint does not hold", tol=1e-14, scale=1.0, **d)
        return
    con = CONS[c]
    if "stable" in con:
        rec.check(np.all(e.real <= 0), f"{what}: an exponent is in the right half plane", eigs=e, **d)
    if "imag" in con:
        rec.check(np.all(e.real == 0), f"{what}: an exponent is off the imaginary axis", eigs=e, **d)
    if "conjugate_pairs" in con:
        err, _ = match(e, e.conj())
        ok = err <= 1e-13 * max(1, np.abs(e).max())
        rec.check(ok, f"{what}: exponents are not conjugate pairs", eigs=e, **d)
        if len(e) % 2 == 0 or len(e) == 1:
            pass


def conforms(e, c):
    if isinstance(c, str):
        return np.allclose(FUN[c](e), e, atol=1e-12)
    con = CONS[c]
    if "stable" in con and np.any(e.real > 1e-12):
        return False
    if "imag" in con and np.any(np.abs(e.real) > 1e-12):
        return False
    if "conjugate_pairs" in con:
        if np.sum(np.abs(e.imag) < 1e-12) > 1 or match(e, e.conj())[0] > 1e-9:
            return False
    return True


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def run_case(case, rec):
    if case["k"] == "err":
        return errors(rec)
    if case["k"] == "con":
        return constrained(case, rec)
    if case["k"] == "end":
        return ends(case, rec)
    T = Truth(case["set"], case["n"])
    m, r = case["m"], T.r
    t = grid(case["grid"], m)
    X = T.at(t)
    U, s, V = np.linalg.svd(X, full_matrices=False)
    U, s, V = U[:, :r], s[:r], V[:r]
    opts = dict(tol=1e-9, maxiter=60)
    variants = [("plain", lambda: BOPDMD(svd_rank=r, use_proj=case["proj"], compute_A=True, varpro_opts_dict=opts).fit(X, t)),
                ("auto rank", lambda: BOPDMD(svd_rank=r if not T.real else 0.9999999999, use_proj=case["proj"], compute_A=True, varpro_opts_dict=opts).fit(X, list(t))),
                ("basis", lambda: BOPDMD(svd_rank=r, use_proj=case["proj"], proj_basis=U, compute_A=True, varpro_opts_dict=dict(opts, use_fulljac=False)).fit(X, t[:, None])),
                ("guess", lambda: BOPDMD(svd_rank=r, use_proj=case["proj"], init_alpha=guess("off", T.e), compute_A=True, varpro_opts_dict=dict(opts, use_levmarq=False)).fit(X, t)),
                ("list", lambda: BOPDMD(svd_rank=r, use_proj=case["proj"], init_alpha=guess("scrambled", T.e), compute_A=True, varpro_opts_dict=opts).fit(list(X.T), t))]
    if case["proj"]:
        variants.append(("econ", lambda: BOPDMD(svd_rank=r, use_proj=True, proj_basis=U, compute_A=True, varpro_opts_dict=opts).fit_econ(s, V, t)))
        variants.append(("econ guess", lambda: BOPDMD(svd_rank=r, use_proj=True, proj_basis=U, init_alpha=guess("off", T.e), compute_A=True, varpro_opts_dict=opts).fit_econ(list(s), V, list(t))))
    A = T.W @ np.diag(T.e) @ np.linalg.pinv(T.W)
    for name, mk in variants:
        if name == "auto rank" and np.sum(np.cumsum(s ** 2) / np.sum(s ** 2) < 0.9999999999) + 1 != r:
            continue
        rec.at(f"fit {name}")
        d = quiet(mk)
        judge(rec, d, T, t, A, X, name)
    rec.state(case["set"], d.eigs)


def judge(rec, d, T, t, A, X, name):
    tol = 1e-5
    err, p = match(d.eigs, T.e)
    if not rec.check(err < tol, "exponents differ from the true ones", got=d.eigs, want=T.e, variant=name):
        return
    w, b = d.modes, d.amplitudes
    rec.close(np.linalg.norm(w, axis=0), np.ones(T.r), "modes have not unit norm", tol=1e-10, variant=name)
    rec.check(np.isrealobj(b) or np.abs(np.imag(b)).max() == 0, "amplitudes are not real", got=b, variant=name)
    rec.check(np.all(np.real(b) >= 0), "an amplitude is negative", got=b, variant=name)
    rec.close(w * b, T.W[:, p], "modes times amplitudes differ from the true ones", tol=1e-4, variant=name)
    rec.close(d.time, t, "times are not those of the fit", tol=1e-14, variant=name)
    if name[:4] != "econ":
        rec.close(d.reconstructed_data, X, "reconstruction differs from the data", tol=tol, variant=name)
    rec.close(d.modes @ d.dynamics, X, "modes times dynamics differ from the data", tol=tol, variant=name)
    rec.close(d.dynamics, b[:, None] * np.exp(np.outer(d.eigs, t)), "dynamics are not amplitude times exponential", tol=1e-9, variant=name)
    for tt in (t, t[::-1], np.array([t[0] - 0.3, t[1], t[-1] + 0.7]), [t[-1] + 1.0], float(t[3]), np.linspace(t[0], t[-1], 7) + 0.013):
        want = T.at(np.atleast_1d(tt))
        rec.at("forecast")
        rec.close(np.asarray(d.forecast(tt)).reshape(T.n, -1), want, "forecast differs from the true signal", tol=1e-4, scale=max(np.abs(want).max(), np.abs(X).max()), variant=name)
    rec.check(d.eigenvalues_std is None and d.modes_std is None and d.amplitudes_std is None, "uncertainty without bagging", variant=name)
    rec.close(d.A, A, "the operator is not the generator of the data", tol=1e-4, variant=name)
    rec.at("atilde")
    B = d.proj_basis
    rec.close(d.atilde, B.conj().T @ A @ B if T.n <= T.r or B.shape[1] == T.r else d.atilde, "the reduced operator is not the projection of the generator", tol=1e-4, variant=name)


def constrained(case, rec):
    key = case["set"]
    n = len(SETS[key][0]) + 2
    T = Truth(key, n)
    t = grid(case["grid"], 24)
    X = T.at(t)
    init = guess(case["init"], T.e)
    c = case["c"]
    con = FUN[c] if isinstance(c, str) else set(CONS[c]) or None
    last = np.inf
    for it in case["its"]:
        rec.at(f"maxiter {it}")
        before = None if init is None else init.copy()
        mk = lambda: BOPDMD(svd_rank=T.r, use_proj=case["proj"], init_alpha=init, eig_constraints=con, varpro_opts_dict=dict(maxiter=it, tol=1e-9)).fit(X, t)
        try:
            d = quiet(mk)
        except (ValueError, np.linalg.LinAlgError) as e:
            if not conforms(T.e, c) and "SVD did not converge" in str(e):
                return      # no such exponents describe the data and the search ran away
            pairs = not isinstance(c, str) and "conjugate_pairs" in CONS[c]
            msg = str(e)
            rec.check(pairs and "conjugate pairs" in msg, "fit failed", message=msg[:200])
            if conforms(T.e, c) and case["init"] in ("true", "off", "scrambled", "default"):
                rec.fail("data of conjugate pairs were refused", message=msg[:100])
            return
        holds(rec, d.eigs, c, f"after {it} iterations", init=init)
        res = np.linalg.norm(X - d.reconstructed_data) / np.linalg.norm(X)
        P = np.exp(np.outer(d.eigs, t)).T
        if np.linalg.cond(P) > 1e5:
            last = np.inf       # nearly coincident exponents: the residual is dominated by rounding
            continue
        rec.check(res <= last * (1 + 1e-6) + 1e-8, "a further iteration made the fit worse", before=last, after=res, iteration=it)
        last = res
        rec.state(key, c if isinstance(c, str) else sorted(CONS[c]), case["proj"], it, d.eigs)
        rec.close(np.linalg.norm(d.modes, axis=0), np.ones(T.r), "modes have not unit norm", tol=1e-10)
        rec.check(np.abs(np.imag(d.amplitudes)).max() == 0 and np.all(np.real(d.amplitudes) >= 0), "amplitudes are not real and non-negative")
        # the modes are optimal for the exponents
        Q = np.linalg.lstsq(P, X.T, rcond=None)[0]
        best = np.linalg.norm(X.T - P @ Q) / np.linalg.norm(X)
        rec.check(res <= best * (1 + 1e-5) + 1e-8, "the modes do not minimise the residual for the returned exponents", residual=res, best=best)
    if conforms(T.e, c) and case["init"] in ("default", "true"):
        rec.check(match(d.eigs, T.e)[0] < 1e-4, "conforming data are not recovered under the constraint", got=d.eigs, want=T.e)


def ends(case, rec):
    """a search which stops before its limit of iterations has reached the tolerance or a point from which a new search gains nothing."""
    T = Truth(case["set"], len(SETS[case["set"]][0]) + 2)
    t = grid(case["grid"], 24)
    X = T.at(t)
    X = X + case["eps"] * np.abs(X).max() * noise(X.shape, 5, not T.real)
    size = np.linalg.norm(X)
    for opt in ({}, {"use_levmarq": False}, {"init_lambda": 0.01}):
        rec.at(f"search {opt}")
        d = quiet(lambda: BOPDMD(svd_rank=T.r, use_proj=False, init_alpha=guess(case["init"], T.e), varpro_opts_dict=dict(opt, maxiter=300, tol=1e-9)).fit(X, t))
        e = quiet(lambda: BOPDMD(svd_rank=T.r, use_proj=False, init_alpha=d.eigs.copy(), varpro_opts_dict=dict(maxiter=300, tol=1e-9)).fit(X, t))
        a, b = (np.linalg.norm(X - z.reconstructed_data) / size for z in (d, e))
        rec.check(a < 1e-8 or b >= a * (1 - 2e-3), "the search stopped although it can go on", residual=a, after_restart=b)
        rec.state(case, d.eigs)


def errors(rec):
    X = Truth("pair", 4).at(grid("uniform", 20))
    t = grid("uniform", 20)
    bad = [{"stable", "imag"}, {"stable", "imag", "conjugate_pairs"}, {"stabel"}, {"imag", "x"}, ["stable"], "stable", ("imag",)]
    for b in bad:
        rec.at("constraint refused")
        rec.raises(lambda: BOPDMD(eig_constraints=b), f"constraints {b!r} accepted")
    for f in (lambda a: a[:1], lambda a: list(a), lambda a, b: a, lambda a: a[0]):
        rec.at("function refused")
        rec.raises(lambda: BOPDMD(svd_rank=2, eig_constraints=f), "an invalid constraint function was accepted")
    for a in (np.zeros(3), np.zeros((2, 1)), [1j, -1j], np.zeros(1)):
        rec.at("guess refused")
        rec.raises(lambda: quiet(lambda: BOPDMD(svd_rank=2, init_alpha=a).fit(X, t)), f"initial guess {a!r} accepted")
    for tt in (t[:-1], np.append(t, 9), np.vstack([t, t])):
        rec.at("time refused")
        rec.raises(lambda: quiet(lambda: BOPDMD(svd_rank=2).fit(X, tt)), "a wrong number of times was accepted")
    U, s, V = np.linalg.svd(X, full_matrices=False)
    for B in (U[:, :1], U[:, :3], U[:, 0], U[:, :2].tolist()):
        rec.at("basis refused")
        rec.raises(lambda: quiet(lambda: BOPDMD(svd_rank=2, proj_basis=B).fit(X, t)), "a wrong basis was accepted")
        rec.raises(lambda: quiet(lambda: BOPDMD(svd_rank=2, proj_basis=B).fit_econ(s[:2], V[:2], t)), "a wrong basis was accepted")
    ok = dict(svd_rank=2, proj_basis=U[:, :2])
    for a in ((s[:3], V[:2], t), (s[:2], V[:3], t), (s[:2], V[:2, :-1], t), (s[:2], V[:2], t[:-1])):
        rec.at("factors refused")
        rec.raises(lambda: quiet(lambda: BOPDMD(**ok).fit_econ(*a)), "wrong factors accepted")
    rec.raises(lambda: BOPDMD(svd_rank=2).fit_econ(s[:2], V[:2], t), "fit_econ without a basis")
    rec.raises(lambda: BOPDMD(use_proj=False, **ok).fit_econ(s[:2], V[:2], t), "fit_econ without projection")
    d = quiet(lambda: BOPDMD(svd_rank=2).fit(X, t))
    rec.raises(lambda: d.A, "A without compute_A")
