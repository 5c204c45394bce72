"""P23: variable-projection fits are stationary and consistent with their samples."""
import numpy as np
from .lib import match, product
from .zoo import VarProDMD, noise

PROPERTY = "P23"
TECHNIQUE = "exhaustive enumeration of exponents x sampling times x options x stopping points x compressions on the real code against an independent variable-projection functional"
ASSUMPTIONS = ["exact recovery is required for at least five samples per e-folding or radian, the regime where the library's finite-difference start is close",
               "stationarity is required when the optimiser reports convergence; eigenvalues whose sorting keys differ by less than 1e-6 may be in any order"]
DESIGN = """
Every set of exponents, sampling grid, size, field, space (projected or original), order and compression is fitted without noise and must give the true
exponents, unit modes, non-negative amplitudes, the data, and the values at other times (before, between, after). With noise, and for
every number of allowed function evaluations (every stopping point of the optimiser), the modes and amplitudes must be the least-squares
optimum for the reported exponents on the reported samples, the residual reported by ssr must be the actual one, and at convergence the gradient of
the independent variable-projection functional vanishes. Selected samples are distinct valid indices of the documented number.
"""
CHUNK = 8
OM = {"one": [-0.4], "osc": [1.3j, -1.3j], "damp": [-0.3 + 2j, -0.3 - 2j], "three": [-0.2 + 1.5j, -0.2 - 1.5j, -0.7], "grow": [0.25, -0.6], "c2": [-0.1 + 0.8j, -0.4 - 1.9j], "c3": [0.1 + 1j, -0.5 - 0.7j, -0.2 + 2.4j],
      "real3": [-0.1, -0.9, -2.5], "four": [0.9j, -0.9j, -0.2 + 2.6j, -0.2 - 2.6j]}
REAL = {"one", "osc", "damp", "three", "grow", "real3", "four"}
TIMES = ["uni", "shift", "irr", "neg", "geom", "coarse"]
COMP = [0.0, 0.25, 0.5, 0.7]
SORT = [False, True, "auto", "real", "imag", "abs"]


def grid(kind, m):
    t = np.linspace(0, 4, m)
    if kind == "shift":
        return t + 1.7
    if kind == "irr":
        return t + 0.3 * (t[1] - t[0]) * np.sin(5 * np.arange(m))
    if kind == "neg":
        return t - 2.5
    if kind == "geom":
        return 4 * (np.expm1(np.linspace(0, 1, m)) / np.expm1(1))
    if kind == "coarse":
        return 1.2 * t
    return t


def make(case):
    w = np.array(OM[case["om"]], complex)
    r, n, m = len(w), case["n"], case["m"]
    t = grid(case["t"], m)
    cplx = case["cplx"]
    if cplx:
        Phi = np.linalg.qr(noise((n, r), 70 + case["salt"], True))[0] @ (np.eye(r) + 0.3 * np.tril(np.ones((r, r)), -1))
        b = np.array([1.5, -1 + 0.5j, 0.7 + 0.8j, 1.1])[:r]
    else:
        B = np.linalg.qr(noise((n, r), 71 + case["salt"]))[0]
        Phi, b, k = np.zeros((n, r), complex), np.ones(r, complex), 0
        while k < r:
            if w[k].imag:
                Phi[:, k] = B[:, k] + 1j * B[:, k + 1]
                Phi[:, k + 1] = Phi[:, k].conj()
                b[k], b[k + 1] = 0.9 - 0.4j, 0.9 + 0.4j
                k += 2
            else:
                Phi[:, k] = B[:, k]
                b[k] = 1.2
                k += 1

    def at(t):
        X = (Phi * b) @ np.exp(np.outer(w, t))
        return X if cplx else X.real
    return w, Phi, b, t, at


def bounds(tier):
    return {"exponents": OM, "times": TIMES, "compression": COMP, "order": [str(s) for s in SORT], "evaluations allowed": NFEV[tier], "sizes": "n 4,6 ; m 25..60"}


NFEV = {"quick": [1, 2, 3, 4, 6, None], "thorough": [1, 2, 3, 4, 5, 6, 7, 8, 10, 15, None]}


def cases(tier):
    full = tier != "quick"
    for om in OM:
        for cplx in ([False, True] if om in REAL else [True]):
            for d in product(t=TIMES, n=[4, 6] if full else [5], m=[40, 25, 60] if full else [40], exact=[False, True], comp=COMP, salt=range(2 if full else 1)):
                yield {"kind": "exact", "om": om, "cplx": cplx, **d}
            for d in product(t=["uni", "irr"], n=[5], m=[30], sort=SORT, exact=[False, True], salt=[0, 1] if full else [0]):
                yield {"kind": "sort", "om": om, "cplx": cplx, **d}
            for d in product(t=["uni", "irr", "neg"] if full else ["irr", "neg"], n=[5], m=[30, 18] if full else [24], exact=[False, True], comp=[0.0, 0.5], nfev=NFEV[tier], eps=[0.02, 0.1, 0.3] if full else [0.02, 0.3], salt=[0, 1, 2] if full else [0]):
                yield {"kind": "stop", "om": om, "cplx": cplx, **d}
    for m in range(2, 41 if tier == "quick" else 101):
        yield {"kind": "count", "m": m}


def run_case(case, rec):
    globals()["_" + case["kind"]](case, rec)


def shape_checks(rec, d, n, r):
    rec.need(d.eigs.shape == (r,) and d.modes.shape == (n, r) and d.amplitudes.shape == (r,), "sizes of the results", eigs=d.eigs.shape, modes=d.modes.shape)
    rec.close(np.linalg.norm(d.modes, axis=0), np.ones(r), "modes have not unit norm", tol=1e-10)
    rec.check(np.all(np.abs(np.imag(d.amplitudes)) == 0) and np.all(np.real(d.amplitudes) >= 0), "amplitudes are not non-negative", got=d.amplitudes)


def samples_ok(rec, d, m, comp, t):
    s = np.asarray(d.selected_samples)
    k = int(np.floor(m * (1 - comp) + 1e-9))
    if comp == 0 or k <= 1:
        rec.check(np.array_equal(np.sort(s), np.arange(m)), "without compression not all samples are used", got=s)
    else:
        rec.check(len(s) in (k, k - (m * (1 - comp) < k)), "number of selected samples", got=len(s), want=k)
    rec.check(len(set(s.tolist())) == len(s) and s.min() >= 0 and s.max() < m, "selected samples are not distinct valid indices", got=s)
    rec.close(d.dmd_time, t[s], "the times of the selected samples are not theirs", tol=1e-12)
    rec.close(d.original_time, t, "the given times are lost", tol=1e-12)
    return s


def _exact(case, rec):
    w, Phi, b, t, at = make(case)
    X = at(t)
    n, m, r = case["n"], case["m"], len(w)
    rec.at("fit")
    d = VarProDMD(svd_rank=r, exact=case["exact"], compression=case["comp"]).fit(X, t)
    shape_checks(rec, d, n, r)
    samples_ok(rec, d, m, case["comp"], t)
    e, p = match(d.eigs, w)
    rec.state(case["om"], case["t"], case["comp"], d.eigs)
    loose = 1 + np.linalg.cond(np.exp(np.outer(t, w))) / 10        # the optimiser stops on relative changes of 1e-8
    rec.need(e < 1e-5 * loose, "exponents are not the true ones", got=d.eigs, want=w)
    W = Phi[:, p] * b[p]
    rec.close(np.abs(np.asarray(d.amplitudes)), np.linalg.norm(W, axis=0), "amplitudes are not the true ones", tol=1e-4 * loose)
    rec.close(d.modes * d.amplitudes, W, "modes are not the true ones", tol=1e-4 * loose)
    rec.close(d.reconstructed_data, X, "the data are not reproduced", tol=1e-5)
    rec.close(d.dynamics, d.amplitudes[:, None] * np.exp(np.outer(d.eigs, t)), "dynamics are not those of the exponents at the given times", tol=1e-10)
    rec.close(d.frequency, d.eigs.imag / 2 / np.pi, "frequencies", tol=1e-10, scale=1.0)
    rec.close(d.growth_rate, d.eigs.real, "growth rates", tol=1e-10, scale=1.0)
    rec.check(d.ssr >= 0 and d.ssr < 1e-4, "the residual of an exact model is not small", got=d.ssr)
    for q in ([t[0] - 0.3], (t[:-1] + t[1:]) / 2, t[-1] + np.array([0.1, 0.9]), t[::-1], np.array([0.0])):
        q = np.asarray(q)
        rec.at("forecast")
        rec.close(d.forecast(q), at(q), "values at other times are not the true ones", tol=1e-4 * loose)


def key(e, how):
    if how == "real":
        return np.abs(e.real)
    if how == "imag":
        return np.abs(e.imag)
    if how == "abs":
        return np.abs(e)
    ks = [np.abs(e.real), np.abs(e.imag), np.abs(e)]
    v = np.array([np.var(k) for k in ks])
    top = np.sort(v)
    # nearly equal variances: any of them
    return [k for k, x in zip(ks, v) if x >= top[-1] - 1e-6 * max(1, top[-1])]


def _sort(case, rec):
    w, Phi, b, t, at = make(case)
    X = at(t)
    rec.at("fit")
    d = VarProDMD(svd_rank=len(w), exact=case["exact"], sorted_eigs=case["sort"]).fit(X, t)
    shape_checks(rec, d, case["n"], len(w))
    e = d.eigs
    rec.state(case["sort"], e)
    how = case["sort"]
    if how is not False:
        ks = key(e, "auto" if how is True else how)
        ks = ks if isinstance(ks, list) else [ks]
        rec.check(any(np.all(np.diff(k) <= 1e-6) for k in ks), "eigenvalues are not in the documented order", order=how, got=e)
    er, p = match(e, w)
    rec.need(er < 1e-5, "exponents are not the true ones", got=e, want=w)
    rec.close(d.modes * d.amplitudes, Phi[:, p] * b[p], "modes and amplitudes are not in the order of the eigenvalues", tol=1e-4)
    rec.close(d.reconstructed_data, X, "the data are not reproduced", tol=1e-5)
    two = VarProDMD(svd_rank=len(w), exact=case["exact"], sorted_eigs=case["sort"])
    two.fit(X[:, ::2], t[::2])
    two.fit(X, t)
    rec.check(np.array_equal(two.eigs, e), "the order depends on an earlier fit", got=two.eigs, want=e)


def _stop(case, rec):
    w, Phi, b, t, at = make(case)
    r, n, m = len(w), case["n"], case["m"]
    X = at(t) + case["eps"] * noise((n, m), 90 + case["salt"], case["cplx"])
    args = {"method": "trf", "tr_solver": "exact", "loss": "linear", "x_scale": "jac", "gtol": 1e-8, "xtol": 1e-8, "ftol": 1e-8}
    if case["nfev"]:
        args["max_nfev"] = case["nfev"]
    rec.at("fit")
    d = VarProDMD(svd_rank=r, exact=case["exact"], compression=case["comp"], optargs=args).fit(X, t)
    shape_checks(rec, d, n, r)
    s = samples_ok(rec, d, m, case["comp"], t)
    st = d.opt_stats
    rec.state(case["nfev"], d.eigs)
    E = np.exp(np.outer(t[s], d.eigs))
    if np.linalg.cond(E) > 1e6 or not np.all(np.isfinite(E)):
        return
    if case["exact"]:
        Z = X[:, s]
        P = None
    else:
        U, sv, Vh = np.linalg.svd(X, full_matrices=False)
        if sv[r - 1] - (sv[r] if r < len(sv) else 0) < 1e-6 * sv[0]:
            return
        P = U[:, :r]
        Z = (P.conj().T @ X)[:, s]
    B = np.linalg.lstsq(E, Z.T, rcond=None)[0]
    best = B.T if P is None else P @ B.T
    rec.close(d.modes * d.amplitudes, best, "modes and amplitudes are not optimal for the reported exponents", tol=1e-5, evaluations=case["nfev"], status=int(st.status))
    R = Z.T - E @ B
    nrm = np.linalg.norm(R)
    if len(s) * Z.shape[0] >= m - r:       # the documented normalisation is one
        rec.close(d.ssr, nrm, "the reported residual is not the actual one", tol=1e-6, scale=max(nrm, 1e-3))
    x = st.x
    rec.check(match(x[:r] + 1j * x[r:], d.eigs)[0] < 1e-12, "eigenvalues are not the optimiser's point")
    if st.status in (1, 2, 3, 4) and np.linalg.cond(E) < 1e4:
        # gradient of 1/2 |R|^2 with respect to the exponents
        g = -np.sum((t[s][:, None] * E).conj() * (R @ B.conj().T), axis=0)
        size = nrm * np.sqrt(np.sum(np.abs(t[s][:, None] * E) ** 2, axis=0)) * np.linalg.norm(B, axis=1)
        rec.check(np.all(np.abs(g) <= 2e-3 * size + 1e-7 * np.linalg.norm(Z) ** 2), "the converged exponents are not a stationary point", gradient=np.abs(g) / size, status=int(st.status))


def _count(case, rec):
    from pydmd.varprodmd import select_best_samples_fast
    m = case["m"]
    X = noise((3, m), m, m % 2 == 0)
    for c in np.arange(1, 20) / 20:
        rec.at(f"compression {c:.2f}")
        s = np.asarray(select_best_samples_fast(X, float(c)))
        k = int(np.floor(m * (1 - c) + 1e-9))
        rec.check(len(s) in (k, k - (m * (1 - c) < k)), "number of selected samples", got=len(s), want=k, compression=c)
        rec.check(len(set(s.tolist())) == len(s) and all(0 <= i < m for i in s), "selected samples are not distinct valid indices", got=s)
        if len(s):
            nr = np.linalg.norm(X, axis=0)
            rec.check(nr[s[0]] >= nr.max() * (1 - 1e-12), "the first selected sample is not the largest one")
            if len(s) > 1:
                P = X - np.outer(X[:, s[0]], X[:, s[0]].conj() @ X) / nr[s[0]] ** 2
                pr = np.linalg.norm(P, axis=0)
                rec.check(pr[s[1]] >= pr.max() * (1 - 1e-6), "the second selected sample is not the most independent one")
        rec.state(m, float(c), s)
    for bad in (0, 1, 1.0, -0.1, 1.5):
        rec.raises(lambda: select_best_samples_fast(X, bad), f"compression {bad}", ValueError)
    rec.raises(lambda: select_best_samples_fast(X[0], 0.5), "data which are no matrix", ValueError)
