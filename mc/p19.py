"""P19: time-delay forced linear models (HAVOK)."""
import itertools
import numpy as np
from scipy.linalg import expm
from . import lib, ref

PROPERTY = "P19"
TECHNIQUE = "exhaustive enumeration of signal sizes x delays x lags x model options on the real code, judged against a reference built entry by entry"
ASSUMPTIONS = ["undoing a delay matrix is judged on samples the matrix contains (lag <= number of columns)",
               "signals are real, as HAVOK documents"]
CHUNK = 20


def cases(tier):
    mmax = 9 if tier == "quick" else 13
    for n, m, d, lag in itertools.product([1, 2, 3], range(1, mmax + 1), range(1, 6), range(1, 5)):
        yield dict(kind="hankel", n=n, m=m, d=d, lag=lag)
    for sig, d, lag, rank, chaos, structured, lstsq, tkind in itertools.product(
            ["chirp", "two", "three"], [4, 5, 7], [1, 2], [-1, 0, 3, 4, 0.99], [1, 2], [False, True], [True, False],
            ["dt", "vec0", "vec5", "list"]):
        yield dict(kind="fit", sig=sig, d=d, lag=lag, rank=rank, chaos=chaos, structured=structured, lstsq=lstsq, t=tkind, dmd=None)
    # an event at one end of the record: the two shifted delay matrices have different ranks by the rule
    for sig, d, rank, chaos, structured, lstsq in itertools.product(["pulse", "burst"], [4, 5, 7], [0, 0.5, 0.7, 0.9, 0.99], [1, 2], [False, True], [True, False]):
        yield dict(kind="fit", sig=sig, d=d, lag=1, rank=rank, chaos=chaos, structured=structured, lstsq=lstsq, t="dt", dmd=None)
    for sig, d, rank, chaos, structured, dmd, tkind in itertools.product(["chirp", "two"], [5], [3, 4], [1, 2], [False, True],
                                                                 ["DMD", "DMDexact"], ["dt", "vec5"]):
        yield dict(kind="fit", sig=sig, d=d, lag=1, rank=rank, chaos=chaos, structured=structured, lstsq=True, t=tkind, dmd=dmd)
    for sig, rank, chaos in itertools.product(["two"], [3, 4], [1, 2]):
        yield dict(kind="bop", sig=sig, d=5, lag=1, rank=rank, chaos=chaos)
    for f, p, bins in itertools.product(["norm", "skew", "index", "small"], [0, 1, -1, 0.01, 0.2, 0.5, 0.9], [10, 25, 50]):
        yield dict(kind="thr", f=f, p=p, bins=bins)
    for n in range(1, 5):
        for m in range(3, 8):
            yield dict(kind="diff", n=n, m=m)


def signal(name):
    t = np.arange(60) * 0.05
    if name == "chirp":
        return np.sin(2 * t + 0.8 * t ** 2)[None] + 0.3 * np.cos(5 * t)[None]
    if name in ("pulse", "burst"):
        t = t[:30]
        g = np.random.RandomState(5)
        return (np.sin(9 * t) + 0.3 * g.randn(30) + 6 * (np.arange(30) == (0 if name == "pulse" else 29)))[None]
    if name == "two":
        return np.vstack([np.sin(3 * t) + 0.4 * np.cos(7.1 * t) * np.exp(-0.3 * t), np.cos(2 * t) + 0.2 * t])
    return np.vstack([np.sin(3 * t), np.cos(2 * t + 0.4) * np.exp(0.1 * t), np.sin(5.3 * t) + 0.1 * t ** 2])


def hank(X, d, lag):
    n, m = X.shape
    w = m - (d - 1) * lag
    H = np.zeros((n * d, w))
    for i in range(d):
        for j in range(n):
            for k in range(w):
                H[i * n + j, k] = X[j, k + i * lag]
    return H


def fd(V, dt):
    out = np.zeros_like(V)
    out[1:-1] = (V[2:] - V[:-2]) / (2 * dt)
    out[0] = (-3 * V[0] + 4 * V[1] - V[2]) / (2 * dt)
    out[-1] = (3 * V[-1] - 4 * V[-2] + V[-3]) / (2 * dt)
    return out


def simulate(A, B, U, dt, x0):
    """dx = A x + B u with piecewise linear u: exact step by an augmented exponential."""
    n, k = B.shape
    M = np.zeros((n + 2 * k, n + 2 * k), dtype=np.result_type(A, float))
    M[:n, :n] = A * dt
    M[:n, n:n + k] = B * dt
    M[n:n + k, n + k:] = np.eye(k)
    E = expm(M)
    x = np.asarray(x0)
    out = [x]
    for j in range(len(U) - 1):
        x = E[:n, :n] @ x + E[:n, n:n + k] @ U[j] + E[:n, n + k:] @ (U[j + 1] - U[j])
        out.append(x)
    return np.array(out)


def run_case(c, rec):
    import pydmd
    if c["kind"] == "diff":
        from pydmd.utils import differentiate
        g = np.random.RandomState(c["n"] + 10 * c["m"])
        X = g.randn(c["n"], c["m"])
        rec.at("differentiate")
        rec.close(differentiate(X, 0.3), np.squeeze(fd(X.T, 0.3).T), "finite differences are not second order", tol=1e-10)
        rec.close(differentiate(X[0], 0.3), fd(X[:1].T, 0.3).T[0], "finite differences are not second order", tol=1e-10)
        # quadratic signals are differentiated exactly
        t = np.arange(c["m"]) * 0.3
        Q = np.vstack([1 + 2 * t + (k + 1) * t ** 2 for k in range(c["n"])])
        D = np.vstack([2 + 2 * (k + 1) * t for k in range(c["n"])])
        rec.close(np.atleast_2d(differentiate(Q, 0.3)), D, "quadratics are not differentiated exactly", tol=1e-9)
        rec.state(c["n"], c["m"])
        return
    if c["kind"] == "hankel":
        n, m, d, lag = c["n"], c["m"], c["d"], c["lag"]
        X = np.arange(1, n * m + 1, dtype=float).reshape(n, m) ** 1.3
        h = pydmd.HAVOK(delays=d, lag=lag)
        w = m - (d - 1) * lag
        rec.at("hankel")
        if w < 1:
            rec.raises(lambda: h.hankel(X), "too short a signal is accepted", ValueError)
            return
        H = h.hankel(X.copy())
        rec.close(H, hank(X, d, lag), "delay matrix entries are not the signal at the documented times", tol=0.0)
        if n == 1:
            rec.close(h.hankel(X[0].copy()), hank(X, d, lag), "a one-dimensional signal gives another delay matrix", tol=0.0)
        rec.at("dehankel")
        if lag <= w:
            rec.close(h.dehankel(H), np.squeeze(X), "undoing the delay matrix is not the identity", tol=0.0)
        rec.state(n, m, d, lag)
        return
    if c["kind"] == "thr":
        return threshold(c, rec)
    X = signal(c["sig"])
    d, lag, chaos = c["d"], c["lag"], c["chaos"]
    dt = 0.05
    m = X.shape[1]
    kw = dict(svd_rank=c["rank"], delays=d, lag=lag, num_chaos=chaos)
    if c["kind"] == "bop":
        h = pydmd.HAVOK(dmd=pydmd.BOPDMD(svd_rank=c["rank"]), **kw)
        t = np.arange(m) * dt
        rec.at("fit")
        h.fit(X.copy(), t)
        O = np.asarray(h.operator)
        rec.need(O.shape == (c["rank"], c["rank"]), "operator has the wrong size", got=O.shape)
        e, _ = lib.match(h.eigs, np.linalg.eigvals(O[:-chaos, :-chaos]))
        rec.check(e < 1e-8, "eigenvalues are not those of the linear part")
        rec.close(h.A, O[:-chaos, :-chaos], "A is not the linear block", tol=0.0)
        rec.close(h.B, O[:-chaos, -chaos:], "B is not the forcing block", tol=0.0)
        rec.state(O.shape, c["sig"])
        return
    structured = c["structured"]
    H = hank(X, d, lag)
    Hs = H[:, :-1] if structured else H
    s = np.linalg.svd(Hs, compute_uv=False)
    from .p09 import degenerate
    if degenerate(s, Hs.shape, c["rank"]):
        return
    r = ref.rank_rule(s, *Hs.shape, c["rank"])
    if s[r - 1] < 1e-7 * s[0] or (structured and np.linalg.svd(H[:, 1:], compute_uv=False)[r - 1] < 1e-7 * s[0]):
        return
    dmd = None
    if c["dmd"] == "DMD":
        dmd = pydmd.DMD(svd_rank=-1)
    elif c["dmd"] == "DMDexact":
        dmd = pydmd.DMD(svd_rank=-1, exact=True)
    h = pydmd.HAVOK(structured=structured, lstsq=c["lstsq"], dmd=dmd, **kw)
    t0 = 5.0 if c["t"] == "vec5" else 0.0
    times = t0 + np.arange(m) * dt
    targ = {"dt": dt, "vec0": times, "vec5": times, "list": list(times)}[c["t"]]
    rec.at("fit")
    if r < chaos + 1:
        rec.raises(lambda: h.fit(X.copy(), targ), "fewer coordinates than forcing terms are accepted", ValueError)
        return
    h.fit(X.copy(), targ)
    rec.at("query")
    rec.check(h.r == r, "rank is not the documented one", got=int(h.r), want=r)
    rec.close(h.ho_snapshots, H, "stored delay matrix is not the delay matrix", tol=0.0)
    rec.close(h.snapshots, np.squeeze(X), "stored signal differs", tol=0.0)
    rec.close(h.time, times, "stored times differ", tol=1e-12)
    V = np.asarray(h.delay_embeddings)
    U, sv = np.asarray(h.modes), np.asarray(h.singular_vals)
    rec.need(V.shape == (Hs.shape[1], r) and U.shape == (Hs.shape[0], r), "coordinates have the wrong shape", got=V.shape)
    rec.close(sv, s[:r], "singular values are not the leading ones", tol=1e-8)
    rec.close((U * sv) @ V.T, ref_trunc(Hs, r), "coordinates do not reproduce the delay matrix", tol=1e-8)
    rec.close(h.linear_dynamics, V[:, :-chaos], "linear coordinates are not the leading ones", tol=0.0)
    rec.close(h.forcing, V[:, -chaos:], "forcing is not the trailing coordinates", tol=0.0)
    O = np.asarray(h.operator)
    rec.need(O.shape == (r, r), "operator has the wrong size", got=O.shape)
    rec.close(h.A, O[:-chaos, :-chaos], "A is not the linear block", tol=0.0)
    rec.close(h.B, O[:-chaos, -chaos:], "B is not the forcing block", tol=0.0)
    e, _ = lib.match(h.eigs, np.linalg.eigvals(O[:-chaos, :-chaos]))
    rec.check(e <= 1e-8 * max(1, np.abs(O).max()), "eigenvalues are not those of the linear part")
    # regression
    if structured:
        V2 = np.linalg.svd(H[:, 1:], full_matrices=False)[2].T[:, :r]
        want = None
        for V2s in sign_variants(V2, V):
            Vd = (V2s - V) / dt
            W = np.linalg.lstsq(V, Vd, rcond=None)[0].T
            if want is None or np.abs(W - O).max() < np.abs(want - O).max():
                want = W
    else:
        Vd = fd(V, dt)
        want = np.linalg.lstsq(V, Vd, rcond=None)[0].T
    tol = 1e-6 if dmd is None else 1e-5
    rec.close(O, want, "operator is not the regression of the derivative on the coordinates", tol=tol)
    # replay
    rec.at("reconstructed_embeddings")
    A, B = np.asarray(h.A), np.asarray(h.B)
    if np.iscomplexobj(A):
        if np.abs(A.imag).max() > 1e-8 * np.abs(A).max():
            return
    sim = simulate(A.real, B.real, V[:, -chaos:], dt, V[0, :-chaos])
    if not np.all(np.isfinite(sim)) or np.abs(sim).max() > 1e3:
        return
    if dmd is None:
        rec.close(h.reconstructed_embeddings, sim, "reconstruction is not the model driven with its own forcing", tol=1e-5)
        Xr = dehank((U[:, :-chaos] * sv[:-chaos]) @ sim.T, d, lag, X.shape[0])
        rec.at("reconstructed_data")
        rec.close(h.reconstructed_data, np.squeeze(Xr), "reconstructed data are not the lifted reconstruction", tol=1e-5)
        rec.at("predict")
        k = 7
        f = np.asarray(h.forcing)
        tt = times[:len(f)]
        for V0, lab in [(k, "index"), (V[k, :-chaos].copy(), "state")]:
            got = h.predict(f[k:], tt[k:], V0)
            sim2 = simulate(A.real, B.real, V[k:, -chaos:], dt, V[k, :-chaos])
            Xw = dehank((U[:, :-chaos] * sv[:-chaos]) @ sim2.T, d, lag, X.shape[0])
            if np.abs(sim2).max() < 1e3:
                rec.close(got, np.squeeze(Xw), "prediction is not the model driven from the given state and time", tol=1e-5, start=lab)
        if np.iscomplexobj(f) is False and lag == 1:
            got = h.predict(f[-3:], tt[-3:], -3)
            sim3 = simulate(A.real, B.real, V[-3:, -chaos:], dt, V[-3, :-chaos])
            Xw = dehank((U[:, :-chaos] * sv[:-chaos]) @ sim3.T, d, lag, X.shape[0])
            rec.close(got, np.squeeze(Xw), "prediction is not the model driven from the given state and time", tol=1e-5, start="-3")
        got = h.predict(f, tt)
        rec.close(got, np.squeeze(Xr), "prediction with the training forcing is not the reconstruction", tol=1e-5)
    rec.state(c["sig"], d, lag, r, chaos, structured, O)


def ref_trunc(H, r):
    U, s, Vh = np.linalg.svd(H, full_matrices=False)
    return (U[:, :r] * s[:r]) @ Vh[:r]


def sign_variants(V2, V):
    """The two truncated decompositions may differ by signs only; both choices are admissible."""
    yield V2
    k = V2.shape[1]
    n = min(len(V), len(V2))
    sg = np.sign(np.sum(V2[:n] * V[:n], axis=0))
    sg[sg == 0] = 1
    yield V2 * sg


def dehank(H, d, lag, n):
    w = H.shape[1]
    X = np.zeros((n, w + (d - 1) * lag))
    for i in range(d):
        X[:, i * lag:i * lag + w] = H[i * n:(i + 1) * n]
    return X


def threshold(c, rec):
    import pydmd
    from scipy.stats import norm
    g = np.random.RandomState(3)
    h = pydmd.HAVOK(svd_rank=4, delays=5, num_chaos=2)
    h.fit(signal("two"), 0.05)
    f = {"norm": g.randn(400), "skew": g.exponential(size=300) - 0.5, "index": None, "small": g.randn(40) ** 3}[c["f"]]
    arg = 1 if c["f"] == "index" else f.copy()
    vals = np.asarray(h.forcing)[:, 1] if c["f"] == "index" else f
    p, bins = c["p"], c["bins"]
    hy, hx = np.histogram(vals, bins=bins, density=True)
    cx = 0.5 * (hx[:-1] + hx[1:])
    hy = hy / hy.sum()
    mu, sd = vals.mean(), vals.std()
    ga = norm.pdf(cx, mu, sd)
    ga = ga / ga.sum()
    rec.at("compute_threshold")
    if isinstance(p, int):
        a = ga - hy
        idx = [i for i in range(len(a) - 1) if a[i] * a[i + 1] < 0]
        cand = sorted(0.5 * (abs(cx[i]) + abs(cx[i + 1])) for i in idx)
        if not (-len(cand) <= p < len(cand)):
            rec.raises(lambda: h.compute_threshold(arg, p=p, bins=bins), "a missing candidate is answered", IndexError)
            return
        want = cand[p]
    else:
        cs = np.cumsum(hy)
        if np.min(np.abs(cs - 0.5 * p)) < 1e-9 or np.min(np.abs(1 - cs - 0.5 * p)) < 1e-9:
            return
        i1 = next(i for i in range(len(cs)) if cs[i] > 0.5 * p)
        i2 = next(i for i in range(len(cs)) if 1 - cs[i] < 0.5 * p)
        want = 0.5 * (abs(cx[i1]) + abs(cx[i2]))
    got = h.compute_threshold(arg, p=p, bins=bins)
    rec.close(got, want, "threshold is not what the tail rule dictates", tol=1e-9)
    rec.state(c["f"], p, bins, float(want))


def bounds(tier):
    return dict(delay_matrices="n in 1..3, m in 1..%d, delays 1..5, lag 1..4" % (9 if tier == "quick" else 13),
                models="3 signals x 3 delays x 2 lags x 5 ranks x 2 forcing widths x structured x lstsq x 4 time inputs, DMD and BOPDMD regressors")
