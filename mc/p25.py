"""P25: defining equations hold on arbitrary data, every option combination."""
import numpy as np
from . import lib, ref
from .lib import product
from .p03 import FB, OPT

PROPERTY = "P25"
TECHNIQUE = "exhaustive enumeration of data matrices x options on the real code, judged against reference equations in numpy"
ASSUMPTIONS = ["data catalogue in mc/p25.py (arbitrary, noisy, rank-deficient, integer, complex, tall, wide)",
               "tolerance 1e-6; eigenvalue clusters are avoided by the catalogue"]
CHUNK = 30
TOL = 1e-6

DATA = ["tall", "wide", "sq", "c-tall", "c-wide", "noisy", "int", "deficient", "short", "row", "scaled"]


def data(name):
    g = np.random.RandomState(abs(hash_(name)) % 2 ** 31)
    if name == "tall":
        return g.randn(9, 5)
    if name == "wide":
        return g.randn(4, 9)
    if name == "sq":
        return g.randn(5, 6)
    if name == "c-tall":
        return g.randn(7, 5) + 1j * g.randn(7, 5)
    if name == "c-wide":
        return g.randn(3, 8) + 1j * g.randn(3, 8)
    if name == "noisy":
        S = lib.System("pair+real", 6, False)
        return S.data(9) + 1e-2 * g.randn(6, 9)
    if name == "int":
        return g.randint(-5, 6, size=(4, 7))
    if name == "deficient":
        return g.randn(6, 3) @ g.randn(3, 8)
    if name == "short":
        return g.randn(6, 3)
    if name == "row":
        return g.randn(1, 6)
    if name == "scaled":
        return g.randn(5, 7) * np.array([1e3, 10, 1, 0.1, 5])[:, None]
    raise KeyError(name)


def hash_(s):
    h = 7
    for ch in s:
        h = h * 131 + ord(ch)
    return h


def cases(tier):
    thorough = tier == "thorough"
    for d in DATA:
        m = data(d).shape[1]
        ranks = [-1, 1, 2, 3, 0.6, 0.95, 0] if d != "deficient" else [1, 2, 3, 0.6, 0]
        tlsqs = [0, 2, 3, 50] if d != "deficient" else [0, 3]
        for c in product(cls=["DMD"], rank=ranks, exact=[False, True], opt=[False, True, 1, -1, -2],
                         rescale=[None, "auto", "ones", "array"], fb=[False, True], sort=[False, "abs", "real"],
                         tlsq=tlsqs, tik=[None, 0.0, 0.01, 1], pair=[False, True]):
            if not thorough:
                if c["rescale"] == "ones" and c["tlsq"] not in (0, 2):
                    continue
                if c["tlsq"] in (3, 50) and (c["sort"] == "real" or c["opt"] in (-2,)):
                    continue
                if c["tik"] == 0.0 and c["sort"]:
                    continue
                if c["pair"] and (c["tlsq"] not in (0, 2) or c["sort"] == "abs" or c["rescale"] == "ones"):
                    continue
                if c["tik"] == 1 and (c["rescale"] == "array" or c["sort"] == "real"):
                    continue
                if c["fb"] and (c["opt"] in (1, -2) or c["tik"] == 1):
                    continue
                if c["rank"] in (0.6, 0) and (c["sort"] == "abs" or c["rescale"] in ("ones", "array") or c["opt"] == -2):
                    continue
            yield dict(data=d, **c)
        for c in product(cls=["CDMD", "RDMD"], rank=ranks, opt=[False, True, 1, -1], rescale=[None, "auto"], fb=[False, True],
                         sort=[False, "abs", "real"], tlsq=tlsqs[:2], tik=[None, 0.05]):
            if d in ("deficient",) and c["rank"] in (-1,):
                continue
            yield dict(data=d, **c)
        for c in product(cls=["SubspaceDMD"], rank=[-1, 1, 2, 3], opt=[False, True, 1, -1], rescale=[None, "auto"], sort=[False, "abs", "real"]):
            if m >= 5:
                yield dict(data=d, **c)
        for c in product(cls=["OptDMD"], fact=["svd", "evd"], rank=ranks, tlsq=tlsqs, pair=[False, True]):
            yield dict(data=d, **c)
        if not d.startswith("c-"):
            for c in product(cls=["EDMD"], rank=[-1, 2, 3, 0.7, 0.99], opt=[False, True, -1], tlsq=tlsqs[:2], pair=[False, True],
                             kernel=["linear", "poly2", "rbf", "sigmoid"]):
                yield dict(data=d, **c)


def run_case(c, rec):
    D = data(c["data"])
    k = c["cls"]
    if k in ("DMD", "CDMD", "RDMD"):
        return linear(c, rec, D)
    if k == "SubspaceDMD":
        return subspace(c, rec, D)
    if k == "OptDMD":
        return optdmd(c, rec, D)
    if k == "EDMD":
        return edmd(c, rec, D)


def separated(lam, floor=1e-5):
    lam = np.asarray(lam, complex)
    if not len(lam):
        return True
    s = np.abs(lam[:, None] - lam[None]) + np.eye(len(lam)) * 1e9
    return s.min() > floor * max(1.0, np.abs(lam).max())


def linear(c, rec, D):
    import pydmd
    pair = c.get("pair", False)
    X, Y = D[:, :-1], D[:, 1:]
    target = X if pair else D
    m = target.shape[1]
    opt = c["opt"]
    if not isinstance(opt, bool) and not (-m <= opt < m):
        return
    if pair and X.shape[1] < 2:
        return
    C = None
    if c["cls"] == "CDMD":
        C = np.random.RandomState(4).randn(max(2, D.shape[0] - 2), D.shape[0])
    T = None
    if c["cls"] == "RDMD":
        T = np.random.RandomState(5).randn(D.shape[1], max(2, min(D.shape) - 1))
        Q = np.linalg.qr(D @ T)[0]
        C = Q.conj().T
    Z = X if C is None else C @ X
    Zt, Yt = ref.tlsq(Z, Y if C is None else C @ Y, c["tlsq"])
    U, s, V = ref.svd(Zt, c["rank"])
    if s[-1] < 1e-8 * s[0]:
        return        # the truncated data are numerically rank deficient: 1/s is rounding noise
    full = np.linalg.svd(Zt, compute_uv=False)
    k = len(s)
    if k < len(full) and full[k - 1] - full[k] < 1e-6 * full[0]:
        return        # cut inside a cluster
    if c["fb"]:
        sy = np.linalg.svd(Yt, compute_uv=False)
        if len(sy) < k or sy[min(k, len(sy)) - 1] < 1e-8 * sy[0]:
            return
    rescale = c["rescale"]
    if rescale == "ones":
        rescale = np.ones(k)
    elif rescale == "array":
        rescale = 0.4 + 0.7 * np.arange(k)
    exact = c.get("exact", True)
    kw = dict(exact=exact, fb=c["fb"], rescale=rescale, sort=c["sort"], tik=c["tik"], tlsq_rank=c["tlsq"], compress=C)
    fbr = None if c["cls"] == "DMD" else c["rank"]
    try:
        R = ref.RefDMD(X, Y, c["rank"], fb_rank=fbr, **kw)
    except np.linalg.LinAlgError:
        return
    except ValueError:
        return
    if c["fb"] and (not np.all(np.isfinite(R.A)) or not separated(R.eigs) or np.abs(R.eigs).min() < 1e-4):
        return
    if c["cls"] == "DMD":
        dmd = pydmd.DMD(svd_rank=c["rank"], tlsq_rank=c["tlsq"], exact=exact, opt=opt, rescale_mode=rescale,
                        forward_backward=c["fb"], sorted_eigs=c["sort"], tikhonov_regularization=c["tik"])
    elif c["cls"] == "CDMD":
        dmd = pydmd.CDMD(svd_rank=c["rank"], tlsq_rank=c["tlsq"], compression_matrix=C.copy(), opt=opt, rescale_mode=rescale,
                         forward_backward=c["fb"], sorted_eigs=c["sort"], tikhonov_regularization=c["tik"])
    else:
        dmd = pydmd.RDMD(svd_rank=c["rank"], tlsq_rank=c["tlsq"], test_matrix=T.copy(), power_iters=0, opt=opt, rescale_mode=rescale,
                         forward_backward=c["fb"], sorted_eigs=c["sort"], tikhonov_regularization=c["tik"])
    rec.at("fit")
    if pair:
        dmd.fit(X.copy(), Y.copy())
    else:
        dmd.fit(D.copy())
    rec.at("eigs")
    eigs = np.asarray(dmd.eigs)
    rec.need(len(eigs) == len(R.eigs), "number of modes is not what the rank rule dictates", got=len(eigs), want=len(R.eigs))
    scale = max(1e-3, np.abs(R.eigs).max())
    tol = TOL if not c["fb"] else 1e-5
    err, perm = lib.match(eigs, R.eigs)
    if c["fb"] and k > 1:
        G = ref.RefDMD(X, Y, c["rank"], fb_rank=fbr, fb_basis="common", **kw)
        e2, p2 = lib.match(eigs, G.eigs)
        if e2 <= tol * scale:
            R, err, perm = G, e2, p2
        elif err <= tol * scale:
            rec.fail(FB)
    rec.need(err <= tol * scale, "eigenvalues are not those of the regularised least-squares operator", got=eigs, want=R.eigs)
    rec.check(lib.is_sorted(eigs, c["sort"]), "eigenvalues are not in the requested order", eigs=eigs)
    A = np.asarray(dmd.operator.as_numpy_array)
    rec.check(A.shape == (k, k), "reduced operator has the wrong shape", got=A.shape)
    err, _ = lib.match(np.linalg.eigvals(A), eigs)
    rec.check(err <= 10 * tol * scale, "reported eigenvalues are not those of the reported operator")
    rec.at("modes")
    Phi = np.asarray(dmd.modes)
    rec.need(Phi.shape == (D.shape[0], k), "modes have the wrong shape", got=Phi.shape)
    if separated(R.eigs, 1e-4):
        W = R.modes[:, perm]
        a = np.sum(W.conj() * Phi, axis=0)
        na, nb = np.linalg.norm(W, axis=0), np.linalg.norm(Phi, axis=0)
        rec.close(nb, na, "modes do not have the documented length", tol=1e-5)
        rec.check(np.all(np.abs(a) >= (1 - 1e-7) * na * nb - 1e-9), "modes are not the documented lifting of the eigenvectors",
                  cos=np.abs(a) / np.maximum(na * nb, 1e-30))
    rec.at("amplitudes")
    b = np.asarray(dmd.amplitudes)
    rec.need(b.shape == (k,), "amplitudes have the wrong shape", got=b.shape)
    if opt is True:
        sc = np.linalg.norm(target)
        G = ref.best_all(Phi, eigs, target)
        VA = np.vander(eigs, m, True)
        P = (Phi.conj().T @ Phi) * np.conj(VA @ VA.conj().T)
        if np.linalg.cond(P) < 1e9:
            rb = np.linalg.norm(target - Phi @ (b[:, None] * VA))
            rg = np.linalg.norm(target - Phi @ (G[:, None] * VA))
            if rb > rg + 1e-6 * sc or not np.allclose(b, G, rtol=1e-4, atol=1e-5 * max(1e-12, np.abs(G).max())):
                pinned = False
                if not exact and c["cls"] == "DMD":
                    Wp = np.asarray(dmd.operator.eigenvectors)
                    Xs = target if pair else target[:, :-1]
                    _, sv, Vx = ref.svd(Xs, k)
                    q = np.conj(np.diag(VA[:, :Xs.shape[1]] @ (Vx * sv) @ Wp))
                    pinned = np.allclose(b, np.linalg.solve(P, q), rtol=1e-4, atol=1e-5 * max(1e-12, np.abs(b).max()))
                if pinned:
                    rec.fail(OPT)
                else:
                    rec.fail("amplitudes are not the least-squares optimum over all snapshots", got=b, want=G, rb=rb, rg=rg)
    else:
        j = 0 if opt is False else opt
        want = np.linalg.lstsq(Phi, target[:, j], rcond=None)[0]
        if np.linalg.cond(Phi) < 1e9:
            rec.close(b, want, "amplitudes are not the least-squares fit of the chosen snapshot", tol=1e-5)
    rec.at("derived")
    derived(rec, dmd, Phi, eigs, b, target, opt, D)
    rec.state(c["data"], k, np.sort_complex(eigs), b)


def derived(rec, dmd, Phi, eigs, b, target, opt, D, predict=True):
    m = target.shape[1]
    j = 0 if isinstance(opt, bool) else (opt if opt >= 0 else m + opt)
    nz = np.abs(eigs).min() > 1e-9
    if nz:
        rec.close(dmd.frequency, np.angle(eigs) / (2 * np.pi), "frequency is not the phase of the eigenvalues", tol=1e-9, scale=1.0)
    rec.close(dmd.growth_rate, eigs.real, "growth rate does not follow from the eigenvalues", tol=1e-9, scale=max(1.0, np.abs(eigs).max()))
    if nz or j == 0:
        t = np.arange(m) - j
        dyn = b[:, None] * np.asarray(eigs, complex)[:, None] ** t[None]
        rec.close(dmd.dynamics, dyn, "dynamics are not amplitudes times powers of the eigenvalues", tol=1e-7)
        rec.close(dmd.reconstructed_data, Phi @ dyn, "reconstruction is not modes times dynamics", tol=1e-7,
                  scale=max(1e-12, np.abs(Phi).max() * np.abs(dyn).max()))
    if predict and hasattr(dmd, "predict"):
        want = Phi @ (eigs[:, None] * (np.linalg.pinv(Phi) @ D))
        if np.linalg.cond(Phi) < 1e8:
            rec.close(dmd.predict(D), want, "prediction is not one step of the fitted model", tol=1e-6)
    rec.close(dmd.snapshots, target, "stored snapshots differ from the data", tol=0.0)


def subspace(c, rec, D):
    import pydmd
    n = D.shape[0]
    m = D.shape[1]
    Yp = np.vstack([D[:, :-3], D[:, 1:-2]])
    Yf = np.vstack([D[:, 2:-1], D[:, 3:]])
    P = np.linalg.pinv(Yp, rcond=1e-12) @ Yp
    O = Yf @ P
    Uq, so, _ = np.linalg.svd(O)
    rk = int(np.sum(so > so[0] * 1e-10))
    r = min(rk, n) if c["rank"] == -1 else min(rk, n, c["rank"])
    U1, U2 = Uq[:n, :r], Uq[n:, :r]
    s1 = np.linalg.svd(U1, compute_uv=False)
    if s1[-1] < 1e-6 or (r < len(so) and so[r - 1] - so[r] < 1e-6 * so[0]):
        return
    A = U2 @ np.linalg.pinv(U1)
    lam = np.linalg.eigvals(A)
    lam = lam[np.argsort(-np.abs(lam))][:r]
    if np.abs(lam).min() < 1e-6:
        return
    opt = c["opt"]
    dmd = pydmd.SubspaceDMD(svd_rank=c["rank"], opt=opt, rescale_mode=c["rescale"], sorted_eigs=c["sort"])
    rec.at("fit")
    dmd.fit(D.copy())
    rec.at("eigs")
    eigs = np.asarray(dmd.eigs)
    rec.need(len(eigs) == r, "number of modes is not what the rank rule dictates", got=len(eigs), want=r)
    err, _ = lib.match(eigs, lam)
    rec.check(err <= TOL * max(1, np.abs(lam).max()), "eigenvalues are not those of the subspace operator", got=eigs, want=lam)
    rec.check(lib.is_sorted(eigs, c["sort"]), "eigenvalues are not in the requested order", eigs=eigs)
    rec.at("modes")
    Phi = np.asarray(dmd.modes)
    rec.need(Phi.shape == (n, r), "modes have the wrong shape")
    nb = np.linalg.norm(Phi, axis=0)
    rec.close(A @ (Phi / nb), Phi / nb * eigs, "modes are not eigenvectors of the subspace operator", tol=1e-5, scale=max(1, np.abs(lam).max()))
    rec.at("amplitudes")
    b = np.asarray(dmd.amplitudes)
    if opt is True:
        G = ref.best_all(Phi, eigs, D)
        VA = np.vander(eigs, m, True)
        if np.linalg.cond((Phi.conj().T @ Phi) * np.conj(VA @ VA.conj().T)) < 1e9:
            rec.close(b, G, "amplitudes are not the least-squares optimum over all snapshots", tol=1e-4)
    elif np.linalg.cond(Phi) < 1e8:
        rec.close(b, np.linalg.lstsq(Phi, D[:, 0 if opt is False else opt], rcond=None)[0],
                  "amplitudes are not the least-squares fit of the chosen snapshot", tol=1e-5)
    rec.at("derived")
    derived(rec, dmd, Phi, eigs, b, D, opt, D)
    rec.state(c["data"], r, np.sort_complex(eigs))


def optdmd(c, rec, D):
    """Optimal low-rank operator: P Q^H with P the leading directions of Y P_X."""
    import pydmd
    pair = c["pair"]
    X, Y = D[:, :-1], D[:, 1:]
    if X.shape[1] < 2:
        return
    Xt, Yt = ref.tlsq(X, Y, c["tlsq"])
    sx = np.linalg.svd(Xt, compute_uv=False)
    rx = int(np.sum(sx > 1e-10 * sx[0]))
    if np.any((sx > 1e-14 * sx[0]) & (sx < 1e-6 * sx[0])) or sx[rx - 1] < 1e-6:
        return
    pX = np.linalg.pinv(Xt, rcond=1e-10)
    Z = Yt @ pX @ Xt
    U, s, V = ref.svd(Z, c["rank"])
    full = np.linalg.svd(Z, compute_uv=False)
    k = len(s)
    if s[-1] < 1e-8 * s[0] or (k < len(full) and full[k - 1] - full[k] < 1e-6 * full[0]):
        return
    A = U @ (U.conj().T @ Yt @ pX)
    dmd = pydmd.OptDMD(factorization=c["fact"], svd_rank=c["rank"], tlsq_rank=c["tlsq"])
    rec.at("fit")
    if pair:
        dmd.fit(X.copy(), Y.copy())
    else:
        dmd.fit(D.copy())
    sc = max(1.0, np.linalg.norm(A, 2))
    if c["fact"] == "evd":
        lam = np.linalg.eigvals(A)
        lam = lam[np.argsort(-np.abs(lam))][:k]
        if np.abs(lam).min() < 1e-4 * sc or not separated(lam, 1e-3):
            return
        rec.at("eigs")
        err, _ = lib.match(dmd.eigs, lam)
        rec.need(err <= TOL * sc, "eigenvalues are not those of the optimal operator", got=dmd.eigs, want=lam)
        Phi = np.asarray(dmd.modes)
        rec.need(Phi.shape == (D.shape[0], k), "modes have the wrong shape")
        nb = np.linalg.norm(Phi, axis=0)
        rec.close(A @ (Phi / nb), Phi / nb * np.asarray(dmd.eigs), "modes are not eigenvectors of the optimal operator", tol=1e-5, scale=sc)
    else:
        Phi = np.asarray(dmd.modes)
        rec.need(Phi.shape == (D.shape[0], k), "modes have the wrong shape")
        rec.close(Phi @ Phi.conj().T, U @ U.conj().T, "modes do not span the optimal subspace", tol=1e-6)
    rec.at("predict")
    G = np.random.RandomState(0).randn(D.shape[0], 3)
    rec.close(dmd.predict(G), A @ G, "prediction is not the optimal operator", tol=1e-5, scale=sc * np.abs(G).max())
    rec.state(c["data"], c["fact"], k, A)


def kern(name):
    if name == "linear":
        return "linear", {}, lambda a, b: a @ b.T
    if name == "poly2":
        return "poly", dict(degree=2, coef0=1.0, gamma=0.5), lambda a, b: (0.5 * a @ b.T + 1.0) ** 2
    if name == "rbf":
        return "rbf", dict(gamma=0.1), lambda a, b: np.exp(-0.1 * ((a[:, None] - b[None]) ** 2).sum(-1))
    if name == "sigmoid":
        return "sigmoid", dict(gamma=0.01, coef0=0.0), lambda a, b: np.tanh(0.01 * a @ b.T)
    raise KeyError(name)


def edmd(c, rec, D):
    import pydmd
    X, Y = D[:, :-1].astype(float), D[:, 1:].astype(float)
    if X.shape[1] < 2:
        return
    pair = c["pair"]
    target = X if pair else D.astype(float)
    Xt, Yt = ref.tlsq(X, Y, c["tlsq"])
    metric, params, K = kern(c["kernel"])
    G, A = K(Xt.T, Xt.T), K(Yt.T, Xt.T)
    w, Q = np.linalg.eigh(G)
    if c["kernel"] == "sigmoid" and w.min() < -1e-12:
        return                       # not a positive kernel on this data: outside the method
    o = np.argsort(-np.abs(w))
    sv = np.sqrt(np.abs(w[o]))
    Q = Q[:, o]
    k = ref.rank_rule(sv, len(sv), len(sv), c["rank"])
    if sv[k - 1] < 1e-5 * sv[0] or (k < len(sv) and sv[k - 1] - sv[k] < 1e-5 * sv[0]):
        return
    Q, sv = Q[:, :k], sv[:k]
    Kh = (Q / sv).T @ A @ (Q / sv)
    lam = np.linalg.eigvals(Kh)
    if not separated(lam, 1e-4) or np.abs(lam).min() < 1e-8:
        return
    opt = c["opt"]
    dmd = pydmd.EDMD(svd_rank=c["rank"], tlsq_rank=c["tlsq"], opt=opt, kernel_metric=metric, kernel_params=dict(params))
    rec.at("fit")
    if pair:
        dmd.fit(X.copy(), Y.copy())
    else:
        dmd.fit(D.astype(float))
    rec.at("eigs")
    eigs = np.asarray(dmd.eigs)
    err, _ = lib.match(eigs, lam)
    sc = max(1, np.abs(lam).max())
    rec.need(err <= 1e-5 * sc, "eigenvalues are not those of the kernel operator", got=eigs, want=lam)
    rec.at("modes")
    Phi = np.asarray(dmd.modes)
    rec.need(Phi.shape == (D.shape[0], k), "modes have the wrong shape", got=Phi.shape)
    # modes: rows of left eigenvectors applied to the data coefficients -> Phi Kh^T-eigen relation
    M = (Xt @ (Q / sv))
    lam2, Wr = np.linalg.eig(Kh)
    L = np.linalg.inv(Wr)
    _, perm = lib.match(eigs, lam2)
    want = (M @ L.T)[:, perm]
    nb, nw = np.linalg.norm(Phi, axis=0), np.linalg.norm(want, axis=0)
    rec.close(nb, nw, "modes do not have the documented length", tol=1e-4)
    cos = np.abs(np.sum(want.conj() * Phi, axis=0)) / np.maximum(nb * nw, 1e-30)
    rec.check(np.all((cos > 1 - 1e-6) | (nb < 1e-7 * max(1e-30, nb.max()))), "modes are not the documented lifting of the eigenvectors", cos=cos)
    rec.at("amplitudes")
    b = np.asarray(dmd.amplitudes)
    if opt is True:
        VA = np.vander(eigs, target.shape[1], True)
        P = (Phi.conj().T @ Phi) * np.conj(VA @ VA.conj().T)
        if np.linalg.cond(P) < 1e8:
            rec.close(b, ref.best_all(Phi, eigs, target), "amplitudes are not the least-squares optimum over all snapshots", tol=1e-4)
    elif np.linalg.cond(Phi) < 1e8:
        rec.close(b, np.linalg.lstsq(Phi, target[:, 0 if opt is False else opt], rcond=None)[0],
                  "amplitudes are not the least-squares fit of the chosen snapshot", tol=1e-5)
    if True:
        rec.at("eigenfunctions")
        x = X[:, 0] * 0.7 + 0.1
        f = np.asarray(dmd.eigenfunctions(x)).ravel()
        rec.need(f.shape == (k,), "eigenfunctions have the wrong length", got=f.shape)
        if c["tlsq"] == 0:
            # the identity observable is recovered at a training point: x = Phi f(x) on full rank
            fw = (K(x[None], Xt.T) @ (Q / sv)) @ Wr[:, perm]
            ph = np.exp(1j * np.angle(np.sum(want.conj() * Phi, axis=0)))
            rec.close(np.abs(f), np.abs(fw).ravel(), "eigenfunctions are not those of the kernel operator", tol=1e-4)
            rec.close(Phi @ f, want @ fw.ravel(), "eigenfunctions are not dual to the modes", tol=1e-4)
    rec.at("derived")
    derived(rec, dmd, Phi, eigs, b, target, opt, D)
    rec.state(c["data"], c["kernel"], k, np.sort_complex(eigs))


def bounds(tier):
    return dict(data={d: list(data(d).shape) for d in DATA}, classes=["DMD", "CDMD", "RDMD", "SubspaceDMD", "OptDMD", "EDMD"],
                options="rank x exact x opt x rescale x forward_backward x sort x tlsq x tikhonov x paired")
