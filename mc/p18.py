"""P18: sparsity-promoting amplitudes."""
import numpy as np
from . import ref
from .lib import System, product
from .zoo import DMD, SpDMD, noise

PROPERTY = "P18"
TECHNIQUE = "exhaustive enumeration of data x penalties x step parameters x options on the real code; the convex problem is solved independently by coordinate descent with an optimality certificate"
ASSUMPTIONS = ["penalties within 3 per cent of a change of the zero pattern of the minimiser are left out",
               "finding F3: the library's shrinkage operator is wrong (pinned by a stable test); a pattern that differs from the minimiser's is a known finding only when it is the one this very iteration gives, replayed in plain numpy"]
DESIGN = """
For every system, rank, penalty, step parameter and option the library's fit is compared with: the same DMD without the penalty (modes, eigenvalues,
reduced operator), the minimiser of |data - modes diag(a) powers|^2 + penalty*sum|a| from an independent coordinate descent (its certificate is
verified), the stacked least squares on the returned non-zero amplitudes, and the limits (penalty zero, penalty above the largest gradient at
zero). Patterns other than the minimiser's are known finding F3 when and only when a replay of the wrong shrinkage gives that pattern.
"""
CHUNK = 2
F3 = "zero amplitudes are not those of the minimiser (wrong shrinkage operator)"
F2 = "optimal amplitudes of projected modes drop the last snapshot"


def problem(modes, eigs, X):
    V = np.vander(eigs, X.shape[1], True)
    P = (modes.conj().T @ modes) * np.conj(V @ V.conj().T)
    return P, np.conj(np.diag(V @ X.conj().T @ modes))


def pinned_q(X, eigs, W, r):
    U, s, V = ref.svd(X[:, :-1], r)
    Vk = np.vander(eigs, X.shape[1], True)[:, :X.shape[1] - 1]
    return np.conj(np.diag(Vk @ (V * s) @ W))


def minimiser(P, q, g):
    a = np.zeros(len(q), complex)
    for _ in range(60000):
        old = a.copy()
        for i in range(len(q)):
            r = q[i] - P[i] @ a + P[i, i] * a[i]
            m = abs(r)
            a[i] = 0 if m <= g / 2 else r * (1 - g / 2 / m) / P[i, i].real
        if np.abs(a - old).max() < 1e-13 * max(1, np.abs(a).max()):
            break
    grad = q - P @ a
    nz = a != 0
    sc = np.abs(q).max()
    ok = np.all(np.abs(grad[~nz]) <= g / 2 * (1 + 1e-9)) and np.all(np.abs(grad[nz] - g / 2 * a[nz] / np.abs(a[nz])) < 1e-7 * sc)
    return a, bool(ok)


def wrong_admm(P, q, g, rho, maxit):
    n = len(q)
    b = old = l = np.zeros(n, complex)
    M = np.linalg.inv(P + np.eye(n) * rho / 2)
    k = g / rho

    def step(b, l):
        a = M @ (q + (b - l / rho) * rho / 2)
        v = a + l / rho
        s = np.abs(v)
        with np.errstate(all="ignore"):
            nb = np.where(s > k, (1 - k) / s * v, 0)
        return a, nb, l + (a - nb) * rho

    a, b, l = step(b, l)
    i = 0
    nrm = np.linalg.norm
    while i < maxit and not (nrm(a - b) < np.sqrt(n) * 1e-6 + 1e-4 * max(nrm(a), nrm(b)) and rho * nrm(b - old) < np.sqrt(n) * 1e-6 + 1e-4 * nrm(l)):
        i += 1
        old = b
        a, b, l = step(b, l)
    return np.abs(old) < 1e-12 if i < maxit else None       # None: not settled


def bounds(tier):
    return {k: [str(x) for x in v] if k != "data" else len(v) for k, v in space(tier).items()} | {"iterations": MAXIT}


MAXIT = 3000
DATA = [("pair+real", 5, 10, False), ("pair", 4, 14, False), ("c2r", 6, 9, True), ("four", 5, 12, False), ("osc", 4, 16, False), ("c3", 3, 8, True), ("r1", 3, 6, False), ("neg", 7, 9, False)]
GAMMA = [0, 0.001, 0.01, 0.05, 0.2, 0.5, 0.9, 1.2, "big"]       # in units of the penalty from which everything is zero
RHO = [0.5, 1, 20, 1000]
OPTS = [{}, {"opt": True}, {"exact": False}, {"sorted_eigs": "abs"}, {"rescale_mode": "auto"}, {"tlsq_rank": 3}, {"enforce_zero": False}, {"release_memory": False}, {"sorted_eigs": "real", "exact": False}, {"opt": -1}]


def space(tier):
    if tier == "quick":
        return {"data": DATA[:6], "eps": [0.0, 0.05], "rank": [-1, 2], "g": GAMMA, "rho": RHO, "o": list(range(len(OPTS)))}
    return {"data": DATA, "eps": [0.0, 0.05, 0.3], "rank": [-1, 1, 2, 3, 0], "g": GAMMA + [0.003, 0.02, 0.1, 0.35, 0.7], "rho": RHO + [0.1, 5, 2e4], "o": list(range(len(OPTS)))}


def cases(tier):
    sp = space(tier)
    for d in product(k=range(len(sp["data"])), eps=sp["eps"], rank=sp["rank"], o=sp["o"], salt=range(1 if tier == "quick" else 2)):
        if tier == "quick" and d["o"] and d["eps"] == 0:
            continue
        if d["eps"] == 0 and not d["rank"] or d["eps"] == 0 and not -1 <= d["rank"] <= System(*DATA[d["k"]][:2], DATA[d["k"]][3]).r:
            continue        # modes of nothing but rounding
        yield dict(d, tier=tier, exact=OPTS[d["o"]].get("exact", True))


def run_case(case, rec):
    spec, n, m, c = DATA[case["k"]]
    X = System(spec, n, c, salt=case["salt"]).data(m)
    X = X + case["eps"] * noise(X.shape, 3 + case["salt"], c)
    kw = {"exact": True, **OPTS[case["o"]]}
    rank = case["rank"] if case["rank"] != -1 or case["eps"] else System(spec, n, c).r
    own = {k: kw[k] for k in kw if k in ("enforce_zero", "release_memory")}
    dk = {k: kw[k] for k in kw if k not in own}
    dmd = DMD(svd_rank=rank, **dk).fit(X)
    P, q = problem(dmd.modes, dmd.eigs, X)
    if np.linalg.cond(P) > 1e8:
        return
    r = len(dmd.eigs)
    qs = [q] if kw["exact"] or kw.get("tlsq_rank") else [q, pinned_q(X, dmd.eigs, dmd.operator.eigenvectors, r)]
    if not kw["exact"] and kw.get("rescale_mode"):
        return
    top = 2 * np.abs(q).max()
    qtop = max(2 * np.abs(x).max() for x in qs)
    sp = space(case["tier"])
    for g in sp["g"]:
        gamma = 50 * qtop if g == "big" else g * top
        mins = []
        for x in qs:
            a, ok = minimiser(P, x, gamma)
            near = [np.array_equal(minimiser(P, x, gamma * f)[0] == 0, a == 0) for f in (0.97, 1.03)]
            mins.append((a, ok and all(near)))
        for rho in sp["rho"] if not case["o"] else (sp["rho"][:1] + sp["rho"][2:3]):
            rec.at(f"gamma={g} rho={rho}")
            d = SpDMD(svd_rank=rank, gamma=gamma, rho=rho, verbose=False, max_iterations=MAXIT, **kw).fit(X)
            judge(case, rec, d, dmd, X, P, q, qs, mins, gamma, rho, g, kw, own)


def judge(case, rec, d, dmd, X, P, q, qs, mins, gamma, rho, g, kw, own):
    at = rec.label
    rec.close(d.modes, dmd.modes, "modes are not those of the decomposition without the penalty", tol=1e-9)
    rec.close(d.eigs, dmd.eigs, "eigenvalues are not those of the decomposition without the penalty", tol=1e-9)
    b = np.asarray(d.amplitudes)
    rec.need(b.shape == (len(q),), "one amplitude per mode", shape=b.shape)
    if own.get("enforce_zero", True):
        zero = b == 0
    else:
        zero = np.abs(b) < 1e-10 * max(np.abs(b).max(), np.abs(q).max() / np.abs(np.diag(P)).max())
    rec.state(case["k"], case["eps"], kw, gamma, zero, b)
    nz = np.where(~zero)[0]
    # amplitudes on the pattern
    sols = []
    for x in qs:
        w = np.zeros(len(q), complex)
        if len(nz):
            w[nz] = np.linalg.solve(P[np.ix_(nz, nz)], x[nz])
        sols.append(w)
    sc = max(np.abs(s).max() for s in sols) or 1.0
    err = [np.abs(b - s).max() / sc for s in sols]
    if err[0] > 1e-6:
        if len(err) > 1 and err[1] < 1e-6:
            rec.label = "amplitudes"
            rec.fail(F2)
        else:
            rec.fail("non-zero amplitudes are not the optimum on their pattern", got=b, want=sols[0])
    if len(qs) == 1 and len(nz):
        rec.close(b[nz], ref.best_all(dmd.modes[:, nz], dmd.eigs[nz], X), "non-zero amplitudes are not the least-squares fit of the snapshots", tol=1e-5)
    # limits
    if g == 0:
        rec.check(not zero.any(), "without a penalty some amplitudes are zero", zero=zero)
    if g == "big":
        rec.check(zero.all(), "under a very large penalty some amplitudes are not zero", got=b)
    rec.close(d.dynamics, b[:, None] * np.vander(dmd.eigs, X.shape[1], True), "dynamics are not those of the sparse amplitudes", tol=1e-9, scale=max(1e-9, np.abs(b).max()))
    rec.close(d.reconstructed_data, ref.evolve(dmd.modes, dmd.eigs, b, np.arange(X.shape[1])), "reconstruction is not that of the sparse amplitudes", tol=1e-8, scale=max(1e-9, np.abs(X).max()))
    # pattern
    rec.label = at
    good = [np.array_equal(zero, a == 0) for a, ok in mins]
    if any(good) or not all(ok for a, ok in mins):
        return
    pats = []
    for x in qs:
        w = 1e-9 * np.cos(np.arange(len(x)) * 2.0 + 1)
        pats.append([wrong_admm(P, x * f, gamma, rho, MAXIT) for f in (1, 1 + 1e-9, 1 - 1e-9, 1 + w, 1 - w, 1 + 1j * w)])
    if any(y is None or not np.array_equal(p[0], y) for p in pats for y in p):
        return          # the iteration did not settle: not decided
    if any(np.array_equal(zero, p[0]) for p in pats):
        rec.label = "pattern"
        rec.fail(F3)
    else:
        rec.fail("zero amplitudes are not those of the minimiser", zero=zero, want=mins[0][0] == 0, gamma=gamma, rho=rho, wrong=pats[0][0])
