"""P13: controlled systems are identified and replayed with their inputs."""
import itertools
import numpy as np
from .lib import match
from .zoo import DMDc, noise

PROPERTY = "P13"
TECHNIQUE = "exhaustive enumeration of small controlled systems x option combinations on the real code, each replayed with every input sequence of the bounded alphabet, judged against the true recursion"
ASSUMPTIONS = ["the training inputs excite the system (the data matrix [x;u] has the full rank of state plus inputs) wherever the input matrix is to be identified",
               "state dimension (or the rank of the invariant subspace that holds the states) does not exceed the number of snapshot pairs",
               "the time window is not changed (documented: this class does not support it)"]
DESIGN = """
Each case is a true system x[k+lag] = A x[k] + B u[k] (dimension, rank, number of inputs, lag, real or complex) and a set of
options. After the fit the identified spectrum and input matrix are compared with the truth; then the model is replayed with every
input sequence made of at most two unit impulses (either sign, imaginary for complex systems, any channel, any time), with
inputs held at a corner of {-1,0,1}^p, and finally with the training inputs again: any dependence on an earlier replay or deviation
from the recursion is a violation. Every wrong number of inputs up to two off is tried.
"""
CHUNK = 6


def bounds(tier):
    return {"state dimensions": "1..4 full, and rank 2, 3 inside dimension 6 and 9", "inputs": "1..3" if tier == "quick" else "1..4", "lags": "1..3" if tier == "quick" else "1..4",
            "options": "svd_rank -1/rank/0.999999, opt False/True/int, omega rank -1/full, tlsq 0/full, B known/unknown, array/list/vector inputs",
            "replayed inputs": "all sequences of at most two impulses, all held corners of {-1,0,1}^p, training inputs before and after"}


def cases(tier):
    dims = [(1, 1), (2, 2), (3, 3), (4, 4), (6, 2), (9, 3)]
    for n, r in dims:
        for p in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            for lag in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
                for cplx in (False, True):
                    for known in (False, True):
                        for o in range(len(OPTS)):
                            yield {"n": n, "r": r, "p": p, "lag": lag, "cplx": cplx, "known": known, "o": o, "ex": "full"}
    for n, r in dims[1:]:
        for p in (1, 2):
            for lag in (1, 2):
                for cplx in (False, True):
                    for ex in ("none", "one-channel"):
                        yield {"n": n, "r": r, "p": p, "lag": lag, "cplx": cplx, "known": False, "o": 0, "ex": ex}


OPTS = [dict(sr="r", opt=False, om="full", tl=0, form="array"),
        dict(sr="r", opt=True, om="full", tl=0, form="list"),
        dict(sr="full", opt=-1, om=-1, tl=0, form="vector"),
        dict(sr="r", opt=0, om="full", tl="full", form="F"),
        dict(sr=0.999999999, opt=False, om=0.9999999999, tl=0, form="array")]


def simulate(A, B, x0, u):
    lag = x0.shape[1]
    X = [x0[:, i] for i in range(lag)]
    for k in range(u.shape[1]):
        X.append(A @ X[k] + B @ u[:, k])
    return np.array(X).T


def system(n, r, p, lag, cplx):
    E = np.linalg.qr(noise((n, r), 7, cplx))[0] if n > r else np.eye(n, dtype=complex if cplx else float)
    a = noise((r, r), 11 + r, cplx)
    a = a * (0.9 / np.abs(np.linalg.eigvals(a)).max())
    b = noise((r, p), 23 + p, cplx)
    x0 = noise((r, lag), 31 + lag, cplx)
    return E @ a @ E.conj().T, E @ b, E @ x0, np.linalg.eigvals(a), E


def run_case(case, rec):
    n, r, p, lag, cplx, known = (case[k] for k in ("n", "r", "p", "lag", "cplx", "known"))
    o = OPTS[case["o"]]
    A, B, x0, ev, E = system(n, r, p, lag, cplx)
    T = r + p + 3 + lag
    u = noise((p, T), 5 + p, cplx)
    if case["ex"] == "none":
        u = u * 0
    elif case["ex"] == "one-channel":
        u[1:] = 0
    X = simulate(A, B, x0, u)
    q = np.linalg.matrix_rank(u)
    if case["ex"] == "none" or (case["ex"] == "one-channel" and p > 1) or True:
        om = o["om"]
        om = r + q if om == "full" else om
        if om == -1 and (n > r or q < p):
            om = r + q
    sr = o["sr"]
    sr = r if sr == "r" or (sr == "full" and n > r) else -1 if sr == "full" else sr
    tl = 0 if o["tl"] == 0 else r + q
    I = u
    if o["form"] == "list":
        I = u.tolist()
    elif o["form"] == "vector" and p == 1:
        I = u[0]
    elif o["form"] == "F":
        I = np.asfortranarray(u)
    kw = dict(svd_rank=sr, opt=o["opt"], svd_rank_omega=om, tlsq_rank=tl, lag=lag)
    rec.at("fit")
    d = DMDc(**kw)
    d.fit(X, I, (B if o["form"] != "list" else B.tolist()) if known else None)
    sc = np.abs(X).max()
    tol = 1e-6
    if case["ex"] == "full":
        e, _ = match(d.eigs, ev)
        rec.check(e < 1e-6, "identified spectrum differs from the system's", got=d.eigs, want=ev)
        rec.close(d.B, B, "input matrix differs from the system's", tol=1e-12 if known else 1e-6)
        Mo = d.modes
        if Mo.shape == (n, r):
            err = np.abs(A @ Mo - Mo * d.eigs).max() / np.abs(Mo).max()
            rec.check(err < 1e-6, "modes are not eigenvectors of the state matrix", err=err)
    rec.state(np.sort_complex(np.round(d.eigs, 6)), d.B)
    rec.at("replay training")
    rec.close(d.reconstructed_data(), X, "training inputs do not reproduce the data", tol=tol)
    rec.at("replay explicit training")
    rec.close(d.reconstructed_data(I), X, "training inputs given again do not reproduce the data", tol=tol)
    if case["ex"] == "full":
        one = 1j if cplx else 1.0
        slots = [(c, k) for c in range(p) for k in range(T)]
        seqs = [[]] + [[(s, v)] for s in slots for v in (1.0, -1.0, one)]
        seqs += [[(a, 1.0), (b, -one)] for a, b in itertools.combinations(slots, 2)]
        base = simulate(A, B, x0, np.zeros((p, T)))
        imp = {}
        for s in slots:
            w = np.zeros((p, T))
            w[s] = 1
            imp[s] = simulate(A, B, x0 * 0, w)
        for q_ in seqs:
            w = np.zeros((p, T), dtype=complex if cplx else float)
            want = base.astype(complex if cplx else float)
            for s, v in q_:
                w[s] = v
                want = want + v * imp[s]
            rec.at("replay")
            if not rec.close(d.reconstructed_data(w), want, "another input sequence does not give the system's trajectory", tol=tol, scale=max(np.abs(want).max(), 1), inputs=q_):
                break
        for corner in itertools.product((-1, 0, 1), repeat=p):
            w = np.tile(np.array(corner, dtype=float)[:, None], (1, T))
            rec.at("replay held")
            if not rec.close(d.reconstructed_data(w), simulate(A, B, x0, w), "a held input does not give the system's trajectory", tol=tol, inputs=corner):
                break
        rec.at("replay training again")
        rec.close(d.reconstructed_data(), X, "the training inputs were lost after another replay", tol=tol)
    for k in (-2, -1, 1, 2, lag + 2):
        w = noise((p, T + k), 3, False)
        rec.at("wrong number of inputs")
        rec.raises(lambda: d.reconstructed_data(w), f"replay accepted {k:+d} inputs")
        rec.raises(lambda: DMDc(**kw).fit(X, w, B if known else None), f"fit accepted {k:+d} inputs")
    if known:
        rec.raises(lambda: DMDc(**kw).fit(X, noise((p + 1, T), 3, False), B), "fit accepted more channels than B has")
    rec.raises(lambda: d.reconstructed_data(noise((p + 1, T), 3, False)), "replay accepted more channels than were identified")
    rec.raises(lambda: DMDc(svd_rank=sr, lag=0).fit(X, u), "lag 0 accepted")
