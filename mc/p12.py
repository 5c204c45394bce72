"""P12: the multi-resolution tree partitions time and modes consistently."""
import itertools
from copy import deepcopy
import numpy as np
from .lib import System
from .zoo import DMD, FbDMD, SubspaceDMD, SpDMD, HankelDMD, CDMD, MrDMD, noise

PROPERTY = "P12"
TECHNIQUE = "exhaustive enumeration of record lengths x depths x sub-models x cut-offs on the real code, judged leaf by leaf against a reference recursion built from plain estimators"
ASSUMPTIONS = ["the time interval of a leaf is that of the samples it holds, the record being [t0, tend) with tend = number of samples",
               "modes within 1e-9 of the cut-off may be kept or dropped"]
DESIGN = """
The reference recursion splits the residual of each level into consecutive parts (sizes differing by at most one),
fits a fresh estimator on each part, keeps |log(lambda)| < 2 pi max_cycles / length, and subtracts. The implementation is compared
with it leaf by leaf (data covered, spectrum, modes, amplitudes, reconstruction), then all global and partial queries are
compared with the leaves' quantities placed in their own time bin, for every level, node and every window on a
half-integer grid.  Record lengths are enumerated completely up to the bound, depths from 0 to one more than allowed.
"""
CHUNK = 10


def fac(level, leaf):
    return DMD(svd_rank=1 + (level + leaf) % 3, exact=bool(level % 2))


SUB = {
    "one": (lambda L: DMD(svd_rank=-1, exact=True, opt=True), lambda L: (lambda l, j: DMD(svd_rank=-1, exact=True, opt=True))),
    "rank2": (lambda L: DMD(svd_rank=2), lambda L: (lambda l, j: DMD(svd_rank=2))),
    "opt-1": (lambda L: DMD(svd_rank=2, opt=-1, sorted_eigs="abs"), lambda L: (lambda l, j: DMD(svd_rank=2, opt=-1, sorted_eigs="abs"))),
    "list": (lambda L: [DMD(svd_rank=1 + l) for l in range(L + 1)], lambda L: (lambda l, j: DMD(svd_rank=1 + l))),
    "tuple": (lambda L: tuple(DMD(svd_rank=3 - l % 3, exact=l == 0) for l in range(L + 1)), lambda L: (lambda l, j: DMD(svd_rank=3 - l % 3, exact=l == 0))),
    "factory": (lambda L: fac, lambda L: fac),
    "sp": (lambda L: SpDMD(svd_rank=2, gamma=1e-5, verbose=False), lambda L: (lambda l, j: SpDMD(svd_rank=2, gamma=1e-5, verbose=False))),
    "cdmd": (lambda L: CDMD(svd_rank=2, compression_matrix=CM), lambda L: (lambda l, j: CDMD(svd_rank=2, compression_matrix=CM))),
}
CM = noise((4, 5), 41)
DATA = ["real", "complex", "slow+fast", "grid"]


def allowed(m):
    """largest depth with at least two snapshots in every leaf."""
    L = 0
    while m // 2 ** (L + 1) >= 2:
        L += 1
    return L


def data(kind, m):
    t = np.arange(m)
    x = np.arange(5)[:, None]
    if kind == "complex":
        return np.exp(1j * (0.1 * t + x)) + 0.5 * np.exp(1j * (1.3 * t - 2 * x) - 0.01 * t) + 0.05 * noise((5, m), 3, True)
    if kind == "slow+fast":
        return np.cos(0.05 * t + x) + 0.6 * np.sin(1.1 * t + 2 * x) + np.where(t < m // 2, 0.5, 0.0) * np.cos(0.4 * t - x) + 0.01 * noise((5, m), 9)
    X = np.sin(0.2 * t + x) + 0.4 * np.sin(0.9 * t + 2 * x) + 0.1 * np.cos(2.1 * t - x) + 0.05 * noise((5, m), 4)
    return X


def bounds(tier):
    ms = LEN[tier]
    return {"record lengths": f"{ms[0]}..{ms[-1]} all", "depths": "0 to one more than allowed", "sub-models": list(SUB), "max_cycles": CYC[tier], "data": DATA,
            "time windows": "all start/end pairs on a grid of half samples (quarter record steps for long records)"}


LEN = {"quick": list(range(2, 27)), "thorough": list(range(2, 67))}
CYC = {"quick": [1, 3], "thorough": [1, 2, 3, 8]}


def cases(tier):
    for m in LEN[tier]:
        for L in range(0, allowed(m) + 2):
            for s in SUB:
                if s in ("list", "tuple") and L > allowed(m):
                    continue
                if s == "sp" and (m > 9 and tier == "quick" or m > 20 or L > 1):
                    continue    # its own optimiser is slow and irrelevant here
                for c in CYC[tier]:
                    for kind in DATA:
                        if tier == "quick" and (c, kind) in ((3, "complex"), (3, "grid"), (1, "slow+fast") if s not in ("one", "list") else ()):
                            continue
                        yield {"m": m, "L": L, "sub": s, "cycles": c, "data": kind}


def parts(m, k):
    q, r = divmod(m, k)
    out, a = [], 0
    for i in range(k):
        b = a + q + (1 if i < r else 0)
        out.append((a, b))
        a = b
    return out


def run_case(case, rec):
    m, L0 = case["m"], case["L"]
    X = data(case["data"], m)
    L = min(L0, allowed(m))
    mk, ref = SUB[case["sub"]]
    if case["sub"] == "cdmd" and m < 4:
        return
    rec.at("construct")
    M = MrDMD(mk(L0), max_level=L0, max_cycles=case["cycles"])
    rec.at("fit")
    M.fit(X.reshape(1, 5, m) if case["data"] == "grid" else X)
    rec.need(M.max_level == L, "the tree has not the depth the data length allows", got=M.max_level, want=L)
    rec.check(dict(M.original_time) == {"t0": 0, "tend": m, "dt": 1}, "wrong time window")
    rec.close(M.snapshots, X, "the snapshots reported are not the data", tol=1e-14)
    R = np.array(X)
    leaves = {}
    order = []
    tot = np.zeros(X.shape, complex)
    make = ref(L0)
    for l in range(L + 1):
        newR = np.array(R)
        for j, (a, b) in enumerate(parts(m, 2 ** l)):
            rec.at(f"leaf {l},{j}")
            d = M.dmd_tree[l, j]
            rec.need(d.snapshots.shape == (5, b - a), "a leaf does not cover its part of the record", level=l, leaf=j, shape=d.snapshots.shape, want=(a, b))
            rec.close(d.snapshots, R[:, a:b], "a leaf is not fitted on the residual of its part of the record", tol=1e-7, level=l, leaf=j, scale=np.abs(X).max())
            e = make(l, j)
            e.fit(np.array(d.snapshots))
            rho = case["cycles"] / (b - a)
            sl = np.abs(np.log(e.eigs)) - 2 * np.pi * rho
            keep = sl < 0
            amb = np.abs(sl) < 1e-9
            got = np.array(d.modes_activation_bitmask)
            rec.need(got.shape == keep.shape and np.all((got == keep) | amb), "a leaf keeps modes faster than the cut-off or drops slow ones", level=l, leaf=j,
                     eigs=e.eigs, got=got, want=keep)
            e.modes_activation_bitmask = got
            for q in ("eigs", "modes", "amplitudes", "dynamics", "reconstructed_data"):
                rec.close(getattr(d, q), getattr(e, q), f"{q} of a leaf differ from the estimator on its data", tol=1e-8, level=l, leaf=j)
            rr = e.modes @ e.dynamics
            tot[:, a:b] += rr
            newR[:, a:b] = R[:, a:b] - (rr if np.iscomplexobj(X) else rr.real)
            leaves[l, j] = (d, e, a, b)
            order.append((l, j))
        R = newR
    check_queries(rec, M, X, leaves, order, tot, L, m, case["sub"] == "rank2" and case["data"] == "real")
    rec.state(case)


def check_queries(rec, M, X, leaves, order, tot, L, m, full):
    rec.at("global")
    sc = np.abs(X).max()

    def dyn(keys):
        rows = []
        for k in keys:
            d, e, a, b = leaves[k]
            D = np.zeros((len(e.eigs), m), complex)
            D[:, a:b] = e.dynamics
            rows.append(D)
        return np.vstack(rows)
    E = np.concatenate([leaves[k][1].eigs for k in order])
    Phi = np.hstack([leaves[k][1].modes for k in order])
    rec.close(M.eigs, E, "the eigenvalues are not those of the leaves in order", tol=1e-8)
    rec.close(M.modes, Phi, "the modes are not those of the leaves in order", tol=1e-8)
    D = dyn(order)
    rec.close(M.dynamics, D, "the dynamics are not those of the leaves in their own time bin", tol=1e-8)
    rec.close(M.reconstructed_data, tot, "the reconstruction is not the sum of the levels", tol=1e-7, scale=sc)
    rec.close(M.modes @ M.dynamics, np.asarray(M.reconstructed_data), "the reconstruction is not modes times dynamics", tol=1e-7, scale=sc)
    rec.check([id(x) for x in M] == [id(leaves[k][0]) for k in order], "iterating does not visit the leaves in order")
    en = list(M.enumerate())
    rec.check([(a, b) for a, b, _ in en] == order and all(c is leaves[a, b][0] for a, b, c in en), "enumerate does not visit the leaves in order")
    for l in range(L + 1):
        ks = [k for k in order if k[0] == l]
        for node in [None] + [k[1] for k in ks]:
            rec.at(f"partial {l},{node}")
            q = ks if node is None else [(l, node)]
            rec.close(M.partial_eigs(l, node), np.concatenate([leaves[k][1].eigs for k in q]), "partial_eigs differ from the leaves", tol=1e-8)
            rec.close(M.partial_modes(l, node), np.hstack([leaves[k][1].modes for k in q]), "partial_modes differ from the leaves", tol=1e-8)
            rec.close(M.partial_amplitudes(l, node), np.concatenate([leaves[k][1].amplitudes for k in q]), "partial_amplitudes differ from the leaves", tol=1e-8)
            Dl = dyn(q)
            a, b = (0, m) if node is None else leaves[l, node][2:]
            rec.close(M.partial_dynamics(l, node), Dl[:, a:b], "partial_dynamics differ from the leaves", tol=1e-8)
            P = np.hstack([leaves[k][1].modes for k in q]) @ Dl
            rec.close(M.partial_reconstructed_data(l, node), P[:, a:b], "partial_reconstructed_data differ from the leaves", tol=1e-7, scale=sc)
    # sum over levels of the partial reconstructions is the reconstruction
    rec.close(sum(M.partial_reconstructed_data(l) for l in range(L + 1)), tot, "the levels do not add up to the reconstruction", tol=1e-7, scale=sc)
    check_windows(rec, M, leaves, order, L, m, 0.0, float(m), full)
    rec.at("moved record")
    M.original_time["t0"] = 10.0
    M.original_time["tend"] = 10.0 + 0.5 * m
    check_windows(rec, M, leaves, order, L, m, 10.0, 0.5 * m, full, coarse=True)
    M.original_time["t0"] = 0
    M.original_time["tend"] = m


def check_windows(rec, M, leaves, order, L, m, t0, length, full, coarse=False):
    iv = {}
    for (l, j) in order:
        p = M.partial_time_interval(l, j)
        a, b = leaves[l, j][2:]
        iv[l, j] = (t0 + length * a / m, t0 + length * b / m)
        per = iv[l, j][1] - iv[l, j][0]
        rec.check(np.allclose([p["t0"], p["tend"], p["delta"]], [iv[l, j][0], iv[l, j][1], per], rtol=0, atol=1e-9), "the interval of a leaf is wrong", got=p)
    for l in range(L + 1):
        rec.check(iv[l, 0][0] == t0 and abs(iv[l, 2 ** l - 1][1] - t0 - length) < 1e-9, "the leaves of a level do not cover the record")
    step = 0.5 if m <= 10 and not coarse else length / 8
    g = t0 + step * np.arange(-1, int(round(length / step)) + 2)
    pairs = itertools.combinations(g, 2) if full else [(g[0], g[-1]), (g[1], g[2]), (g[len(g) // 2], g[-2])]
    for a, b in pairs:
        if b <= t0 or a >= t0 + length:
            continue
        rec.at("window")
        want = [k for k in order if a < iv[k][1] - 1e-12 and b > iv[k][0] + 1e-12]
        got = [tuple(int(v) for v in r) for r in M.time_window_bins(a, b)]
        ok = rec.check(sorted(got) == sorted(want) and len(set(got)) == len(got), "a time window does not select the leaves that overlap it", window=(a, b), got=got, want=want)
        if not ok:
            return
        for n, f in (("eigs", M.time_window_eigs), ("frequency", M.time_window_frequency), ("growth_rate", M.time_window_growth_rate), ("amplitudes", M.time_window_amplitudes)):
            rec.close(f(a, b), np.concatenate([getattr(leaves[k][0], n) for k in got]), f"time_window_{n} differ from the leaves of the window", tol=1e-10)
