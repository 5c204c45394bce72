"""P09: rank rule, truncated SVD, total least squares, and rank of every estimator."""
import itertools
import numpy as np
from . import lib, ref
from .lib import product

PROPERTY = "P09"
TECHNIQUE = "exhaustive enumeration of singular-value patterns x shapes x rank requests, judged against the documented rule"
ASSUMPTIONS = ["requests closer than 1e-9 to an energy boundary are only enumerated on exactly representable matrices"]
CHUNK = 60

VALS = [4.0, 2.5, 1.0, 0.3]
FRACS = [1e-12, 0.05, 0.3, 0.5, 0.61, 0.8, 0.9, 0.97, 0.999, 1 - 1e-15]
INTS = [-1, 0, 1, 2, 3, 4, 7]


def cases(tier):
    kmax = 4 if tier == "quick" else 6
    for k in range(1, kmax + 1):
        for s in itertools.combinations_with_replacement(VALS, k):
            for extra in [(0, 0), (0, 2), (3, 0)]:
                for cplx in (False, True):
                    yield dict(kind="svd", s=list(s), extra=list(extra), cplx=cplx)
    for n in (1, 2, 4):
        yield dict(kind="boundary", n=n)
    # singular values that are exactly zero: the optimal threshold itself may be zero
    for k in range(1, kmax + 1):
        for s in itertools.combinations_with_replacement([3.0, 1.0, 0.0], k):
            for extra in [(0, 0), (0, 2), (3, 0)]:
                yield dict(kind="zeros", s=list(s), extra=list(extra))
    for r, c, k, cplx in itertools.product([1, 2, 4], [1, 3, 5, 6], [0, 1, 2, 3, 9], [False, True]):
        yield dict(kind="tlsq", rows=r, cols=c, rank=k, cplx=cplx)
    for d in ["tall", "wide", "c-tall", "c-wide", "deficient", "decay"]:
        for rank in [-1, 0, 1, 2, 3, 50, "np2", "np1", "np32", 0.3, 0.8, 0.99]:
            for cls in ["DMD", "DMD-exact", "DMD-tlsq", "FbDMD", "CDMD", "RDMD", "OptDMD", "OptDMD-svd", "EDMD", "SpDMD", "HankelDMD", "HODMD",
                        "DMDc", "DMDcB", "PiDMD", "SubspaceDMD", "BOPDMD", "VarProDMD", "HAVOK", "RDMDrank"]:
                yield dict(kind="est", data=d, rank=rank, cls=cls)


def build(s, extra, cplx):
    k = len(s)
    n, m = k + extra[0], k + extra[1]
    g = np.random.RandomState(31 * k + n + 7 * m)

    def q(a):
        G = g.randn(a, a)
        if cplx:
            G = G + 1j * g.randn(a, a)
        return np.linalg.qr(G)[0]

    return (q(n)[:, :k] * np.array(s)) @ q(m)[:, :k].conj().T


def run_case(c, rec):
    from pydmd import utils as u
    if c["kind"] == "svd":
        s = np.array(c["s"])
        X = build(c["s"], c["extra"], c["cplx"])
        n, m = X.shape
        for r in INTS + FRACS + ["np"]:
            if r == "np":
                variants = [(np.int64(2), 2), (np.int32(1), 1), (np.int64(-1), -1), (np.int64(0), 0), (np.float64(0.8), 0.8)]
            else:
                variants = [(r, r)]
            for arg, val in variants:
                e = np.cumsum(s ** 2) / np.sum(s ** 2)
                if 0 < val < 1 and np.min(np.abs(e - val)) < 1e-9 and val < 1 - 1e-9:
                    continue
                if val == 0:
                    beta = min(n, m) / max(n, m)
                    tau = np.median(s) * (0.56 * beta ** 3 - 0.95 * beta ** 2 + 1.82 * beta + 1.43)
                    if np.min(np.abs(s - tau)) < 1e-6:
                        continue
                want = ref.rank_rule(s, n, m, val)
                Y = X.copy()
                rec.at("compute_rank")
                got = u.compute_rank(Y, arg)
                if 0 < val < 1 and val >= 1 - 1e-9:
                    # within rounding of the total: any rank carrying that energy, never more than available
                    lo = int(np.searchsorted(e, val - 1e-9)) + 1
                    rec.check(lo <= got <= len(s), "rank is not the documented one", got=int(got), want=[lo, len(s)], request=float(val))
                    continue
                rec.check(int(got) == want, "rank is not the documented one", got=int(got), want=want, request=str(arg))
                if val == 0:
                    rec.check(int(u.compute_rank(Y)) == want and len(u.compute_svd(Y)[1]) == want, "the default is not the optimal rank", got=int(u.compute_rank(Y)), want=want)
                rec.at("compute_svd")
                out = u.compute_svd(Y, arg)
                rec.need(len(out) == 3, "the decomposition is not a triple")
                U, sv, V = out
                rec.check(U.shape == (n, want) and sv.shape == (want,) and V.shape == (m, want), "truncated factors have the wrong shape",
                          got=[U.shape, sv.shape, V.shape], want=want)
                if len(sv) == want and U.shape[1] == want and V.shape == (m, want):
                    rec.close(sv, s[:want], "singular values are not the leading ones in order", tol=1e-9)
                    rec.close(U.conj().T @ U, np.eye(want), "left factor is not orthonormal", tol=1e-9)
                    rec.close(V.conj().T @ V, np.eye(want), "right factor is not orthonormal", tol=1e-9)
                    err = np.linalg.norm(X - (U * sv) @ V.conj().T)
                    rec.check(abs(err - np.sqrt(np.sum(s[want:] ** 2))) < 1e-8, "truncation is not the best approximation of its rank",
                              err=err)
                rec.check(np.array_equal(X, Y), "input was modified")
                rec.state(c["s"], c["extra"], c["cplx"], want)
        return
    if c["kind"] == "boundary":
        n = c["n"]
        X = np.eye(n)
        for k in range(1, n):
            rec.at("compute_rank")
            got = u.compute_rank(X, k / n)
            rec.check(int(got) == k, "rank is not the fewest directions reaching the fraction", got=int(got), want=k, request=k / n)
            rec.state(n, k)
        return
    if c["kind"] == "zeros":
        k = len(c["s"])
        X = np.zeros((k + c["extra"][0], k + c["extra"][1]))
        X[np.arange(k), np.arange(k)] = c["s"]
        if not np.array_equal(np.linalg.svd(X, compute_uv=False), np.array(c["s"])):
            return
        want = ref.rank_rule(np.array(c["s"]), *X.shape, 0)
        rec.at("compute_rank")
        rec.check(int(u.compute_rank(X, 0)) == want, "rank is not the documented one", got=int(u.compute_rank(X, 0)), want=want, request=0)
        rec.at("compute_svd")
        rec.check(len(u.compute_svd(X, 0)[1]) == want, "truncated factors have the wrong shape", want=want)
        rec.state("zeros", c["s"], c["extra"])
        return
    if c["kind"] == "tlsq":
        g = np.random.RandomState(c["rows"] * 10 + c["cols"])
        X, Y = g.randn(c["rows"], c["cols"]), g.randn(c["rows"], c["cols"])
        if c["cplx"]:
            X, Y = X + 1j * g.randn(*X.shape), Y + 1j * g.randn(*X.shape)
        X0, Y0 = X.copy(), Y.copy()
        rec.at("compute_tlsq")
        A, B = u.compute_tlsq(X, Y, c["rank"])
        WA, WB = ref.tlsq(X0, Y0, c["rank"])
        rec.close(A, WA, "denoised X is not the projection on the joint row space", tol=1e-9)
        rec.close(B, WB, "denoised Y is not the projection on the joint row space", tol=1e-9)
        rec.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "input was modified")
        rec.state(c["rows"], c["cols"], c["rank"], c["cplx"])
        return
    estimator(c, rec)


def data(d):
    g = np.random.RandomState(77)
    if d == "tall":
        return g.randn(8, 6)
    if d == "wide":
        return g.randn(3, 9)
    if d == "c-tall":
        return g.randn(7, 6) + 1j * g.randn(7, 6)
    if d == "c-wide":
        return g.randn(3, 8) + 1j * g.randn(3, 8)
    if d == "deficient":
        return g.randn(6, 3) @ g.randn(3, 8)
    if d == "decay":
        Q = np.linalg.qr(g.randn(6, 6))[0]
        P = np.linalg.qr(g.randn(9, 9))[0]
        return (Q * np.array([10, 5, 2.0, 0.8, 0.02, 0.01])) @ P[:6]


def estimator(c, rec):
    import pydmd
    D = data(c["data"])
    rank = c["rank"]
    arg = {"np2": np.int64(2), "np1": np.int64(1), "np32": np.int32(3)}.get(rank, rank)
    val = {"np2": 2, "np1": 1, "np32": 3}.get(rank, rank)
    X, Y = D[:, :-1], D[:, 1:]
    cls = c["cls"]
    cplx = np.iscomplexobj(D)
    n, m = D.shape
    tl = None
    fit = lambda o: o.fit(D.copy())
    shape = None
    if cls in ("DMD", "DMD-exact", "FbDMD", "SpDMD"):
        M = X
        mk = {"DMD": lambda: pydmd.DMD(svd_rank=arg), "DMD-exact": lambda: pydmd.DMD(svd_rank=arg, exact=True),
              "FbDMD": lambda: pydmd.FbDMD(svd_rank=arg),
              "SpDMD": lambda: pydmd.SpDMD(svd_rank=arg, gamma=0.1, verbose=False)}[cls]
    elif cls == "DMD-tlsq":
        M = ref.tlsq(X, Y, 3)[0]
        mk = lambda: pydmd.DMD(svd_rank=arg, tlsq_rank=3)
    elif cls == "CDMD":
        C = np.random.RandomState(2).randn(max(2, n - 1), n)
        M = C @ X
        mk = lambda: pydmd.CDMD(svd_rank=arg, compression_matrix=C)
    elif cls == "RDMD":
        T = np.random.RandomState(3).randn(m, min(n, m))
        Q = np.linalg.qr(D @ T)[0]
        M = Q.conj().T @ X
        mk = lambda: pydmd.RDMD(svd_rank=arg, test_matrix=T, power_iters=0)
    elif cls == "RDMDrank":
        # the sketch has (rank of the data by the rule) + oversampling columns
        M = D
        s = np.linalg.svd(M, compute_uv=False)
        if degenerate(s, M.shape, val):
            return
        k = ref.rank_rule(s, n, m, val)
        rec.at("fit")
        o = pydmd.RDMD(svd_rank=arg, seed=1, oversampling=1)
        o.fit(D.copy())
        rec.check(o.compression_matrix.shape == (min(n, m, k + 1), n), "sketch does not have the documented size",
                  got=o.compression_matrix.shape, want=[min(n, m, k + 1), n])
        rec.state(c["data"], cls, k)
        return
    elif cls.startswith("OptDMD"):
        M = Y @ np.linalg.pinv(X, rcond=1e-10) @ X
        mk = lambda: pydmd.OptDMD(svd_rank=arg, factorization="svd" if cls.endswith("svd") else "evd")
    elif cls == "EDMD":
        if val == 0 or cplx:
            return
        M = X
        shape = (m - 1, m - 1)
        if val == -1:
            return
        mk = lambda: pydmd.EDMD(svd_rank=arg)
    elif cls in ("HankelDMD", "HODMD"):
        d = 2
        H = np.vstack([D[:, :-1], D[:, 1:]])
        if cls == "HODMD":
            M = H[:, :-1]
            mk = lambda: pydmd.HODMD(svd_rank=arg, d=d, svd_rank_extra=-1)
        else:
            M = H[:, :-1]
            mk = lambda: pydmd.HankelDMD(svd_rank=arg, d=d)
    elif cls == "DMDc":
        I = np.random.RandomState(5).randn(1, m - 1)
        M = Y
        mk = lambda: pydmd.DMDc(svd_rank=arg)
        fit = lambda o: o.fit(D.copy(), I.copy())
    elif cls == "DMDcB":
        I = np.random.RandomState(5).randn(1, m - 1)
        B = np.ones((n, 1))
        M = X
        mk = lambda: pydmd.DMDc(svd_rank=arg)
        fit = lambda o: o.fit(D.copy(), I.copy(), B)
    elif cls == "PiDMD":
        M = X
        mk = lambda: pydmd.PiDMD(manifold="unitary", svd_rank=arg, compute_A=False)
    elif cls == "SubspaceDMD":
        if not isinstance(val, int) or val == 0 or c["data"] == "deficient":
            return
        s = np.linalg.svd(D, compute_uv=False)
        Yp = np.vstack([D[:, :-3], D[:, 1:-2]])
        Yf = np.vstack([D[:, 2:-1], D[:, 3:]])
        so = np.linalg.svd(Yf @ np.linalg.pinv(Yp, rcond=1e-12) @ Yp, compute_uv=False)
        avail = min(n, int(np.sum(so > 1e-10 * so[0])))
        k = avail if val == -1 else min(avail, val)
        rec.at("fit")
        o = pydmd.SubspaceDMD(svd_rank=arg).fit(D.copy())
        rec.check(len(o.eigs) == k and o.modes.shape[1] == k, "number of modes is not what the rank rule dictates", got=len(o.eigs), want=k)
        rec.state(c["data"], cls, k)
        return
    elif cls in ("BOPDMD", "VarProDMD"):
        if c["data"] not in ("decay", "tall"):
            return
        if cls == "VarProDMD" and val in (-1, 50):
            return
        S = lib.System("pair+real", 6, False)
        D = S.data(9)
        M = D
        n, m = D.shape
        if val == -1 or val == 50:
            return           # numerically rank deficient data
        t = np.arange(m) * 0.1
        if cls == "BOPDMD":
            mk = lambda: pydmd.BOPDMD(svd_rank=arg)
        else:
            mk = lambda: pydmd.VarProDMD(svd_rank=arg)
        fit = lambda o: o.fit(D.copy(), t)
    elif cls == "HAVOK":
        if cplx:
            return
        x = D[0]
        H = np.array([x[i:i + 3] for i in range(len(x) - 2)]).T
        M = H
        s = np.linalg.svd(M, compute_uv=False)
        if degenerate(s, M.shape, val):
            return
        k = ref.rank_rule(s, *M.shape, val)
        if k < 2:
            return
        rec.at("fit")
        o = pydmd.HAVOK(svd_rank=arg, delays=3).fit(x.copy(), 0.1)
        rec.check(o.r == k and o.modes.shape[1] == k, "number of modes is not what the rank rule dictates", got=o.modes.shape, want=k)
        rec.state(c["data"], cls, k)
        return
    s = np.linalg.svd(M, compute_uv=False)
    rows, cols = shape or M.shape
    if shape:
        s = np.concatenate([s, np.zeros(max(0, rows - len(s)))])[:rows]
        s = np.sqrt(np.abs(np.linalg.eigvalsh(M.T @ M)))[::-1]
    if degenerate(s, (rows, cols), val):
        return
    k = ref.rank_rule(s, rows, cols, val)
    if s[k - 1] < 1e-9 * s[0]:
        return      # would divide by rounding noise
    rec.at("fit")
    o = mk()
    fit(o)
    rec.at("modes")
    ph = np.asarray(o.modes)
    rec.check(ph.shape[1] == k, "number of modes is not what the rank rule dictates", got=ph.shape, want=k)
    if cls != "OptDMD-svd":
        rec.check(len(np.asarray(o.eigs)) == k, "number of eigenvalues is not what the rank rule dictates", got=len(o.eigs), want=k)
    rec.state(c["data"], cls, k)


def degenerate(s, shape, val):
    if val == 0:
        beta = min(shape) / max(shape)
        tau = np.median(s) * (0.56 * beta ** 3 - 0.95 * beta ** 2 + 1.82 * beta + 1.43)
        return bool(np.min(np.abs(s - tau)) < 1e-6)
    if 0 < val < 1:
        e = np.cumsum(s ** 2) / np.sum(s ** 2)
        return bool(np.min(np.abs(e - val)) < 1e-7)
    return False


def bounds(tier):
    return dict(singular_values=VALS, max_rank=4 if tier == "quick" else 6, integer_requests=INTS, fractions=[str(f) for f in FRACS])
