"""P17: physics-informed operators lie on their manifold and are optimal on it."""
import itertools
import warnings
import numpy as np
from .lib import match
from .zoo import PiDMD, noise

PROPERTY = "P17"
TECHNIQUE = "exhaustive enumeration of structures x sizes x options x data on the real code; each fitted matrix is judged against the optimum over an explicit basis of the structure, computed independently"
ASSUMPTIONS = ["optimality over the whole structure is required when the first snapshots have full row rank (otherwise only within the retained subspace)",
               "symmetric tridiagonal matrices have real entries; recovery there is limited by the iterative solver of the library (1e-5)"]
DESIGN = """
Every structure is given by an explicit (real or complex) basis of matrices; the least-squares optimum over the basis is computed with plain numpy, for
the unitary families from the nuclear norm and the phases of the transforms. For every structure, size, number of snapshots, real or complex data and
kind of pair (made by a structured matrix, unrelated, one trajectory) the fitted matrix must lie in the span of the basis, reach the
optimal residual and give back the generating matrix. Spectrum, modes and reconstruction are checked against the matrix itself; truncated
and matrix-free variants against the full ones.
"""
CHUNK = 12


def shift(n, k):
    return np.roll(np.eye(n), k, axis=0)


def band(n, lo, hi):
    out = []
    for i in range(n):
        for j in range(n):
            if (j <= i and i - j <= lo[i]) or (j >= i and j - i <= hi[i]):
                E = np.zeros((n, n))
                E[i, j] = 1
                out.append(E)
    return out


def herm(basis, sign):
    """real basis of the (skew-)Hermitian members of the complex span of a basis closed under the adjoint."""
    out = []
    for E in basis:
        for z in (1, 1j):
            M = z * E
            out.append(M + sign * M.conj().T)
    return out


def block_circ(p, q, blocks):
    out = []
    for k in range(q):
        S = shift(q, k)
        for B in blocks:
            out.append(np.kron(S, B))
    return out


def full(p):
    return band(p, [p] * p, [p] * p)


def tri(p):
    return band(p, [1] * p, [1] * p)


def structure(man, opt, n):
    """(basis, field): field 'c' = scalars of the data, 'r' = real coefficients."""
    if man == "uppertriangular":
        return band(n, [0] * n, [n] * n), "c"
    if man == "lowertriangular":
        return band(n, [n] * n, [0] * n), "c"
    if man == "diagonal":
        if opt is None:
            a, b = [0] * n, [0] * n
        elif isinstance(opt, int):
            a, b = [opt - 1] * n, [opt - 1] * n
        elif isinstance(opt, tuple):
            a, b = [opt[0] - 1] * n, [opt[1] - 1] * n
        else:
            a, b = list(opt[:, 0] - 1), list(opt[:, 1] - 1)
        return band(n, a, b), "c"
    if man == "symmetric":
        return herm(full(n), 1), "r"
    if man == "skewsymmetric":
        return herm(full(n), -1), "r"
    if man == "toeplitz":
        return [np.eye(n, k=k) for k in range(-n + 1, n)], "c"
    if man == "hankel":
        return [np.fliplr(np.eye(n, k=k)) for k in range(-n + 1, n)], "c"
    C = [shift(n, k) for k in range(n)]
    if man == "circulant":
        return C, "c"
    if man == "circulant_symmetric":
        return herm(C, 1), "r"
    if man == "circulant_skewsymmetric":
        return herm(C, -1), "r"
    if man == "symmetric_tridiagonal":
        return [np.diag(np.eye(n)[i]) for i in range(n)] + [np.diag(np.eye(n - 1)[i], 1) + np.diag(np.eye(n - 1)[i], -1) for i in range(n - 1)], "r"
    if man == "BC":
        return block_circ(*opt, full(opt[0])), "c"
    if man == "BCTB":
        return block_circ(*opt, tri(opt[0])), "c"
    if man == "circulant_unitary":
        return C, "u"
    if man == "unitary":
        return full(n), "u"
    if man.startswith("BCCB"):
        B = block_circ(*opt, [shift(opt[0], k) for k in range(opt[0])])
        return (B, "c") if man == "BCCB" else (B, "u") if "unitary" in man else (herm(B, 1 if man == "BCCBsymmetric" else -1), "r")
    raise KeyError(man)


def lsq(B, field, X, Y, cplx):
    """coefficients and residual of the best member."""
    G = np.array([(E @ X).ravel() for E in B]).T
    y = Y.ravel()
    if field == "r":
        G, y = np.vstack([G.real, G.imag]), np.concatenate([y.real, y.imag])
    c = np.linalg.lstsq(G, y, rcond=None)[0]
    return c, float(np.linalg.norm(Y - sum(ci * E for ci, E in zip(c, B)) @ X))


def off_structure(B, field, A):
    G = np.array([E.ravel() for E in B]).T
    a = A.ravel()
    if field == "r":
        G, a = np.vstack([G.real, G.imag]), np.concatenate([a.real, a.imag])
    c = np.linalg.lstsq(G, a, rcond=None)[0]
    return float(np.linalg.norm(G @ c - a))


def unitary_opt(man, opt, X, Y):
    n = len(X)
    s = np.linalg.norm(X) ** 2 + np.linalg.norm(Y) ** 2
    if man == "unitary":
        return np.sqrt(max(0, s - 2 * np.linalg.norm(Y @ X.conj().T, "nuc")))
    F = np.fft.fft(np.eye(n)) / np.sqrt(n) if man == "circulant_unitary" else np.kron(np.fft.fft(np.eye(opt[1])) / np.sqrt(opt[1]), np.fft.fft(np.eye(opt[0])) / np.sqrt(opt[0]))
    fx, fy = F.conj() @ X, F.conj() @ Y
    return np.sqrt(max(0, s - 2 * np.sum(np.abs(np.sum(fy * fx.conj(), axis=1)))))


def member(man, opt, n, cplx, salt):
    """a generic member of the structure."""
    B, f = structure(man, opt, n)
    rng = np.random.RandomState(400 + salt)
    if f == "u":
        if man == "unitary":
            return np.linalg.qr(noise((n, n), 60 + salt, cplx))[0]
        F = np.fft.fft(np.eye(n)) / np.sqrt(n) if man == "circulant_unitary" else np.kron(np.fft.fft(np.eye(opt[1])) / np.sqrt(opt[1]), np.fft.fft(np.eye(opt[0])) / np.sqrt(opt[0]))
        if cplx:
            return F @ np.diag(np.exp(1j * rng.uniform(-2, 2, n))) @ F.conj().T
        H = sum(rng.randn() * E for E in B)
        w = np.diag(F.conj().T @ H @ F)
        return (F @ np.diag(w / np.abs(w)) @ F.conj().T).real
    c = rng.randn(len(B)) + (1j * rng.randn(len(B)) if cplx and f == "c" else 0)
    if not cplx and f == "r":
        B = [E.real for E in B]
    A = sum(ci * E for ci, E in zip(c, B))
    return A / max(1.0, np.linalg.norm(A, 2)) * 1.1


SIMPLE = ["unitary", "uppertriangular", "lowertriangular", "diagonal", "symmetric", "skewsymmetric", "toeplitz", "hankel", "circulant", "circulant_unitary",
          "circulant_symmetric", "circulant_skewsymmetric", "symmetric_tridiagonal"]
BLOCK = ["BC", "BCTB", "BCCB", "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric"]
FREE = {"unitary", "diagonal", "symmetric", "skewsymmetric", "circulant", "circulant_unitary", "circulant_symmetric", "circulant_skewsymmetric", "symmetric_tridiagonal"}


def options(man, n, tier):
    if man == "diagonal":
        out = [None, 1, 2, n, (1, 2), (2, 1), (3, 1), (n, n)]
        out.append("array")
        return out
    return [None]


def bounds(tier):
    return {"structures": SIMPLE + BLOCK, "sizes": "2..6" if tier == "quick" else "2..9", "block shapes": SHAPES[tier], "snapshot pairs": "n/2, n-1, n, n+1, 3n", "data": "real, complex; made by a member, unrelated pair, trajectory"}


SHAPES = {"quick": [(2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1)], "thorough": [(p, q) for p in range(1, 6) for q in range(1, 6) if 2 <= p * q <= 16]}


def cases(tier):
    for man in SIMPLE:
        for n in range(2, 7 if tier == "quick" else 10):
            for o in range(len(options(man, n, tier))):
                for cplx in (False, True):
                    for nt in ((n // 2, n - 1, n, n + 1, 3 * n) if tier == "quick" else (*range(1, n + 2), 2 * n, 3 * n, 5 * n)):
                        for kind in ("member", "free", "trajectory"):
                            for salt in range(1 if tier == "quick" else 3):
                                yield {"man": man, "n": n, "o": o, "cplx": cplx, "nt": nt, "kind": kind, "salt": salt}
    for man in BLOCK:
        for sh in SHAPES[tier]:
            n = sh[0] * sh[1]
            for cplx in (False, True):
                for nt in (n // 2, n - 1, n, n + 1, 3 * n):
                    for kind in ("member", "free", "trajectory"):
                        for salt in range(1 if tier == "quick" else 2):
                            yield {"man": man, "n": n, "shape": list(sh), "cplx": cplx, "nt": nt, "kind": kind, "salt": salt}
    for man in SIMPLE + BLOCK:
        yield {"man": man, "n": 6, "shape": [2, 3], "kind": "err"}


def opt_of(case):
    if "shape" in case:
        return tuple(case["shape"])
    o = options(case["man"], case["n"], "quick")[case["o"]]
    if isinstance(o, str):
        n = case["n"]
        return np.array([[1 + i % 2, 1 + (i * 2) % 3] for i in range(n)])
    return o


def fit(man, opt, X, Y, traj, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = PiDMD(man, manifold_opt=opt, **kw)
        return d.fit(traj) if traj is not None else d.fit(X, Y)


def run_case(case, rec):
    man, n = case["man"], case["n"]
    opt = opt_of(case) if case["kind"] != "err" or man in BLOCK else None
    if case["kind"] == "err":
        return errors(man, opt, n, rec)
    cplx, nt = case["cplx"], case["nt"]
    s = case["salt"]
    B, field = structure(man, opt, n)
    A0 = member(man, opt, n, cplx, s)
    traj = None
    if case["kind"] == "member":
        X = noise((n, nt), 80 + s, cplx)
        Y = A0 @ X
    elif case["kind"] == "free":
        X, Y = noise((n, nt), 81 + s, cplx), noise((n, nt), 82 + s, cplx) + 0.5 * noise((n, nt), 81 + s, cplx)
    else:
        traj = noise((n, nt + 1), 83 + s, cplx)
        traj = traj + 2 * np.cos(0.3 * np.arange(nt + 1))
        X, Y = traj[:, :-1], traj[:, 1:]
    if np.linalg.cond(X) > 1e4 or nt < 2:
        return
    if nt < n:
        return few(case, rec, man, opt, B, field, X, Y, traj, cplx)
    rec.at("fit")
    d = fit(man, opt, X, Y, traj, compute_A=True)
    A = np.asarray(d.A)
    loose = man == "symmetric_tridiagonal"
    sc = max(1.0, np.abs(A).max())
    rec.need(A.shape == (n, n), "the matrix has not the size of the state", shape=A.shape)
    if field == "u":
        rec.close(A @ A.conj().T, np.eye(n), "the matrix is not unitary", tol=1e-9)
        if man != "unitary":
            rec.check(off_structure(B, "c", A) < 1e-9 * sc, "the matrix has not the structure", off=off_structure(B, "c", A))
        best = unitary_opt(man, opt, X, Y)
    else:
        off = off_structure(B, field, A)
        rec.check(off < 1e-8 * sc, "the matrix has not the structure", off=off, A=A)
        best = lsq(B, field, X, Y, cplx)[1]
    res = np.linalg.norm(Y - A @ X)
    lim = best + (1e-4 if loose else 1e-7) * np.linalg.norm(Y)
    rec.check(res <= lim, "another matrix with the structure has a smaller residual", residual=res, best=best)
    unique = field == "u" or np.linalg.matrix_rank(np.array([(E @ X).ravel() for E in B]).T if field != "r" else
                                                   np.array([np.concatenate([(E @ X).ravel().real, (E @ X).ravel().imag]) for E in B]).T) == np.linalg.matrix_rank(
                                                       np.array([np.concatenate([E.ravel().real, E.ravel().imag]) for E in B]).T if field == "r" else np.array([E.ravel() for E in B]).T)
    if case["kind"] == "member" and unique and not (loose and np.abs(A0.imag).max() > 0):
        rec.close(A, A0, "the matrix that made the data is not given back", tol=1e-3 if loose else 1e-6)
    rec.state(man, opt, n, A)
    rec.at("spectrum")
    w = np.linalg.eigvals(A)
    gap = min([abs(a - b) for a, b in itertools.combinations(w, 2)], default=1)
    # multiple or defective eigenvalues are only accurate to a root of the rounding error
    rec.check(match(d.eigs, w)[0] < (1e-6 if gap > 1e-4 else 1e-3) * max(1, np.abs(w).max()), "eigenvalues are not those of the matrix", got=d.eigs, want=w)
    M = d.modes
    rec.check(M.shape == (n, n), "number of modes", shape=M.shape)
    nm = np.linalg.norm(M, axis=0)
    rec.check(np.abs(A @ M - M * d.eigs).max() < 1e-7 * max(1, np.abs(w).max()) * nm.max(), "modes are not eigenvectors of the matrix")
    cond = np.linalg.cond(M)
    # powers of the eigenvalues multiply the rounding of the amplitudes
    slack = 1e-14 * cond * max(1.0, np.abs(w).max()) ** (2 * nt + 1)
    if cond < 1e6:
        rec.at("reconstruction")
        x = X[:, 0] if traj is None else traj[:, 0]
        want = [x]
        for _ in range(nt if traj is not None else nt - 1):
            want.append(A @ want[-1])
        want = np.array(want).T
        rec.close(d.reconstructed_data, want, "reconstruction is not the evolution of the first snapshot", tol=1e-6 * max(1, cond ** 0.5) + slack * np.abs(x).max() / np.abs(want).max(), scale=np.abs(want).max())
        d.dmd_time["tend"] = 2 * d.original_time["tend"]
        k = len(d.dmd_timesteps)
        while want.shape[1] < k:
            want = np.hstack([want, A @ want[:, -1:]])
        rec.close(d.reconstructed_data, want, "the forecast is not the evolution of the first snapshot", tol=1e-5 * max(1, cond ** 0.5) + slack * np.abs(x).max() / np.abs(want).max(), scale=np.abs(want).max())
        At = d.operator.as_numpy_array
        U, sv = np.linalg.svd(X, full_matrices=False)[:2]
        M = d.modes / np.linalg.norm(d.modes, axis=0)
        if len(sv) == n and sv[-1] > 1e-3 * sv[0] and np.min(-np.diff(sv), initial=sv[0]) > 1e-3 * sv[0] and M.shape == (n, n) and np.linalg.cond(M) < 1e4:
            # up to the phases of the singular vectors
            rec.close(np.abs(At), np.abs(U.conj().T @ A @ U), "the reduced operator is not the matrix seen in the basis of the snapshots", tol=1e-5)
        rec.close(np.sort_complex(np.round(np.linalg.eigvals(At), 6)), np.sort_complex(np.round(w, 6)), "the reduced operator has another spectrum", tol=1e-3) if gap > 1e-2 else None
    if man == "BCCB":
        block_truncation(rec, opt, X, Y, traj, A, n)
    if man in FREE:
        matrix_free(case, rec, man, opt, X, Y, traj, A, w, n)


WHOLE = {"uppertriangular", "lowertriangular", "diagonal", "toeplitz", "hankel", "BC", "BCTB"}


def few(case, rec, man, opt, B, field, X, Y, traj, cplx):
    """fewer pairs than rows: the structure, and the optimum where it is not restricted to the retained subspace."""
    rec.at("fit of few snapshots")
    d = fit(man, opt, X, Y, traj, compute_A=True)
    A = np.asarray(d.A)
    if field == "u":
        return
    off = off_structure(B, field, A)
    rec.check(off < 1e-8 * max(1.0, np.abs(A).max()), "the matrix has not the structure", off=off, A=A)
    if man in WHOLE:
        best = lsq(B, field, X, Y, cplx)[1]
        res = np.linalg.norm(Y - A @ X)
        rec.check(res <= best + (1e-3 if man == "symmetric_tridiagonal" else 1e-6) * np.linalg.norm(Y), "another matrix with the structure has a smaller residual", residual=res, best=best)
    rec.state(man, opt, A)


def block_truncation(rec, opt, X, Y, traj, A, n):
    """a truncated doubly circulant fit keeps as many eigenvalues as the rank, and the ones which matter most."""
    F = np.kron(np.fft.fft(np.eye(opt[1])), np.fft.fft(np.eye(opt[0])))
    c = np.einsum("ij,ij->j", F.conj(), A @ F) / n
    part = [np.outer(F[:, k] * c[k], F[:, k].conj() @ X / n) for k in range(n)]
    # the parts are orthogonal, so each of them lowers the squared residual by its own amount
    gain = np.array([np.linalg.norm(Y) ** 2 - np.linalg.norm(Y - p) ** 2 for p in part])
    for r in range(1, n):
        rec.at(f"rank {r}")
        T = np.asarray(fit("BCCB", opt, X, Y, traj, compute_A=True, svd_rank=r).A)
        rec.check(np.linalg.matrix_rank(T, tol=1e-8 * max(1, np.abs(A).max())) <= r, "the truncated matrix has a larger rank", want=r)
        best = np.sqrt(max(0, np.linalg.norm(Y) ** 2 - np.sort(gain)[::-1][:r].sum()))
        res = np.linalg.norm(Y - T @ X)
        rec.check(res <= best + 1e-7 * np.linalg.norm(Y), "another choice of as many eigenvalues has a smaller residual", residual=res, best=best, rank=r)


def matrix_free(case, rec, man, opt, X, Y, traj, A, w, n):
    gap = min([abs(abs(a) - abs(b)) for a, b in itertools.combinations(w, 2)], default=1)
    sep = min([abs(a - b) for a, b in itertools.combinations(w, 2)], default=1)
    if sep < 1e-3:
        return
    for r in range(1, n + 1):
        rec.at(f"matrix-free rank {r}")
        d = fit(man, opt, X, Y, traj, compute_A=False, svd_rank=r if r < n else -1)
        e, M = d.eigs, d.modes
        if not rec.check(len(e) == r and M.shape == (n, r), "number of modes of a truncated fit", got=[len(e), list(M.shape)], want=r):
            continue
        rec.raises(lambda: d.A, "a matrix which was not computed")
        if man in ("unitary", "symmetric", "skewsymmetric"):
            U = np.linalg.svd(X, full_matrices=False)[0][:, :r]
            At = d.operator.as_numpy_array
            if man == "unitary":
                rec.close(At @ At.conj().T, np.eye(r), "the reduced operator is not unitary", tol=1e-9)
                best = unitary_opt("unitary", None, U.conj().T @ X, U.conj().T @ Y)
            else:
                B, f = structure(man, None, r)
                rec.check(off_structure(B, f, At) < 1e-8 * max(1, np.abs(At).max()), "the reduced operator has not the structure")
                best = lsq(B, f, U.conj().T @ X, U.conj().T @ Y, True)[1]
            res = np.linalg.norm(U.conj().T @ Y - At @ (U.conj().T @ X))
            rec.check(res <= best + 1e-7 * np.linalg.norm(Y), "another reduced operator has a smaller residual", residual=res, best=best, rank=r)
            rec.check(match(e, np.linalg.eigvals(At))[0] < 1e-6, "eigenvalues are not those of the reduced operator")
            rec.close(np.abs(U @ (U.conj().T @ M) - M).max(), 0.0, "modes leave the retained subspace", tol=1e-9)
        else:
            nm = np.linalg.norm(M, axis=0)
            rec.check(np.all(nm > 1e-9) and np.linalg.matrix_rank(M / nm) == r, "modes of a truncated fit are not independent")
            err = np.abs(A @ M - M * e).max() / nm.max()
            rec.check(err < 1e-6 * max(1, np.abs(w).max()), "modes of a truncated fit are not eigenvectors of the matrix", err=err, rank=r)
            if man == "circulant":
                F = np.fft.fft(np.eye(n), axis=0)
                c = np.einsum("ij,ij->j", F.conj(), A @ F) / n
                drop = lambda k: np.linalg.norm(Y - (F[:, k] * c[k]) @ F[:, k].conj().T @ X / n)
                best = min(drop(list(k)) for k in itertools.combinations(range(n), r))
                res = np.linalg.norm(Y - (M * e) @ np.linalg.pinv(M) @ X)
                rec.check(res <= best + 1e-7 * np.linalg.norm(Y), "another choice of as many eigenvalues has a smaller residual", residual=res, best=best, rank=r)
            if man in ("diagonal", "symmetric_tridiagonal") and gap > 1e-3:
                big = w[np.argsort(-np.abs(w))][:r]
                rec.check(match(e, big)[0] < 1e-5, "a truncated fit does not keep the leading eigenvalues", got=e, want=big)
        rec.state(man, opt, n, r, np.sort_complex(np.round(e, 5)))


def errors(man, opt, n, rec):
    X = noise((n, 3 * n), 3)
    if man not in FREE:
        rec.at("A needed")
        rec.raises(lambda: fit(man, opt, None, None, X), f"{man} without the matrix")
    if man in BLOCK:
        for bad in (None, 2, [2, 3], (2,), (2, 3, 1), (2, 2), (4, 3)):
            rec.at("shape refused")
            rec.raises(lambda: fit(man, bad, None, None, X, compute_A=True), f"{man} with blocks {bad!r}")
    if man == "diagonal":
        for bad in (0, -1, (0, 1), (1, -2), (1, 2, 3), 1.5, "x", np.zeros((n, 2)), np.ones((n - 1, 2)), np.ones(n), [1, 2]):
            rec.at("width refused")
            rec.raises(lambda: fit(man, bad, None, None, X, compute_A=True), f"{man} with width {bad!r}")
    for bad in ("Unitary", "sym", "", "circulant_x", "BCCBx", "BCC", None):
        rec.at("structure refused")
        rec.raises(lambda: fit(bad, (2, 3), None, None, X, compute_A=True), f"unknown structure {bad!r}")
