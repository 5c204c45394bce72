"""Reference rules of the linear family, in plain numpy (independent of the
library): used as the specification side in P03 and P25."""
import numpy as np
from scipy.linalg import sqrtm


def rank_rule(s, rows, cols, svd_rank):
    s = np.asarray(s, float)
    if svd_rank == 0:
        beta = min(rows, cols) / max(rows, cols)
        omega = 0.56 * beta ** 3 - 0.95 * beta ** 2 + 1.82 * beta + 1.43
        return max(1, int(np.sum(s > np.median(s) * omega)))
    if 0 < svd_rank < 1:
        e = s ** 2
        tot = e.sum()
        acc = 0.0
        for k in range(len(s)):
            acc += e[k]
            if acc >= svd_rank * tot * (1 - 1e-13):
                return k + 1
        return len(s)
    if svd_rank >= 1:
        return min(int(svd_rank), len(s))
    return len(s)


def svd(X, svd_rank):
    U, s, Vh = np.linalg.svd(X, full_matrices=False)
    k = rank_rule(s, X.shape[0], X.shape[1], svd_rank)
    return U[:, :k], s[:k], Vh.conj().T[:, :k]


def tlsq(X, Y, k):
    if k == 0:
        return X, Y
    Vh = np.linalg.svd(np.concatenate([X, Y], axis=0), full_matrices=False)[2]
    V = Vh[:min(k, Vh.shape[0])].conj().T
    P = V @ V.conj().T
    return X @ P, Y @ P


class RefDMD:
    """Reduced operator, spectrum and modes by the documented formulas."""

    def __init__(self, X, Y, svd_rank, exact=False, fb=False, rescale=None, sort=False, tik=None,
                 tlsq_rank=0, compress=None, fb_rank=None, fb_basis="pinned"):
        X, Y = np.asarray(X), np.asarray(Y)
        Yfull = Y
        if compress is not None:
            X, Y = compress @ X, compress @ Y
        X, Y = tlsq(X, Y, tlsq_rank)
        lift = Y if compress is None else Yfull
        U, s, V = svd(X, svd_rank)
        nx = np.linalg.norm(X)

        def inv(s):
            return 1 / s if tik is None else s / (s ** 2 + tik * nx)

        A = (U.conj().T @ Y @ V) * inv(s)
        if fb:
            bU, bs, bV = svd(Y, len(s) if fb_rank is None else fb_rank)
            B = (bU.conj().T @ X @ bV) * inv(bs)
            if fb_basis != "pinned":       # express the backward operator in the forward basis
                T = U.conj().T @ bU
                B = T @ B @ np.linalg.inv(T)
            A = sqrtm(A @ np.linalg.inv(B))
        self.U, self.s, self.V, self.A = U, s, V, A
        f = None
        if rescale is not None:
            f = s if isinstance(rescale, str) else np.asarray(rescale, float)
            Ah = (f ** -0.5)[:, None] * A * (f ** 0.5)[None]
        else:
            Ah = A
        lam, W = np.linalg.eig(Ah)
        order = np.arange(len(lam))
        if sort == "abs":
            order = np.argsort(np.abs(lam), kind="stable")
        elif sort == "real":
            order = np.lexsort((lam.imag, lam.real))
        lam, W = lam[order], W[:, order]
        self.eigs, self.W = lam, W
        Wl = W if f is None else (f ** 0.5)[:, None] * W
        self.modes = (lift @ V * inv(s)) @ Wl if exact else U @ Wl
        self.exact = exact

    def amplitudes(self, snaps, opt, paired=False, pinned=True):
        m = snaps.shape[1]
        if opt is True:
            if self.exact or not pinned:
                return best_all(self.modes, self.eigs, snaps)
            V = np.vander(self.eigs, m, True)
            P = (self.modes.conj().T @ self.modes) * np.conj(V @ V.conj().T)
            X = snaps if paired else snaps[:, :-1]
            U, s, Vx = svd(X, self.modes.shape[1])
            Vk = V[:, :X.shape[1]]
            q = np.conj(np.diag(Vk @ (Vx * s) @ self.W))
            return np.linalg.solve(P, q)
        k = 0 if opt is False else opt
        return np.linalg.lstsq(self.modes, snaps[:, k], rcond=None)[0]


def best_all(modes, eigs, snaps):
    """argmin_b || snaps - modes diag(b) vander(eigs) ||_F, by stacked least squares."""
    m = snaps.shape[1]
    G = np.concatenate([modes * (eigs ** k)[None] for k in range(m)], axis=0)
    return np.linalg.lstsq(G, np.concatenate([snaps[:, k] for k in range(m)]), rcond=None)[0]


def evolve(modes, eigs, b, t):
    return modes @ (np.asarray(b)[:, None] * np.asarray(eigs, complex)[:, None] ** np.asarray(t, float)[None])
