"""Shared catalogue of small systems and comparison helpers (reference side:
plain numpy only, nothing from the library under test)."""
import itertools
import numpy as np

# spectra: name -> (eigenvalues, real_data_possible).  Conjugate pairs adjacent.
SPECTRA = {
    "r1": [0.8],
    "pair": [0.9 + 0.35j, 0.9 - 0.35j],
    "pair+real": [0.95 + 0.25j, 0.95 - 0.25j, 0.6],
    "four": [0.85 + 0.5j, 0.85 - 0.5j, 1.0, 0.45],
    "neg": [0.7 + 0.6j, 0.7 - 0.6j, -0.65],
    "osc": [np.exp(0.9j), np.exp(-0.9j), np.exp(0.4j), np.exp(-0.4j)],
    "c3": [0.9 * np.exp(0.7j), 0.6 * np.exp(-1.1j), 1.02 * np.exp(2.0j)],
    "c2r": [0.9 * np.exp(0.5j), 0.7 * np.exp(-0.9j)],
}
REAL_OK = {"r1", "pair", "pair+real", "four", "neg", "osc"}
RIGHT_HALF = {"r1", "pair", "pair+real", "four", "osc", "c2r"}


def basis(n, r, cplx, salt=0):
    rng = np.random.RandomState(1234 + 17 * n + 5 * r + 101 * salt)
    G = rng.randn(n, r)
    if cplx:
        G = G + 1j * rng.randn(n, r)
    Q, _ = np.linalg.qr(G)
    M = np.eye(r) + 0.25 * np.tril(np.ones((r, r)), -1)
    return Q @ M


class System:
    """x_k = Phi Lambda^k b ; exact truth available at any real time."""

    def __init__(self, spec, n, cplx, salt=0):
        eigs = np.array(SPECTRA[spec], dtype=complex)
        r = len(eigs)
        if cplx:
            Phi = basis(n, r, True, salt).astype(complex)
            b = np.array([1.5, -1.0 + 0.5j, 0.8j + 0.7, 1.1][:r])
        else:
            B = basis(n, r, False, salt)
            Phi = np.zeros((n, r), complex)
            b = np.ones(r, complex)
            k = 0
            while k < r:
                if abs(eigs[k].imag) > 0:
                    v = B[:, k] + 1j * B[:, k + 1]
                    Phi[:, k], Phi[:, k + 1] = v, v.conj()
                    b[k], b[k + 1] = 0.9 - 0.3j, 0.9 + 0.3j
                    k += 2
                else:
                    Phi[:, k] = B[:, k]
                    b[k] = 1.3
                    k += 1
        self.eigs, self.Phi, self.b, self.r, self.n, self.cplx = eigs, Phi, b, r, n, cplx
        self.A = Phi @ np.diag(eigs) @ np.linalg.pinv(Phi)
        if not cplx:
            self.A = self.A.real

    def at(self, t):
        t = np.atleast_1d(np.asarray(t, dtype=float))
        X = self.Phi @ (self.b[:, None] * self.eigs[:, None] ** t[None])
        return X if self.cplx else X.real

    def data(self, m):
        X = self.Phi @ (self.b[:, None] * np.vander(self.eigs, m, True))
        return X if self.cplx else np.ascontiguousarray(X.real)


def match(a, b):
    """Best assignment error between two multisets of complex numbers."""
    a = np.atleast_1d(np.asarray(a, complex))
    b = np.atleast_1d(np.asarray(b, complex))
    if a.shape != b.shape:
        return np.inf, None
    if a.size == 0:
        return 0.0, []
    if a.size <= 5:
        best, bp = np.inf, None
        for p in itertools.permutations(range(len(b))):
            e = np.max(np.abs(a - b[list(p)]))
            if e < best:
                best, bp = e, list(p)
        return float(best), bp
    from scipy.optimize import linear_sum_assignment
    D = np.abs(a[:, None] - b[None])
    i, j = linear_sum_assignment(D)
    return float(D[i, j].max()), list(j)


def product(**dims):
    """Every combination of the named dimensions as dicts."""
    keys = list(dims)
    for vals in itertools.product(*[dims[k] for k in keys]):
        yield dict(zip(keys, vals))


def is_sorted(eigs, how, tol=1e-9):
    if how == "abs":
        a = np.abs(eigs)
        return bool(np.all(np.diff(a) >= -tol * max(1, a.max())))
    if how == "real":
        for x, y in zip(eigs[:-1], eigs[1:]):
            if y.real < x.real - tol:
                return False
            if abs(y.real - x.real) == 0 and y.imag < x.imag - tol:
                return False
        return True
    return True


def frozen(x):
    """Deep snapshot of caller data (bytes) for later comparison."""
    if isinstance(x, np.ndarray):
        return ("arr", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, frozen(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0]))))
    if callable(x) or hasattr(x, "__dict__"):
        return ("obj", id(x))
    return ("val", repr(x))
