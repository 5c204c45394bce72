"""P22: kernel models split into constant, linear and nonlinear part consistently."""
import itertools
import numpy as np
from .lib import match, product
from .zoo import LANDO, noise

PROPERTY = "P22"
TECHNIQUE = "exhaustive enumeration of kernels x rescalings x tolerances x all orders of the snapshots x all operation sequences (fit, analyse, update) on the real code against closed-form kernel regression"
ASSUMPTIONS = ["the model is compared in value where its kernel matrix has a condition number below 1e7",
               "dictionaries are compared when no snapshot is within 5 per cent of the tolerance"]
DESIGN = """
For every kernel, rescaling, dictionary tolerance, learning mode and every order of the snapshots, the dictionary must be the greedy one (recomputed from Schur
complements), the model the closed-form least-squares kernel regression on it (batch: on the kernel values, online: on the
projections of the samples), the constant part its value at the base state, the linear operator its derivative (central differences of the closed form), the
nonlinear part the rest, and the spectrum the non-zero eigenpairs of the operator. All sequences of fit, analysis at different
base states, updates and refits up to the bound are executed and judged after each operation; every split of the data into updates must equal the one-pass
model. With the linear kernel the generating system must come back, also in predictions.
"""
CHUNK = 6
KERNELS = {"linear": ("linear", {}), "poly2": ("poly", {"degree": 2, "coef0": 1.0, "gamma": 1.0}), "poly": ("poly", {}), "poly2b": ("poly", {"degree": 2, "coef0": 0.5, "gamma": 0.3}),
           "rbf": ("rbf", {"gamma": 0.4}), "rbfd": ("rbf", {}), "custom": None, "gnone": ("poly", {"gamma": None, "degree": 2})}
RESC = ["one", "half", "int", "array"]


def kfun(name):
    """(k(X, Y), derivative of k(X, y) in y) in plain numpy."""
    if name == "linear":
        return lambda X, Y: X.T @ Y
    if name == "custom":
        return custom_k
    kind, par = KERNELS[name]

    def k(X, Y):
        g = par.get("gamma")
        g = 1 / X.shape[0] if g is None else g
        if kind == "poly":
            return (g * X.T @ Y + par.get("coef0", 1)) ** par.get("degree", 3)
        D = ((X[:, :, None] - Y[:, None, :]) ** 2).sum(0)
        return np.exp(-g * D)
    return k


def custom_k(X, Y):
    return np.exp(0.3 * X.T @ Y)


def custom_g(X, y):
    return (0.3 * np.exp(0.3 * X.T @ y))[:, None] * X.T


def resc(name, shape):
    if name == "array":
        return 0.4 + 0.3 * np.arange(int(np.prod(shape))).reshape(shape)
    return {"one": 1.0, "half": 0.5, "int": 2}[name]


def make(case, shape, **kw):
    ker = case["ker"]
    args = dict(svd_rank=case.get("rank", -1), x_rescale=resc(case["resc"], shape), dict_tol=case["tol"], online=case["online"], permute=False, lstsq=case.get("lstsq", True))
    args.update(kw)
    if ker == "custom":
        return LANDO(kernel_function=custom_k, kernel_gradient=custom_g, **args)
    return LANDO(kernel_metric=KERNELS[ker][0], kernel_params=dict(KERNELS[ker][1]), **args)


class Ref:
    """closed-form model for the pairs (x_i, y_i) taken in order."""

    def __init__(self, case, X, Y, shape):
        self.k = kfun(case["ker"])
        self.s = np.ravel(resc(case["resc"], shape))
        self.s = self.s * np.ones(X.shape[0])
        Z = X * self.s[:, None]
        D = [Z[:, :1]]
        A = [np.array([1.0])]
        self.sharp = True
        for i in range(1, Z.shape[1]):
            M = np.hstack(D)
            K = self.k(M, M)
            kt = self.k(M, Z[:, i:i + 1])[:, 0]
            if np.linalg.cond(K) > 1e9:
                self.sharp = False
            pi = np.linalg.lstsq(K, kt, rcond=None)[0]
            delta = self.k(Z[:, i:i + 1], Z[:, i:i + 1])[0, 0] - kt @ pi
            if abs(abs(delta) / case["tol"] - 1) < 0.05 or (abs(delta) < 1e-9 and case["tol"] < 1e-8):
                self.sharp = False
            if abs(delta) > case["tol"]:
                D.append(Z[:, i:i + 1])
                A.append(np.eye(len(D))[-1])
            else:
                A.append(pi)
        self.D = np.hstack(D)
        r = self.D.shape[1]
        K = self.k(self.D, self.D)
        if case["online"]:
            C = np.zeros((len(A), r))
            for i, a in enumerate(A):
                C[i, :len(a)] = a
            self.cond = np.linalg.cond(K) * np.linalg.cond(C)
            G = np.linalg.lstsq(C, Y.T, rcond=None)[0].T
            self.W = np.linalg.lstsq(K.T, G.T, rcond=None)[0].T
        else:
            F = self.k(self.D, Z)
            sv = np.linalg.svd(F, compute_uv=False)
            self.cond = sv[0] / sv[-1] if len(sv) == r else np.inf
            self.W = np.linalg.lstsq(F.T, Y.T, rcond=None)[0].T
            self.res = np.linalg.norm(Y - self.W @ F)
        self.cond = max(self.cond, 1.0)

    def f(self, X):
        return self.W @ self.k(self.D, X * self.s[:, None])

    def jac(self, p, h=1e-4):
        n = len(p)
        out = []
        for j in range(n):
            e = np.zeros(n)
            e[j] = h
            q = np.stack([p + e, p - e, p + 2 * e, p - 2 * e], 1)
            v = self.f(q)
            out.append((8 * (v[:, 0] - v[:, 1]) - (v[:, 2] - v[:, 3])) / (12 * h))
        return np.array(out).T


def system(n, m, kind, salt=0):
    X = 0.9 * noise((n, m), 150 + salt)
    if kind == "lin":
        A = noise((n, n), 160 + salt)
        A = 0.9 * A / np.abs(np.linalg.eigvals(A)).max()
        return X, A @ X, A
    Q = 0.5 * noise((n, n), 161 + salt)
    return X, 0.3 + Q @ X + 0.3 * X ** 2 - 0.1 * X[::-1] * X, None


def bounds(tier):
    return {"kernels": list(KERNELS), "rescaling": RESC, "dictionary tolerance": TOLS[tier], "pairs in every order": 4 if tier == "quick" else 5, "state shapes": ["2", "3", "2x2"], "sequence length": 3 if tier == "quick" else 4, "splits": "all compositions of 6 pairs" if tier == "quick" else "all compositions of 8 pairs"}


TOLS = {"quick": [1e-6, 0.05], "thorough": [1e-6, 1e-3, 0.05, 1.0, 1e4]}
OPS = ["a0", "a1", "aA", "u1", "u2", "fit"]


def cases(tier):
    for ker, rs, tol, online in itertools.product(KERNELS, RESC, TOLS[tier], [False, True]):
        base = {"ker": ker, "resc": rs, "tol": tol, "online": online}
        k = 4 if tier == "quick" else 5
        yield {"kind": "orders", **base, "n": 2, "k": k, "sys": "quad"}
        for shape in ([2], [3], [2, 2]):
            for sysk in ("quad", "lin"):
                for lstsq in ([True, False] if not online else [True]):
                    for rank in (-1, 0, 2) if tier != "quick" else (-1, 2):
                        for salt in range(1 if tier == "quick" else 3):
                            yield {"kind": "split", **base, "shape": shape, "sys": sysk, "lstsq": lstsq, "rank": rank, "salt": salt}
        if online:
            yield {"kind": "updates", **base, "m": 6 if tier == "quick" else 8}
        if tol == 1e-6:
            yield {"kind": "sequences", **base, "len": 3 if tier == "quick" else 4}
    for d in product(n=[1, 2, 3, 4], resc=RESC, online=[False, True], salt=range(2 if tier == "quick" else 6), one=[False, True]):
        yield {"kind": "linear", "ker": "linear", "tol": 1e-6, **d}
    for d in product(ker=list(KERNELS), online=[False, True]):
        for t in range(5):
            for tol in (1e-6, 0.01):
                yield {"kind": "tls", "resc": "half", "t": t, **d, "tol": tol}
        yield {"kind": "permute", "resc": "one", "tol": 1e-6 if d["ker"] != "linear" else 1e-3, **d}
    for ker in ("linear", "poly", "rbfd"):
        yield {"kind": "defaults", "ker": ker, "resc": "one", "tol": 1e-6, "online": False}


def run_case(case, rec):
    globals()["_" + case["kind"]](case, rec)


def tolr(R, base=1e-9):
    return base * R.cond + 1e-8


def same_model(rec, d, R, shape, Q, what="the model"):
    """d.f against the closed form at the columns of Q."""
    if R.cond > 1e7 or not R.sharp:
        return False
    got = d.f(Q.reshape(*shape, -1))
    rec.close(got, R.f(Q), f"{what} is not the kernel regression on its dictionary", tol=tolr(R))
    return True


def judge(rec, d, R, shape, base, compute_A, Q, rank=-1):
    """the analysis at a base state."""
    p = np.ravel(base)
    if R.cond > 1e7 or not R.sharp:
        return
    t = tolr(R) * 10
    rec.close(np.ravel(d.bias), R.f(p[:, None])[:, 0], "the constant part is not the value at the base state", tol=t, scale=max(1, np.abs(R.W).max()))
    rec.close(np.ravel(d.fixed_point), p, "the base state is not the analysed one", tol=1e-14)
    J = R.jac(p)
    sc = max(1.0, np.abs(J).max())
    tj = t + 1e-6
    if compute_A:
        rec.close(d.linear, J, "the linear operator is not the derivative at the base state", tol=tj, scale=sc)
    else:
        rec.check(d.linear is None, "a linear operator which was not requested")
    qs = Q.reshape(*shape, -1)
    N = d.nonlinear(qs)
    rec.close(N, R.f(Q + p[:, None]) - R.f(p[:, None]) - J @ Q, "the nonlinear part is not the rest", tol=tj, scale=max(1, np.abs(R.f(Q)).max()))
    rec.close(np.ravel(d.bias)[:, None] + J @ Q + N, d.f((Q + p[:, None]).reshape(*shape, -1)), "the three parts do not add up to the model", tol=tj, scale=max(1, np.abs(R.f(Q)).max()))
    z = d.nonlinear(np.zeros((*shape, 1)))
    rec.close(z, np.zeros_like(z), "the nonlinear part of no perturbation is not zero", tol=1e-9 + t, scale=sc)
    if rank == -1:
        w = np.linalg.eigvals(J)
        big = w[np.abs(w) > 1e-3]
        if all(abs(x) > 1e-3 or abs(x) < 1e-7 for x in w):
            e = np.asarray(d.eigs)
            e = e[np.abs(e) > 1e-3 * 0.5]
            gap = min([abs(a - b) for a, b in itertools.combinations(big, 2)], default=1)
            if gap > 1e-2:
                rec.check(len(e) == len(big) and match(e, big)[0] < 100 * tj * sc, "the spectrum is not that of the linear operator", got=d.eigs, want=w)
    M, e = d.modes, d.eigs
    if rank == -1 and len(e):
        ok = np.abs(e) > 1e-3
        nm = np.maximum(np.linalg.norm(M[:, ok], axis=0), 1e-300)
        rec.check(ok.sum() == 0 or np.abs(J @ M[:, ok] - M[:, ok] * e[ok]).max() < 100 * tj * sc * max(1, nm.max()), "modes are not eigenvectors of the linear operator")
        rec.check(np.all(np.diff(np.abs(e)) <= 1e-9), "eigenvalues are not in order of magnitude", got=e)
    rec.state(np.asarray(d.eigs), np.ravel(d.bias))


def dictionary(rec, d, R, shape):
    if not R.sharp or R.cond > 1e7:
        return
    got = np.asarray(d.sparse_dictionary).reshape(len(R.s), -1)
    want = R.D / R.s[:, None]
    rec.need(got.shape == want.shape, "the dictionary has not the greedy size", got=got.shape, want=want.shape)
    rec.close(got, want, "the dictionary is not the greedy one", tol=1e-12)


def _orders(case, rec):
    X, Y, _ = system(case["n"], case["k"], case["sys"])
    Q = noise((case["n"], 5), 7)
    for order in itertools.permutations(range(case["k"])):
        o = list(order)
        R = Ref(case, X[:, o], Y[:, o], (case["n"],))
        rec.at(f"fit order {o}")
        d = make(case, (case["n"],)).fit(X[:, o], Y[:, o])
        dictionary(rec, d, R, (case["n"],))
        same_model(rec, d, R, (case["n"],), Q)
        d.analyze_fixed_point(X[:, 0] + 0.1, compute_A=True)
        judge(rec, d, R, (case["n"],), X[:, 0] + 0.1, True, 0.3 * Q)


def _tls(case, rec):
    """total least squares: the model of the pairs projected on the leading directions of both of them together."""
    n, m, t = 2, 6, case["t"]
    X, Y, _ = system(n, m, "quad", 3)
    P = np.eye(m)
    if t:
        V = np.linalg.svd(np.vstack([X, Y]))[2][:t]
        P = V.conj().T @ V
    R = Ref(case, X @ P, Y @ P, (n,))
    Q = noise((n, 5), 9)
    rec.at("fit")
    d = make(case, (n,), tlsq_rank=t).fit(X, Y)
    ok = same_model(rec, d, R, (n,), Q, "the model of total least squares")
    if ok and case["online"]:
        rec.at("update")
        d = make(case, (n,), tlsq_rank=0).fit(X, Y)
        same_model(rec, d, Ref(case, X, Y, (n,)), (n,), Q)
    rec.state(case["ker"], t, ok)


def _defaults(case, rec):
    """what the options are when they are not given."""
    n = 2
    X, Y, _ = system(n, 4, "quad", 5)
    Q = noise((n, 5), 9)
    kw = {} if case["ker"] == "linear" else {"kernel_metric": KERNELS[case["ker"]][0]}
    for perm in (False, True):
        rec.at(f"permute {perm}")
        d = LANDO(svd_rank=-1, **({} if perm else {"permute": False}), **kw).fit(X, Y)
        if perm:
            ord_ = itertools.permutations(range(4))
            vals = [Ref(case, X[:, list(o)], Y[:, list(o)], (n,)) for o in ord_]
            if all(r.sharp and r.cond < 1e6 for r in vals):
                err = min(np.abs(d.f(Q) - r.f(Q)).max() for r in vals)
                rec.check(err < 1e-3, "the model with default options is not the documented one", err=err)
        else:
            same_model(rec, d, Ref(case, X, Y, (n,)), (n,), Q, "the model with default options")
        rec.state(case["ker"], perm)


def _permute(case, rec):
    """random order: the model must be the one of some order."""
    n, k = 2, 4
    X, Y, _ = system(n, k, "quad")
    refs = [Ref({**case}, X[:, list(o)], Y[:, list(o)], (n,)) for o in itertools.permutations(range(k))]
    Q = noise((n, 4), 8)
    vals = [r.f(Q) for r in refs]
    for seed in range(6):
        np.random.seed(seed)
        rec.at(f"fit seed {seed}")
        d = make(case, (n,), permute=True).fit(X, Y)
        got = d.f(Q)
        best = min(np.abs(got - v).max() / max(1, np.abs(v).max()) for v in vals)
        lim = max(tolr(r) for r in refs)
        if all(r.sharp for r in refs) and lim < 1e-2:
            rec.check(best < lim * 10, "a random order gives a model of no order", err=best)
        rec.state(got)


def _split(case, rec):
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    m = 3 * n + 2
    X, Y, A = system(n, m, case["sys"], case["salt"])
    case = dict(case)
    if case["ker"] in ("rbf", "rbfd", "poly") and case["tol"] < 1e-3:
        case["tol"] = 1e-3
    R = Ref(case, X, Y, shape)
    kw = {} if case["online"] else {"lstsq": case["lstsq"]}
    for paired in (True, False):
        if not paired:
            T = noise((n, m), 33)
            R = Ref(case, T[:, :-1], T[:, 1:], shape)
        rec.at("fit")
        d = make(case, shape, svd_rank=case["rank"], **kw)
        if paired:
            d.fit(X.reshape(*shape, m), Y.reshape(*shape, m))
        else:
            d.fit(T.reshape(*shape, m))
        dictionary(rec, d, R, shape)
        Q = noise((n, 6), 9)
        if same_model(rec, d, R, shape, Q) and not case["online"]:
            got = d.f((X if paired else T[:, :-1]).reshape(*shape, -1))
            rec.check(np.linalg.norm((Y if paired else T[:, 1:]) - got) <= R.res * (1 + 1e-6) + 1e-6, "the model does not have the least residual on its dictionary")
        for i, p in enumerate((np.zeros(n), 0.5 * noise((n, 1), 10)[:, 0], X[:, 2])):
            for ca in (False, True):
                rec.at(f"analyse {i} {ca}")
                d.analyze_fixed_point(p.reshape(shape), compute_A=ca)
                judge(rec, d, R, shape, p, ca, 0.3 * Q, rank=case["rank"])
                if case["rank"] == 2:
                    rec.check(len(d.eigs) <= 2, "more eigenvalues than the truncation rank", got=len(d.eigs))
        if R.cond < 1e5 and R.sharp:
            rec.at("predict")
            x0 = 0.2 * Q[:, 0]
            P = d.predict(x0.reshape(shape), 4, continuous=False)
            want = [x0]
            for _ in range(3):
                want.append(R.f(want[-1][:, None])[:, 0])
            want = np.array(want).T
            if np.all(np.abs(want) < 50):
                rec.close(P, want, "the discrete prediction does not iterate the model", tol=1e-4)


def compositions(m):
    for cut in itertools.product([0, 1], repeat=m - 1):
        out, last = [], 0
        for i, c in enumerate(cut):
            if c:
                out.append((last, i + 1))
                last = i + 1
        yield out + [(last, m)]


def _updates(case, rec):
    n, m = 2, case["m"]
    X, Y, _ = system(n, m, "quad", 1)
    T = noise((n, m + 1), 35)
    Q = noise((n, 4), 11)
    one = make(case, (n,)).fit(X, Y)
    tra = make(case, (n,)).fit(T)
    R = Ref(case, X, Y, (n,))
    if R.cond > 1e7:
        return
    for parts in compositions(m):
        rec.at(f"updates {parts}")
        a, b = parts[0]
        pairs = all(b - a > 1 for a, b in parts)     # a single pair is refused like any single snapshot
        d = make(case, (n,)).fit(X[:, a:b], Y[:, a:b]) if pairs else None
        e = make(case, (n,)).fit(T[:, a:b + 1])
        for a, b in parts[1:]:
            if pairs:
                d.update(X[:, a:b], Y[:, a:b])
            e.update(T[:, a:b + 1])
        if pairs:
            rec.close(d.f(Q), one.f(Q), "updates differ from learning in one pass", tol=1e-9 * R.cond + 1e-9)
            rec.check(d.sparse_dictionary.shape == one.sparse_dictionary.shape, "updates give another dictionary")
        g = tra.f(Q)
        if np.abs(g).max() < 1e4:
            rec.close(e.f(Q), g, "updates with trajectories differ from learning in one pass", tol=1e-4)
        rec.state(parts, e.f(Q))
    same_model(rec, one, R, (n,), Q)


def _sequences(case, rec):
    """all sequences of operations; the state is (data so far, base state, whether the operator was requested)."""
    n = 2
    X, Y, _ = system(n, 10, "quad", 2)
    X2, Y2, _ = system(n, 6, "quad", 3)
    blocks = {"u1": (X[:, 6:8], Y[:, 6:8]), "u2": (X[:, 8:], Y[:, 8:])}
    Q = 0.4 * noise((n, 3), 12)
    bases = {"a0": (np.zeros(n), False), "a1": (np.array([0.3, -0.2]), False), "aA": (np.array([-0.4, 0.5]), True)}
    refs = {}
    for seq in itertools.product(OPS if case["online"] else ["a0", "a1", "aA", "fit"], repeat=case["len"]):
        d = make(case, (n,)).fit(X[:, :6], Y[:, :6])
        data, cur = ("A",), None
        for op in seq:
            rec.at(op)
            if op == "fit":
                d.fit(X2, Y2)
                data, cur = ("B",), None
            elif op in blocks:
                d.update(*blocks[op])
                data = data + (op,)
            else:
                d.analyze_fixed_point(bases[op][0], compute_A=bases[op][1])
                cur = op
            if data not in refs:
                P = [(X[:, :6], Y[:, :6]) if data[0] == "A" else (X2, Y2)] + [blocks[b] for b in data[1:]]
                refs[data] = Ref(case, np.hstack([p[0] for p in P]), np.hstack([p[1] for p in P]), (n,))
            R = refs[data]
            if cur is None:
                rec.check(not d.fitted, "a refitted model still has the analysis of the earlier fit")
                for a in ("bias", "linear", "fixed_point"):
                    rec.raises(lambda: getattr(d, a), f"{a} of a model without analysis")
                for a in ("modes", "eigs"):
                    try:
                        rec.check(getattr(d, a) is None, f"{a} of a model without analysis")
                    except ValueError:
                        pass
                rec.raises(lambda: d.nonlinear(Q), "nonlinear part of a model without analysis")
                same_model(rec, d, R, (n,), Q)
            else:
                judge(rec, d, R, (n,), bases[cur][0], bases[cur][1], Q)
            if not case["online"] and op == "a0":
                rec.raises(lambda: d.update(*blocks["u1"]), "update of a model which is not online")
                same_model(rec, d, R, (n,), Q)


def _linear(case, rec):
    n = case["n"]
    X, Y, A = system(n, 3 * n + 2, "lin", 20 + case["salt"])
    rec.at("fit")
    if case["one"]:
        T = [noise((n, 1), 50 + case["salt"])[:, 0]]
        for _ in range(2 * n + 2):
            T.append(A @ T[-1])
        X = np.array(T).T
        if np.linalg.cond(X[:, :n]) > 1e3 or case["online"] and np.linalg.cond(X[:, :n]) > 30:
            return
        d = make(case, (n,)).fit(X)
    else:
        d = make(case, (n,)).fit(X, Y)
    d.analyze_fixed_point(np.zeros(n), compute_A=True)
    rec.close(d.linear, A, "the linear kernel does not give the linear system back", tol=1e-5)
    rec.close(d.bias, np.zeros_like(d.bias), "a linear system has a constant part", tol=1e-8, scale=1.0)
    rec.check(match(d.eigs, np.linalg.eigvals(A))[0] < 1e-4, "the spectrum is not that of the linear system", got=d.eigs, want=np.linalg.eigvals(A))
    Q = noise((n, 3), 13)
    rec.close(d.nonlinear(Q), np.zeros((n, 3)), "a linear system has a nonlinear part", tol=1e-6, scale=1.0)
    rec.state(np.asarray(d.linear))
    x0 = Q[:, 0]
    rec.at("predict")
    want = np.array([np.linalg.matrix_power(A, k) @ x0 for k in range(6)]).T
    rec.close(d.predict(x0, 6, continuous=False), want, "the discrete prediction is not the linear system's", tol=1e-4)
    from scipy.linalg import expm
    want = np.array([expm(0.1 * k * A) @ x0 for k in range(6)]).T
    rec.close(d.predict(x0, 6, continuous=True, dt=0.1, solve_ivp_opts={"rtol": 1e-9, "atol": 1e-10}), want, "the continuous prediction is not the linear system's", tol=1e-4)
