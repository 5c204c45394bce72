"""P11: preprocessing wrappers are transparent."""
import itertools
import numpy as np
from . import zoo
from .core import canon
from .lib import System, match
from .p10 import embed, inverse
from .zoo import (DMD, FbDMD, CDMD, SubspaceDMD, EDMD, SpDMD, HankelDMD, DMDc, PiDMD, BOPDMD, MrDMD, VarProDMD, PrePostProcessingDMD,
                  hankel_preprocessing, randomized_preprocessing, svd_projection_preprocessing, zero_mean_preprocessing, noise)
from pydmd.preprocessing.pre_post_processing import PrePostProcessing

PROPERTY = "P11"
TECHNIQUE = "exhaustive enumeration of estimators x steps x nestings x histories of (interleaved) wrappers on the real code; a plain twin fitted on reference-transformed data is the oracle"
ASSUMPTIONS = ["paired fits fit(X, Y) are excluded: the wrapper documents a transformation of X only",
               "a per-time mean (axis=0) is judged in the window of the data only",
               "randomized projection is judged up to the unitary freedom of its basis"]
DESIGN = """
Reference steps are written in numpy (average, SVD basis, range of the sketch, delay matrix and its inverse). For every
estimator and every step, and for every ordered nesting of two (thorough: three) steps, the wrapper is compared with the
same estimator fitted on the reference-transformed data: spectrum, amplitudes, every public attribute, and the
reconstruction with the reference inverse; again after moving the window, masking, refitting on other data and asking
twice. Interleavings of all operation sequences of two wrappers of one kind show shared state; a spy step records what
the user-supplied step receives.
"""
CHUNK = 10


def F_id():
    return (lambda X: (None, X)), (lambda s, Y: Y)


def F_mean(axis=None, weights=None):
    def pre(X):
        if axis is None:
            mu = X.mean()
        elif weights is None:
            mu = X.mean(axis=axis, keepdims=True)
        else:
            w = np.asarray(weights(X), float)
            mu = (X * (w[None] if axis == 1 else w[:, None])).sum(axis=axis, keepdims=True) / w.sum()
        return mu, X - mu
    return pre, (lambda s, Y: Y + s)


def F_svd(k):
    def pre(X):
        if X.shape[0] == 1:
            return np.eye(1), X
        U, s, _ = np.linalg.svd(X, full_matrices=False)
        r = len(s) if k == -1 else k if k >= 1 else int(np.sum(np.cumsum(s ** 2) / np.sum(s ** 2) < k)) + 1
        U = U[:, :r]
        return U, U.conj().T @ X
    return pre, (lambda s, Y: s @ Y)


def F_hankel(d, rule="first"):
    return (lambda X: (None, embed(X, d))), (lambda s, Y: inverse(np.asarray(Y), d, rule))


def F_rand(T, q):
    def pre(X):
        Y = X @ T(X)
        for _ in range(q):
            Y = X @ np.linalg.qr(X.conj().T @ np.linalg.qr(Y)[0])[0]
        Q = np.linalg.qr(Y)[0]
        return Q, Q.conj().T @ X
    return pre, (lambda s, Y: s @ Y)


W12 = np.linspace(0.5, 2.0, 12)
T12 = noise((12, 4), 51)


class Spy(PrePostProcessing):
    last = None

    def __init__(self):
        self.log = []
        Spy.last = self

    def pre_processing(self, X):
        self.log.append(("pre", X))
        return ("token", len(self.log)), 2.0 * X

    def post_processing(self, pre_processing_output, Y):
        self.log.append(("post", pre_processing_output))
        return Y / 2.0


# name -> (wrap function, reference)
STEP = {
    "id": (lambda e: PrePostProcessingDMD(e), F_id()),
    "mean": (lambda e: zero_mean_preprocessing(e), F_mean()),
    "mean1": (lambda e: zero_mean_preprocessing(e, axis=1), F_mean(1)),
    "mean0": (lambda e: zero_mean_preprocessing(e, axis=0), F_mean(0)),
    "meanw": (lambda e: zero_mean_preprocessing(e, axis=1, weights=W12), F_mean(1, lambda X: W12)),
    "meanpos": (lambda e: zero_mean_preprocessing(e, 1), F_mean(1)),
    "svd-1": (lambda e: svd_projection_preprocessing(e, -1), F_svd(-1)),
    "svd3": (lambda e: svd_projection_preprocessing(e, 3), F_svd(3)),
    "svd.99": (lambda e: svd_projection_preprocessing(e, svd_rank=0.99), F_svd(0.99)),
    "hankel2": (lambda e: hankel_preprocessing(e, d=2), F_hankel(2)),
    "hankel3m": (lambda e: hankel_preprocessing(e, d=3, reconstruction_method="mean"), F_hankel(3, "mean")),
    "hankel3w": (lambda e: hankel_preprocessing(e, d=3, reconstruction_method=(1.0, 2.0, 4.0)), F_hankel(3, np.array([1.0, 2, 4]))),
    "rand": (lambda e: randomized_preprocessing(e, svd_rank=3, test_matrix=T12, power_iters=1), F_rand(lambda X: T12, 1)),
    "rand0": (lambda e: randomized_preprocessing(e, 4, power_iters=0, test_matrix=T12), F_rand(lambda X: T12, 0)),
    "spy": (lambda e: PrePostProcessingDMD(e, Spy()), ((lambda X: (None, 2.0 * X)), (lambda s, Y: Y / 2.0))),
}
NOWIN = {"mean0"}
EST = {
    "DMD": lambda: DMD(svd_rank=2),
    "DMD-x": lambda: DMD(svd_rank=2, exact=True, opt=True, sorted_eigs="abs"),
    "DMD-opt-2": lambda: DMD(svd_rank=3, opt=-2, tlsq_rank=3, sorted_eigs="abs"),
    "FbDMD": lambda: DMD(svd_rank=1, forward_backward=True),
    "SubspaceDMD": lambda: SubspaceDMD(svd_rank=2),
    "SpDMD": lambda: SpDMD(svd_rank=2, gamma=1e-4, verbose=False),
    "HankelDMD": lambda: HankelDMD(svd_rank=2, d=2, reconstruction_method="mean"),
    "EDMD": lambda: EDMD(svd_rank=2),
    "PiDMD": lambda: PiDMD(manifold="unitary", compute_A=True),
    "BOPDMD": lambda: BOPDMD(svd_rank=2, use_proj=True, eig_sort="real"),
    "VarProDMD": lambda: VarProDMD(svd_rank=2, exact=True, sorted_eigs="abs"),
    "DMDc": lambda: DMDc(svd_rank=-1),
    "MrDMD": lambda: MrDMD(DMD(svd_rank=2), max_level=1, max_cycles=1),
}
REALONLY = {"EDMD", "PiDMD", "MrDMD"}
# results invariant to rotating the data basis: all but these
ROT = {"rand", "rand0", "svd-1", "svd3", "svd.99"}


def data(k, cplx, est):
    m = 12
    if cplx:
        X = System("c3", 6, True, salt=k).data(m)
    else:
        X = System("pair+real", 6, False, salt=k).data(m)
    X = X + 0.02 * noise(X.shape, 5 + k, cplx) + 0.7 + 0.1 * k
    if est in ("BOPDMD", "VarProDMD"):
        return (X, 0.3 * np.arange(m)), {}
    if est == "DMDc":
        return (X, noise((2, m - 1), 3 + k)), {}
    return (X,), {}


def bounds(tier):
    return {"estimators": list(EST), "steps": list(STEP), "nestings": f"all ordered pairs{' and triples' if tier == 'thorough' else ''} of steps",
            "interleavings": "all interleavings of two 3-step histories on two wrappers, every step kind"}


NEST = ["mean1", "svd3", "hankel2", "rand", "spy", "svd-1", "mean"]


def ok(est, step):
    if est in ("SubspaceDMD", "MrDMD", "PiDMD") and step.startswith("hankel"):
        return est != "MrDMD"
    if est == "DMDc" and step.startswith("hankel"):
        return False
    if est in ("BOPDMD", "VarProDMD") and step.startswith("hankel"):
        return False
    return True


def cases(tier):
    for e, s, c in itertools.product(EST, STEP, (False, True)):
        if c and e in REALONLY or not ok(e, s):
            continue
        yield {"k": "wrap", "est": e, "steps": [s], "cplx": c}
    for n in ((2, 3) if tier == "thorough" else (2,)):
        for ss in itertools.product(NEST, repeat=n):
            if "hankel2" in ss and "rand" in ss[ss.index("hankel2"):]:
                continue    # the test matrix has one row per column of the data
            for c in (False, True):
                for e in (["DMD", "DMD-x"] if tier == "quick" else ["DMD", "DMD-x", "DMD-opt-2", "HankelDMD"]):
                    yield {"k": "wrap", "est": e, "steps": list(ss), "cplx": c}
    for s in STEP:
        for mix in set(itertools.permutations("AAABBB")):
            yield {"k": "two", "step": s, "mix": "".join(mix)}
    for e, s in itertools.product(EST, STEP):
        if ok(e, s):
            yield {"k": "attr", "est": e, "step": s}
    for s in ("rand", "svd", "hankel"):
        for c in (False, True):
            yield {"k": "low", "step": s, "cplx": c}
    yield {"k": "kw"}
    # small systems: every number of rows with every rank, number of delays and axis
    for n in range(1, 5):
        for c in (False, True):
            yield {"k": "small", "n": n, "cplx": c}


def build(est, steps):
    e = EST[est]()
    for s in reversed(steps):
        e = STEP[s][0](e)
    return e


def ref_fit(est, steps, args):
    """plain estimator on reference-transformed data + reference inverse."""
    X = args[0]
    st = []
    for s in steps:
        a, X = STEP[s][1][0](X)
        st.append(a)
    e = EST[est]()
    fit(e, (X,) + args[1:])

    def post(Y):
        for s, a in reversed(list(zip(steps, st))):
            Y = STEP[s][1][1](a, Y)
        return Y
    return e, post


def fit(e, a):
    np.random.seed(5)
    return e.fit(*a)


def rd(e):
    v = e.reconstructed_data
    return v() if callable(v) else v


def compare(rec, w, e, post, est, steps, what, tol=1e-6, win=None):
    er, p = match(w.eigs, e.eigs)
    rec.check(er <= 1e-6 * max(1, np.abs(e.eigs).max()), f"{what}: eigenvalues differ from the estimator on transformed data", err=er, got=w.eigs, want=e.eigs)
    want = post(rd(e))
    rec.close(rd(w), want, f"{what}: the reconstruction is not the inverse transformation of the estimator's", tol=tol)
    if not ROT & set(steps) and est not in ("MrDMD",):
        for a in ("modes", "amplitudes", "dynamics", "snapshots"):
            g, x = zoo.grab(lambda: getattr(w, a)), zoo.grab(lambda: getattr(e, a))
            if isinstance(x, np.ndarray):
                rec.close(g, x, f"{what}: {a} read through the wrapper differ", tol=1e-6)


def run_case(case, rec):
    globals()["k_" + case["k"]](case, rec)


def k_wrap(case, rec):
    est, steps = case["est"], case["steps"]
    w = build(est, steps)
    for rnd, k in enumerate((0, 1, 0)):
        a, _ = data(k, case["cplx"], est)
        rec.at("fit")
        keep = a[0].copy()
        r = fit(w, a)
        rec.check(r is w, "fit of the wrapper does not return the wrapper")
        rec.check(np.array_equal(keep, a[0]), "the wrapper changed the data")
        e, post = ref_fit(est, steps, a)
        compare(rec, w, e, post, est, steps, "after fit %d" % rnd)
        compare(rec, w, e, post, est, steps, "asked again")
        if est in ("BOPDMD", "VarProDMD", "MrDMD", "DMDc"):
            pass
        elif not NOWIN & set(steps):
            for win in ({"t0": 0, "tend": 18, "dt": 1}, {"t0": 3, "tend": 9, "dt": 2}):
                if any(s.startswith("hankel") for s in steps) and win["dt"] != 1:
                    continue
                rec.at("window")
                w.dmd_time = dict(win)
                e.dmd_time = dict(win)
                rec.check(dict(w.dmd_time) == win, "the assigned window is not the one read back")
                compare(rec, w, e, post, est, steps, "in a window", tol=1e-5)
        if est not in ("MrDMD", "DMDc") and len(e.eigs) > 1:
            rec.at("mask")
            n = len(e.modes_activation_bitmask)
            eg = w.eigs.copy()
            e2 = e.eigs.copy()
            m = np.ones(n, bool)
            m[0] = False
            _, p = match(eg, e2)
            m2 = np.ones(n, bool)
            m2[p[0]] = False
            w.modes_activation_bitmask = m
            e.modes_activation_bitmask = m2
            rec.check(np.array_equal(w.modes_activation_bitmask, m), "the assigned mask is not the one read back")
            compare(rec, w, e, post, est, steps, "with a mask", tol=1e-5)
        rec.state(case, rnd)


def k_two(case, rec):
    """Two wrappers of one kind: every interleaving of (fit, window+query, refit+query) each."""
    s = case["step"]
    cfg = {"A": (0, 1), "B": (1, 0)}
    objs = {n: build("DMD", [s]) for n in "AB"}
    ref = {n: build("DMD", [s]) for n in "AB"}
    log = {"A": [], "B": []}
    want = {"A": [], "B": []}

    def step(o, n, i, out):
        if i == 0:
            fit(o, data(cfg[n][0], False, "DMD")[0])
        elif i == 1:
            if s not in NOWIN:
                o.dmd_time["tend"] = 15
        else:
            fit(o, data(cfg[n][1], False, "DMD")[0])
        out.append((np.array(o.reconstructed_data), np.array(o.eigs), dict(o.dmd_time)))
    for n in "AB":
        for i in range(3):
            step(ref[n], n, i, want[n])
    cnt = {"A": 0, "B": 0}
    for n in case["mix"]:
        rec.at(n + str(cnt[n]))
        step(objs[n], n, cnt[n], log[n])
        cnt[n] += 1
        for x in "AB":
            if cnt[x]:
                w = want[x][cnt[x] - 1]
                rec.close(objs[x].reconstructed_data, w[0], "a wrapper is influenced by another of its kind", tol=1e-12)
                rec.close(objs[x].eigs, w[1], "a wrapper is influenced by another of its kind", tol=1e-12)
                rec.check(dict(objs[x].dmd_time) == w[2], "a wrapper's window is influenced by another")
    rec.state(case)


SETTABLE = {"BOPDMD": {"svd_rank": 3, "init_alpha": np.array([-0.1 + 1j, -0.2 - 1j])}}


def k_attr(case, rec):
    est, s = case["est"], case["step"]
    w = build(est, [s])
    a, _ = data(0, False, est)
    inner = w.pre_post_processed_dmd
    rec.at("fit")
    fit(w, a)
    rec.check(w.pre_post_processed_dmd is inner, "the wrapped estimator was replaced")
    names = [n for n in dir(type(inner)) if not n.startswith("_") and n not in ("reconstructed_data", "fit", "save", "load")]
    for n in names:
        rec.at(n)
        x = zoo.grab(lambda: getattr(inner, n))
        g = zoo.grab(lambda: getattr(w, n))
        if isinstance(x, np.ndarray) and x.dtype.kind in "fciub":
            rec.close(g, x, "an attribute read through the wrapper differs", tol=1e-12, name=n)
        elif isinstance(x, (dict, int, float, str, bool, tuple, type(None))):
            same = isinstance(g, type(x)) and (x[0] == g[0] if isinstance(x, tuple) and x and x[0] == "raises" else canon(g) == canon(x))
            rec.check(same, "an attribute read through the wrapper differs", name=n, got=repr(g)[:80], want=repr(x)[:80])
        elif callable(x):
            rec.check(callable(g) and getattr(g, "__self__", None) is getattr(x, "__self__", None), "a method called through the wrapper is not the wrapped one", name=n)
    for n, v in SETTABLE.get(est, {}).items():
        rec.at("set " + n)
        setattr(w, n, v)
        rec.check(np.array_equal(getattr(inner, n), v), "an attribute assigned through the wrapper did not reach the estimator", name=n)
        rec.check(np.array_equal(getattr(w, n), v), "an attribute assigned through the wrapper is not read back", name=n)
    if hasattr(type(inner), "original_time") and est not in ("BOPDMD", "VarProDMD"):
        rec.at("sampling window")
        w.original_time["dt"] = 0.5
        rec.check(inner.original_time["dt"] == 0.5, "the sampling window assigned through the wrapper did not reach the estimator")
    if s == "spy":
        rec.at("spy")
        w = build(est, [s])
        spy = Spy.last
        fit(w, a)
        rec.check([x[0] for x in spy.log] == ["pre"] and np.array_equal(spy.log[0][1], a[0]), "the step did not receive the data once per fit")
        rd(w)
        rd(w)
        rec.check([x[0] for x in spy.log] == ["pre", "post", "post"] and spy.log[1][1] == ("token", 1), "the inverse step did not receive what the step returned")
    rec.state(case)


def k_low(case, rec):
    c = case["cplx"]
    sy = System("c3" if c else "pair+real", 7, c)
    X = sy.data(11)
    mk = {"rand": [],
          "svd": [lambda k=k: svd_projection_preprocessing(DMD(svd_rank=3), svd_rank=k) for k in (3, 4, -1, 0.999999999)],
          "hankel": [lambda d=d: hankel_preprocessing(DMD(svd_rank=3), d=d) for d in range(1, 6)]}[case["step"]]
    if case["step"] == "rand":
        mk = [(lambda q=q, o=o, p=p: randomized_preprocessing(DMD(svd_rank=3), svd_rank=3, seed=q, oversampling=o, power_iters=p))
              for q in range(6) for o in (0, 1, 5) for p in (0, 1, 3)]
    for f in mk:
        rec.at("fit")
        w = f().fit(X)
        rec.close(w.reconstructed_data, X, "noise-free data of the rank are not restored", tol=1e-6)
        e, _ = match(w.eigs, sy.eigs)
        rec.check(e < 1e-6, "noise-free eigenvalues are not found through the wrapper", err=e)
        w2 = f().fit(X)
        rec.check(np.array_equal(w2.reconstructed_data, w.reconstructed_data), "the same step with the same seed gives other results")
        rec.state(case["step"], w.reconstructed_data)


def k_small(case, rec):
    n, c = case["n"], case["cplx"]
    for m in (3, 6):
        X = noise((n, m), 40 + n, c)
        steps = [("svd %r" % k, lambda e, k=k: svd_projection_preprocessing(e, k), F_svd(k if n > 1 else -1)) for k in (-1, *range(1, n + 2), 0.8, 0.99)]
        steps += [("hankel %d %s" % (d, r), lambda e, d=d, r=r: hankel_preprocessing(e, d=d, reconstruction_method=r), F_hankel(d, r)) for d in range(1, m - 1) for r in ("first", "mean")]
        steps += [("mean %r" % a, lambda e, a=a: zero_mean_preprocessing(e, axis=a), F_mean(a)) for a in (None, 0, 1) if (n, a) != (1, 0)]
        for nm, wrap, (pre, post) in steps:
            rec.at(f"{nm}, {m} snapshots")
            w = wrap(DMD(svd_rank=-1))
            w.fit(X)
            st, Z = pre(X)
            e = DMD(svd_rank=-1).fit(Z)
            want = np.asarray(post(st, e.reconstructed_data))
            rec.close(w.reconstructed_data, want, "reconstruction through the wrapper differs from the explicit route", tol=1e-7)
            rec.check(len(w.eigs) == len(e.eigs), "number of modes", got=len(w.eigs), want=len(e.eigs))
            rec.state(n, m, nm, c)


def k_kw(case, rec):
    X = data(0, False, "DMD")[0][0]
    for s in STEP:
        rec.at(s)
        a = build("DMD", [s])
        a.fit(X)
        b = build("DMD", [s])
        b.fit(X=X)
        rec.close(b.reconstructed_data, a.reconstructed_data, "fit(X=...) differs from fit(...)", tol=1e-12)
        rec.raises(lambda: build("DMD", [s]).fit(), "fit without data was accepted")
    rec.raises(lambda: PrePostProcessingDMD(None), "a wrapper around nothing was accepted")
    rec.state("kw")
