"""P16: bagging statistics describe exactly the bags that were drawn."""
import contextlib
import io
import itertools
import warnings
import numpy as np
from .zoo import BOPDMD, noise

PROPERTY = "P16"
TECHNIQUE = "stateless exploration of the real code with an owned random generator: every sequence of bags (and of failing bags) and every sequence of ensemble perturbations within the bound is executed and compared with statistics of independently fitted bags and a reference automaton"
ASSUMPTIONS = ["np.random (choice, permutation, shuffle, randn, normal, standard_normal, default_rng) is the only source of randomness",
               "exponents of the enumerated signals are separated enough for the orderings of all bags to agree"]
DESIGN = """
np.random is replaced by a generator the harness owns. A bag is one answer to a draw of time indices; the individual fit of each possible
bag is computed once with a separate single fit started from the full-data exponents. Then every sequence of bags up to the bound is
executed and modes, exponents, amplitudes and their deviations are compared with numpy statistics of the individual fits in the
documented order. Records with one corrupted sample make the bags that contain it fail to converge; all words over good and bad bags
are run against an automaton (discard, count, give up after bag_maxfail consecutive failures, use all when removal is off).
A forecast is run under every 0/1 word of normal draws, and the collection of outcomes is compared with the collection predicted for an
ensemble with those deviations (so that the order of drawing does not matter).
"""
CHUNK = 40


class Draws:
    """Owned np.random: hands out the scripted bags / normals and records the requests."""

    def __init__(self, bags=(), normals=()):
        self.bags, self.normals = list(bags), list(normals)
        self.asked = []
        self.nb = self.nn = 0

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        self.asked.append(("choice", len(a), size, bool(replace), p))
        if self.nb >= len(self.bags):
            raise Exhausted()
        b = list(self.bags[self.nb])
        self.nb += 1
        size = int(np.prod(size)) if size is not None else 1
        if size != len(b):
            raise BagSize(size)
        return a[np.array(b[::-1] if self.nb % 2 else b)]

    def permutation(self, a):
        a = np.arange(a) if np.ndim(a) == 0 else np.array(a)
        self.asked.append(("perm", len(a), None, False, None))
        if self.nb >= len(self.bags):
            raise Exhausted()
        b = list(self.bags[self.nb])
        self.nb += 1
        return a[np.array(b + [i for i in range(len(a)) if i not in b])]

    def shuffle(self, a):
        a[:] = self.permutation(a.copy())

    def randn(self, *s):
        return self.standard_normal(s if s else None)

    def standard_normal(self, size=None, *a, **k):
        n = 1 if size is None else int(np.prod(size))
        out = [self.normals[(self.nn + i) % len(self.normals)] for i in range(n)]
        self.nn += n
        out = np.array(out, float)
        return float(out[0]) if size is None else out.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = size if size is not None else np.broadcast(loc, scale).shape or None
        return loc + scale * self.standard_normal(sh)

    def seed(self, *a):
        pass


class Exhausted(BaseException):
    pass


class BagSize(BaseException):
    pass


@contextlib.contextmanager
def owned(d):
    names = ["choice", "permutation", "shuffle", "randn", "standard_normal", "normal", "seed"]
    keep = {n: getattr(np.random, n) for n in names + ["default_rng", "RandomState"]}
    try:
        for n in names:
            setattr(np.random, n, getattr(d, n))
        np.random.default_rng = lambda *a: d
        np.random.RandomState = lambda *a: d
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                yield d
    finally:
        for n, v in keep.items():
            setattr(np.random, n, v)


# ---------------------------------------------------------------- signals
SIG = {
    "imag": [-0.05 + 2.0j, -0.1 - 1.5j],         # spread along the imaginary axis
    "real": [-1.0 + 0.2j, 0.3 + 0.1j],           # along the real axis
    "abs": [0.1 + 0.2j, -1.2 - 1.2j],
    "pair": [-0.1 + 1.8j, -0.1 - 1.8j],
    "one": [-0.3 + 0.9j],
    "three": [-0.05 + 2.0j, 0.0 + 0.3j, -0.1 - 1.5j],
}


def record(sig, m, bad=None, n=3, eps=0.02):
    e = np.array(SIG[sig])
    r = len(e)
    n = max(n, r)
    t = 0.25 * np.arange(m) + 0.03 * np.sin(5.0 * np.arange(m))
    W = np.linalg.qr(noise((n, r), 3, True))[0]
    if sig == "pair":
        W[:, 1] = W[:, 0].conj()
    X = W @ np.exp(np.outer(e, t))
    if sig == "pair":
        X = X.real
    if bad is None:
        X = X + eps * noise((n, m), 8, sig != "pair")
    else:
        X[:, bad] += 0.3 * noise((n,), 5, sig != "pair")
    return X, t


_cache = {}


def setup(sig, m, k, proj, bad, con, tol):
    """full solution and the individual fits of every bag."""
    key = (sig, m, k, proj, bad, con, tol)
    if key not in _cache:
        if len(_cache) > 6:
            _cache.clear()
        X, t = record(sig, m, bad)
        r = len(SIG[sig])
        opts = dict(tol=tol)
        cons = set(con.split("+")) if con else None
        full = single(X, t, dict(svd_rank=r, use_proj=proj, eig_constraints=cons, varpro_opts_dict=opts))
        bags = list(itertools.combinations(range(m), k))
        fits = {}
        for b in bags:
            kw = dict(svd_rank=r, use_proj=proj, eig_constraints=cons, varpro_opts_dict=opts, init_alpha=full[0].eigs.copy())
            if proj:
                kw["proj_basis"] = full[0].proj_basis
            f, ok = single(X[:, list(b)], t[list(b)], kw)
            fits[b] = (f.eigs.copy(), f.modes.copy(), np.array(f.amplitudes), ok)
        _cache[key] = (X, t, full, bags, fits, opts, cons)
    return _cache[key]


def single(X, t, kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        d = BOPDMD(num_trials=0, **kw).fit(X, t)
    return d, not any("failed to converge" in str(x.message) for x in w)


def order(e, how):
    if how == "real":
        return np.lexsort((e.imag, e.real))
    if how == "imag":
        return np.lexsort((e.real, e.imag))
    return np.argsort(np.abs(e), kind="stable")


def stats(seq, how):
    if how == "auto":
        e = seq[0][0]
        how = ("real", "imag", "abs")[int(np.argmax([np.var(e.real), np.var(e.imag), np.var(np.abs(e))]))]
    E, W, B = [], [], []
    for e, w, b, _ in seq:
        p = order(e, how)
        E.append(e[p]), W.append(w[:, p]), B.append(b[p])
    E, W, B = np.array(E), np.array(W), np.array(B)
    sd = lambda a: np.sqrt(np.mean(np.abs(a - a.mean(0)) ** 2, axis=0))
    return E.mean(0), W.mean(0), B.mean(0), sd(E), sd(W), sd(B)


SORT_OK = {"imag": ["imag", "auto"], "real": ["real", "auto"], "abs": ["abs", "auto", "real"], "pair": ["imag", "auto"], "one": ["real", "imag", "abs", "auto"], "three": ["imag", "auto"]}


def bounds(tier):
    return {"record": "5..7 samples, bags of 3..6", "signals": {k: [str(z) for z in v] for k, v in SIG.items()}, "bag sequences": "all of length 1..2" if tier == "quick" else "all of length 1..3",
            "failing bags": f"all words over 2 good and 2 bad bags up to length {4 if tier == 'quick' else 6}", "sizes": "every absolute size and fractions in steps of 0.05", "normals": "all 0/1 words of 4 draws"}


def cases(tier):
    for sig in SIG:
        for proj in (True, False):
            for con in ("", "stable", "imag", "stable+conjugate_pairs"):
                if "conj" in con and sig != "pair":
                    continue
                if con in ("imag",) and sig in ("real", "abs"):
                    continue
                for (m, k) in ((6, 4), (5, 4)) if tier == "quick" else ((6, 4), (5, 4), (7, 5), (7, 6)):
                    if sig == "three" and k == 4 and m == 5:
                        continue
                    nb = len(list(itertools.combinations(range(m), k)))
                    for sort in SORT_OK[sig]:
                        for T in ((1, 2, 3) if tier == "quick" else (1, 2, 3)):
                            if tier == "quick":
                                if T == 3 and (nb > 6 or sort == "auto" or con or not proj):
                                    continue
                                if nb > 6 and (sort == "auto" or con or proj != (sig in ("imag", "three", "one"))):
                                    continue
                            elif T == 3 and nb > 15:
                                continue
                            words = itertools.product(range(nb), repeat=T) if T < 3 or tier == "thorough" else itertools.product(range(nb), repeat=T)
                            for i, chunk in enumerate(batched(words, 45)):
                                yield {"k": "bags", "sig": sig, "proj": proj, "con": con, "m": m, "n": k, "sort": sort, "words": chunk}
    L = 4 if tier == "quick" else 6
    for remove in (True, False):
        for T in (1, 2, 3):
            for mf in (1, 2, 3, -1):
                for proj in (True, False) if tier == "thorough" else (True,):
                    # words with the same consumed prefix are the same execution
                    seen = {}
                    for w in itertools.product("gGbB" if tier == "thorough" or mf == 2 else "gGb", repeat=L):
                        seen.setdefault("".join(w)[:automaton(w, T, mf, remove)[2]], "".join(w))
                    for chunk in batched(seen.values(), 30):
                        yield {"k": "fail", "remove": remove, "T": T, "maxfail": mf, "proj": proj, "words": ["".join(w) for w in chunk]}
    for m in (5, 8, 10, 20) if tier == "quick" else range(4, 21):
        yield {"k": "size", "m": m}
    for sig in ("one", "imag", "pair"):
        for proj in (True, False):
            for mask in (False, True):
                yield {"k": "forecast", "sig": sig, "proj": proj, "mask": mask}
    for sig in SIG:
        for proj in (True, False):
            yield {"k": "off", "sig": sig, "proj": proj}


def batched(it, n):
    it = iter(it)
    while True:
        c = [list(x) for x in itertools.islice(it, n)]
        if not c:
            return
        yield c


def run_case(case, rec):
    globals()["c_" + case["k"]](case, rec)


def c_bags(case, rec):
    sig, m, k = case["sig"], case["m"], case["n"]
    X, t, full, bags, fits, opts, cons = setup(sig, m, k, case["proj"], None, case["con"], 1e-6)
    r = len(SIG[sig])
    for w in case["words"]:
        seq = [bags[i] for i in w]
        D = Draws(seq)
        rec.at(f"fit with bags {w}", len(w))
        frac = (k + 0.5) / m
        try:
            with owned(D):
                d = BOPDMD(svd_rank=r, use_proj=case["proj"], num_trials=len(seq), trial_size=k if w[0] % 2 else frac, eig_sort=case["sort"], eig_constraints=cons, compute_A=True, varpro_opts_dict=opts)
                d.fit(X, t)
        except Exhausted:
            rec.fail("more bags were drawn than there are trials", word=w)
            return
        except BagSize as e:
            rec.fail("a bag has not the requested size", got=int(e.args[0]), want=k)
            return
        if not rec.check(D.nb == len(seq), "number of bags drawn", got=D.nb, want=len(seq)):
            return
        rec.check(all(not a[3] and a[4] is None and a[1] == m for a in D.asked), "bags are not subsets drawn uniformly from all samples", asked=D.asked[0])
        if not compare(rec, d, [fits[b] for b in seq], case["sort"], f"bags {seq}"):
            return
        rec.state(sig, case["con"], case["proj"], d.eigs, d.eigenvalues_std)
        E = d.eigs
        if "stable" in case["con"]:
            rec.check(np.all(E.real <= 0), "the mean violates the constraint", eigs=E)
        if case["con"] == "imag":
            rec.check(np.all(E.real == 0), "the mean violates the constraint", eigs=E)
        rec.close(d.A, d.modes @ np.diag(E) @ np.linalg.pinv(d.modes), "the operator is not built from the averages", tol=1e-7)
        wp = d.proj_basis.conj().T @ d.modes
        rec.close(d.atilde, wp @ np.diag(E) @ np.linalg.pinv(wp), "the reduced operator is not built from the averages", tol=1e-7)
        rec.close(d.reconstructed_data, d.modes @ (np.asarray(d.amplitudes)[:, None] * np.exp(np.outer(E, t))), "reconstruction is not that of the averages", tol=1e-9)


def compare(rec, d, seq, sort, what):
    e, w, b, se, sw, sb = stats(seq, sort)
    tol = 1e-6
    ok = rec.close(d.eigs, e, "exponents are not the mean over the bags", tol=tol, bags=what)
    ok &= rec.close(d.modes, w, "modes are not the mean over the bags", tol=tol, bags=what)
    ok &= rec.close(d.amplitudes, b, "amplitudes are not the mean over the bags", tol=tol, bags=what)
    if d.eigenvalues_std is None or d.modes_std is None or d.amplitudes_std is None:
        rec.fail("no deviations reported")
        return False
    # the deviations suffer cancellation: absolute error sqrt(eps) of the size of the quantity
    ok &= rec.close(d.eigenvalues_std, se, "deviation of the exponents", tol=3e-6, scale=max(1.0, np.abs(e).max()), bags=what)
    ok &= rec.close(d.modes_std, sw, "deviation of the modes", tol=3e-6, scale=1.0, bags=what)
    ok &= rec.close(d.amplitudes_std, sb, "deviation of the amplitudes", tol=3e-6, scale=max(1.0, np.abs(b).max()), bags=what)
    return ok


def automaton(w, T, mf, remove):
    """reference: which trials enter the statistics, how it ends, how many bags are drawn."""
    acc, fails = [], 0
    for used, c in enumerate(w, 1):
        if c in "gG" or not remove:
            acc.append(c)
            fails = 0
        else:
            fails += 1
            if fails == mf:
                return acc, "error", used
        if len(acc) == T:
            return acc, "done", used
    return acc, "exhausted", len(w)


def c_fail(case, rec):
    m, k, bad = 6, 4, 5
    X, t, full, bags, fits, opts, cons = setup("imag", m, k, case["proj"], bad, "", 1e-7)
    good = [b for b in bags if bad not in b]
    evil = [b for b in bags if bad in b]
    assert all(fits[b][3] for b in good) and not any(fits[b][3] for b in evil), [(b, fits[b][3]) for b in bags]
    alpha = {"g": good[0], "G": good[3], "b": evil[1], "B": evil[6]}
    T, mf = case["T"], case["maxfail"]
    for w in case["words"]:
        acc, out, used = automaton(w, T, mf, case["remove"])
        acc = [alpha[c] for c in acc]
        D = Draws([alpha[c] for c in w])
        rec.at(f"trials {w}", used)
        try:
            with owned(D):
                d = BOPDMD(svd_rank=2, use_proj=case["proj"], num_trials=T, trial_size=k, eig_sort="imag", remove_bad_bags=case["remove"], bag_warning=1, bag_maxfail=mf, varpro_opts_dict=opts)
                d.fit(X, t)
            got = "done"
        except Exhausted:
            got = "exhausted"
        except BagSize:
            got = "bag size"
        except RuntimeError:
            got = "error"
        if not rec.check(got == out and D.nb == used, "trials were not discarded, counted or given up as the options say", word=w, got=[got, D.nb], want=[out, used]):
            return
        rec.state(case["remove"], T, mf, w[:used], out)
        if out == "done" and not compare(rec, d, [fits[b] for b in acc], "imag", w):
            return


def c_size(case, rec):
    m = case["m"]
    X, t = record("one", m)
    for ts in list(range(0, m + 3)) + [-1] + [round(0.05 * i, 2) for i in range(1, 20)] + [1.0, 1.5, 2.0]:
        if isinstance(ts, int):
            want = ts if 1 <= ts <= m else None
        else:
            want = int(ts * m) if 0 < ts < 1 else None
            want = want or None
        sizes = []

        class Any(Draws):
            def choice(self, a, size=None, replace=True, p=None, **kw):
                sizes.append(int(size))
                return np.sort(np.arange(m)[:size])

            def permutation(self, a):
                sizes.append(want)
                return np.arange(m)
        rec.at(f"trial_size {ts}")

        def go():
            with owned(Any()):
                return BOPDMD(svd_rank=1, num_trials=2, trial_size=ts).fit(X, t)
        if want is None:
            rec.raises(go, f"trial_size {ts!r} of {m} samples accepted")
        else:
            d = go()
            rec.check(sizes == [want] * 2, "bag size", trial_size=ts, got=sizes, want=want)
            rec.check(np.all(d.eigenvalues_std < 1e-6), "identical bags have a deviation", std=d.eigenvalues_std)
        rec.state(m, ts)


def c_forecast(case, rec):
    sig = case["sig"]
    m, k = 6, 4
    X, t, full, bags, fits, opts, cons = setup(sig, m, k, case["proj"], None, "", 1e-6)
    r = len(SIG[sig])
    T = 2
    with owned(Draws([bags[0], bags[9]])):
        d = BOPDMD(svd_rank=r, use_proj=case["proj"], num_trials=T, trial_size=k, eig_sort="imag", varpro_opts_dict=opts).fit(X, t)
    if case["mask"]:
        if r == 1:
            return
        mk = np.array([True] + [False] * (r - 1))
        d.modes_activation_bitmask = mk
        se, sb = d.operator.eigenvalues_std[mk], d.operator.amplitudes_std[mk]
        r = 1
    else:
        se, sb = d.eigenvalues_std, d.amplitudes_std
    e, b, W = np.array(d.eigs), np.array(d.amplitudes), np.array(d.modes)
    for tt in (t, np.array([t[0] - 0.4, t[-1] + 1.0]), [t[-1] + 0.5], float(t[2])):
        ta = np.atleast_1d(tt)
        nz = 2 * r * T
        got, want = [], []
        words = list(itertools.product((0.0, 1.0), repeat=min(nz, 4))) if nz <= 4 else [w for w in itertools.product((0.0, 1.0), repeat=nz)]
        for z in words:
            rec.at("forecast", 1)
            D = Draws(normals=z)
            with owned(D):
                mu, va = d.forecast(tt)
            if not rec.check(D.nn in (0, nz), "number of perturbations drawn", got=D.nn, want=nz):
                return
            got.append(np.concatenate([np.asarray(mu).ravel(), np.asarray(va).ravel()]))
            zz = np.array(z).reshape(T, 2, r)
            xs = np.array([W @ ((b + zz[q, 1] * sb)[:, None] * np.exp(np.outer(e + zz[q, 0] * se, ta))) for q in range(T)])
            want.append(np.concatenate([xs.mean(0).ravel(), np.mean(np.abs(xs - xs.mean(0)) ** 2, axis=0).ravel()]))
        got, want = np.array(got), np.array(want)
        sc = np.abs(want).max()
        ok = got.shape == want.shape
        if ok:
            left = list(range(len(want)))
            for g in got:
                D_ = np.max(np.abs(want[left] - g), axis=1)
                j = int(np.argmin(D_))
                if D_[j] > 1e-7 * sc:
                    ok = False
                    break
                left.pop(j)
        if not rec.check(ok, "the forecast is not the mean and variance of an ensemble with the reported deviations", times=tt):
            return
        rec.state(sig, case["proj"], case["mask"], want[:3])


def c_off(case, rec):
    X, t = record(case["sig"], 7)
    r = len(SIG[case["sig"]])
    for nt in (0, -1, -5, 2.5, 3.0):
        rec.at(f"num_trials {nt}")
        D = Draws()
        try:
            with owned(D):
                d = BOPDMD(svd_rank=r, use_proj=case["proj"], num_trials=nt, trial_size=4).fit(X, t)
        except (Exhausted, BagSize):
            rec.fail("bags were drawn without bagging", num_trials=nt)
            continue
        rec.check(D.nb == 0 and D.nn == 0, "random numbers were drawn without bagging", num_trials=nt)
        rec.check(d.eigenvalues_std is None and d.modes_std is None and d.amplitudes_std is None, "deviations without bagging", num_trials=nt)
        with owned(D):
            x = d.forecast(t)
        rec.check(isinstance(x, np.ndarray) and x.shape == X.shape, "the forecast without bagging is not the signal", num_trials=nt)
        with owned(D):
            rec.close(x, d.reconstructed_data, "the forecast without bagging is not the signal", tol=1e-10)
