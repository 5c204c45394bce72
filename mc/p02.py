"""P02: nothing the caller passes in is ever modified."""
import itertools
import numpy as np
from . import zoo

PROPERTY = "P02"
TECHNIQUE = "exhaustive enumeration of estimator x argument layout x operation sequences on the real code; byte-for-byte comparison of every argument after every step"
ASSUMPTIONS = ["arguments that are functions or estimators are compared through their observable state, arrays through their bytes",
               "in-place edits made by the caller on an array it owns are not counted"]
CHUNK = 24
LAYOUTS = ["C", "F", "int", "view", "readonly", "list"]


def deep(x, seen=None):
    """Byte-exact description of a caller-owned value."""
    if isinstance(x, np.ndarray):
        base = x.base if isinstance(x.base, np.ndarray) else None
        return ("arr", x.dtype.str, x.shape, x.tobytes(), base.tobytes() if base is not None else None)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(deep(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((str(k), deep(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, zoo.pydmd.DMDBase):
        return ("dmd", type(x).__name__, bool(getattr(x, "fitted", False)), x.snapshots is None)
    if callable(x):
        return ("fn", id(x))
    return ("val", repr(x))


def relayout(a, how):
    """The same argument in another memory layout."""
    if isinstance(a, dict):
        return {k: relayout(v, how) if how != "list" else v for k, v in a.items()}
    if not isinstance(a, np.ndarray):
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "int":
        return np.round(20 * a).astype(int) if a.dtype.kind == "f" and a.ndim > 1 else a
    if how == "view":
        big = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if how == "readonly":
        a = np.array(a)
        a.flags.writeable = False
        return a
    if how == "list":
        return [np.array(c) for c in a.T] if a.ndim == 2 else a
    return np.array(a)


def layouts(e, name):
    for how in LAYOUTS:
        if how == "int" and (name.startswith(("COSTS", "mrCOSTS", "HAVOK", "Parametric")) or e.data is zoo.d_time):
            continue
        if how == "list" and not (e.data is zoo.d_lin and not name.startswith(("W-", "zero", "rand", "hankel")) or e.data is zoo.d_mr):
            continue
        if how == "readonly" and name.startswith(("COSTS", "mrCOSTS")):
            continue
        yield how


def sequences(e, tier, how="C"):
    ops = list(zoo.ops_for(e)) + ["followup", "refit"]
    if e.heavy:
        yield []
        yield ["read"]
        yield ["refit"]
        yield ["followup"]
        return
    yield []
    for o in ops:
        yield [o]
    if tier == "thorough":
        for s in itertools.product(ops, ops):
            yield list(s)
    elif how in ("C", "int", "list"):
        for o in ops:
            for q in ("read", "mask0", "refit", "modes"):
                if q in ops and q != o:
                    yield [o, q]


def cases(tier):
    for reg in ("cfg", "zoo"):
        for name, e in (zoo.CFG if reg == "cfg" else zoo.ZOO).items():
            for how in layouts(e, name):
                if e.heavy and how not in ("C", "F") and tier == "quick":
                    continue
                ks = e.ks if tier == "thorough" and not e.heavy else e.ks[:1] if how != "C" else e.ks[:3:2]
                for k in ks:
                    if how == "int" and np.iscomplexobj(e.data(k)[0][0]):
                        continue
                    for s in sequences(e, tier, how):
                        yield {"reg": reg, "est": name, "layout": how, "k": k, "ops": s}
    for u in UTILS:
        for how in ("C", "F", "view", "readonly", "int"):
            yield {"reg": "util", "est": u, "layout": how}


def bounds(tier):
    return {"estimators": len(zoo.ZOO), "constructors with mutable arguments": list(zoo.CFG), "layouts": LAYOUTS,
            "operations": "all sequences of 2" if tier == "thorough" else "all single operations and pairs with 4 second operations",
            "utilities": list(UTILS)}


def followup(e, d, rec, held):
    """Further public calls that take caller data."""
    name = e.name
    n = None
    try:
        n = d.snapshots.shape[0]
    except Exception:
        pass

    def give(label, fn, *args):
        frz = [deep(a) for a in args]
        held.append((label, args, frz))
        fn(*args)

    if e.window:
        w = {"t0": 0, "tend": 5, "dt": 1}
        give("dmd_time dictionary", lambda v: setattr(d, "dmd_time", v), w)
        d.dmd_time["tend"] = 7
    if e.mask:
        m = np.ones(len(d.modes_activation_bitmask), bool)
        m[0] = False
        give("mask", lambda v: setattr(d, "modes_activation_bitmask", v), m)
        zoo.op_maskall(d)
    if hasattr(type(d), "predict") and n and not name.startswith(("LANDO", "HAVOK")):
        give("predict argument", d.predict, np.array(d.snapshots))
    if name.startswith(("BOPDMD", "VarPro")):
        give("forecast times", d.forecast, np.array([3.0, 1.0, 2.0]))
    if name.startswith("LANDO"):
        x = 0.1 * np.ones(n)
        give("fixed point", d.analyze_fixed_point, x)
        give("model argument", d.f, 0.3 * np.ones((n, 2)))
        give("nonlinear argument", d.nonlinear, 0.3 * np.ones((n, 2)))
        give("initial state", lambda v: d.predict(v, 4, continuous=False), 0.2 * np.ones(n))
        if "online" in name:
            give("update data", d.update, np.array(d.snapshots[:, :3]))
    if name in ("COSTS", "COSTS-local"):
        import matplotlib.pyplot as plt
        X = np.array(d.global_reconstruction()) + 0.01
        lv = {"include_means": True}
        for fn in (d.plot_scale_separation, d.plot_reconstructions):
            give("plot options", lambda x, r, f, p, h: fn(x, scale_reconstruction_kwargs=r, plot_residual=True, fig_kwargs=f, plot_kwargs=p, hf_plot_kwargs=h), X, lv, {"dpi": 30}, {"alpha": 1.0}, {"alpha": 0.9})
            plt.close("all")
        give("plot options", lambda x, p: d.plot_error(x, plot_kwargs=p), X, {"alpha": 1.0})
        give("plot data", lambda x, r: d.plot_time_series(1, x, r), X, lv)
        plt.close("all")
        give("clustering options", lambda q: d.cluster_omega(2, kmeans_kwargs=q, transform_method="absolute"), {"n_init": 2, "random_state": 1})
        give("sweep options", lambda r, q: d.cluster_hyperparameter_sweep(r, "absolute", clustering_kwargs=q), np.array([2, 3]), {"n_init": 2})
        give("frequencies", lambda w: [d.transform_omega(w, t) for t in ("absolute", "log10", "period", "square_frequencies")], np.array([0.5j, 1e-3 + 2j, 0.1j]))
    if name == "mrCOSTS":
        import matplotlib.pyplot as plt
        X = np.array(d.costs_array[0].global_reconstruction()) + 0.01
        give("plot options", lambda x, p: d.plot_local_error(0, x, plot_kwargs=p), X, {"alpha": 1.0})
        give("plot options", lambda x, p: d.plot_local_scale_separation(0, x, plot_kwargs=p), X, {"alpha": 1.0})
        give("plot options", lambda x, p: d.plot_local_reconstructions(0, x, kwargs=p), X, {"plot_residual": True})
        plt.close("all")
        give("clustering options", lambda q: d.global_cluster_omega(2, clustering_kwargs=q), {"n_init": 2, "random_state": 1})
        give("sweep options", lambda r, q: d.global_cluster_hyperparameter_sweep(r, verbose=False, clustering_kwargs=q), np.array([2, 3]), {"n_init": 2})
        give("frequencies", lambda w: [d.transform_omega(w, t) for t in ("absolute", "log10", "period", "square_frequencies")], np.array([0.5j, 1e-3 + 2j, 0.1j]))
    if name.startswith("HAVOK"):
        give("forcing", lambda f, t, v: d.predict(f, t, v), np.array(d.forcing[:12]), np.array(d.time[:12]),
             np.array(d.linear_dynamics[0]))
        give("threshold signal", d.compute_threshold, np.array(d.forcing[:, 0]))

        def thr(kw):
            import matplotlib.pyplot as plt
            d.compute_threshold(0, plot=True, plot_kwargs=kw)
            plt.close("all")
        give("plot options", thr, {"ylim": (1e-3, 1.0)})
    if name.startswith(("DMDc", "W-ctrl")):
        give("control input", d.reconstructed_data, noise_u(d))
    if name.startswith("Parametric") and e.window:
        give("parameters", lambda v: setattr(d, "parameters", v), np.array([0.7, 1.1]))
        d.reconstructed_data
    if e.tune:
        from pydmd.dmd_modes_tuner import ModesTuner, select_modes, ModesSelectors
        lst = [d]
        give("tuner list", lambda v: ModesTuner(v, in_place=False).select("module_threshold", low_threshold=0.0, up_threshold=9.0).get(), lst)
    if name.startswith("EDMD"):
        give("eigenfunction argument", d.eigenfunctions, np.ones(n))


def noise_u(d):
    s = len(d.dmd_timesteps) - 1
    l = d.B.shape[1]
    return zoo.noise((l, s), 3)


def run_case(case, rec):
    if case["reg"] == "util":
        return run_util(case, rec)
    e = (zoo.CFG if case["reg"] == "cfg" else zoo.ZOO)[case["est"]]
    held = []
    rec.at("construct")
    if case["reg"] == "cfg":
        args = e.args()
        held.append(("constructor argument", args, deep(args)))
        d = e.build(args)
    else:
        d = e.make()

    def verify(step):
        for label, a, frz in held:
            now = [deep(v) for v in a] if isinstance(frz, list) else deep(a)
            rec.need(now == frz, "caller data was modified", argument=label, step=step)

    verify("construct")
    a, kw = e.data(case["k"])
    a = tuple(relayout(v, case["layout"]) for v in a)
    kw = relayout(kw, case["layout"])
    held.append(("fit argument", a, [deep(v) for v in a]))
    held.append(("fit keyword", kw, deep(kw)))
    rec.at("fit")
    e.fit(d, case["k"], (a, kw))
    verify("fit")
    ops = zoo.ops_for(e)
    for o in case["ops"]:
        rec.at(o)
        try:
            if o == "followup":
                followup(e, d, rec, held)
            elif o == "refit":
                k2 = e.ks[-1]
                a2, kw2 = e.data(k2)
                e.fit(d, k2, (a2, kw2))
            else:
                ops[o](d)
        except Exception:
            if len(case["ops"]) == 1:
                raise
        verify(o)
    rec.at("read")
    e.obs(d)
    verify("read")
    rec.state(case["est"], case["layout"], case["k"], case["ops"])


def _u_svd(X, Y):
    from pydmd.utils import compute_svd, compute_rank
    for r in (-1, 0, 2, 0.9):
        compute_svd(X, r)
        compute_rank(X, r)


def _u_tlsq(X, Y):
    from pydmd.utils import compute_tlsq
    for r in (0, 2, 3):
        compute_tlsq(X, Y, r)


def _u_rqb(X, Y):
    from pydmd.utils import compute_rqb
    for p in (0, 1, 3):
        compute_rqb(X, 2, 1, p, None, 3)
        compute_rqb(X, 2, 1, p, Y.T[:, :3] if Y.shape[1] == X.shape[1] else None, 3)


def _u_hankel(X, Y):
    from pydmd.utils import pseudo_hankel_matrix
    for d in (1, 2, 3):
        pseudo_hankel_matrix(X, d)


def _u_snap(X, Y):
    from pydmd.snapshots import Snapshots
    s = Snapshots(X)
    s.snapshots, s.snapshots_shape


def _u_diff(X, Y):
    from pydmd.utils import differentiate
    differentiate(X, 0.1)


UTILS = {"compute_svd": _u_svd, "compute_tlsq": _u_tlsq, "compute_rqb": _u_rqb, "pseudo_hankel_matrix": _u_hankel,
         "Snapshots": _u_snap, "differentiate": _u_diff}


def run_util(case, rec):
    X = relayout(zoo.lin(0), case["layout"])
    Y = relayout(zoo.lin(0)[:, ::-1], case["layout"])
    f = (deep(X), deep(Y))
    rec.at(case["est"])
    UTILS[case["est"]](X, Y)
    rec.check(f == (deep(X), deep(Y)), "caller data was modified", argument=case["est"])
    rec.state(case["est"], case["layout"])
