"""P26: queries are pure in any order; independent objects never share results."""
import itertools
import numpy as np
from . import zoo
from .zoo import grab, snap, same_value

PROPERTY = "P26"
TECHNIQUE = "exhaustive enumeration of query sequences per estimator and state on the real code; each answer compared with the answer the query gives alone"
ASSUMPTIONS = ["returned arrays are not written to by the caller",
               "the global NumPy generator is put in the same state before every query"]
CHUNK = 6


def sel(name, *a):
    def q(d):
        from pydmd.dmd_modes_tuner import ModesSelectors
        return np.asarray(getattr(ModesSelectors, name)(*a)(d))
    return q


def called(v):
    return v() if callable(v) else v


def index_child(key):
    def q(d):
        c = d[key]
        r = [np.array(c.modes), np.array(c.amplitudes), np.array(called(c.reconstructed_data))]
        return r
    return q


def plots(kind):
    def q(d):
        import matplotlib.pyplot as plt
        from pydmd import plotter
        try:
            n = d.modes.shape[0] if kind != "havok" else 0
            if kind == "eigs":
                plotter.plot_eigs(d, narrow_view=True)
                plotter.plot_eigs(d, show_axes=False, show_unit_circle=False)
            elif kind == "modes2d":
                plotter.plot_modes_2D(d, snapshots_shape=(1, n), x=np.arange(n), y=np.arange(1), index_mode=0)
            elif kind == "snap2d":
                plotter.plot_snapshots_2D(d, snapshots_shape=(1, n), x=np.arange(d.snapshots.shape[0]), y=np.arange(1), index_snap=0)
            elif kind == "summary":
                plotter.plot_summary(d, dpi=30)
            elif kind == "mr":
                plotter.plot_eigs_mrdmd(d)
                plotter.plot_eigs_mrdmd(d, level=1, node=0)
            elif kind == "uq":
                d.plot_eig_uq()
                d.plot_mode_uq()
            elif kind == "havok":
                d.plot_summary()
        finally:
            plt.close("all")
    return q


def copies(d):
    import copy
    c = copy.deepcopy(d)
    return 0


def savefile(d):
    import os, tempfile
    f = tempfile.mktemp(prefix="mc26_", dir="/tmp")
    try:
        d.save(f)
    finally:
        if os.path.exists(f):
            os.remove(f)


BASIC = ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "frequency", "growth_rate", "modes_activation_bitmask",
         "dmd_timesteps", "original_timesteps", "snapshots", "snapshots_y", "snapshots_shape", "svd_rank", "opt", "exact",
         "tlsq_rank", "rescale_mode", "fitted", "operator"]


def queries(e):
    """Query alphabet of one estimator: name -> function of the object."""
    q = {}
    o = e.name
    probe = e.make()
    kind = type(probe).__name__
    names = {"LANDO": ["sparse_dictionary", "fixed_point", "bias", "linear", "fitted", "partially_fitted", "eigs", "modes", "amplitudes", "reconstructed_data"],
             "HAVOK": ["snapshots", "ho_snapshots", "time", "modes", "singular_vals", "delay_embeddings", "linear_dynamics", "forcing",
                       "operator", "A", "B", "eigs", "r", "reconstructed_embeddings", "reconstructed_data"],
             "MrDMD": ["modes", "eigs", "dynamics", "reconstructed_data"],
             "ParametricDMD": ["training_parameters", "parameters", "training_modal_coefficients", "forecasted_modal_coefficients",
                               "interpolated_modal_coefficients", "reconstructed_data", "dmd_timesteps", "is_partitioned"],
             "COSTS": ["svd_rank", "n_slides", "modes_array", "amplitudes_array", "omega_array", "time_array", "window_means_array",
                       "omega_classes", "cluster_centroids", "n_components", "window_length", "step_size"],
             "mrCOSTS": ["n_decompositions", "n_components_array", "omega_classes_interpolated", "ragged_omega_classes",
                         "ragged_omega_array", "ragged_modes_array", "ragged_amplitudes_array"],
             }.get(kind, BASIC)
    for n in names:
        q[n] = (lambda n: lambda d: called(getattr(d, n)) if n != "operator" or kind == "HAVOK" else np.array(getattr(d, n).eigenvalues))(n)
    q["repr"] = lambda d: len(repr(d)) > 0
    q["copy"] = copies
    if hasattr(probe, "predict") and kind not in ("HAVOK", "LANDO", "DMDc"):
        q["predict"] = lambda d: d.predict(d.snapshots[:, :3])
        q["predict-bad"] = lambda d: d.predict(np.ones((99, 2)))
    if hasattr(probe, "save"):
        q["save"] = savefile
    if e.getitem:
        q["index"] = index_child(0)
        q["index-slice"] = index_child(slice(1, None))
        q["index-bad"] = lambda d: d[99]
        q["index-worse"] = lambda d: d["x"]
    if e.tune:
        q["sel-thr"] = sel("threshold", 0.2, 0.9)
        q["sel-stab"] = sel("stable_modes", 0.3, 0.3)
        q["sel-int"] = sel("integral_contribution", 1)
        q["sel-int-big"] = sel("integral_contribution", 5)
    if e.mask and kind not in ("DMDc",):
        q["plot-eigs"] = plots("eigs")
        q["plot-modes"] = plots("modes2d")
        q["plot-snap"] = plots("snap2d")
        q["plot-sum"] = plots("summary")
    if kind == "DMDc":
        q["reconstructed_data"] = lambda d: d.reconstructed_data()
        q["rec-ctrl"] = lambda d: d.reconstructed_data(0.5 * np.ones((np.asarray(d.B).shape[1], d.snapshots.shape[1] - 1)))
        q["rec-bad"] = lambda d: d.reconstructed_data(np.ones((7, 3)))
        q["B"] = lambda d: d.B
    if kind == "EDMD":
        q["ef"] = lambda d: d.eigenfunctions(np.ones(d.snapshots.shape[0]))
        q["ef-bad"] = lambda d: d.eigenfunctions(np.ones(99))
    if kind in ("BOPDMD", "VarProDMD"):
        q["forecast"] = lambda d: d.forecast(np.array([0.5, 2.0]))
        q["forecast-in"] = lambda d: d.forecast(np.array([0.25, 0.75]))
        q["forecast-bad"] = lambda d: d.forecast("x")
    if kind == "BOPDMD":
        for n in ("time", "atilde", "A", "amplitudes_std", "eigenvalues_std", "modes_std", "init_alpha", "proj_basis"):
            q[n] = (lambda n: lambda d: getattr(d, n))(n)
        q["opts"] = lambda d: d.print_varpro_opts()
        q["plot-uq"] = plots("uq")
    if kind == "VarProDMD":
        for n in ("ssr", "selected_samples", "opt_stats"):
            q[n] = (lambda n: lambda d: getattr(d, n) if n != "opt_stats" else float(np.sum(d.opt_stats.fun ** 2)))(n)
    if kind == "LANDO":
        q["f"] = lambda d: d.f(d.snapshots)
        q["nonlinear"] = lambda d: d.nonlinear(0.3 * np.ones((d.snapshots.shape[0], 2)))
        q["predict-d"] = lambda d: d.predict(d.snapshots[:, 0], 4, continuous=False)
        q["predict-c"] = lambda d: d.predict(d.snapshots[:, 0], 0.3, continuous=True, dt=0.1)
        q["predict-bad"] = lambda d: d.predict(np.ones(99), 4)
        q["kernel"] = lambda d: d.kernel_function(d.snapshots, d.snapshots)
        q["gradient"] = lambda d: d.kernel_gradient(d.snapshots, d.snapshots[:, 0])
        q["f-bad"] = lambda d: d.f(np.ones((99, 2)))
    if kind == "HAVOK":
        q["predict"] = lambda d: d.predict(d.forcing[:12], d.time[:12])
        q["predict-V0"] = lambda d: d.predict(d.forcing[3:12], d.time[3:12], V0=3)
        q["predict-bad"] = lambda d: d.predict(np.ones((3, 9)), d.time[:12])
        q["thr"] = lambda d: d.compute_threshold(0, 0.05, 10)
        q["thr-bad"] = lambda d: d.compute_threshold(99)
        q["hankel"] = lambda d: d.hankel(d.snapshots)
        q["dehankel"] = lambda d: d.dehankel(d.ho_snapshots)
        q["plot"] = plots("havok")
    if kind == "MrDMD":
        for lv in (0, 1):
            for m in ("partial_eigs", "partial_modes", "partial_dynamics", "partial_amplitudes", "partial_reconstructed_data"):
                q[f"{m}-{lv}"] = (lambda m, lv: lambda d: getattr(d, m)(lv))(m, lv)
        q["node"] = lambda d: d.partial_eigs(1, 1)
        q["node-bad"] = lambda d: d.partial_eigs(1, 9)
        q["level-bad"] = lambda d: d.partial_modes(19)
        q["interval"] = lambda d: d.partial_time_interval(1, 0)
        q["interval-bad"] = lambda d: d.partial_time_interval(17, 0)
        for m in ("time_window_bins", "time_window_eigs", "time_window_frequency", "time_window_growth_rate", "time_window_amplitudes"):
            q[m] = (lambda m: lambda d: getattr(d, m)(2, 9))(m)
        q["iter"] = lambda d: [np.array(x.eigs) for x in d]
        q["enumerate"] = lambda d: [(l, n, np.array(x.eigs)) for l, n, x in d.enumerate()]
        q["plot"] = plots("mr")
    if kind == "COSTS":
        q["global"] = lambda d: d.global_reconstruction()
        q["global-bad"] = lambda d: d.global_reconstruction({"kern": "x", "zzz": 1})
        q["scale"] = lambda d: d.scale_reconstruction()
        q["scale-nomean"] = lambda d: d.scale_reconstruction(include_means=False)
        q["separation"] = lambda d: list(d.scale_separation())
        q["periods"] = lambda d: d.periods()
        q["xarray"] = lambda d: len(d.to_xarray().to_dict()) > 0
        q["window"] = lambda d: d.get_window_indices(1)
        q["transform"] = lambda d: d.transform_omega(d.omega_array, "log10")
        q["transform-bad"] = lambda d: d.transform_omega(d.omega_array, "nope")
        q["sweep"] = lambda d: d.cluster_hyperparameter_sweep(n_components_range=np.array([2, 3]), transform_method="absolute")
    if kind == "mrCOSTS":
        q["global"] = lambda d: d.global_reconstruction()
        q["background"] = lambda d: d.get_background()
        q["bands"] = lambda d: d.global_scale_reconstruction()
        q["transform"] = lambda d: d.transform_omega(np.array([1 + 2j, 3j, 0.5]), "log10")
        q["interp"] = lambda d: list(d.multi_res_interp())
    return q


STATES = {"fitted": [], "masked": ["mask0"], "edited": ["modes", "amp"], "window": ["win"], "masked+edited": ["masklast", "eigs"]}


def states(e, tier):
    ops = zoo.ops_for(e)
    for s, seq in STATES.items():
        if all(o in ops for o in seq):
            yield s
    yield "unfitted"


def bounds(tier):
    return {"estimators": list(zoo.ZOO), "query alphabets": {n: sorted(queries(e)) for n, e in list(zoo.ZOO.items())[:1]},
            "sequences": "q; everything  /  q; r; everything for all pairs" + (" in every state" if tier == "thorough" else " (pairs in the fitted and masked state, plots in pairs only in the thorough tier)")}


def cases(tier):
    for name, e in sorted(zoo.ZOO.items(), key=lambda t: not t[1].heavy):
        Q = list(queries(e))
        ks = e.ks if tier == "thorough" and not e.heavy else e.ks[:1]
        for k in ks:
            yield {"k": "share", "est": name, "data": k}
            for s in states(e, tier):
                deep = (s in ("fitted", "masked+edited") or tier == "thorough") and not (e.heavy and tier == "quick")
                for q in Q:
                    if tier == "quick" and "plot" in q and s not in ("fitted", "masked+edited"):
                        continue
                    yield {"k": "seq", "est": name, "data": k, "state": s, "q": q, "deep": bool(deep)}


_base = {}


_rng = np.random.default_rng


def owned_rng(seed=None):
    """Unseeded generators of the library start from a value chosen by the harness."""
    return _rng(4711 if seed is None else seed)


def prepared(e, k, state):
    np.random.default_rng = owned_rng
    if state != "unfitted" and (e.heavy or e.name.startswith(("BOPDMD", "W-nest", "VarPro"))):
        # slow fits: start every sequence from a copy of one object that was fitted once and never queried
        import copy
        key = (e.name, k, state)
        if key not in _fitted:
            _fitted.clear()
            _fitted[key] = build(e, k, state)
        return copy.deepcopy(_fitted[key])
    return build(e, k, state)


_fitted = {}


def build(e, k, state):
    d = e.make()
    if state != "unfitted":
        e.fit(d, k)
        ops = zoo.ops_for(e)
        for o in STATES[state]:
            ops[o](d)
    return d


def ask(f, d):
    np.random.seed(77)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return snap(grab(lambda: f(d)))


def alone(e, k, state, Q):
    key = (e.name, k, state)
    if key not in _base:
        _base.clear()
        _base[key] = {}
        plain = [q for q in Q if "plot" not in q]
        for q in plain:
            d = prepared(e, k, state)
            _base[key][q] = ask(Q[q], d)
        d = prepared(e, k, state)
        _base[key]["*"] = snap(e.obs(d)) if state != "unfitted" else None
    return _base[key]


def same(rec, x, y, what):
    if isinstance(y, tuple) and y and y[0] == "raises":
        rec.check(x == y, what, got=repr(x)[:100], want=y)
        return
    if isinstance(y, np.ndarray) and y.dtype == object:
        y, x = list(np.atleast_1d(y)), list(np.atleast_1d(x))
    same_value(rec, x, y, what, 1e-12)


def everything(rec, e, d, base, Q, state, first):
    what = "a query changed the answer of a later one"
    if first:
        o = e.obs(d) if state != "unfitted" else {}
        for k2, v in (base["*"] or {}).items():
            same_value(rec, o[k2], v, f"{what}: {k2}", 1e-12)
    for r in Q:
        if r in base:
            rec.at(f"{r}")
            same(rec, ask(Q[r], d), base[r], f"{what}: {r}")


def run_case(case, rec):
    e = zoo.ZOO[case["est"]]
    k = case["data"]
    if case["k"] == "share":
        return share(e, k, rec)
    Q = queries(e)
    base = alone(e, k, case["state"], Q)
    d = prepared(e, k, case["state"])
    rec.at(case["q"])
    first = ask(Q[case["q"]], d)
    if case["q"] in base:
        same(rec, first, base[case["q"]], "the same query gives another answer on an equal object: " + case["q"])
    rec.state(case["est"], case["state"], first)
    everything(rec, e, d, base, Q, case["state"], True)
    if not case["deep"]:
        return
    plain = [q for q in Q if q in base]
    for q2 in plain:
        # after everything has been asked once, asking q then q2 again still gives the same
        rec.at(case["q"] + "," + q2)
        if case["q"] in base:
            same(rec, ask(Q[case["q"]], d), base[case["q"]], "a query changed the answer of a later one: " + case["q"])
        same(rec, ask(Q[q2], d), base[q2], "a query changed the answer of a later one: " + q2)
    # reversed order on an untouched object
    d = prepared(e, k, case["state"])
    for q2 in reversed(plain):
        rec.at(q2)
        same(rec, ask(Q[q2], d), base[q2], "the order of the queries matters: " + q2)


def arrays(x, path=""):
    if isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from arrays(v, f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from arrays(v, f"{path}.{i}")


def share(e, k, rec):
    args = e.data(k)
    d1, d2 = e.make(), e.make()
    rec.at("fit")
    e.fit(d1, k, args)
    rec.at("fit")
    e.fit(d2, k, args)
    o1, o2 = e.obs(d1), e.obs(d2)
    skip = ("snapshots", "snapshots_y", "time", "training_parameters", "time_array") + (("B",) if e.name == "DMDc-B" else ())   # those are the caller's data
    A = [(p, a) for p, a in arrays(o1) if a.size and not any(p == "." + s for s in skip)]
    B = [(p, a) for p, a in arrays(o2) if a.size and not any(p == "." + s for s in skip)]
    for p, a in A:
        for p2, b in B:
            if a.dtype != object and np.shares_memory(a, b):
                rec.fail("two independent objects share the memory of a result", first=p, second=p2)
    rec.state(e.name, len(A))
