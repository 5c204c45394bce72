"""P27: misuse is refused with an error and leaves the model as it was."""
import itertools
import numpy as np
from . import zoo
from .zoo import *  # noqa: F401,F403
from .p26 import owned_rng

PROPERTY = "P27"
TECHNIQUE = "fault injection by exhaustive enumeration: every invalid operation of the catalogue at every position of every history up to the depth on the real code; the history without it is the oracle"
ASSUMPTIONS = ["the stored parts of an object that was never fitted (modes, eigs, amplitudes, snapshots and their shape) may be None instead of an error, as the base "
               "class documents by its None defaults; every derived result, and everything of HAVOK, MrDMD, ParametricDMD and CoSTS, raises"]
NONE_OK = {"modes", "eigs", "amplitudes", "snapshots", "snapshots_shape", "snapshots_y"}
NEVER_NONE = {"HAVOK", "MrDMD", "ParametricDMD", "COSTS", "mrCOSTS"}
CHUNK = 20
RESULTS = {"base": ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "frequency", "growth_rate", "snapshots", "snapshots_y",
                    "snapshots_shape", "modes_activation_bitmask", "dmd_time", "original_time", "dmd_timesteps", "original_timesteps"],
           "HAVOK": ["snapshots", "ho_snapshots", "time", "modes", "singular_vals", "delay_embeddings", "linear_dynamics", "forcing", "operator",
                     "A", "B", "eigs", "r", "reconstructed_embeddings", "reconstructed_data"],
           "LANDO": ["sparse_dictionary", "fixed_point", "bias", "linear", "eigs", "modes", "amplitudes", "reconstructed_data"],
           "BOPDMD": ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "time", "atilde", "A", "amplitudes_std", "eigenvalues_std",
                      "modes_std", "snapshots"],
           "VarProDMD": ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "frequency", "growth_rate", "ssr", "selected_samples", "opt_stats"],
           "MrDMD": ["modes", "eigs", "dynamics", "reconstructed_data", "original_time"],
           "ParametricDMD": ["training_modal_coefficients", "forecasted_modal_coefficients", "interpolated_modal_coefficients", "reconstructed_data",
                             "dmd_time", "original_time", "dmd_timesteps"],
           "OptDMD": ["modes", "eigs", "snapshots"],
           }


def kind_of(e):
    d = e.make()
    t = type(d).__name__
    return t


def results_of(e):
    return RESULTS.get(kind_of(e), RESULTS["base"])


def bad_fits(e):
    """name -> function(d, args) that must raise."""
    t = kind_of(e)
    b = {
        "none": lambda d, a, kw: d.fit(*((None,) + a[1:]), **kw),
        "text": lambda d, a, kw: d.fit(*(("snapshots",) + a[1:]), **kw),
        "nan-free-empty": lambda d, a, kw: d.fit(*((np.zeros((3, 0)),) + a[1:]), **kw),
    }
    if t not in ("HAVOK", "ParametricDMD", "COSTS", "mrCOSTS"):
        b["1d"] = lambda d, a, kw: d.fit(*((np.arange(7.0),) + a[1:]), **kw)
        b["single"] = lambda d, a, kw: d.fit(*((np.ones((4, 1)),) + a[1:]), **kw)
        if t != "PrePostProcessingDMD":
            b["ragged"] = lambda d, a, kw: d.fit(*(([np.ones(3), np.ones(4), np.ones(3)],) + a[1:]), **kw)
            b["scalars"] = lambda d, a, kw: d.fit(*(([1.0, 2.0, 3.0],) + a[1:]), **kw)
    if e.data is d_pairs:
        b["y-short"] = lambda d, a, kw: d.fit(a[0], a[1][:, :-1])
        b["y-rows"] = lambda d, a, kw: d.fit(a[0], a[1][:-1])
        b["y-1d"] = lambda d, a, kw: d.fit(a[0], a[1][0])
    if t in ("DMDc",):
        b["u-short"] = lambda d, a, kw: d.fit(a[0], a[1][:, :-1], **kw)
        b["u-long"] = lambda d, a, kw: d.fit(a[0], np.hstack([a[1], a[1]]), **kw)
    if t in ("BOPDMD", "VarProDMD"):
        b["t-short"] = lambda d, a, kw: d.fit(a[0], a[1][:-1])
        b["t-long"] = lambda d, a, kw: d.fit(a[0], np.append(a[1], 99.0))
        b["t-2d"] = lambda d, a, kw: d.fit(a[0], np.stack([a[1], a[1]]))
    if t in ("HankelDMD", "HODMD"):
        b["too-short"] = lambda d, a, kw: d.fit(a[0][:, :1])
    if t == "HAVOK":
        b["3d"] = lambda d, a, kw: d.fit(np.ones((2, 2, 40)), a[1])
        b["short"] = lambda d, a, kw: d.fit(a[0][:, :6], a[1][:6])
        b["t-short"] = lambda d, a, kw: d.fit(a[0], a[1][:-1])
        b["t-2d"] = lambda d, a, kw: d.fit(a[0], np.stack([a[1], a[1]]))
        b["t-zero"] = lambda d, a, kw: d.fit(a[0], 0.0)
    if t == "ParametricDMD":
        b["par-short"] = lambda d, a, kw: d.fit(a[0], a[1][:-1])
        b["par-long"] = lambda d, a, kw: d.fit(a[0], np.append(a[1], 5.0))
        b["par-3d"] = lambda d, a, kw: d.fit(a[0], a[1][:, None, None])
        if e.name == "Parametric-part":
            b["par-count"] = lambda d, a, kw: d.fit(a[0][:2], a[1][:2])
    if t == "COSTS":
        b["time-short"] = lambda d, a, kw: d.fit(a[0], a[1][:, :-3], a[2], a[3])
        b["window-long"] = lambda d, a, kw: d.fit(a[0], a[1], 500, a[3])
        b["X-1d"] = lambda d, a, kw: d.fit(a[0][0], a[1], a[2], a[3])
    if e.name == "CDMD-given":
        b["matrix-size"] = lambda d, a, kw: d.fit(np.ones((7, 5)) + noise((7, 5), 1))
    if e.name == "RDMD-matrix":
        b["matrix-size"] = lambda d, a, kw: d.fit(noise((5, 7), 1))
    if e.name in ("DMD-rescale",):
        b["rescale-size"] = None
        del b["rescale-size"]
    return b


def bad_ops(e):
    """Refused operations on a fitted object: name -> function that must raise."""
    t = kind_of(e)
    b = {}
    if e.mask:
        n = lambda d: len(d.modes_activation_bitmask)

        def setm(f):
            def g(d):
                d.modes_activation_bitmask = f(d)
            return g
        b["mask-long"] = setm(lambda d: np.ones(n(d) + 1, bool))
        b["mask-short"] = setm(lambda d: np.ones(max(0, n(d) - 1), bool))
        b["mask-int"] = setm(lambda d: np.ones(n(d), int))
        b["mask-float"] = setm(lambda d: np.zeros(n(d)))
        b["mask-2d"] = setm(lambda d: np.ones((1, n(d)), bool))
        b["mask-scalar"] = setm(lambda d: np.array(True))
    if e.getitem:
        b["index-high"] = lambda d: d[99]
        b["index-low"] = lambda d: d[-99]
        b["index-text"] = lambda d: d["modes"]
        b["index-float"] = lambda d: d[1.5]
        b["index-repeat"] = lambda d: d[[0, 0]]
        b["index-mixed"] = lambda d: d[[0, "a"]]
        b["index-none"] = lambda d: d[None]
        b["index-list-high"] = lambda d: d[[0, 99]]
    if t in ("HankelDMD", "HODMD"):
        b["index"] = lambda d: d[0]
    if e.window:
        def setk(which, k):
            def g(d):
                getattr(d, which)[k] = 3
            return g
        if t != "ParametricDMD" or True:
            b["time-key"] = setk("dmd_time", "start")
            b["time-key-int"] = setk("dmd_time", 0)
            b["otime-key"] = setk("original_time", "t1")
    if hasattr(e.make(), "predict") and t not in ("HAVOK", "LANDO", "DMDc"):
        b["predict-rows"] = lambda d: d.predict(np.ones((d.snapshots.shape[0] + 1, 2)))
    if e.tune:
        def sm(crit):
            def g(d):
                from pydmd.dmd_modes_tuner import select_modes
                select_modes(d, crit)
            return g
        b["select-raises"] = sm(lambda d: 1 / 0)
        b["select-long"] = sm(lambda d: np.ones(len(d.eigs) + 1, bool))
        b["select-none"] = sm(None)

        def tun(c):
            def g(d):
                from pydmd.dmd_modes_tuner import ModesTuner
                ModesTuner(d, in_place=True).select(c)
            return g
        b["tuner-name"] = tun("no_such_criterion")
        b["tuner-type"] = tun(3)

        def dist(d):
            from pydmd.dmd_modes_tuner import ModesTuner
            ModesTuner(d, in_place=True).select("stable_modes", max_distance_from_unity=0.1, max_distance_from_unity_inside=0.1)
        b["tuner-args"] = dist
    if t == "DMDc":
        b["ctrl-short"] = lambda d: d.reconstructed_data(np.ones((1, 2)))
        b["ctrl-long"] = lambda d: d.reconstructed_data(np.ones((1, 99)))
        b["ctrl-rows"] = lambda d: d.reconstructed_data(np.ones((7, d.dynamics.shape[-1] - 1)))
    if t == "BOPDMD":
        b["forecast-2d"] = lambda d: d.forecast(np.ones((2, 2)))
        b["forecast-text"] = lambda d: d.forecast("a")
        def ia(v):
            def g(d):
                d.init_alpha = v
            return g
    if t == "EDMD":
        b["ef-2d"] = lambda d: d.eigenfunctions(np.ones((d.snapshots.shape[0], 2)))
        b["ef-list"] = lambda d: d.eigenfunctions([1.0] * d.snapshots.shape[0])
        b["ef-long"] = lambda d: d.eigenfunctions(np.ones(d.snapshots.shape[0] + 1))
    if t == "LANDO":
        b["f-rows"] = lambda d: d.f(np.ones((d.snapshots.shape[0] + 1, 2)))
        b["f-1d"] = lambda d: d.f(np.ones(d.snapshots.shape[0]))
        b["nonlinear-rows"] = lambda d: d.nonlinear(np.ones((d.snapshots.shape[0] - 1, 2)))
        b["predict-x0"] = lambda d: d.predict(np.ones(d.snapshots.shape[0] + 1), 3, continuous=False)
        b["point-shape"] = lambda d: d.analyze_fixed_point(np.zeros(d.snapshots.shape[0] + 1))
        b["gradient-shape"] = None
        del b["gradient-shape"]
        if "online" in e.name:
            b["update-rows"] = lambda d: d.update(np.ones((d.snapshots.shape[0] + 1, 4)))
            b["update-pair"] = lambda d: d.update(np.ones((d.snapshots.shape[0], 4)), np.ones((d.snapshots.shape[0], 3)))
            b["update-single"] = lambda d: d.update(np.ones((d.snapshots.shape[0], 1)))
        else:
            b["update-batch"] = lambda d: d.update(np.ones((d.snapshots.shape[0], 4)))
    if t == "HAVOK":
        b["predict-forcing"] = lambda d: d.predict(np.ones((9, 7)), d.time[:9])
        b["predict-V0"] = lambda d: d.predict(d.forcing[:9], d.time[:9], V0=np.ones(99))
        b["predict-len"] = lambda d: d.predict(d.forcing[:5], d.time[:9])
        b["thr-index"] = lambda d: d.compute_threshold(9)
        b["dehankel-1d"] = lambda d: d.dehankel(np.ones(5))
        b["hankel-3d"] = lambda d: d.hankel(np.ones((2, 2, 30)))
        b["hankel-short"] = lambda d: d.hankel(np.ones((1, 3)))
    if t == "MrDMD":
        b["mask"] = lambda d: setattr(d, "modes_activation_bitmask", np.ones(3, bool))
        b["level"] = lambda d: d.partial_modes(d.max_level + 1)
        b["node"] = lambda d: d.partial_eigs(1, 2)
        b["level-rec"] = lambda d: d.partial_reconstructed_data(77)
        b["interval-level"] = lambda d: d.partial_time_interval(d.max_level + 1, 0)
        b["interval-leaf"] = lambda d: d.partial_time_interval(1, 2)
    if t == "ParametricDMD":
        def p(v):
            def g(d):
                d.parameters = v
            return g
        def cols(d):
            old = d.parameters
            d.parameters = np.ones((2, 3))
            try:
                d.reconstructed_data
            finally:
                d.parameters = old
        b["par-cols"] = cols
        b["par-3d"] = p(np.ones((2, 2, 2)))
    if t == "COSTS":
        b["transform"] = lambda d: d.cluster_omega(2, transform_method="nope")
        b["transform-omega"] = lambda d: d.transform_omega(d.omega_array, "nope")
    if t == "mrCOSTS":
        b["transform"] = lambda d: d.global_cluster_omega(2, transform_method="nope")
    return b


def econ_cases(X, t):
    """requests for a fit from a decomposition whose parts do not belong together."""
    U, s, V = np.linalg.svd(X, full_matrices=False)
    U, s, V = U[:, :2], s[:2], V[:2]

    def f(s=s, V=V, t=t, **kw):
        kw = {"proj_basis": U, "use_proj": True, **kw}
        return lambda: BOPDMD(svd_rank=2, **kw).fit_econ(s, V, t)
    return {"none": f(proj_basis=None), "unused": f(use_proj=False), "basis-columns": f(proj_basis=np.linalg.svd(X)[0][:, :3]), "basis-1d": f(proj_basis=U[:, 0]),
            "time-2d": f(t=np.stack([t, t])), "time-short": f(t=t[:-1]), "time-long": f(t=np.append(t, t[-1] + 1)), "s-short": f(s=s[:1]), "s-long": f(s=np.append(s, 0.1)), "s-2d": f(s=np.stack([s, s])),
            "V-rows": f(V=V[:1]), "V-more-rows": f(V=np.vstack([V, V[:1]])), "V-columns": f(V=V[:, :-1]), "V-1d": f(V=V[0]), "V-transposed": f(V=V.T.copy()),
            "alpha-short": f(init_alpha=np.ones(1, complex)), "alpha-long": f(init_alpha=np.ones(3, complex)), "alpha-2d": f(init_alpha=np.ones((2, 1), complex)), "alpha-list": f(init_alpha=[1, 2])}


def ctor_cases():
    I = noise((10, 3), 8)
    from pydmd.costs import COSTS
    from pydmd.mrcosts import mrCOSTS
    from pydmd import ParametricDMD as PD
    X = lin(0)
    f = lambda mk, *a: (lambda: mk().fit(*(a or (X,))))
    t = d_time(0)[0]
    C = {
        "DMD-sorted": f(lambda: DMD(svd_rank=2, sorted_eigs="size")),
        "DMD-rescale-size": f(lambda: DMD(svd_rank=2, rescale_mode=np.ones(3)).fit(X).modes),
        "DMD-rescale-text": f(lambda: DMD(svd_rank=2, rescale_mode="automatic").fit(X).modes),
        "SubspaceDMD-sorted": f(lambda: SubspaceDMD(svd_rank=2, sorted_eigs="size")),
        "CDMD-name": f(lambda: CDMD(svd_rank=2, compression_matrix="gauss")),
        "OptDMD-name": lambda: OptDMD(factorization="lu").fit(X),
        "EDMD-zero": lambda: EDMD(svd_rank=0),
        "EDMD-kernel": f(lambda: EDMD(svd_rank=2, kernel_metric="nokernel")),
        "EDMD-params": lambda: EDMD(svd_rank=2, kernel_params=[1]),
        "EDMD-badparam": f(lambda: EDMD(svd_rank=2, kernel_metric="rbf", kernel_params={"coef9": 1})),
        "LANDO-kernel": f(lambda: LANDO(svd_rank=2, kernel_metric="nokernel")),
        "LANDO-params": lambda: LANDO(kernel_params=[1]),
        "LANDO-badparam": f(lambda: LANDO(svd_rank=2, kernel_metric="rbf", kernel_params={"coef9": 1})),
        "LANDO-rescale-type": f(lambda: LANDO(svd_rank=2, x_rescale="a")),
        "LANDO-rescale-size": f(lambda: LANDO(svd_rank=2, x_rescale=np.ones(3))),
        "LANDO-function": lambda: LANDO(kernel_function=3, kernel_gradient=3),
        "LANDO-function-alone": lambda: LANDO(kernel_function=lambda x, y: x.T @ y, kernel_gradient=4),
        "HankelDMD-list": lambda: HankelDMD(d=3, reconstruction_method=[1.0, 2.0]),
        "HankelDMD-array": lambda: HankelDMD(d=3, reconstruction_method=np.ones(2)),
        "HankelDMD-array2d": lambda: HankelDMD(d=3, reconstruction_method=np.ones((3, 2))),
        "HankelDMD-name": lambda: HankelDMD(d=3, reconstruction_method="median").fit(X).reconstructed_data,
        "DMDc-lag": lambda: DMDc(lag=0).fit(X, noise((1, X.shape[1] - 1), 2)),
        "DMDc-lag-neg": lambda: DMDc(lag=-1).fit(X, noise((1, X.shape[1] - 1), 2)),
        "PiDMD-manifold": f(lambda: PiDMD(manifold="square")),
        "PiDMD-diag-type": f(lambda: PiDMD(manifold="diagonal", manifold_opt="a")),
        "PiDMD-diag-shape": f(lambda: PiDMD(manifold="diagonal", manifold_opt=np.ones((3, 2)))),
        "PiDMD-block-shape": f(lambda: PiDMD(manifold="BC", manifold_opt=5)),
        "PiDMD-block-size": f(lambda: PiDMD(manifold="BC", manifold_opt=(4, 4))),
        "BOPDMD-constraint": lambda: BOPDMD(svd_rank=2, eig_constraints={"unstable"}).fit(*t),
        "BOPDMD-combination": lambda: BOPDMD(svd_rank=2, eig_constraints={"stable", "imag"}).fit(*t),
        "BOPDMD-combination3": lambda: BOPDMD(svd_rank=2, eig_constraints={"stable", "imag", "conjugate_pairs"}).fit(*t),
        "BOPDMD-constraint-type": lambda: BOPDMD(svd_rank=2, eig_constraints=["stable"]),
        "BOPDMD-constraint-func": lambda: BOPDMD(svd_rank=2, eig_constraints=lambda a: a[:1]).fit(*t),
        "BOPDMD-sort": lambda: BOPDMD(svd_rank=2, num_trials=2, eig_sort="size").fit(*t),
        "BOPDMD-opts": lambda: BOPDMD(svd_rank=2, varpro_opts_dict={"no_such_option": 3}).fit(*t),
        "BOPDMD-opts-type": lambda: BOPDMD(svd_rank=2, varpro_opts_dict=[1]),
        "BOPDMD-opts-value": lambda: BOPDMD(svd_rank=2, varpro_opts_dict={"tol": "small"}).fit(*t),
        "BOPDMD-alpha-size": lambda: BOPDMD(svd_rank=2, init_alpha=np.ones(3, complex)).fit(*t),
        "BOPDMD-alpha-type": lambda: BOPDMD(svd_rank=2, init_alpha=[1, 2]).fit(*t),
        "BOPDMD-basis-size": lambda: BOPDMD(svd_rank=2, proj_basis=np.ones((5, 3))).fit(*t),
        "BOPDMD-basis-rows": lambda: BOPDMD(svd_rank=2, proj_basis=np.eye(4)[:, :2]).fit(*t),
        "BOPDMD-trial-type": lambda: BOPDMD(svd_rank=2, num_trials=2, trial_size=-3).fit(*t),
        "BOPDMD-trial-big": lambda: BOPDMD(svd_rank=2, num_trials=2, trial_size=99).fit(*t),
        **{"BOPDMD-econ-" + k: v for k, v in econ_cases(*t).items()},
        "BOPDMD-max-bad": lambda: BOPDMD(svd_rank=2, num_trials=2, bag_maxfail="x").fit(*t),
        "VarProDMD-compression-high": lambda: VarProDMD(svd_rank=2, compression=1.0).fit(*t),
        "VarProDMD-compression-neg": lambda: VarProDMD(svd_rank=2, compression=-0.1).fit(*t),
        "VarProDMD-sorted": lambda: VarProDMD(svd_rank=2, sorted_eigs="size").fit(*t),
        "HAVOK-delays": lambda: HAVOK(delays=0).fit(*d_havok(0)[0]),
        "HAVOK-lag": lambda: HAVOK(delays=5, lag=0).fit(*d_havok(0)[0]),
        "HAVOK-chaos": lambda: HAVOK(delays=5, num_chaos=0).fit(*d_havok(0)[0]),
        "HAVOK-chaos-many": lambda: HAVOK(svd_rank=3, delays=5, num_chaos=3).fit(*d_havok(0)[0]),
        "MrDMD-list-short": lambda: MrDMD([DMD()], max_level=2).fit(d_mr(0)[0][0]),
        "MrDMD-list-long": lambda: MrDMD([DMD(), DMD(), DMD(), DMD()], max_level=2).fit(d_mr(0)[0][0]),
        "RDMD-matrix": lambda: RDMD(svd_rank=2, test_matrix=np.ones((3, 2))).fit(X),
        "tuner-distances": lambda: zoo.pydmd.dmd_modes_tuner.ModesSelectors.stable_modes(max_distance_from_unity=0.1, max_distance_from_unity_inside=0.2),
        "tuner-distances-none": lambda: zoo.pydmd.dmd_modes_tuner.ModesSelectors.stable_modes(),
        "COSTS-odd": lambda: COSTS(svd_rank=3, global_svd=False).fit(*d_costs(0)[0]),
        "COSTS-rank": lambda: COSTS(svd_rank=6, global_svd=False).fit(*d_costs(0)[0]),
        "COSTS-window": lambda: COSTS(svd_rank=2).fit(*d_costs(0)[0][:2], 61, 4),
        "COSTS-time": lambda: COSTS(svd_rank=2).fit(d_costs(0)[0][0], d_costs(0)[0][1][:, :-1], 20, 7),
        "mrCOSTS-lengths": lambda: mrCOSTS(window_length_array=[15, 30], step_size_array=[5], svd_rank_array=[4, 2], global_svd_array=[True, True],
                                           n_components_array=[2, 2]).fit(*d_mrcosts(0)[0], verbose=False),
    }
    return C


def bounds(tier):
    return {"estimators": list(zoo.ZOO), "refused operations": "see bad_ops, bad_fits, ctor_cases", "histories":
            "prefix (none, mask, edit, window) x refused operation x following operation" + (" for all prefixes and followers" if tier == "thorough" else "")}


PRE = {"": [], "mask": ["mask0"], "edit": ["modes", "amp"], "win": ["win"], "mask+edit": ["masklast", "eigs"]}


def cases(tier):
    for name, e in sorted(zoo.ZOO.items(), key=lambda t: not t[1].heavy):
        yield {"k": "unfitted", "est": name}
        ops = zoo.ops_for(e)
        pres = [p for p in PRE if all(o in ops for o in PRE[p])]
        for bad in bad_ops(e):
            for p in pres:
                yield {"k": "op", "est": name, "pre": p, "bad": bad, "follow": tier == "thorough" or p == ""}
        for bad in bad_fits(e):
            yield {"k": "fit0", "est": name, "bad": bad}
            for p in pres if not e.heavy else pres[:1]:
                yield {"k": "fit", "est": name, "pre": p, "bad": bad}
        if tier == "thorough" and not e.heavy:
            B = list(bad_ops(e))
            for b1, b2 in itertools.product(B, B):
                yield {"k": "op2", "est": name, "pre": pres[-1], "bad": b1, "bad2": b2}
    for c in ctor_cases():
        yield {"k": "ctor", "name": c}


def same_after(rec, e, d, w, what):
    zoo.same(rec, e.obs(d), w, what, tol=1e-12)


def refuse(rec, f, what):
    """f must raise an Exception; returns True if refused."""
    try:
        f()
    except Exception:
        return True
    rec.fail("misuse was accepted", op=what)
    return False


def build(e, k, pre):
    d = e.make()
    e.fit(d, k)
    ops = zoo.ops_for(e)
    for o in PRE[pre]:
        ops[o](d)
    return d


_fit = {}


def fresh(e, k):
    if (e.name, k) not in _fit:
        d = e.make()
        e.fit(d, k)
        _fit[e.name, k] = zoo.snap(e.obs(d))
    return _fit[e.name, k]


def run_case(case, rec):
    np.random.default_rng = owned_rng
    if case["k"] == "ctor":
        rec.at(case["name"])
        refuse(rec, ctor_cases()[case["name"]], case["name"])
        rec.state(case["name"])
        return
    e = zoo.ZOO[case["est"]]
    k = e.ks[0]
    if case["k"] == "unfitted":
        for n in results_of(e):
            d = e.make()
            rec.at(n)
            v = zoo.grab(lambda: getattr(d, n))
            if callable(v):
                v = zoo.grab(v)
            ok = (v is None and n in NONE_OK and type(d).__name__ not in NEVER_NONE) or (isinstance(v, tuple) and len(v) == 2 and v[0] == "raises")
            rec.check(ok, "a result is available before the first fit", result=n, got=repr(v)[:80])
        d = e.make()
        for n in results_of(e):
            zoo.grab(lambda: getattr(d, n))
        rec.at("fit")
        e.fit(d, k)
        same_after(rec, e, d, fresh(e, k), "asking for results before the fit changed the fit")
        rec.state(case["est"])
        return
    rec.at(case["bad"])
    if case["k"] == "fit0":
        d = e.make()
        a, kw = e.data(k)
        np.random.seed(11)
        if refuse(rec, lambda: bad_fits(e)[case["bad"]](d, a, kw), case["bad"]):
            e.fit(d, k)
            same_after(rec, e, d, fresh(e, k), "a refused first fit changed a later valid one")
        rec.state(case["est"], case["bad"])
        return
    d = build(e, k, case["pre"])
    if case["k"] == "fit":
        k2 = e.ks[-1]
        a, kw = e.data(k)
        np.random.seed(11)
        if refuse(rec, lambda: bad_fits(e)[case["bad"]](d, a, kw), case["bad"]):
            e.fit(d, k2)
            same_after(rec, e, d, fresh(e, k2), "a refused fit changed a later valid one")
        rec.state(case["est"], case["bad"], case["pre"])
        return
    twin = build(e, k, case["pre"])
    want = zoo.snap(e.obs(twin))
    bads = bad_ops(e)
    # before anything was queried
    if not refuse(rec, lambda: bads[case["bad"]](d), case["bad"]):
        return
    if case["k"] == "op2":
        rec.at(case["bad2"])
        refuse(rec, lambda: bads[case["bad2"]](d), case["bad2"])
    same_after(rec, e, d, want, "a refused operation changed the model")
    rec.state(case["est"], case["bad"], case["pre"])
    if case["k"] == "op2":
        return
    # after everything was queried, then continue with every valid operation
    refuse(rec, lambda: bads[case["bad"]](d), case["bad"])
    same_after(rec, e, d, want, "a refused operation changed the model")
    ops = zoo.ops_for(e)
    follow = list(ops) if not e.heavy and case["follow"] else []
    for o in follow:
        rec.at(o)
        x, y = build(e, k, case["pre"]), build(e, k, case["pre"])
        zoo.grab(lambda: bads[case["bad"]](x))
        r1 = zoo.grab(lambda: ops[o](x))
        r2 = zoo.grab(lambda: ops[o](y))
        rec.check((r1 if isinstance(r1, tuple) else None) == (r2 if isinstance(r2, tuple) else None), "a refused operation changed a later one", op=o)
        zoo.same(rec, e.obs(x), zoo.snap(e.obs(y)), f"a refused operation changed the effect of a later one ({o})", tol=1e-12)
        if e.name.startswith(("BOP", "VarPro", "W-nest", "Param")):
            break
