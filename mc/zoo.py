"""Registry of every estimator of the library with small configurations, built
only through the public interface: how to construct, fit, observe and edit."""
import numpy as np
from .lib import System, SPECTRA

import pydmd
from pydmd import (DMD, FbDMD, CDMD, RDMD, SubspaceDMD, OptDMD, EDMD, SpDMD,
                   HankelDMD, HODMD, DMDc, PiDMD, BOPDMD, VarProDMD, HAVOK,
                   MrDMD, LANDO, ParametricDMD)
from pydmd.preprocessing import (PrePostProcessingDMD, hankel_preprocessing,
                                 randomized_preprocessing,
                                 svd_projection_preprocessing,
                                 zero_mean_preprocessing)


def noise(shape, salt, cplx=False):
    rng = np.random.RandomState(77 + salt)
    N = rng.randn(*shape)
    if cplx:
        N = N + 1j * rng.randn(*shape)
    return N


# ---------------------------------------------------------------- data sets
LIN = [("pair+real", 5, 10, False), ("pair", 4, 14, False),
       ("c2r", 6, 9, True), ("four", 5, 12, False)]


def lin(k, eps=1e-2):
    spec, n, m, c = LIN[k]
    X = System(spec, n, c, salt=k).data(m)
    return X + eps * noise(X.shape, k, c)


def d_lin(k):
    return (lin(k),), {}


def d_pairs(k):
    X = lin(k)
    return (np.ascontiguousarray(X[:, :-1]), np.ascontiguousarray(X[:, 1:])), {}


def d_time(k):
    spec, n, m, c = LIN[k]
    m += 4
    s = System(spec, n, c, salt=k)
    om = np.log(s.eigs)
    t = 0.5 * np.arange(m) + 0.1 * np.sin(np.arange(m)) + 0.25
    X = s.Phi @ (s.b[:, None] * np.exp(np.outer(om, t)))
    X = X if c else X.real
    return (X + 1e-3 * noise(X.shape, k, c), t), {}


def d_ctrl(k):
    spec, n, m, c = LIN[k]
    s = System(spec, n, c, salt=k)
    l = 1 + k % 2
    B = noise((n, l), 5 + k)
    U = noise((l, m + 2), 9 + k)
    X = [s.at(0)[:, 0]]
    for i in range(m + 2):
        X.append(s.A @ X[-1] + B @ U[:, i])
    return (np.array(X).T, U), {}


def d_ctrlB(k):
    a, kw = d_ctrl(k)
    n = a[0].shape[0]
    return a, {"B": noise((n, a[1].shape[0]), 5 + k)}


def d_havok(k):
    m = [60, 75, 66, 80][k]
    t = 0.1 * np.arange(m)
    x = np.sin((1 + 0.2 * k) * t) + 0.5 * np.cos((2.3 + k) * t) + 0.1 * np.sin(5 * t)
    return (x[None], t), {}


def d_mr(k):
    m = [32, 20, 48, 25][k]
    t = np.arange(m)
    n = 3 + k
    x = np.arange(n)[:, None]
    X = np.sin(0.1 * t + x) + 0.4 * np.sin(0.9 * t + 2 * x) + 0.1 * np.cos(2.1 * t - x) + 0.02 * noise((n, m), k)
    return (X,), {}


def d_par(k):
    par = np.array([[0.5, 1.0, 1.5, 2.0], [0.2, 0.8, 1.4], [1.0, 1.4, 1.8], [0.1, 0.6, 1.1, 1.6]][k])
    n, m = 4 + k, 10 + 2 * k
    t = np.arange(m)
    B = noise((n, 2), 31 + k)
    X = np.stack([B @ np.array([p * 0.9 ** t, (1 + p) * 0.6 ** t]) for p in par])
    return (X, par), {}


def d_costs(k):
    m = [60, 50, 64, 55][k]
    t = 0.1 * np.arange(m)
    n = 4 + k % 2
    x = np.linspace(0, 1, n)[:, None]
    X = np.cos(0.7 * t + 2 * x) + 0.5 * np.cos(6.0 * t + 3 * x) + 2.0 + 0.2 * k
    return (X, np.atleast_2d(t), 20, 7 + k), {}


def d_mrcosts(k):
    a, _ = d_costs(k)
    return (a[0], a[1][0]), {"verbose": False}


# ---------------------------------------------------------------- observers
def grab(f):
    try:
        v = f()
    except AssertionError:
        raise
    except Exception as e:
        return ("raises", type(e).__name__)
    return v


def obs_attrs(names):
    def o(d):
        return {n: grab(lambda: getattr(d, n)) for n in names}
    return o


BASE = ["fitted", "eigs", "modes", "amplitudes", "dynamics", "reconstructed_data",
        "frequency", "growth_rate", "snapshots", "snapshots_y", "snapshots_shape",
        "modes_activation_bitmask", "dmd_timesteps", "original_timesteps"]


def obs_base(d, skip=()):
    r = obs_attrs([n for n in BASE if n not in skip])(d)
    for n in ("dmd_time", "original_time"):
        r[n] = grab(lambda: dict(getattr(d, n)))
    r["eigenvectors"] = grab(lambda: d.operator.eigenvectors)
    r["atilde"] = grab(lambda: d.operator.as_numpy_array)
    return r


def obs_pred(d):
    r = obs_base(d)
    r["predict"] = grab(lambda: d.predict(d.snapshots))
    return r


def obs_hankel(d):
    r = obs_base(d)
    r["ho_snapshots"] = grab(lambda: d.ho_snapshots)
    return r


def obs_dmdc(d):
    r = obs_base(d, skip=("reconstructed_data",))
    r["reconstructed_data"] = grab(lambda: d.reconstructed_data())
    r["B"] = grab(lambda: d.B)
    r["basis"] = grab(lambda: d.basis)
    return r


def obs_pidmd(d):
    r = obs_base(d)
    r["A"] = grab(lambda: d.A)
    return r


def obs_bop(d):
    r = obs_attrs(["eigs", "modes", "amplitudes", "dynamics", "reconstructed_data", "snapshots",
                   "time", "atilde", "A", "amplitudes_std", "eigenvalues_std", "modes_std", "svd_rank",
                   "init_alpha", "proj_basis", "modes_activation_bitmask", "eig_constraints"])(d)

    def fc():
        np.random.seed(5)
        return d.forecast(np.array([0.3, 1.7, 4.0]))
    f = grab(fc)
    r["forecast"] = list(f) if isinstance(f, tuple) and not isinstance(f[0], str) else f
    return r


def obs_varpro(d):
    r = obs_attrs(["fitted", "eigs", "modes", "amplitudes", "dynamics", "reconstructed_data", "frequency",
                   "growth_rate", "snapshots", "ssr", "selected_samples", "modes_activation_bitmask"])(d)
    r["forecast"] = grab(lambda: d.forecast(np.array([0.3, 1.7, 4.0])))
    return r


def obs_havok(d):
    r = obs_attrs(["snapshots", "ho_snapshots", "time", "modes", "singular_vals", "delay_embeddings",
                   "linear_dynamics", "forcing", "operator", "A", "B", "eigs", "r",
                   "reconstructed_embeddings", "reconstructed_data"])(d)
    r["threshold"] = grab(lambda: d.compute_threshold(0, 0.05, 10))
    return r


def obs_mr(d):
    r = obs_attrs(["eigs", "modes", "dynamics", "reconstructed_data", "snapshots", "max_level"])(d)
    r["original_time"] = grab(lambda: dict(d.original_time))
    L = d.max_level if r["reconstructed_data"] is not None else 0
    for lv in range(L + 1):
        r[f"eigs{lv}"] = grab(lambda: d.partial_eigs(lv))
        r[f"amp{lv}"] = grab(lambda: d.partial_amplitudes(lv))
        r[f"rec{lv}"] = grab(lambda: d.partial_reconstructed_data(lv))
    r["bins"] = grab(lambda: d.time_window_bins(1, 5))
    return r


def obs_lando(d):
    r = obs_attrs(["partially_fitted", "fitted", "sparse_dictionary", "fixed_point", "bias", "linear",
                   "eigs", "modes", "amplitudes", "snapshots", "snapshots_y", "reconstructed_data"])(d)
    r["f"] = grab(lambda: d.f(d.snapshots))
    r["nonlinear"] = grab(lambda: d.nonlinear(np.ones((d.snapshots.shape[0], 2)) * 0.3))
    r["predict"] = grab(lambda: d.predict(d.snapshots[:, 0], 4, continuous=False))
    return r


def obs_par(d):
    r = obs_attrs(["training_parameters", "parameters", "training_modal_coefficients",
                   "forecasted_modal_coefficients", "interpolated_modal_coefficients", "reconstructed_data",
                   "dmd_timesteps", "original_timesteps"])(d)
    r["dmd_time"] = grab(lambda: dict(d.dmd_time))
    r["original_time"] = grab(lambda: dict(d.original_time))
    return r


def obs_costs(d):
    return obs_attrs(["svd_rank", "global_svd", "window_length", "step_size", "n_slides", "modes_array",
                      "amplitudes_array", "omega_array", "time_array", "window_means_array"])(d)


def obs_costs_clustered(d):
    r = obs_costs(d)
    r.update(obs_attrs(["omega_classes", "cluster_centroids", "n_components"])(d))
    r["global"] = grab(d.global_reconstruction)
    r["scale"] = grab(d.scale_reconstruction)
    r["periods"] = grab(d.periods)
    return r


def obs_mrcosts(d):
    r = obs_attrs(["svd_rank_array", "window_length_array", "step_size_array", "n_decompositions",
                   "n_components_array"])(d)
    for a in ("ragged_omega_array", "ragged_modes_array", "ragged_amplitudes_array", "ragged_omega_classes"):
        r[a] = grab(lambda: list(getattr(d, a)))
    r["omega_classes_interpolated"] = grab(lambda: d.omega_classes_interpolated)
    r["global"] = grab(d.global_reconstruction)
    r["background"] = grab(d.get_background)
    return r


# ---------------------------------------------------------------- registry
class Est:
    def __init__(self, name, make, data, obs, mask=False, window=False, edit=False, getitem=False,
                 ks=(0, 1, 2, 3), prep=None, heavy=False, tune=False, random=False):
        self.name, self.make, self.data, self.obs = name, make, data, obs
        self.mask, self.window, self.edit, self.getitem = mask, window, edit, getitem
        self.ks, self.prep, self.heavy, self.tune, self.random = ks, prep, heavy, tune, random

    def fit(self, d, k, args=None):
        a, kw = args if args is not None else self.data(k)
        np.random.seed(11)
        r = d.fit(*a, **kw)
        if self.prep:
            self.prep(d, k, a)
        return r


ZOO = {}


def reg(name, make, data=d_lin, obs=obs_base, **kw):
    base = dict(mask=True, window=True, edit=True, getitem=True, tune=True)
    base.update(kw)
    ZOO[name] = Est(name, make, data, obs, **base)


reg("DMD", lambda: DMD(svd_rank=2), obs=obs_pred)
reg("DMD-all", lambda: DMD(svd_rank=-1, exact=True, opt=True), obs=obs_pred)
reg("DMD-0", lambda: DMD(svd_rank=0, sorted_eigs="abs"), obs=obs_pred)
reg("DMD-frac", lambda: DMD(svd_rank=0.9, opt=-1, sorted_eigs="real"), obs=obs_pred)
reg("DMD-tlsq", lambda: DMD(svd_rank=2, tlsq_rank=2, exact=True, opt=3), obs=obs_pred)
reg("DMD-auto", lambda: DMD(svd_rank=2, rescale_mode="auto", exact=True), obs=obs_pred)
reg("DMD-rescale", lambda: DMD(svd_rank=2, rescale_mode=np.array([2.0, 3.0]), exact=True), obs=obs_pred)
reg("DMD-tik", lambda: DMD(svd_rank=3, tikhonov_regularization=1e-3, opt=1), obs=obs_pred)
reg("DMD-fb", lambda: DMD(svd_rank=2, forward_backward=True, exact=True), obs=obs_pred)
reg("DMD-xy", lambda: DMD(svd_rank=2, exact=True), d_pairs, obs_pred)
reg("FbDMD", lambda: FbDMD(svd_rank=2, exact=True), obs=obs_pred)
reg("CDMD-given", lambda: CDMD(svd_rank=2, compression_matrix=noise((3, 5), 3), opt=True), ks=(0, 3))
reg("CDMD-normal", lambda: CDMD(svd_rank=2, compression_matrix="normal"), random=True)
reg("CDMD-sparse", lambda: CDMD(svd_rank=2, compression_matrix="uniform", rescale_mode="auto", sorted_eigs="abs"), random=True)
reg("RDMD", lambda: RDMD(svd_rank=2, seed=3, oversampling=1, power_iters=1, opt=True))
reg("RDMD-noseed", lambda: RDMD(svd_rank=2), random=True,
    obs=lambda d: {"eigs": grab(lambda: np.sort_complex(np.round(d.eigs, 9))), "rec": grab(lambda: d.reconstructed_data),
                   "dmd_time": grab(lambda: dict(d.dmd_time)), "mask": grab(lambda: d.modes_activation_bitmask)})
reg("RDMD-matrix", lambda: RDMD(svd_rank=2, test_matrix=noise((10, 3), 8), rescale_mode="auto"), ks=(0,))
reg("CDMD-frac", lambda: CDMD(svd_rank=0.7, compression_matrix=noise((3, 5), 3), tlsq_rank=2, rescale_mode="auto"), ks=(0, 3))
reg("RDMD-frac", lambda: RDMD(svd_rank=0.7, seed=2, oversampling=1, power_iters=1))
reg("SubspaceDMD", lambda: SubspaceDMD(svd_rank=2))
reg("SubspaceDMD-opt", lambda: SubspaceDMD(svd_rank=-1, opt=True, rescale_mode="auto", sorted_eigs="real"))
reg("OptDMD-evd", lambda: OptDMD(factorization="evd", svd_rank=2),
    obs=lambda d: {**obs_attrs(["fitted", "eigs", "modes", "amplitudes", "snapshots"])(d), "predict": grab(lambda: d.predict(d.snapshots))},
    mask=False, window=False, edit=False, getitem=False, tune=False)
reg("OptDMD-svd", lambda: OptDMD(factorization="svd", svd_rank=2),
    obs=lambda d: {**obs_attrs(["fitted", "eigs", "modes", "amplitudes", "snapshots"])(d), "predict": grab(lambda: d.predict(d.snapshots))},
    mask=False, window=False, edit=False, getitem=False, tune=False)
reg("EDMD", lambda: EDMD(svd_rank=2), obs=lambda d: {**obs_pred(d), "ef": grab(lambda: d.eigenfunctions(np.ones(d.snapshots.shape[0])))}, ks=(0, 1, 3))
reg("EDMD-rbf", lambda: EDMD(svd_rank=3, kernel_metric="rbf", kernel_params={"gamma": 0.2}, opt=True),
    obs=lambda d: {**obs_pred(d), "ef": grab(lambda: d.eigenfunctions(np.ones(d.snapshots.shape[0])))}, ks=(0, 1, 3))
reg("EDMD-xy", lambda: EDMD(svd_rank=3, kernel_metric="poly", kernel_params={"degree": 2}), d_pairs,
    obs=lambda d: {**obs_pred(d), "ef": grab(lambda: d.eigenfunctions(np.ones(d.snapshots.shape[0])))}, ks=(0, 1, 3))
reg("OptDMD-frac", lambda: OptDMD(factorization="evd", svd_rank=0.9),
    obs=lambda d: {**obs_attrs(["fitted", "eigs", "modes", "amplitudes", "snapshots"])(d), "predict": grab(lambda: d.predict(d.snapshots))},
    mask=False, window=False, edit=False, getitem=False, tune=False)
reg("EDMD-frac", lambda: EDMD(svd_rank=0.7, kernel_metric="rbf", kernel_params={"gamma": 0.2}), obs=obs_pred, ks=(0, 1, 3))
reg("SpDMD", lambda: SpDMD(svd_rank=2, gamma=1.0, verbose=False), obs=obs_pred)
reg("SpDMD-proj", lambda: SpDMD(svd_rank=-1, exact=False, gamma=0.05, rho=10, verbose=False, release_memory=False), obs=obs_pred, ks=(0, 1, 3))
reg("HankelDMD", lambda: HankelDMD(svd_rank=2, d=3), obs=obs_hankel, getitem=False, tune=False)
reg("HankelDMD-mean", lambda: HankelDMD(svd_rank=-1, d=2, reconstruction_method="mean", exact=True, opt=True), obs=obs_hankel, getitem=False, tune=False)
reg("HankelDMD-frac", lambda: HankelDMD(svd_rank=0.7, d=3, exact=True, tlsq_rank=3), obs=obs_hankel, getitem=False, tune=False)
reg("HODMD", lambda: HODMD(svd_rank=2, d=2, svd_rank_extra=2, exact=True), obs=obs_hankel, getitem=False, tune=False)
reg("HODMD-w", lambda: HODMD(svd_rank=2, d=2, svd_rank_extra=0.99, reconstruction_method=[1, 2]), obs=obs_hankel, getitem=False, tune=False)
reg("DMDc", lambda: DMDc(svd_rank=-1), d_ctrl, obs_dmdc)
reg("DMDc-rank", lambda: DMDc(svd_rank=2, opt=True, svd_rank_omega=4), d_ctrl, obs_dmdc)
reg("DMDc-B", lambda: DMDc(svd_rank=-1), d_ctrlB, obs_dmdc)
reg("DMDc-frac", lambda: DMDc(svd_rank=0.9, svd_rank_omega=0.99), d_ctrl, obs_dmdc)
reg("PiDMD-uni", lambda: PiDMD(manifold="unitary", compute_A=True), obs=obs_pidmd)
reg("PiDMD-diag", lambda: PiDMD(manifold="diagonal", manifold_opt=2, compute_A=True, opt=True), obs=obs_pidmd)
reg("PiDMD-circ", lambda: PiDMD(manifold="circulant", svd_rank=3), obs=obs_pidmd)
reg("PiDMD-tri", lambda: PiDMD(manifold="uppertriangular", compute_A=True), obs=obs_pidmd)
reg("BOPDMD", lambda: BOPDMD(svd_rank=2), d_time, obs_bop, window=False, tune=False)
reg("BOPDMD-0", lambda: BOPDMD(svd_rank=0, use_proj=False, compute_A=True, eig_sort="real"), d_time, obs_bop, window=False, tune=False)
reg("BOPDMD-c", lambda: BOPDMD(svd_rank=2, eig_constraints={"stable", "conjugate_pairs"}, compute_A=True), d_time, obs_bop, ks=(0, 1, 3), window=False, tune=False)
reg("BOPDMD-init", lambda: BOPDMD(svd_rank=2, init_alpha=np.array([0.1 + 0.8j, 0.1 - 0.8j]), eig_constraints={"stable"}), d_time, obs_bop, ks=(0, 1, 3), window=False, tune=False)
reg("BOPDMD-bag", lambda: BOPDMD(svd_rank=2, num_trials=3, trial_size=0.7, eig_sort="imag"), d_time, obs_bop, window=False, tune=False, random=True)
reg("VarProDMD", lambda: VarProDMD(svd_rank=2), d_time, obs_varpro, window=False, tune=False)
reg("VarProDMD-0", lambda: VarProDMD(svd_rank=0, compression=0.2), d_time, obs_varpro, window=False, tune=False)
reg("VarProDMD-c", lambda: VarProDMD(svd_rank=2, exact=True, compression=0.3, sorted_eigs="abs"), d_time, obs_varpro, window=False, tune=False)
_bare = dict(mask=False, window=False, edit=False, getitem=False, tune=False)
reg("HAVOK", lambda: HAVOK(svd_rank=4, delays=8), d_havok, obs_havok, **_bare)
reg("HAVOK-lag", lambda: HAVOK(svd_rank=5, delays=6, lag=2, num_chaos=2, structured=False, lstsq=False), d_havok, obs_havok, **_bare)
reg("HAVOK-dmd", lambda: HAVOK(svd_rank=3, delays=8, structured=True), d_havok, obs_havok, **_bare)
reg("HAVOK-rank", lambda: HAVOK(svd_rank=0.98, delays=10, structured=False), lambda k: ((d_havok(k)[0][0] + 0.3 * k * noise((1, len(d_havok(k)[0][1])), k), d_havok(k)[0][1]), {}), obs_havok, **_bare)
reg("HAVOK-srank", lambda: HAVOK(svd_rank=0.98, delays=10, structured=True), lambda k: ((d_havok(k)[0][0] + 0.3 * k * noise((1, len(d_havok(k)[0][1])), k), d_havok(k)[0][1]), {}), obs_havok, **_bare)
reg("MrDMD", lambda: MrDMD(DMD(svd_rank=-1), max_level=2, max_cycles=1), d_mr, obs_mr, **_bare)
reg("MrDMD-list", lambda: MrDMD([DMD(svd_rank=3), SubspaceDMD(svd_rank=2)], max_level=1, max_cycles=2), d_mr, obs_mr, **_bare)
reg("MrDMD-deep", lambda: MrDMD(lambda level, leaf: DMD(svd_rank=2, exact=bool(level % 2)), max_level=5, max_cycles=2), d_mr, obs_mr, **_bare)


def _land(d, k, a):
    d.analyze_fixed_point(np.zeros(d.snapshots.shape[0]), compute_A=True)


reg("LANDO-lin", lambda: LANDO(svd_rank=3, permute=False), obs=obs_lando, ks=(0, 1, 3), prep=_land, **_bare)
reg("LANDO-poly", lambda: LANDO(svd_rank=4, kernel_metric="poly", kernel_params={"degree": 2, "coef0": 1.0, "gamma": 1}, x_rescale=0.5, permute=True), obs=obs_lando, ks=(0, 1, 3), prep=_land, random=True, **_bare)
reg("LANDO-online", lambda: LANDO(kernel_metric="linear", online=True, permute=False, dict_tol=1e-4), obs=obs_lando, ks=(0, 1, 3), **_bare)
reg("LANDO-xy", lambda: LANDO(svd_rank=0, kernel_metric="rbf", kernel_params={"gamma": 0.1}, x_rescale=2.0, permute=False), d_pairs, obs_lando, ks=(0, 1, 3), prep=_land, **_bare)


def _pset(d, k, a):
    d.parameters = np.array([a[1][0], 0.5 * (a[1][0] + a[1][1])])


def _par(part, **kw):
    def mk():
        from ezyrb import POD, RBF
        n = part
        dm = [DMD(svd_rank=-1) for _ in range(n)] if n else DMD(svd_rank=-1)
        return ParametricDMD(dm, POD(rank=2), RBF(), **kw)
    return mk


reg("Parametric", _par(0), d_par, obs_par, prep=_pset, mask=False, window=True, edit=False, getitem=False, tune=False)
reg("Parametric-light", _par(0, light=True), d_par, obs_par, prep=_pset, mask=False, window=True, edit=False, getitem=False, tune=False)
reg("Parametric-part", _par(4), d_par, obs_par, ks=(0, 3), prep=_pset, mask=False, window=True, edit=False, getitem=False, tune=False)

_w = dict(getitem=False, tune=False)
reg("W-id", lambda: PrePostProcessingDMD(DMD(svd_rank=2)), obs=obs_pred, **_w)
reg("W-mean", lambda: zero_mean_preprocessing(DMD(svd_rank=2, opt=True), axis=1), **_w)
reg("W-svd", lambda: svd_projection_preprocessing(DMD(svd_rank=2, exact=True), svd_rank=3), **_w)
reg("W-hankel", lambda: hankel_preprocessing(DMD(svd_rank=2), d=2), **_w)
reg("W-rand", lambda: randomized_preprocessing(DMD(svd_rank=2), svd_rank=2, seed=4, oversampling=1), **_w)
reg("W-nest", lambda: zero_mean_preprocessing(svd_projection_preprocessing(BOPDMD(svd_rank=2, use_proj=True), svd_rank=3), axis=1),
    d_time, obs=lambda d: {n: grab(lambda: getattr(d, n)) for n in ("eigs", "modes", "amplitudes", "reconstructed_data")}, window=False, **_w)
reg("W-ctrl", lambda: zero_mean_preprocessing(DMDc(svd_rank=-1), axis=1), d_ctrl, obs_dmdc, **_w)


def _costs(**kw):
    def mk():
        from pydmd.costs import COSTS
        return COSTS(pydmd_kwargs={"eig_constraints": {"conjugate_pairs", "stable"}}, **kw)
    return mk


def _clu(d, k, a):
    d.cluster_omega(n_components=2, transform_method="absolute")


reg("COSTS", _costs(svd_rank=4, global_svd=True), d_costs, obs_costs_clustered, prep=_clu, heavy=True, **_bare)
reg("COSTS-raw", _costs(svd_rank=0.999, global_svd=True), d_costs, obs_costs, heavy=True, **_bare)
reg("COSTS-local", _costs(svd_rank=0, global_svd=False, max_rank=4), d_costs, obs_costs_clustered, prep=_clu, heavy=True, **_bare)


def _mrc():
    from pydmd.mrcosts import mrCOSTS
    return mrCOSTS(window_length_array=[15, 30], step_size_array=[5, 10], svd_rank_array=[4, 2],
                   global_svd_array=[True, True], n_components_array=[2, 2], transform_method="absolute",
                   pydmd_kwargs={"eig_constraints": {"stable"}})


def _mclu(d, k, a):
    d.global_cluster_omega(2)


reg("mrCOSTS", _mrc, d_mrcosts, obs_mrcosts, prep=_mclu, heavy=True, **_bare)


# ---------------------------------------------------------------- comparing
def same(rec, a, b, what, tol=1e-8, skip=(), **detail):
    """Every observation of `a` equals that of `b`."""
    ok = True
    for key in b:
        if key in skip:
            continue
        ok &= same_value(rec, a.get(key), b[key], f"{what}: {key}", tol, **detail)
    return ok


def same_value(rec, x, y, what, tol, **detail):
    if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
        if not (isinstance(y, np.ndarray) and isinstance(x, np.ndarray)):
            return rec.check(False, what, got=x, want=y, **detail)
        if y.dtype.kind in "fciub":
            return rec.close(x, y, what, tol=tol, **detail)
        return rec.check(repr(x) == repr(y), what, got=repr(x)[:80], want=repr(y)[:80], **detail)
    if isinstance(y, (list, tuple)):
        if not isinstance(x, (list, tuple)) or len(x) != len(y):
            return rec.check(False, what, got=repr(x)[:80], want=repr(y)[:80], **detail)
        return all([same_value(rec, u, v, what, tol, **detail) for u, v in zip(x, y)])
    if isinstance(y, dict):
        return rec.check(isinstance(x, dict) and x == y, what, got=x, want=y, **detail)
    if isinstance(y, (float, complex, np.floating, np.complexfloating)):
        try:
            return rec.check(abs(x - y) <= tol * max(1, abs(y)) or (x != x and y != y), what, got=x, want=y, **detail)
        except TypeError:
            return rec.check(False, what, got=repr(x)[:80], want=repr(y)[:80], **detail)
    try:
        eq = bool(x == y)
    except Exception:
        eq = False
    return rec.check(eq or x is y, what, got=repr(x)[:80], want=repr(y)[:80], **detail)


def snap(o):
    """Deep value copy of an observation."""
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, (list, tuple)) and not (o and o[0] == "raises" if isinstance(o, tuple) and o and isinstance(o[0], str) else False):
        return [snap(v) for v in o]
    return o


# ---------------------------------------------------------------- operations
def op_mask0(d):
    m = np.array(d.modes_activation_bitmask)
    m[0] = False
    d.modes_activation_bitmask = m


def op_masklast(d):
    m = np.ones(len(d.modes_activation_bitmask), bool)
    m[-1] = False
    d.modes_activation_bitmask = m


def op_maskall(d):
    d.modes_activation_bitmask = np.ones(len(d.modes_activation_bitmask), bool)


def op_modes(d):
    m = d.modes
    m *= 2.0


def op_eigs(d):
    e = d.eigs
    e *= 0.5


def op_amp(d):
    a = d.amplitudes
    a += 1.0


def op_win(d):
    d.dmd_time["tend"] = d.dmd_time["tend"] + 4
    d.dmd_time["t0"] = 2


def op_dt(d):
    d.dmd_time["dt"] = 2


def op_neww(d):
    d.dmd_time = {"t0": 1, "tend": 6, "dt": 1}


def op_orig(d):
    d.original_time["t0"] = 10
    d.original_time["dt"] = 2
    d.original_time["tend"] = 10 + 2 * (d.snapshots.shape[-1] - 1 if hasattr(d, "snapshots") and d.snapshots is not None else 9)
    d.dmd_time["t0"] = 10
    d.dmd_time["dt"] = 2
    d.dmd_time["tend"] = d.original_time["tend"]


def op_badfit(d):
    try:
        d.fit(np.ones((2, 2, 0)))
    except Exception:
        return
    raise RuntimeError("accepted an empty data set")


def op_index(d):
    c = d[0]
    c.modes.sum()
    c.amplitudes.sum()


def op_select(d):
    from pydmd.dmd_modes_tuner import select_modes, ModesSelectors
    n = max(1, len(d.eigs) - 1)
    select_modes(d, lambda x: np.arange(len(x.eigs)) < n)


def op_stab(d):
    from pydmd.dmd_modes_tuner import stabilize_modes
    stabilize_modes(d, 0.1, 5.0)


def ops_for(e):
    ops = {}
    if e.mask:
        ops.update(mask0=op_mask0, masklast=op_masklast, maskall=op_maskall)
    if e.edit:
        ops.update(modes=op_modes, eigs=op_eigs, amp=op_amp)
    if e.window:
        ops.update(win=op_win, dt=op_dt, neww=op_neww)
        if e.name[:2] != "W-":
            ops.update(orig=op_orig)
    if e.getitem:
        ops.update(index=op_index)
    if e.tune:
        ops.update(select=op_select, stab=op_stab)
    if e.name.startswith("LANDO"):
        ops["analyze"] = lambda d: d.analyze_fixed_point(0.3 * np.ones(d.snapshots.shape[0]))
        ops["analyzeA"] = lambda d: d.analyze_fixed_point(-0.2 * np.ones(d.snapshots.shape[0]), compute_A=True)
        if "online" in e.name:
            ops["update"] = lambda d: d.update(np.array(d.snapshots[:, :4]) * 1.1)
    if e.name.startswith("Parametric"):
        def other(d):
            d.parameters = np.array([0.7, 1.1, 0.9])
        ops["params"] = other
    if e.name.startswith("COSTS"):
        ops["recluster"] = lambda d: d.cluster_omega(n_components=3, transform_method="square_frequencies")
        ops["sweep"] = lambda d: d.cluster_hyperparameter_sweep(n_components_range=np.array([2, 3]), transform_method="absolute")
    if e.name == "mrCOSTS":
        ops["recluster"] = lambda d: d.global_cluster_omega(3, transform_method="log10")
    if e.name.startswith("HAVOK"):
        ops["predict"] = lambda d: d.predict(d.forcing[:10], d.time[:10])
    if e.name.startswith("MrDMD"):
        def leafmask(d):
            for leaf in d:
                m = np.zeros(len(leaf.modes_activation_bitmask), bool)
                leaf.modes_activation_bitmask = m
        ops["leafmask"] = leafmask
    ops["read"] = lambda d: e.obs(d)
    return ops


# -------------------------------------------------- constructors with mutable arguments
CFG = {}


def cfg(name, args, build, data=d_lin, obs=obs_base, ks=(0,), prep=None, **kw):
    base = dict(mask=True, window=True, edit=True, getitem=True, tune=True)
    base.update(kw)
    e = Est(name, None, data, obs, ks=ks, prep=prep, **base)
    e.args, e.build = args, build
    CFG[name] = e


def _b(cls):
    return lambda a: cls(**a)


cfg("DMD(rescale)", lambda: dict(svd_rank=2, rescale_mode=np.array([2.0, 3.0]), exact=True), _b(DMD))
cfg("CDMD(matrix)", lambda: dict(svd_rank=2, compression_matrix=noise((3, 5), 3), tikhonov_regularization=0.1), _b(CDMD))
cfg("RDMD(matrix)", lambda: dict(svd_rank=2, test_matrix=noise((10, 3), 8), power_iters=2), _b(RDMD))
cfg("EDMD(params)", lambda: dict(svd_rank=3, kernel_metric="rbf", kernel_params={"gamma": 0.2}), _b(EDMD))
cfg("HankelDMD(weights)", lambda: dict(svd_rank=2, d=2, reconstruction_method=np.array([1.0, 2.0])), _b(HankelDMD), getitem=False, tune=False)
cfg("HODMD(weights)", lambda: dict(svd_rank=2, d=2, svd_rank_extra=3, reconstruction_method=[1.0, 2.0]), _b(HODMD), getitem=False, tune=False)
cfg("PiDMD(bands)", lambda: dict(manifold="diagonal", manifold_opt=np.ones((5, 2), int), compute_A=True), _b(PiDMD))
cfg("BOPDMD(init)", lambda: dict(svd_rank=2, init_alpha=np.array([0.1 + 0.8j, 0.1 - 0.8j]), eig_constraints={"stable", "conjugate_pairs"},
                                 varpro_opts_dict={"tol": 1e-6, "maxiter": 20}), _b(BOPDMD), d_time, obs_bop, window=False, tune=False)
cfg("BOPDMD(basis)", lambda: dict(svd_rank=2, proj_basis=np.linalg.qr(noise((5, 2), 1))[0], init_alpha=np.array([0.1 + 0.8j, -0.1 - 0.8j]),
                                  eig_constraints={"imag"}), _b(BOPDMD), d_time, obs_bop, window=False, tune=False)
cfg("BOPDMD(func)", lambda: dict(svd_rank=2, eig_constraints=lambda a: np.minimum(a.real, 0) + 1j * a.imag,
                                 init_alpha=np.array([0.1 + 0.8j, 0.1 - 0.8j]), num_trials=2, trial_size=0.8), _b(BOPDMD), d_time, obs_bop, window=False, tune=False)
cfg("VarProDMD(opt)", lambda: dict(svd_rank=2, optargs={"method": "lm", "x_scale": "jac"}, compression=0.2), _b(VarProDMD), d_time, obs_varpro, window=False, tune=False)
_n5 = dict(mask=False, window=False, edit=False, getitem=False, tune=False)
cfg("LANDO(params)", lambda: dict(svd_rank=3, kernel_metric="poly", kernel_params={"degree": 2, "coef0": 1.0, "gamma": 1},
                                  x_rescale=np.array([0.5, 1, 1, 2, 1.0])), _b(LANDO), obs=obs_lando, prep=_land, **_n5)
cfg("LANDO(online)", lambda: dict(kernel_metric="linear", online=True, x_rescale=np.array([0.5, 1, 1, 2, 1.0])), _b(LANDO), obs=obs_lando, prep=_land, **_n5)


def _mrargs():
    return dict(dmd=[DMD(svd_rank=2), SubspaceDMD(svd_rank=2)], max_level=1, max_cycles=2)


cfg("MrDMD(list)", _mrargs, _b(MrDMD), d_mr, obs_mr, **_n5)
cfg("MrDMD(dmd)", lambda: dict(dmd=DMD(svd_rank=2), max_level=2), _b(MrDMD), d_mr, obs_mr, **_n5)


def _w(cls):
    return lambda a: cls(DMD(svd_rank=2), **a)


cfg("zero_mean(weights)", lambda: dict(axis=1, weights=np.arange(1.0, 11.0)), _w(zero_mean_preprocessing), getitem=False, tune=False)
cfg("randomized(matrix)", lambda: dict(svd_rank=2, test_matrix=noise((10, 3), 8)), _w(randomized_preprocessing), getitem=False, tune=False)
cfg("hankel(weights)", lambda: dict(d=2, reconstruction_method=np.array([1.0, 2.0])), _w(hankel_preprocessing), getitem=False, tune=False)


def _pbuild(a):
    from ezyrb import POD, RBF
    return ParametricDMD(DMDc(svd_rank=-1), spatial_pod=POD(rank=2), approximation=RBF(), **a)


cfg("Parametric(kwargs)", lambda: dict(dmd_fit_args=[], dmd_fit_kwargs={"I": noise((1, 9), 2)}), _pbuild, d_par,
    lambda d: {"m": grab(lambda: d.training_modal_coefficients)}, **_n5)


def _cbuild(a):
    from pydmd.costs import COSTS
    return COSTS(**a)


cfg("COSTS(kwargs)", lambda: dict(svd_rank=4, global_svd=True, pydmd_kwargs={"eig_constraints": {"stable"}}), _cbuild, d_costs, obs_costs, heavy=True, **_n5)
cfg("COSTS(alpha)", lambda: dict(svd_rank=2, global_svd=False, initialize_artificially=True, init_alpha=np.array([0.7j, -0.7j]),
                                 pydmd_kwargs={"eig_constraints": {"stable", "conjugate_pairs"}, "proj_basis": None}), _cbuild, d_costs, obs_costs, heavy=True, **_n5)


def _mbuild(a):
    from pydmd.mrcosts import mrCOSTS
    return mrCOSTS(**a)


cfg("mrCOSTS(lists)", lambda: dict(window_length_array=[15, 30], step_size_array=[5, 10], svd_rank_array=[4, 2], global_svd_array=[True, False],
                                   n_components_array=[2, 2], transform_method="absolute",
                                   costs_recon_kwargs={"include_means": True}, pydmd_kwargs={"eig_constraints": {"stable"}}),
    _mbuild, d_mrcosts, obs_mrcosts, heavy=True, **_n5)
