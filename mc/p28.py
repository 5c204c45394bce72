"""P28: what the plots show is what the model says."""
import os
import re
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib import collections as mcoll, patches as mpatch, colors as mcol
from .lib import product, match
from .zoo import noise

PROPERTY = "P28"
TECHNIQUE = "exhaustive enumeration of models x plotting functions x options on the real code; after every call the drawn objects of every open figure are read back and compared with the model's public results"
ASSUMPTIONS = ["the Agg backend; showing a figure is a stand-in which counts the calls", "two-dimensional pictures follow the convention of numpy.meshgrid: rows of the array are the ordinate",
               "decoration (fonts, colours, legends, limits beyond containing the points) is not judged"]
DESIGN = """
For every fitted model in a family (real and complex data, masked and unmasked, moved windows, delays, control of sampling times, hierarchical models,
bagged models, sliding windows) every plotting function is called with every combination of its data-bearing options. The figures are then read back:
points of the eigenvalue plots as multisets against the spectrum (discrete, continuous, or of one level / node), curves and pixels of every mode,
snapshot, dynamics, singular-value, band, residual and uncertainty panel against the model's arrays in the documented order, colours as the documented
correspondence, and number, order and names of files and figures. The same call with a file name must store the very same picture.
"""
CHUNK = 6


def bounds(tier):
    return {"models": list(MODELS), "grids": GRIDS[tier], "functions": ["plot_eigs", "plot_eigs_mrdmd", "plot_modes_2D", "plot_snapshots_2D", "plot_summary", "HAVOK.plot_summary",
            "BOPDMD.plot_mode_uq", "BOPDMD.plot_eig_uq", "COSTS.plot_*", "mrCOSTS.plot_local_*"], "options": "all combinations within the case generator"}


GRIDS = {"quick": [(2, 3), (3, 2), (3, 3)], "thorough": [(2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (4, 3), (4, 4)]}


# ---------------------------------------------------------------- models
E3 = {"pair": [0.95 * np.exp(0.5j), 0.95 * np.exp(-0.5j), 0.8, 0.6 * np.exp(1.9j), 0.6 * np.exp(-1.9j)], "real": [1.1, 0.9, -0.7, 0.5], "cplx": [0.9 * np.exp(0.3j), 1.02 * np.exp(2j), 0.7 * np.exp(-1.2j), 0.5j]}


def data(kind, n, m=14, salt=0):
    e = np.array(E3[kind])
    P = noise((n, len(e)), 70 + salt, True)
    if kind == "pair":
        P[:, 1], P[:, 4] = P[:, 0].conj(), P[:, 3].conj()
        P[:, 2] = P[:, 2].real
    if kind == "real":
        P = P.real
    a = np.array([2.0, 2.0, 1.2, 3.5, 3.5] if kind == "pair" else [1.0, 3.0, 0.4, 2.0])[:len(e)]
    X = (P * a) @ e[:, None] ** np.arange(m)
    return X.real.copy() if kind != "cplx" else X


def m_dmd(kind, X, **kw):
    from pydmd import DMD
    return DMD(svd_rank=len(E3[kind]), **kw).fit(X)


def model(name, kind, n=6, shape=None):
    from pydmd import DMD, HankelDMD, BOPDMD, FbDMD, CDMD, SubspaceDMD
    from pydmd.preprocessing import zero_mean_preprocessing
    X = data(kind, n)
    r = len(E3[kind])
    if shape is not None:
        X = np.moveaxis(X.reshape(*shape, -1), -1, 0) if shape else X
        X = list(X)
    if name == "DMD":
        return m_dmd(kind, X)
    if name == "exact":
        return m_dmd(kind, X, exact=True, sorted_eigs="abs")
    if name == "masked":
        d = m_dmd(kind, X)
        b = np.ones(r, bool)
        b[np.argsort(-np.abs(d.amplitudes))[1]] = False
        d.modes_activation_bitmask = b
        return d
    if name == "window":
        d = m_dmd(kind, X)
        d.original_time["t0"], d.original_time["dt"] = 10, 0.5
        d.original_time["tend"] = 16.5
        d.dmd_time.update(t0=11, dt=0.5, tend=20)
        return d
    if name == "times":
        d = m_dmd(kind, X)
        for k, v in (("t0", 3), ("dt", 0.25), ("tend", 3 + 13 * 0.25)):
            d.original_time[k] = v
            d.dmd_time[k] = v
        return d
    if name == "hankel":
        return HankelDMD(svd_rank=r, d=2).fit(X)
    if name == "cdmd":
        return CDMD(svd_rank=r, compression_matrix=noise((n, n), 3)).fit(X)
    if name == "bop":
        return BOPDMD(svd_rank=r, eig_sort="imag").fit(X, np.arange(14) * 0.5)
    if name == "bopecon":
        U, s, V = np.linalg.svd(X, full_matrices=False)
        d = BOPDMD(svd_rank=r, eig_sort="imag", use_proj=True, proj_basis=U[:, :r])
        d.fit_econ(s[:r], V[:r], np.arange(14) * 0.5)
        return d
    if name == "bopuneven":
        t = np.cumsum(0.05 + 0.1 * (np.arange(20) % 3))
        Xc = (noise((n, r), 4, kind == "cplx") * np.arange(1, r + 1)) @ np.exp(np.outer(np.log(np.array(E3[kind]) + 0j), t))
        return BOPDMD(svd_rank=r).fit(Xc, t)
    if name == "wrapped":
        return zero_mean_preprocessing(DMD(svd_rank=r - 1)).fit(X)
    if name == "wrapbop":
        return zero_mean_preprocessing(BOPDMD(svd_rank=r - 1)).fit(X, np.arange(14) * 0.1)
    if name == "rank2":
        return DMD(svd_rank=2).fit(X)
    raise KeyError(name)


MODELS = ["DMD", "exact", "masked", "window", "times", "hankel", "cdmd", "bop", "bopuneven", "bopecon", "wrapped", "wrapbop", "rank2"]


# ---------------------------------------------------------------- reading figures
class Screen:
    """records what is shown; closes everything at the end."""

    def __enter__(self):
        plt.close("all")
        self.shown = 0
        self.old = plt.show

        def show(*a, **k):
            self.shown += 1
        plt.show = show
        self.dir = tempfile.TemporaryDirectory()
        self.cwd = os.getcwd()
        os.chdir(self.dir.name)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        self.dir.cleanup()
        plt.show = self.old
        plt.close("all")

    def files(self):
        return sorted(os.listdir(self.dir.name))

    @staticmethod
    def figures():
        return [plt.figure(i) for i in plt.get_fignums()]


def points(ax):
    """all marked points of an axes with their colours."""
    P, C = [], []
    for l in ax.get_lines():
        if l.get_marker() in (None, "None", "", " "):
            continue
        x, y = np.atleast_1d(l.get_xdata(orig=False)), np.atleast_1d(l.get_ydata(orig=False))
        for a, b in zip(x, y):
            if np.isfinite(a) and np.isfinite(b):
                P.append(complex(a, b))
                C.append(mcol.to_hex(l.get_markerfacecolor()))
    for c in ax.collections:
        if isinstance(c, mcoll.PathCollection):
            fc = c.get_facecolor()
            for k, (a, b) in enumerate(np.ma.filled(c.get_offsets(), np.nan)):
                P.append(complex(a, b))
                C.append(mcol.to_hex(fc[k % len(fc)]))
    return np.array(P, complex), C


def curves(ax):
    return [(np.asarray(l.get_xdata(orig=False), float), np.asarray(l.get_ydata(orig=False), float)) for l in ax.get_lines() if l.get_linestyle() not in ("None", "", " ")
            and l.get_transform().contains_branch(ax.transData) and len(np.atleast_1d(l.get_xdata())) > 2]


def mesh(ax):
    """(values, x of the cells, y of the cells) of the only picture of an axes; None if there is none."""
    M = [c for c in ax.collections if hasattr(c, "get_coordinates") and c.get_array() is not None]
    if len(M) != 1:
        return None
    co = M[0].get_coordinates()
    V = np.ma.filled(M[0].get_array(), np.nan).reshape(co.shape[0] - 1, co.shape[1] - 1)
    mid = (co[:-1, :-1] + co[1:, :-1] + co[:-1, 1:] + co[1:, 1:]) / 4
    return V, mid[..., 0], mid[..., 1]


def same_points(rec, ax, want, what, tol=1e-12, once=False):
    P, C = points(ax)
    if once and len(P):         # a point may be drawn twice
        keep = [i for i in range(len(P)) if not any(abs(P[i] - P[j]) < 1e-13 and C[i] == C[j] for j in range(i))]
        P, C = P[keep], [C[i] for i in keep]
    rec.transitions += 1
    if rec.check(len(P) == len(want), what + ": number of points", got=len(P), want=len(want)) and len(want):
        rec.check(match(P, np.asarray(want))[0] <= tol * max(1, np.abs(want).max()), what + ": the points are not the model's", got=P, want=want)
    return P, C


def picture(rec, ax, want, x, y, what, uniform=True):
    m = mesh(ax)
    rec.transitions += 1
    if not rec.check(m is not None, what + ": no picture"):
        return
    V, cx, cy = m
    if not rec.check(V.shape == want.shape, what + ": size of the picture", got=V.shape, want=want.shape):
        return
    rec.close(V, want, what + ": the picture is not the model's", tol=1e-12)
    if uniform:
        rec.close(cx, np.broadcast_to(np.asarray(x, float)[None], V.shape), what + ": abscissa of the picture", tol=1e-9)
        rec.close(cy, np.broadcast_to(np.asarray(y, float)[:, None], V.shape), what + ": ordinate of the picture", tol=1e-9)


def same_file(rec, scr, name, fig, what):
    """the stored picture is the shown one."""
    fig.savefig("again.png")
    rec.check(os.path.exists(name), what + ": the file was not written", got=scr.files())
    if os.path.exists(name):
        a, b = plt.imread(name), plt.imread("again.png")
        rec.check(a.shape == b.shape and np.array_equal(a, b), what + ": the stored picture is not the shown one")
    os.remove("again.png")


# ---------------------------------------------------------------- cases
def cases(tier):
    q = tier == "quick"
    for d in product(model=MODELS, data=list(E3), axes=[True, False], circle=[True, False], narrow=[True, False], dpi=[None, 40]):
        if not (q and d["dpi"] and d["axes"]):
            yield {"k": "eigs", **d}
    for lev in [None, 0, 1, 2]:
        for node in [None] + (list(range(2 ** lev)) if lev is not None else []):
            for c in (True, False):
                yield {"k": "mreigs", "level": lev, "node": node, "circle": c}
    for d in product(what=["modes", "snapshots"], data=list(E3), grid=GRIDS[tier], store=["2d", "C", "F"], idx=[None, 0, 2, [1], [2, 0], (1, 1), "np"], xy=[None, "unit", "far"], mask=[False, True]):
        if d["mask"] and (d["what"] == "snapshots" or d["idx"] is None and q):
            continue
        if q and d["data"] == "real" and d["store"] != "2d":
            continue
        yield {"k": "grid", **d}
    PERM = [(0, 1, 2), (2, 0, 1), (1,), (0, 2), (3, 1, 0)]
    for d in product(model=MODELS, data=list(E3), idx=PERM, t=[None, 0.5, "array"], cont=[False, True], shape=[None, [2, 3], [3, 2]], flip=[False, True], d=[1, 2], msv=[50, 5]):
        if d["cont"] and d["model"] in ("bop", "bopuneven", "bopecon", "wrapbop") or d["model"] == "window" and d["t"] is not None:
            continue
        if d["d"] == 2 and d["shape"] or (d["model"] == "hankel") != (d["d"] == 2) and not (d["d"] == 2 and d["model"] in ("DMD", "bop")):
            continue
        on = (d["idx"] != PERM[0]) + (d["t"] is not None) + d["cont"] + bool(d["shape"]) + d["flip"] + (d["msv"] == 5)
        if on > (2 if q else 4):
            continue
        if q and on == 2 and d["model"] not in ("DMD", "bop", "masked", "hankel") and (d["data"] == "real" or d["idx"] != PERM[0]):
            continue
        yield {"k": "summary", **d}
    for d in product(data=list(E3), idx=[None, 2, [1, 0], [3]], pairs=[True, False], shape=[None, [2, 3], [3, 2]], xy=[False, True], cols=[4, 1, 3], d=[1, 2], order=["C", "F"]):
        if d["order"] == "F" and not d["shape"] or d["d"] == 2 and d["shape"]:
            continue
        yield {"k": "modeuq", **d}
    for d in product(data=list(E3), flip=[False, True], true=[False, True], axes=[False, True], lim=[False, True]):
        yield {"k": "eiguq", **d}
    for d in product(num=[None, 20, 31], lin=[[0, 1, 2], [1, 0], [2, 1, 0]], force=[0, 1], thr=[None, 0.01, 10.0], jump=[None, 1, 3], sw=[False, True], burst=[False, True]):
        if q and d["burst"] and (d["sw"] or d["thr"] is not None):
            continue
        yield {"k": "havok", **d}
    for d in product(fn=["hist", "series", "separation", "bands", "error", "time"], comps=[1, 2, 3], window=[(8, 4), (10, 3)], resid=[False, True], period=[False, True], point=[0, 3], cont=[False, True]):
        if d["period"] and d["fn"] != "bands" or d["resid"] and d["fn"] not in ("separation", "bands", "time") or d["point"] and d["fn"] != "time":
            continue
        if d["cont"] and d["fn"] not in ("separation", "bands"):
            continue
        yield {"k": "costs", **d}
    for d in product(fn=["separation", "bands", "error", "time"], level=[0, 1, 2]):
        yield {"k": "mrcosts", **d}
    for fn in ("eigs", "mreigs", "modes", "snapshots", "summary", "havok", "modeuq", "eiguq"):
        yield {"k": "err", "fn": fn}


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Screen() as scr:
            globals()["_" + case["k"]](case, rec, scr)


# ---------------------------------------------------------------- kinds
def inside(rec, ax, P, what):
    (a, b), (c, e) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    tol = 1e-9
    rec.check(np.all((P.real >= a - tol) & (P.real <= b + tol) & (P.imag >= c - tol) & (P.imag <= e + tol)), what + ": points outside of the view", got=[a, b, c, e], want=P)


def circles(ax):
    return [(complex(*c.center), c.radius) for c in list(ax.patches) + list(ax.artists) if isinstance(c, mpatch.Circle)]


def _eigs(case, rec, scr):
    from pydmd.plotter import plot_eigs
    d = model(case["model"], case["data"])
    kw = dict(show_axes=case["axes"], show_unit_circle=case["circle"], narrow_view=case["narrow"], title="T", figsize=(3, 3), dpi=case["dpi"])
    e0 = d.eigs.copy()
    rec.at("plot_eigs")
    plot_eigs(d, **kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1 and not scr.files(), "one figure is shown", got=(len(F), scr.shown, scr.files()))
    ax = F[0].axes[0]
    same_points(rec, ax, e0, "spectrum")
    inside(rec, ax, e0, "spectrum")
    unit = [c for c in circles(ax) if abs(c[0]) < 1e-12 and abs(c[1] - 1) < 1e-12]
    rec.check(len(unit) == case["circle"], "the unit circle is shown exactly if requested", got=circles(ax))
    rec.check(ax.get_title() == "T", "title")
    rec.state(case, e0)
    plot_eigs(d, filename="f.png", **kw)
    rec.check(scr.shown == 1 and scr.files() == ["f.png"], "with a file name the plot is stored and not shown", got=(scr.shown, scr.files()))
    same_file(rec, scr, "f.png", F[0], "spectrum")


def _mr():
    from pydmd import DMD, MrDMD
    t = np.linspace(0, 1, 64)
    x = np.linspace(0, 1, 5)[:, None]
    X = np.sin(2 * np.pi * t) * (1 + x) + 0.5 * np.cos(9 * np.pi * t + x) + 0.3 * np.sin(31 * t * (1 + t) + 3 * x) + 0.1 * noise((5, 64), 1)
    return MrDMD(DMD(svd_rank=-1), max_level=2, max_cycles=2).fit(X)


def _mreigs(case, rec, scr):
    from pydmd.plotter import plot_eigs_mrdmd
    d = _mr()
    rec.at("plot_eigs_mrdmd")
    kw = dict(show_unit_circle=case["circle"], level=case["level"], node=case["node"], figsize=(3, 3))
    want = d.eigs if case["level"] is None else d.partial_eigs(case["level"], case["node"])
    if not len(want):
        return
    plot_eigs_mrdmd(d, **kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1, "one figure is shown")
    ax = F[0].axes[0]
    P, C = same_points(rec, ax, want, "spectrum of the levels")
    inside(rec, ax, want, "spectrum of the levels")
    rec.check(len([c for c in circles(ax) if abs(c[1] - 1) < 1e-12]) == case["circle"], "the unit circle is shown exactly if requested")
    if case["level"] is None:
        for l in range(3):
            pe = d.partial_eigs(l)
            cs = {c for p, c in zip(P, C) if np.abs(pe - p).min() < 1e-13}
            rec.check(len(cs) == 1, "one colour for each level", got=cs)
    rec.state(case, want)
    plot_eigs_mrdmd(d, filename="f.png", **kw)
    same_file(rec, scr, "f.png", F[0], "spectrum of the levels")


def _grid(case, rec, scr):
    from pydmd.plotter import plot_modes_2D, plot_snapshots_2D
    nr, nc = case["grid"]
    kind = case["data"]
    X = data(kind, nr * nc)
    r = len(E3[kind])
    order = "C"
    if case["store"] == "2d":
        fields = [X[:, k].reshape(nr, nc) for k in range(X.shape[1])]
        d = m_dmd(kind, fields)
    else:
        order = case["store"]
        d = m_dmd(kind, X)
    if case["mask"]:
        b = np.ones(d.modes.shape[1], bool)
        b[0] = False
        d.modes_activation_bitmask = b
    kw = dict(figsize=(3, 2), order=order)
    x, y = np.arange(nc), np.arange(nr)
    if case["store"] != "2d" and case["xy"] is None:
        kw["snapshots_shape"] = (nr, nc)
    if case["xy"] == "unit":
        x, y = np.linspace(0, 1, nc), np.linspace(-1, 1, nr)
    if case["xy"] == "far":
        x, y = 100 + 0.5 * np.arange(nc), -3.0 * np.arange(nr)
    if case["xy"]:
        kw.update(x=x, y=y)
    A = d.modes if case["what"] == "modes" else d.snapshots
    f = plot_modes_2D if case["what"] == "modes" else plot_snapshots_2D
    idx = case["idx"]
    if isinstance(idx, str):
        idx = np.array([2, 1])
    elif isinstance(idx, list) and len(idx) == 2:
        idx = list(idx)
    kw["index_mode" if case["what"] == "modes" else "index_snap"] = idx
    todo = list(range(A.shape[1])) if idx is None else [idx] if isinstance(idx, int) else [int(i) for i in idx]
    rec.at(f.__name__)
    A0 = A.copy()
    f(d, **kw)
    F = scr.figures()
    rec.need(len(F) == len(todo) and scr.shown == 1, "one figure for each requested index", got=(len(F), scr.shown), want=len(todo))
    for fig, i in zip(F, todo):
        field = A0[:, i].reshape(nr, nc, order=order)
        axes = [a for a in fig.axes if mesh(a) is not None and a.get_label() != "<colorbar>"]
        tt = (fig._suptitle.get_text() if fig._suptitle else "") + " ".join(a.get_title() for a in axes)
        rec.check(str(i) in re.findall(r"-?\d+", tt), "the title names another index", got=tt, want=i)
        parts = [field.real, field.imag] if case["what"] == "modes" else [field.real]
        if rec.check(len(axes) == len(parts), "number of pictures", got=len(axes), want=len(parts)):
            for a, p in zip(axes, parts):
                picture(rec, a, p, x, y, f"{case['what']} {i}")
    rec.state(case, A0)
    if case["mask"] or idx is None and len(todo) > 6 or len(set(todo)) < len(todo) or case["xy"] == "far":
        return
    plt.close("all")
    f(d, filename="a.b.png", **kw)
    rec.check(scr.files() == sorted(f"a.b.{i}.png" for i in todo), "one file for each requested index", got=scr.files())
    rec.check(scr.shown == 1, "with a file name nothing is shown")
    if case["data"] == "cplx" and case["store"] == "2d":
        f(d, **kw)
        for fig, i in zip(scr.figures(), todo):
            same_file(rec, scr, f"a.b.{i}.png", fig, "picture")


def by_title(fig, pat):
    return [a for a in fig.axes if re.search(pat, a.get_title())]


def _summary(case, rec, scr):
    from pydmd.plotter import plot_summary
    name, kind = case["model"], case["data"]
    dl = case["d"]
    n = 6
    d = model(name, kind, n)
    eigs, modes, amps, dyn = d.eigs, d.modes, np.abs(d.amplitudes), d.dynamics
    r = len(eigs)
    idx = list(case["idx"])
    bop = name in ("bop", "bopuneven", "bopecon", "wrapbop")
    kw = dict(index_modes=tuple(idx), dpi=30, figsize=(6, 4), flip_continuous_axes=case["flip"], max_sval_plot=case["msv"], d=dl)
    m = 14 if name != "bopuneven" else 20
    if case["t"] == "array":
        kw["t"] = 2 + 0.25 * np.arange(m)
    elif case["t"]:
        kw["t"] = case["t"]
    if case["cont"]:
        kw["continuous"] = True
    shape = case["shape"]
    if shape:
        kw["snapshots_shape"] = tuple(shape)
    rec.at("plot_summary")
    if r > case["msv"] or (r >= 3 and max(idx) >= r):
        rec.raises(lambda: plot_summary(d, **kw), "a summary which cannot show the requested modes")
        return
    plot_summary(d, **kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1, "one figure is shown", got=(len(F), scr.shown))
    fig = F[0]
    if r < 3:
        idx = list(range(r))
    # times and rates
    if bop:
        time = np.asarray(d.time, float).ravel()
        dt = None if name == "bopuneven" else time[1] - time[0]
    elif case["t"] == "array":
        time, dt = kw["t"], 0.25
    elif case["t"]:
        time, dt = np.arange(m) * case["t"], case["t"]
    else:
        time, dt = np.asarray(d.dmd_timesteps, float), d.original_time["dt"]
    cont = eigs if bop or case["cont"] else np.log(eigs) / dt
    disc = eigs if not (bop or case["cont"]) else None if dt is None else np.exp(eigs * dt)
    if case["flip"]:
        cont = cont.imag + 1j * cont.real
    a_d, a_c = by_title(fig, "Discrete"), by_title(fig, "Continuous")
    rec.need(len(a_d) == 1 and len(a_c) == 1, "two eigenvalue panels")
    same_points(rec, a_d[0], [] if disc is None else disc, "discrete eigenvalues", tol=1e-9, once=True)
    PC, CC = same_points(rec, a_c[0], cont, "continuous eigenvalues", tol=1e-9, once=True)
    # singular values
    a_s = by_title(fig, "Singular")
    rec.need(len(a_s) == 1, "panel of the singular values")
    S = d.ho_snapshots if name == "hankel" else data(kind, n) if name == "bopecon" else d.snapshots
    s = np.linalg.svd(S, compute_uv=False)[:r if name == "bopecon" else None]
    want = (np.arange(len(s)) + 1 + 1j * s * 100 / s.sum())[:case["msv"]]
    PS, CS = same_points(rec, a_s[0], want, "singular values", tol=1e-9)
    if len(PS) == len(want):
        o = np.argsort(PS.real)
        CS = [CS[i] for i in o]
        rec.check(len(set(CS[:r])) == 1 and (len(want) <= r or CS[0] not in CS[r:]), "the values used by the fit are highlighted", got=CS, want=r)
    # modes and dynamics
    a_m, a_y = by_title(fig, r"^Mode \d"), by_title(fig, "Dynamics")
    rec.need(len(a_m) == len(idx) and len(a_y) == len(idx), "panels of the modes", got=(len(a_m), len(a_y)), want=len(idx))
    M = modes.reshape(dl, -1, r).mean(axis=0) if dl > 1 else modes
    srt = np.sort(-amps)
    for k, i in enumerate(idx):
        rec.check(a_m[k].get_title() == f"Mode {i + 1}", "title of a mode", got=a_m[k].get_title(), want=i + 1)
        cand = [j for j in range(r) if abs(-amps[j] - srt[i]) < 1e-8 * amps.max()]
        good = []
        for j in cand:
            if shape:
                V = mesh(a_m[k])
                w = M[:, j].real.reshape(shape[1], shape[0])
                ok = V is not None and V[0].shape == w.shape and np.allclose(V[0], w, atol=1e-9 * np.abs(M).max())
            else:
                c = curves(a_m[k])
                ok = len(c) == 1 and np.array_equal(c[0][0], np.arange(len(M))) and np.allclose(c[0][1], M[:, j].real, atol=1e-9 * np.abs(M).max())
            c = curves(a_y[k])
            ok = ok and len(c) == 1 and c[0][1].shape == dyn[j].shape and np.allclose(c[0][1], dyn[j].real, atol=1e-9 * np.abs(dyn).max())
            if ok:
                col = {CC[q] for q in range(len(PC)) if abs(PC[q] - cont[j]) < 1e-9 * max(1, np.abs(cont).max())}
                if name != "window" or True:
                    ok = mcol.to_hex(a_m[k].title.get_color()) in col and mcol.to_hex(a_y[k].title.get_color()) in col
            if ok:
                good.append(j)
        rec.check(bool(good), "mode, dynamics and colour shown are not those of the mode with this rank of significance", k=i, cand=cand)
        c = curves(a_y[k])
        if c:
            rec.close(c[0][0], time, "times of the dynamics", tol=1e-9)
        rec.transitions += 2
    rec.state(case, eigs)
    if case["flip"] or case["shape"]:
        return
    plot_summary(d, filename="s.png", **kw)
    rec.check(scr.shown == 1 and scr.files() == ["s.png"], "with a file name the plot is stored and not shown", got=(scr.shown, scr.files()))
    rec.check(len(scr.figures()) == 1, "the stored figure stays open")


def bagged(kind, n=6, econ=False):
    from pydmd import BOPDMD
    w = {"pair": [-0.1 + 2j, -0.1 - 2j, -0.5, -0.2 + 5j, -0.2 - 5j], "real": [-0.1, -0.6, -1.5, -3.0], "cplx": [-0.1 + 2j, -0.3 - 1j, -0.2 + 5j, -0.6 - 4j]}[kind]
    r = len(w)
    t = np.linspace(0, 3, 40)
    P = noise((n, r), 12, True)
    if kind == "pair":
        P[:, 1], P[:, 4], P[:, 2] = P[:, 0].conj(), P[:, 3].conj(), P[:, 2].real
    X = (P * np.array([1.0, 1.0, 3, 2, 2])[:r]) @ np.exp(np.outer(w, t))
    X = X + 1e-3 * noise(X.shape, 13, kind == "cplx")
    X = X if kind == "cplx" else X.real
    np.random.seed(4)
    if econ:
        U, s, V = np.linalg.svd(X, full_matrices=False)
        d = BOPDMD(svd_rank=r, num_trials=5, trial_size=0.8, init_alpha=np.array(w, complex), eig_sort="imag", use_proj=True, proj_basis=U[:, :r])
        d.fit_econ(s[:r], V[:r], t)
        return d
    return BOPDMD(svd_rank=r, num_trials=5, trial_size=0.8, init_alpha=np.array(w, complex), eig_sort="imag").fit(X, t)


_CACHE = {}


def cached(key, f):
    if key not in _CACHE:
        _CACHE[key] = f()
    return _CACHE[key]


def _modeuq(case, rec, scr):
    d = cached(("bag", case["data"], case["cols"] == 3), lambda: bagged(case["data"], econ=case["cols"] == 3))
    r = d.modes.shape[1]
    if isinstance(case["idx"], list) and max(case["idx"]) >= r:
        return
    dl, shape = case["d"], case["shape"]
    kw = dict(cols=case["cols"], d=dl, plot_modes=case["idx"], plot_conjugate_pairs=case["pairs"], order=case["order"], figsize=(6, 4))
    n = len(d.modes) // dl
    x, y = (np.arange(shape[0]), np.arange(shape[1])) if shape else (np.arange(n), None)
    if shape:
        kw["modes_shape"] = tuple(shape)
    if case["xy"]:
        x = 5 + 0.5 * x
        kw["x"] = x
        if shape:
            y = 2.0 * y - 1
            kw["y"] = y
    rec.at("plot_mode_uq")
    d.plot_mode_uq(**kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1, "one figure is shown")
    if isinstance(case["idx"], list):
        todo = case["idx"]
    else:
        todo = list(range(r))
        if not case["pairs"]:
            todo = todo[::2] if r % 2 == 0 else [0] + todo[1::2]
        todo = todo[:case["idx"]] if case["idx"] else todo
    order = np.argsort(-np.abs(d.amplitudes), kind="stable")
    amps = np.abs(d.amplitudes)
    M, S = (A.reshape(dl, n, r).mean(axis=0) for A in (d.modes, d.modes_std))
    avg, std = by_title(F[0], r"^Modes? \d"), by_title(F[0], "Standard")
    rec.need(len(avg) == len(todo) and len(std) == len(todo), "number of panels", got=(len(avg), len(std)), want=len(todo))
    for a, b, i in zip(avg, std, todo):
        rec.check(int(re.findall(r"\d+", a.get_title())[0]) == i + 1, "title of a mode", got=a.get_title(), want=i + 1)
        good = False
        for j in [j for j in range(r) if abs(amps[j] - amps[order[i]]) <= 1e-12 * amps.max()]:
            wm, ws = M[:, j].real, S[:, j]
            if shape:
                ga, gb = mesh(a), mesh(b)
                wm, ws = (v.reshape(shape[1], shape[0], order=case["order"]) for v in (wm, ws))
                good |= ga is not None and gb is not None and ga[0].shape == wm.shape and np.allclose(ga[0], wm, atol=1e-12) and np.allclose(gb[0], ws, atol=1e-12) \
                    and np.allclose(ga[1], x[None]) and np.allclose(ga[2], y[:, None])
            else:
                ga, gb = curves(a), curves(b)
                good |= len(ga) == 1 and len(gb) == 1 and np.allclose(ga[0][0], x) and np.allclose(gb[0][0], x) and np.allclose(ga[0][1], wm, atol=1e-12) and np.allclose(gb[0][1], ws, atol=1e-12)
        rec.check(good, "the shown mode and deviation are not those of the mode with this rank of significance", k=i)
        pa, pb = a.get_position(), b.get_position()
        rec.check(abs(pa.x0 - pb.x0) < 0.05 and pb.y0 < pa.y0, "the deviation is not below its mode")
        rec.transitions += 1
    rec.state(case, d.modes_std)


def _eiguq(case, rec, scr):
    d = cached(("bag", case["data"]), lambda: bagged(case["data"]))
    true = np.array([1 + 2j, -3j, 0.5]) if case["true"] else None
    rec.at("plot_eig_uq")
    kw = dict(eigs_true=None if true is None else list(true), flip_axes=case["flip"], draw_axes=case["axes"])
    if case["lim"]:
        kw.update(xlim=(-7, 8), ylim=(-9, 10))
    d.plot_eig_uq(**kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1, "one figure is shown")
    ax = F[0].axes[0]
    fl = (lambda z: z.imag + 1j * z.real) if case["flip"] else (lambda z: z)
    want = fl(d.eigs)
    same_points(rec, ax, want if true is None else np.concatenate([want, fl(true)]), "eigenvalues")
    got = sorted(((round(c.real, 9), round(c.imag, 9), round(float(q), 9)) for c, q in circles(ax)))
    exp = sorted((round(float(e.real), 9), round(float(e.imag), 9), round(float(k * s), 9)) for e, s in zip(want, d.eigenvalues_std) for k in (1, 2))
    rec.check(np.allclose(got, exp, atol=1e-8) if len(got) == len(exp) else False, "circles of one and two standard deviations", got=got, want=exp)
    if case["lim"]:
        rec.check(tuple(ax.get_xlim()) == (-7, 8) and tuple(ax.get_ylim()) == (-9, 10), "requested limits")
    lab = (ax.get_xlabel(), ax.get_ylabel())
    rec.check(("Im" in lab[0] and "Re" in lab[1]) if case["flip"] else ("Re" in lab[0] and "Im" in lab[1]), "axis labels", got=lab)
    rec.state(case, want)


def havok_model(bursts=False):
    from pydmd import HAVOK
    t = np.arange(0, 8, 0.1)
    if bursts:
        # the thresholds of the two forcing terms differ so much that each of them selects other times
        r = np.random.RandomState(9)
        x = np.sin(1.3 * t) + 0.3 * np.cos(4 * t)
        for c, w, a in zip(r.uniform(0.5, 7.5, 3), r.uniform(0.08, 0.3, 3), r.randn(3)):
            x = x + a * np.exp(-((t - c) / w) ** 2)
    else:
        x = np.sin(1.3 * t) + 0.5 * np.sin(3.1 * t + 1) * (1 + 0.3 * np.cos(0.7 * t)) + 0.3 * np.cos(5 * t)
    return HAVOK(svd_rank=6, delays=12, num_chaos=2).fit(x, 0.1), x, t


def xyz(line):
    if hasattr(line, "get_data_3d"):
        return np.array([np.asarray(v, float) for v in line.get_data_3d()])
    return np.array([np.asarray(v, float) for v in line.get_data()])


def _havok(case, rec, scr):
    h, x, t = cached("burst", lambda: havok_model(True)) if case.get("burst") else cached("havok", havok_model)
    kw = dict(num_plot=case["num"], index_linear=tuple(case["lin"]), index_forcing=case["force"], forcing_threshold=case["thr"], min_jump_dist=case["jump"], figsize=(8, 3), dpi=30)
    sw = np.array([3, 9, 18, 25, 40]) if case["sw"] else None
    kw["true_switch_indices"] = sw
    rec.at("HAVOK.plot_summary")
    h.plot_summary(**kw)
    F = scr.figures()
    rec.need(len(F) == 1 and scr.shown == 1, "one figure is shown")
    fig = F[0]
    lin, frc = h.linear_dynamics, h.forcing
    num = len(lin) if case["num"] is None else case["num"]
    thr = case["thr"] if case["thr"] is not None else h.compute_threshold(frc[:, case["force"]])
    jump = case["jump"] if case["jump"] is not None else int(0.5 / 0.1)
    act = np.flatnonzero(np.abs(frc[:num, case["force"]]) > thr)
    ax = {k: by_title(fig, k) for k in ("Time series", "Regression", "Linear", "Forcing", "Embedded", "Reconstructed")}
    rec.need(all(len(v) == 1 for v in ax.values()), "six panels", got={k: len(v) for k, v in ax.items()})
    ax = {k: v[0] for k, v in ax.items()}

    def main(a):
        return [xyz(l) for l in a.get_lines() if l.get_marker() in (None, "None", "", " ")]
    rec.close(main(ax["Time series"])[0], np.array([t[:num], x[:num]]), "time series", tol=1e-10)
    im = ax["Regression"].images
    rec.check(len(im) == 1 and np.allclose(np.asarray(im[0].get_array()), h.operator.real if hasattr(h, "operator") and hasattr(h.operator, "real") else 0, atol=1e-12), "regression model")
    rec.close(main(ax["Linear"])[0], np.array([t[:num], lin[:num, 0]]), "linear dynamics", tol=1e-10)
    fl = main(ax["Forcing"])
    rec.close(fl[0], np.array([t[:num], frc[:num, case["force"]]]), "forcing", tol=1e-10)
    el = main(ax["Embedded"])
    rec.close(el[0], np.array([lin[:num, i] for i in case["lin"]]), "embedded attractor", tol=1e-10)
    rl = main(ax["Reconstructed"])
    rec.close(rl[0], np.array([h.reconstructed_embeddings[:num, i] for i in case["lin"]]), "reconstructed attractor", tol=1e-10)
    # active pieces: every shown piece starts at an active time, and the pieces are the groups of active times
    groups = []
    for i in act:
        if groups and i - groups[-1][-1] <= jump:
            groups[-1].append(i)
        else:
            groups.append([i])
    pieces = [p for p in fl[1:]]
    rec.check(len(pieces) == len(groups) and len(el) - 1 == len(groups), "number of active pieces", got=(len(pieces), len(el) - 1), want=len(groups))
    if len(pieces) == len(groups):
        for p, e, g in zip(pieces, el[1:], groups):
            k = p.shape[1]
            rec.check(k in (g[-1] - g[0], g[-1] - g[0] + 1) and np.allclose(p, [t[g[0]:g[0] + k], frc[g[0]:g[0] + k, case["force"]]]), "an active piece is not the group of active times", got=k, want=g)
            rec.check(e.shape[1] == k and np.allclose(e, [lin[g[0]:g[0] + k, i] for i in case["lin"]]), "an active piece of the attractor", got=e.shape)
    P, _ = points(ax["Forcing"])
    want = [] if sw is None else [t[i] + 0j for i in sw if i < num]
    rec.check(len(P) == len(want) and np.allclose(np.sort(np.array(P).real), want), "true switching times", got=P, want=want)
    rec.state(case, act)
    rec.transitions += 6
    h.plot_summary(filename="h.png", **kw)
    rec.check(scr.shown == 1 and scr.files() == ["h.png"], "with a file name the plot is stored and not shown")


def costs_data():
    t = np.arange(26.0)[None]
    x = np.linspace(0, 1, 4)[:, None]
    X = (1.5 + x) + np.cos(0.25 * t + 2 * x) + 0.6 * np.sin(1.4 * t + 5 * x) * (1 + 0.5 * x) + 0.2 * np.cos(0.7 * t * (1 + x))
    return X, t


def costs_model(window, comps):
    from pydmd.costs import COSTS
    X, t = costs_data()
    d = COSTS(svd_rank=4, global_svd=False, pydmd_kwargs={"varpro_opts_dict": {"maxiter": 3}, "eig_constraints": {"stable"}})
    d.fit(X, t, *window)
    d.cluster_omega(n_components=comps, kmeans_kwargs={"random_state": 0, "n_init": 3})
    return d, X


def panel(rec, ax, want, what):
    n, m = want.shape
    picture(rec, ax, want, np.arange(m) + 0.5, np.arange(n) + 0.5, what)


def costs_check(case, rec, fn, call, d, X, fig=None):
    low_high = d.scale_separation()
    B = d.scale_reconstruction()
    if fn == "separation":
        out = call("plot_scale_separation", plot_residual=case.get("resid", False), **({"plot_contours": True} if case.get("cont") else {}))
        fig, axes = out if out is not None else (plt.gcf(), plt.gcf().axes)
        want = [X, *low_high] + ([X - sum(low_high)] if case.get("resid") else [])
    elif fn == "bands":
        out = call("plot_reconstructions", plot_residual=case.get("resid", False), plot_period=case.get("period", False), **({"plot_contours": True} if case.get("cont") else {}))
        fig, axes = out if out is not None else (plt.gcf(), plt.gcf().axes)
        want = [X, *B] + ([X - B.sum(axis=0)] if case.get("resid") else [])
        for a, c in zip(list(axes)[1:], d.cluster_centroids):
            v = f"{2 * np.pi / c if case.get('period') else c:.2f}"
            rec.check(v in a.get_title(), "title of a band", got=a.get_title(), want=v)
    if fn in ("separation", "bands"):
        if rec.check(len(axes) == len(want), "number of panels", got=len(axes), want=len(want)):
            for k, (a, w) in enumerate(zip(axes, want)):
                m = [c for c in a.collections if isinstance(c, mcoll.QuadMesh)]
                if rec.check(len(m) == 1, "one picture in a panel", k=k):
                    rec.close(np.asarray(m[0].get_array()).reshape(np.shape(w)), np.real(w), "a panel is not the model's", tol=1e-12, k=k)
                    if fn == "separation" and k < 2 or fn == "bands" and k < 2:
                        rec.check(m[0].get_clim() == (-np.abs(X).max(), np.abs(X).max()), "colour limits of the data", got=m[0].get_clim())
        return
    if fn == "error":
        call("plot_error")
        ax = [a for a in plt.gcf().axes if mesh(a) is not None][0]
        G = d.global_reconstruction().real
        rec.close(mesh(ax)[0], (G - X) / X * 100, "error in percent", tol=1e-10)
        re_ = np.linalg.norm(G - X) / np.linalg.norm(X)
        got = re.findall(r"[\d.e-]+$", ax.get_title())
        rec.check(bool(got) and abs(float(got[0]) - re_) < 0.06 * re_ + 1e-12, "relative error in the title", got=ax.get_title(), want=re_)
        return
    if fn == "time":
        p = case.get("point", 1)
        out = call("plot_time_series", p, include_residual=case.get("resid", False))
        fig, axes = out
        k = len(B)
        mu = X[p].mean()
        rec.need(len(axes) == k + 2, "number of panels", got=len(axes), want=k + 2)
        C = [[c[1] for c in curves(a)] for a in axes]

        def has(a, w, what):
            rec.check(any(c.shape == w.shape and np.allclose(c, w, atol=1e-10 * np.abs(X).max()) for c in C[a]), "time series without " + what, k=a)
        has(0, X[p] - mu, "the data")
        has(0, B.sum(axis=0)[p] - mu, "the reconstruction")
        has(1, B[0, p] - mu, "the low-frequency band")
        has(1, X[p] - mu - B[1:].sum(axis=0)[p], "the data less the high frequencies")
        for j in range(1, k):
            has(j + 1, B[j, p], "a band")
        has(k + 1, X[p] - mu, "the data")
        has(k + 1, B[1:].sum(axis=0)[p], "the high frequencies")
        has(k + 1, B[0, p] - mu, "the low frequencies")
        n = 3 + bool(case.get("resid"))
        rec.check(len(C[k + 1]) == n and len(C[0]) == 2, "number of curves", got=[len(c) for c in C])
        if case.get("resid"):
            has(k + 1, X[p] - B.sum(axis=0)[p], "the residual")


def _costs(case, rec, scr):
    d, X = cached(("costs", tuple(case["window"]), case["comps"]), lambda: costs_model(case["window"], case["comps"]))
    fn = case["fn"]
    rec.at("COSTS plot " + fn)
    rec.state(case, d.omega_array)
    rec.transitions += 1
    if case["comps"] == 1 and fn in ("separation", "bands"):
        return              # no high-frequency band to scale the colours with

    def call(name, *a, **k):
        if name == "plot_time_series":
            return d.plot_time_series(a[0], X, **k)
        return getattr(d, name)(X, **k)
    if fn == "hist":
        fig, ax = d.plot_omega_histogram()
        om = d.transform_omega(d.omega_array.flatten(), transform_method=d._transform_method)
        rec.check(sum(p.get_height() for p in ax.patches) == np.isfinite(om).sum(), "the histogram counts every frequency once", got=sum(p.get_height() for p in ax.patches), want=om.size)
        v = sorted(float(np.atleast_1d(l.get_xdata())[0]) for l in ax.get_lines())
        rec.check(len(v) == case["comps"] and np.allclose(v, np.sort(np.ravel(d.cluster_centroids))), "lines at the centroids", got=v, want=d.cluster_centroids)
    elif fn == "series":
        fig, ax = d.plot_omega_time_series()
        om = d.transform_omega(d.omega_array.flatten(), transform_method=d._transform_method).reshape(d.omega_array.shape)
        tm = np.asarray(d.time_array).mean(axis=1)
        P, C = same_points(rec, ax, (tm[:, None] + 1j * om).ravel(), "frequencies over time", tol=1e-10)
        if len(P) == om.size:
            for c in range(case["comps"]):
                sel = (tm[:, None] + 1j * om)[d.omega_classes == c].ravel()
                cols = {C[int(np.abs(P - z).argmin())] for z in sel}
                rec.check(len(cols) <= 1, "one colour for each class", got=cols)
    else:
        costs_check(case, rec, fn, call, d, X)


def mr_model():
    from pydmd.mrcosts import mrCOSTS
    X, t = costs_data()
    m = mrCOSTS(window_length_array=[8, 12, 20], step_size_array=[3, 4, 6], svd_rank_array=[4, 4, 2], global_svd_array=[False, False, False], n_components_array=[2, 3, 1],
                pydmd_kwargs={"varpro_opts_dict": {"maxiter": 3}, "eig_constraints": {"stable"}})
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        m.fit(X, t)
    return m, X


def _mrcosts(case, rec, scr):
    m, X = cached("mrcosts", mr_model)
    lev, fn = case["level"], case["fn"]
    data_in = X if lev == 0 else m.costs_array[lev - 1].scale_separation()[0]
    c = m.costs_array[lev]
    if c.n_components == 1 and fn in ("separation", "bands"):
        return
    name = {"separation": "plot_local_scale_separation", "bands": "plot_local_reconstructions", "error": "plot_local_error", "time": "plot_local_time_series"}[fn]
    rec.at(name)

    def call(_, *a, **k):
        k = {"data": X} if lev == 0 else {}
        return getattr(m, name)(*a, lev, **k)
    if fn in ("bands", "error"):
        plt.close("all")
    costs_check(dict(case, point=1), rec, fn, call, c, np.real(data_in))
    rec.state(case)
    rec.transitions += 1


def _err(case, rec, scr):
    from pydmd import DMD, MrDMD, BOPDMD, HAVOK
    from pydmd import plotter as pl
    fn = case["fn"]
    X = data("pair", 6)
    rec.at(fn)
    rec.transitions += 1
    if fn == "eigs":
        rec.raises(lambda: pl.plot_eigs(DMD()), "a model which is not fitted")
        rec.raises(lambda: pl.plot_eigs(_mr()), "a hierarchical model")
    elif fn == "mreigs":
        rec.raises(lambda: pl.plot_eigs_mrdmd(m_dmd("pair", X)), "a model which is not hierarchical")
        rec.raises(lambda: pl.plot_eigs_mrdmd(_mr(), level=7), "a level which is not there")
        rec.raises(lambda: pl.plot_eigs_mrdmd(_mr(), level=1, node=2), "a node which is not there")
    elif fn == "modes":
        rec.raises(lambda: pl.plot_modes_2D(DMD()), "a model which is not fitted")
        rec.raises(lambda: pl.plot_modes_2D(m_dmd("pair", X)), "data which are not two-dimensional")
        rec.raises(lambda: pl.plot_modes_2D(m_dmd("pair", X), snapshots_shape=(2, 2)), "a wrong shape")
        rec.raises(lambda: pl.plot_modes_2D(m_dmd("pair", X), snapshots_shape=(2, 3), index_mode=9), "a mode which is not there")
    elif fn == "snapshots":
        rec.raises(lambda: pl.plot_snapshots_2D(DMD()), "a model which is not fitted")
        rec.raises(lambda: pl.plot_snapshots_2D(m_dmd("pair", X)), "data which are not two-dimensional")
        rec.raises(lambda: pl.plot_snapshots_2D(m_dmd("pair", X), snapshots_shape=(2, 3), index_snap=99), "a snapshot which is not there")
    elif fn == "summary":
        d = m_dmd("pair", X)
        rec.raises(lambda: pl.plot_summary(DMD()), "a model which is not fitted")
        rec.raises(lambda: pl.plot_summary(d, index_modes=(0, 1, 2, 3)), "four modes")
        rec.raises(lambda: pl.plot_summary(d, snapshots_shape=(6,)), "a shape which is not two-dimensional")
        rec.raises(lambda: pl.plot_summary(d, snapshots_shape=(2, 2)), "a wrong shape")
        rec.raises(lambda: pl.plot_summary(cached("havok", havok_model)[0]), "a HAVOK model")
    elif fn == "havok":
        rec.raises(lambda: HAVOK().plot_summary(), "a model which is not fitted")
        rec.raises(lambda: cached("havok", havok_model)[0].plot_summary(index_linear=(0, 9)), "an embedding which is not there")
    elif fn == "modeuq":
        rec.raises(lambda: BOPDMD(svd_rank=2).fit(X, np.arange(14.0)).plot_mode_uq(), "a model without deviations")
        rec.raises(lambda: cached(("bag", "pair"), lambda: bagged("pair")).plot_mode_uq(plot_modes=[7]), "a mode which is not there")
    elif fn == "eiguq":
        rec.raises(lambda: BOPDMD(svd_rank=2).fit(X, np.arange(14.0)).plot_eig_uq(), "a model without deviations")
    rec.state(case)
