"""P04: sampling and reconstruction windows; the model evaluated at the requested times."""
import itertools
import numpy as np
from . import zoo
from .lib import System, product
from .zoo import (DMD, FbDMD, CDMD, RDMD, SubspaceDMD, EDMD, SpDMD, HankelDMD, HODMD, PiDMD, DMDc, MrDMD)

PROPERTY = "P04"
TECHNIQUE = "explicit-state model of the two time windows; all window grids and all sequences of window edits up to the depth replayed on the real code, judged against the generating system"
ASSUMPTIONS = ["a window whose end is not on its grid may include the first grid time after the end (the library's convention), never one beyond",
               "times between two samples are judged with the principal power of the eigenvalues"]
CHUNK = 60

# name -> (constructor from rank, reference data kind)
EST = {
    "DMD": lambda r: DMD(svd_rank=r),
    "DMD-exact-opt": lambda r: DMD(svd_rank=r, exact=True, opt=True),
    "DMD-opt2": lambda r: DMD(svd_rank=r, opt=2),
    "DMD-opt1x": lambda r: DMD(svd_rank=r, exact=True, opt=1, sorted_eigs="abs"),
    "DMD-opt-1": lambda r: DMD(svd_rank=r, exact=True, opt=-1, rescale_mode="auto"),
    "DMD-opt-3": lambda r: DMD(svd_rank=r, opt=-3),
    "DMD-tlsq": lambda r: DMD(svd_rank=r, tlsq_rank=r),
    "DMD-xy": lambda r: DMD(svd_rank=r, exact=True),
    "CDMD": lambda r: CDMD(svd_rank=r, compression_matrix=zoo.noise((4, 5), 3), opt=2),
    "RDMD": lambda r: RDMD(svd_rank=r, seed=1, opt=-1),
    "SubspaceDMD": lambda r: SubspaceDMD(svd_rank=r),
    "EDMD": lambda r: EDMD(svd_rank=r),
    "SpDMD": lambda r: SpDMD(svd_rank=r, gamma=1e-6, verbose=False),
    "HankelDMD-2": lambda r: HankelDMD(svd_rank=r, d=2),
    "HankelDMD-3m": lambda r: HankelDMD(svd_rank=r, d=3, reconstruction_method="mean"),
    "HankelDMD-4w": lambda r: HankelDMD(svd_rank=r, d=4, reconstruction_method=np.array([1.0, 2, 1, 3]), exact=True, opt=-1),
    "HankelDMD-1": lambda r: HankelDMD(svd_rank=r, d=1, opt=1),
    "HODMD": lambda r: HODMD(svd_rank=r, d=3, svd_rank_extra=r),
    "W-mean": lambda r: zoo.zero_mean_preprocessing(DMD(svd_rank=-1), axis=1),
    "W-id": lambda r: zoo.PrePostProcessingDMD(DMD(svd_rank=r, opt=-2)),
    "W-svd": lambda r: zoo.svd_projection_preprocessing(DMD(svd_rank=r), svd_rank=r),
}
SYS = {"pair+real": (5, 8, False), "osc": (5, 11, False), "c2r": (5, 9, True), "four": (5, 10, False)}
NOEXACT = {"W-mean"}   # the mean-free data are not the same linear system: only window algebra is judged
ANY = {"EDMD": ("pair+real", "osc", "four"), "SpDMD": ("pair+real", "osc")}

OT0 = [0, 3, -2, 0.5]
ODT = [1, 2, 0.25, 0.1]
# reconstruction windows in sample units relative to the first sample: (start, end, step)
REL = list(itertools.product([0, 1, -2, 4, 20, 0.5], [0, 1, 3, 6, 9], [1, 2, 3, 0.5, 0.25]))
# windows in the decimals a user types: steps and times are multiples of the sampling step up to rounding only
DEC = {(0, 0.1): [(0, 1.2, 0.3), (0.7, 2.8, 0.7), (0.3, 0.9, 0.1), (0.6, 0.6, 0.1), (0.1, 1.5, 0.7)], (0.5, 0.1): [(0.5, 1.2, 0.1), (0.8, 2.3, 0.3), (1.1, 3.9, 0.7)],
       (3, 0.1): [(3.3, 4.2, 0.3), (2.9, 3.6, 0.7)],
       # instants between the samples that no short decimal of the sampling step expresses, and ends just past a grid time
       (0, 1): [(1 / 3, 5, 2 / 3), (0.125, 3.125, 0.375), (0, 4.04, 1), (1, 5.96, 1)], (0, 0.25): [(0.01, 1.01, 0.1)],
       (-2, 2): [(-1.99, 5, 1.7)]}
EDITS = [("o", "t0", 5), ("o", "dt", 2), ("o", "dt", 0.5), ("d", "t0", 2), ("d", "t0", -1), ("d", "tend", 13),
         ("d", "tend", 4.5), ("d", "dt", 2), ("d", "dt", 0.5), ("D", (5, 9, 2), None), ("D", (0, 30, 5), None),
         ("P", None, None), ("X", None, None), ("I", None, None)]


def bounds(tier):
    return {"estimators": list(EST), "systems": list(SYS), "first sample": OT0, "sampling step": ODT,
            "windows": f"{len(REL)} of start x length x step" , "edit sequences": f"all of {len(EDITS)} edits up to depth {3 if tier == 'thorough' else 2} (3 for DMD-opt2, HankelDMD-3m)"}


def cases(tier):
    for name in EST:
        for s in SYS:
            if s not in ANY.get(name, SYS):
                continue
            for ot0, odt in itertools.product(OT0, ODT):
                yield {"k": "grid", "est": name, "sys": s, "ot0": ot0, "odt": odt}
    for name in EST:
        for s in (list(SYS) if tier == "thorough" else ["pair+real"]):
            if s not in ANY.get(name, SYS):
                continue
            depth = 3 if tier == "thorough" or name in ("DMD-opt2", "HankelDMD-3m") else 2
            for n in range(1, depth + 1):
                for ops in itertools.product(range(len(EDITS)), repeat=n):
                    yield {"k": "seq", "est": name, "sys": s, "ops": list(ops)}


_fit = {}


def fitted(name, s):
    """A fitted object; windows are put back before use (checked by the model)."""
    n, m, c = SYS[s]
    sy = System(s, n, c)
    X = sy.data(m)
    d = EST[name](sy.r)
    np.random.seed(3)
    if name == "DMD-xy":
        d.fit(X[:, :-1], X[:, 1:])
        m -= 1
    else:
        d.fit(X)
    return d, sy, m


def want_times(rec, d, w):
    t = np.asarray(d.dmd_timesteps, float)
    n = len(t)
    ok = n >= 1 and np.allclose(t, w["t0"] + w["dt"] * np.arange(n), rtol=0, atol=1e-9)
    last = (w["tend"] - w["t0"]) / w["dt"]
    ok = ok and (n - 1 >= np.floor(last + 1e-9)) and (n - 1 < last + 1 - 1e-9)
    rec.check(ok, "the times of the reconstruction window are wrong", window=w, times=t)
    return t if ok else None


def truth(sy, idx):
    idx = np.asarray(idx, float)
    X = sy.Phi @ (sy.b[:, None] * sy.eigs[:, None] ** idx[None])
    return X


def judge(rec, name, d, sy, m, o, w, base):
    rec.check(dict(d.dmd_time) == w, "the reconstruction window is not the one assigned", got=dict(d.dmd_time), want=w)
    ow = dict(d.original_time)
    rec.check(ow == o, "the sampling window changed by itself", got=ow, want=o)
    rec.close(d.eigs, base[0], "moving a window changed the eigenvalues", tol=1e-12)
    rec.close(d.amplitudes, base[1], "moving a window changed the amplitudes", tol=1e-12)
    if w["tend"] < w["t0"]:
        return
    t = want_times(rec, d, w)
    if t is None:
        return
    idx = (t - o["t0"]) / o["dt"]
    R = d.reconstructed_data
    rec.close(d.modes, base[2], "moving a window changed the modes", tol=1e-12)
    if name in NOEXACT:
        rec.check(R.shape[1] == len(t), "the reconstruction does not have one column per time", shape=R.shape, times=len(t))
        lam, M, a = base[0], base[2], base[1]
        want = M @ (a[:, None] * lam[:, None] ** idx[None]) + base[3][:, None]
        rec.close(R, want, "the wrapped reconstruction is not the model at the requested times", tol=1e-7)
        return
    want = truth(sy, idx)
    rec.close(R, want, "the reconstruction is not the trajectory at the requested times", tol=2e-6, window=w, sampling=o)
    rec.state(name, w, o, R)


def orig(d):
    return d.original_time


def run_case(case, rec):
    name, s = case["est"], case["sys"]
    d, sy, m = fitted(name, s)
    rec.at("fit")
    base = [np.array(d.eigs), np.array(d.amplitudes), np.array(d.modes)]
    if name in NOEXACT:
        base.append(sy.data(m).mean(axis=1))
    o = {"t0": 0, "tend": m - 1, "dt": 1}
    w = dict(o)
    judge(rec, name, d, sy, m, o, w, base)
    if case["k"] == "grid":
        t0, dt = case["ot0"], case["odt"]
        # the untouched window describes the new sampling only after being moved as well
        rec.at("sampling")
        for k, v in (("t0", t0), ("dt", dt), ("tend", t0 + dt * (m - 1))):
            orig(d)[k] = v
            o[k] = v
        rec.check(dict(d.dmd_time) == w, "changing the sampling window moved the reconstruction window", got=dict(d.dmd_time))
        for (a, l, st) in REL:
            rec.at("window")
            w = {"t0": t0 + a * dt, "tend": t0 + (a + l) * dt, "dt": st * dt}
            for k, v in w.items():
                d.dmd_time[k] = v
            judge(rec, name, d, sy, m, o, w, base)
        for w in DEC.get((t0, dt), []):
            w = dict(zip(("t0", "tend", "dt"), w))
            rec.at("decimal")
            for k, v in w.items():
                d.dmd_time[k] = v
            judge(rec, name, d, sy, m, o, w, base)
        t = np.asarray(d.original_timesteps) if hasattr(d, "original_timesteps") else t0 + dt * np.arange(m)
        rec.close(t, t0 + dt * np.arange(m), "the sampling times are wrong", tol=1e-9)
        f = np.log(base[0]).imag / (2 * np.pi * dt)
        rec.close(d.frequency, f, "the frequencies do not follow the sampling step", tol=1e-9, scale=1.0)
        return
    other, _, _ = fitted(name, s)
    ow, oo = dict(w), dict(o)
    shared = None
    part = []
    for i in case["ops"]:
        who, key, val = EDITS[i]
        rec.at(f"{who}{key}{val}")
        if who == "o":
            orig(d)[key] = val
            o[key] = val
        elif who == "d":
            d.dmd_time[key] = val
            w[key] = val
        elif who == "D":
            shared = dict(zip(("t0", "tend", "dt"), key))
            d.dmd_time = shared
            w = dict(shared)
            other.dmd_time = d.dmd_time
            ow = dict(w)
        elif who == "P":     # a caller reuses the dictionary it assigned
            if shared is not None:
                shared["t0"] = 77
        elif who == "X":     # the other object follows the window, then moves on its own
            other.dmd_time = d.dmd_time
            ow = dict(w)
            other.dmd_time["tend"] = 7
            ow["tend"] = 7
            other.original_time["t0"] = 1
            oo["t0"] = 1
        elif who == "I":     # an indexed object starts with the same windows, then moves on its own
            c = zoo.grab(lambda: d[[1, 0]])
            if not isinstance(c, tuple):
                rec.check(dict(c.dmd_time) == w and dict(c.original_time) == o, "an indexed object does not have the windows of the original",
                          got=[dict(c.dmd_time), dict(c.original_time)], want=[w, o])
                c.dmd_time["tend"] = c.dmd_time["t0"] + 3
                c.original_time["t0"] = -4
                part.append((c, dict(c.dmd_time), dict(c.original_time)))
        for c, cw, co in part:
            rec.check(dict(c.dmd_time) == cw and dict(c.original_time) == co, "the windows of an indexed object moved with the original",
                      got=[dict(c.dmd_time), dict(c.original_time)], want=[cw, co])
        judge(rec, name, d, sy, m, o, w, base)
        rec.check(dict(other.dmd_time) == ow, "the window of another object moved", got=dict(other.dmd_time), want=ow)
        rec.check(dict(other.original_time) == oo, "the sampling window of another object moved", got=dict(other.original_time), want=oo)
    judge(rec, name, other, sy, m, oo, ow, base)
