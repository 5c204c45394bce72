"""P06: mode selection / stabilisation / tuner."""
import copy
import itertools
import numpy as np
from . import zoo
from .lib import System
from .zoo import DMD, CDMD, DMDc, SubspaceDMD, HankelDMD, EDMD, PiDMD

PROPERTY = "P06"
TECHNIQUE = "explicit-state model of masks, eigenvalues and amplitudes; every chain of select/stabilise/tuner operations up to the depth replayed on the real code"
ASSUMPTIONS = ["when two modes have the same integral contribution up to rounding (conjugate pairs) either may be kept"]
CHUNK = 30
R = 4


def data(salt=0):
    s = System("four", 5, False, salt=salt)
    return s.data(12) + 1e-3 * zoo.noise((5, 12), salt)


def _ctrl():
    a, kw = zoo.d_ctrl(3)
    return a


EST = {
    "DMD": lambda: DMD(svd_rank=R).fit(data()),
    "DMD-opt": lambda: DMD(svd_rank=R, exact=True, opt=True, sorted_eigs="abs", rescale_mode="auto").fit(data(1)),
    "DMD-last": lambda: DMD(svd_rank=R, opt=-1).fit(data(2)),
    "CDMD": lambda: CDMD(svd_rank=R, compression_matrix=zoo.noise((4, 5), 3)).fit(data(3)),
    "SubspaceDMD": lambda: SubspaceDMD(svd_rank=R).fit(data(4)),
    "PiDMD": lambda: PiDMD(manifold="circulant").fit(data(5)[:4]),
    "DMDc": lambda: DMDc(svd_rank=R).fit(*_ctrl()),
    "HankelDMD": lambda: HankelDMD(svd_rank=R, d=2).fit(data(6)),
}
SELECT = ["thr", "stable", "integral", "custom", "none", "all"]
_fit = {}


def fitted(name):
    if name not in _fit:
        _fit[name] = EST[name]()
    return copy.deepcopy(_fit[name])


def ops_single(name, full):
    ops = []
    edges = ["0", "e0", "e1", "m", "1"] if full else ["0", "e1", "m"]
    ups = ["inf", "e0", "e2", "m"] if full else ["inf", "e2", "m"]
    for lo, up in itertools.product(edges, ups):
        ops.append(["thr", lo, up])
    for kw in ({"max_distance_from_unity": 0.1}, {"max_distance_from_unity_inside": 0.02}, {"max_distance_from_unity_outside": 0.0},
               {"max_distance_from_unity_inside": 0.3, "max_distance_from_unity_outside": 0.001}, {"max_distance_from_unity": 0}):
        ops.append(["stable", kw])
    if name != "HankelDMD":
        for n in range(0, R + 2):
            ops.append(["integral", n])
    for pat in ("1010", "0110", "0000", "1111", "0001"):
        ops.append(["custom", pat])
    for pat in ("1010", "0111", "0000"):
        ops.append(["nullify", pat])
    for a, b in (("0", "inf"), ("e1", "inf"), ("m", "e2"), ("0.9", "1.05"), ("0", "1")):
        ops.append(["stab", a, b])
    ops.append(["enable"])
    ops.append(["window"])
    return ops


CORE = [["thr", "m", "inf"], ["thr", "0", "e2"], ["stable", {"max_distance_from_unity": 0.1}], ["integral", 2], ["custom", "0110"],
        ["custom", "1010"], ["nullify", "0111"], ["stab", "0", "inf"], ["stab", "m", "e2"], ["enable"], ["window"]]
TUNER = [["thr", "m", "inf"], ["custom", "0110"], ["integral", 2], ["nullify", "0111"], ["stab", "0", "inf"]]


def bounds(tier):
    return {"estimators": list(EST), "modes": R, "single-object chains": "all pairs of the full operation set on DMD, all pairs of the core set on the others, "
            + ("core chains of length 4" if tier == "thorough" else "core chains of length 3 on DMD"),
            "tuner": "lists of 1-3 objects x in place or copies x subsets x chains of length 2" + ("-3" if tier == "thorough" else ""),
            "variants": "in_place, copy, return_indexes"}


def cases(tier):
    for name in EST:
        ops = ops_single(name, name == "DMD" or tier == "thorough")
        core = [o for o in CORE if not (o[0] == "integral" and name == "HankelDMD")]
        for o in ops:
            for inpl in (True, False):
                yield {"kind": "single", "est": name, "ops": [o], "in_place": inpl}
        seen = ops if (name == "DMD" or tier == "thorough") else core
        for s in itertools.product(seen, seen):
            yield {"kind": "single", "est": name, "ops": list(s), "in_place": True}
        if name == "DMD" or tier == "thorough":
            for s in itertools.product(core, repeat=3):
                yield {"kind": "single", "est": name, "ops": list(s), "in_place": True}
        if name == "DMD" and tier == "thorough":
            for s in itertools.product(core, repeat=4):
                yield {"kind": "single", "est": name, "ops": list(s), "in_place": True}
    subs = [None, [0], [1], [1, 0], []]
    for form in (["DMD"], ["DMD", "DMD-opt"], ["DMD", "DMD-last", "CDMD"], "DMD"):
        for inpl in (True, False):
            for sub in subs:
                if isinstance(form, str) and sub is not None:
                    continue
                if sub and max(sub) >= len(form):
                    continue
                for n in (1, 2, 3) if tier == "thorough" else (1, 2):
                    for s in itertools.product(TUNER, repeat=n):
                        yield {"kind": "tuner", "form": form, "in_place": inpl, "sub": sub, "ops": [list(x) for x in s]}


class Model:
    def __init__(self, d):
        self.M, self.E, self.A = np.array(d.modes), np.array(d.eigs), np.array(d.amplitudes)
        self.mask = np.ones(len(self.E), bool)
        self.window = None

    def idx(self):
        return np.where(self.mask)[0]


def level(m, tag):
    a = np.sort(np.abs(m.E0))
    return {"0": 0.0, "1": 1.0, "inf": np.inf, "m": 0.5 * (a[0] + a[1]), "e0": a[0], "e1": a[1], "e2": a[2], "0.9": 0.9, "1.05": 1.05}[tag]


def verdicts(m, op, d, extra):
    """which visible modes the criterion keeps (model side); list of admissible answers"""
    i = m.idx()
    E, A = m.E[i], m.A[i]
    if op[0] == "thr":
        lo, up = level(m, op[1]), level(m, op[2])
        return [(np.abs(E) >= lo) & (np.abs(E) <= up)]
    if op[0] == "stable":
        kw = op[1]
        i_ = kw.get("max_distance_from_unity", kw.get("max_distance_from_unity_inside", np.inf))
        o_ = kw.get("max_distance_from_unity", kw.get("max_distance_from_unity_outside", np.inf))
        return [(np.abs(E) >= 1 - i_) & (np.abs(E) <= 1 + o_)]
    if op[0] == "integral":
        n = op[1]
        t = np.arange(extra["m"]) - extra["off"]
        c = np.array([np.linalg.norm(m.M[:, j]) ** 2 * np.sum(np.abs(m.A[j] * np.power(complex(m.E[j]), t))) for j in i])
        k = min(n, len(i))
        out = []
        for comb in itertools.combinations(range(len(i)), k):
            rest = [q for q in range(len(i)) if q not in comb]
            if k == 0 or not rest or min(c[list(comb)]) >= max(c[rest]) * (1 - 1e-6):
                v = np.zeros(len(i), bool)
                v[list(comb)] = True
                out.append(v)
        return out
    pat = np.array([ch == "1" for ch in op[1]])
    return [pat[: len(i)]]


def lib_criterion(m, op):
    from pydmd.dmd_modes_tuner import ModesSelectors
    if op[0] == "thr":
        return ModesSelectors.threshold(level(m, op[1]), level(m, op[2]))
    if op[0] == "stable":
        return ModesSelectors.stable_modes(**op[1])
    if op[0] == "integral":
        return ModesSelectors.integral_contribution(op[1])
    pat = np.array([ch == "1" for ch in op[1]])
    return lambda d: pat[: len(d.eigs)]


def apply_model(m, op, d_mask_after, extra):
    """advance the model; when several answers are admissible follow the one the code took"""
    if op[0] == "enable":
        m.mask[:] = True
        return None
    if op[0] == "window":
        return None
    i = m.idx()
    if op[0] == "stab":
        a = np.abs(m.E[i])
        lo = level(m, op[1])
        hi = level(m, op[2])
        hit = (a > lo) & (a < hi)
        j = i[hit]
        mod = np.abs(m.E[j])
        m.A[j] = m.A[j] * mod
        m.E[j] = m.E[j] / mod
        return np.where(hit)[0]
    opts = verdicts(m, op, None, extra)
    v = opts[0]
    for o in opts:
        mm = m.mask.copy()
        mm[i[~o]] = False
        if np.array_equal(mm, d_mask_after):
            v = o
    cut = i[~v]
    if op[0] == "nullify":
        m.A[cut] = 0
    else:
        m.mask[cut] = False
    return np.where(~v)[0]


def look(rec, d, m, extra, where):
    i = m.idx()
    rec.need(np.array_equal(d.modes_activation_bitmask, m.mask), where + ": active modes", got=d.modes_activation_bitmask, want=m.mask)
    rec.close(d.eigs, m.E[i], where + ": eigenvalues", tol=1e-9)
    rec.close(d.amplitudes, m.A[i], where + ": amplitudes", tol=1e-9)
    rec.close(d.modes, m.M[:, i], where + ": modes", tol=1e-9)
    if extra["kind"] == "d":
        t = d.dmd_timesteps
        want = m.M[:, i] @ (m.A[i][:, None] * np.power(m.E[i][:, None].astype(complex), t[None] - extra["off"]))
        rec.close(d.reconstructed_data, want, where + ": reconstruction", tol=1e-7, scale=max(1.0, np.abs(want).max()) if want.size else 1.0)


def info(name, d):
    m = d.snapshots.shape[1]
    return {"m": m, "off": m - 1 if name == "DMD-last" else 0, "kind": "x" if name in ("DMDc", "HankelDMD") else "d"}


def full_state(d):
    """visible state plus what re-enabling would show"""
    c = copy.deepcopy(d)
    vis = [np.array(c.modes_activation_bitmask), np.array(c.eigs), np.array(c.amplitudes), np.array(c.modes)]
    c.modes_activation_bitmask = np.ones(len(vis[0]), bool)
    return vis + [np.array(c.eigs), np.array(c.amplitudes), np.array(c.modes), dict(c.dmd_time)]


def same_state(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[:-1], b[:-1])) and a[-1] == b[-1]


def step(d, m, op, in_place, rec, extra):
    from pydmd.dmd_modes_tuner import select_modes, stabilize_modes
    before = full_state(d)
    if op[0] == "enable":
        d.modes_activation_bitmask = np.ones(len(m.E), bool)
        apply_model(m, op, None, extra)
        return d
    if op[0] == "window":
        d.dmd_time["tend"] = 30
        d.dmd_time["t0"] = 3
        return d
    if op[0] == "stab":
        r = stabilize_modes(d, level(m, op[1]), level(m, op[2]), in_place=in_place, return_indexes=True)
    else:
        r = select_modes(d, lib_criterion(m, op), in_place=in_place, return_indexes=True, nullify_amplitudes=op[0] == "nullify")
    res, ind = r
    rec.check((res is d) == in_place, "in_place returns the object itself and a copy otherwise")
    if not in_place:
        rec.check(same_state(full_state(d), before), "a selection on a copy changed the original")
    want = apply_model(m, op, np.array(res.modes_activation_bitmask), extra)
    rec.check(sorted(int(x) for x in np.asarray(ind).ravel()) == sorted(int(x) for x in want), "reported indexes", got=ind, want=want)
    return res


def run_case(case, rec):
    if case["kind"] == "tuner":
        return run_tuner(case, rec)
    name = case["est"]
    d = fitted(name)
    m = Model(d)
    m.E0 = m.E.copy()
    extra = info(name, d)
    for op in case["ops"]:
        rec.at(op[0])
        d = step(d, m, op, case["in_place"], rec, extra)
        look(rec, d, m, extra, "after " + op[0])
        rec.state(name, m.mask.tolist(), m.E, m.A)
    rec.at("enable all")
    d.modes_activation_bitmask = np.ones(len(m.E), bool)
    m.mask[:] = True
    look(rec, d, m, extra, "all modes enabled again")


def run_tuner(case, rec):
    from pydmd.dmd_modes_tuner import ModesTuner
    form = case["form"]
    names = [form] if isinstance(form, str) else form
    dm = [fitted(n) for n in names]
    mods, extras = [], []
    for n, d in zip(names, dm):
        m = Model(d)
        m.E0 = np.array([0.3, 0.5, 0.99, 1.0])  # same thresholds for all objects
        mods.append(m)
        extras.append(info(n, d))
    orig = [full_state(d) for d in dm]
    lst = list(dm)
    rec.at("tuner")
    t = ModesTuner(dm[0] if isinstance(form, str) else lst, in_place=case["in_place"])
    w = t
    touched = set(range(len(dm)))
    if case["sub"] is not None:
        rec.at("subset")
        w = t.subset(case["sub"])
        touched = set(case["sub"])
    for op in case["ops"]:
        rec.at("tuner " + op[0])
        m0 = mods[0]
        if op[0] == "stab":
            r = w.stabilize(level(m0, op[1]), level(m0, op[2]))
        elif op[0] == "thr":
            r = w.select("module_threshold", low_threshold=level(m0, op[1]), up_threshold=level(m0, op[2]))
        elif op[0] == "integral":
            r = w.select("integral_contribution", n=op[1])
        else:
            r = w.select(lib_criterion(m0, op), nullify_amplitudes=op[0] == "nullify")
        rec.check(r is w, "the tuner returns itself for chaining")
        now = t.get()
        now = [now] if isinstance(form, str) else now
        for j in range(len(dm)):
            if j in touched:
                apply_model(mods[j], op, np.array(now[j].modes_activation_bitmask), extras[j])
    got = t.get()
    rec.check(isinstance(got, list) != isinstance(form, str), "get returns a list exactly when a list was given")
    got = [got] if isinstance(form, str) else got
    rec.need(len(got) == len(dm), "number of tuned objects")
    for j in range(len(dm)):
        rec.check((got[j] is dm[j]) == case["in_place"], "in place works on the given objects, otherwise on copies")
        look(rec, got[j], mods[j], extras[j], "tuned object")
        if not case["in_place"]:
            rec.check(same_state(full_state(dm[j]), orig[j]), "a tuner working on copies changed the original")
    rec.at("copy")
    cp = t.copy()
    cp = [cp] if isinstance(form, str) else cp
    for j in range(len(dm)):
        rec.check(cp[j] is not got[j], "copy returns copies")
        look(rec, cp[j], mods[j], extras[j], "copy of the tuned object")
        cp[j].modes_activation_bitmask = np.zeros(len(mods[j].E), bool)
        look(rec, got[j], mods[j], extras[j], "tuned object after its copy was masked")
    rec.state(str(form), case["in_place"], str(case["sub"]), [(m.mask.tolist(), m.E, m.A) for m in mods])
