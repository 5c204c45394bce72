"""P05: masks, indexing and in-place edits behave like a selection on full arrays."""
import copy
import itertools
import numpy as np
from . import zoo
from .zoo import (DMD, FbDMD, CDMD, RDMD, SubspaceDMD, EDMD, SpDMD, HankelDMD, HODMD, DMDc, PiDMD, BOPDMD, VarProDMD)

PROPERTY = "P05"
TECHNIQUE = "explicit-state model of the mask/edit algebra, every operation sequence up to the depth replayed step by step on the real code"
ASSUMPTIONS = ["edits are made in place on the arrays returned by modes, eigs and amplitudes, as the documentation of the mode tuner does"]
CHUNK = 40

R = 3
EST = {
    "DMD": (lambda: DMD(svd_rank=R), zoo.d_lin, "d", 0),
    "DMD-opt": (lambda: DMD(svd_rank=R, exact=True, opt=True, sorted_eigs="abs"), zoo.d_lin, "d", 0),
    "DMD-last": (lambda: DMD(svd_rank=R, opt=-1, rescale_mode="auto", exact=True), zoo.d_lin, "d", -1),
    "DMD-xy": (lambda: DMD(svd_rank=R), zoo.d_pairs, "d", 0),
    "FbDMD": (lambda: FbDMD(svd_rank=R, exact=True), zoo.d_lin, "d", 0),
    "CDMD": (lambda: CDMD(svd_rank=R, compression_matrix=zoo.noise((4, 5), 3)), zoo.d_lin, "d", 0),
    "RDMD": (lambda: RDMD(svd_rank=R, seed=1, oversampling=1), zoo.d_lin, "d", 0),
    "SubspaceDMD": (lambda: SubspaceDMD(svd_rank=R), zoo.d_lin, "d", 0),
    "EDMD": (lambda: EDMD(svd_rank=R), zoo.d_lin, "d", 0),
    "SpDMD": (lambda: SpDMD(svd_rank=R, gamma=0.01, verbose=False), zoo.d_lin, "d", 0),
    "PiDMD": (lambda: PiDMD(manifold="unitary", svd_rank=R), zoo.d_lin, "d", 0),
    "DMDc": (lambda: DMDc(svd_rank=R), zoo.d_ctrl, "u", 0),
    "BOPDMD": (lambda: BOPDMD(svd_rank=R), zoo.d_time, "c", 0),
    "VarProDMD": (lambda: VarProDMD(svd_rank=R), zoo.d_time, "v", 0),
    "HankelDMD": (lambda: HankelDMD(svd_rank=R, d=2), zoo.d_lin, "h", 0),
    "HODMD": (lambda: HODMD(svd_rank=R, d=2, svd_rank_extra=4), zoo.d_lin, "x", 0),
    "W-mean": (lambda: zoo.zero_mean_preprocessing(DMD(svd_rank=R), axis=1), zoo.d_lin, "w", 0),
}
MASKS = ["".join(b) for b in itertools.product("01", repeat=R)]
EDITS = ["eM", "eE", "eA"]
KEYS = {"0": 0, "-1": -1, "1:": slice(1, None), "::2": slice(None, None, 2), "[2,0]": [2, 0], "np": np.array([1, 2]), "npi": np.int64(1)}
FORMS = ["array", "list", "tuple"]


def alphabet(kind, full):
    ops = ["M" + m for m in MASKS] + EDITS
    if kind not in "hwx":
        ops += ["I" + k for k in (KEYS if full else ["0", "1:", "[2,0]"])]
    return ops + ["R"]


def bounds(tier):
    return {"estimators": list(EST), "modes": R, "masks": "all 8", "depth": {"DMD": 4 if tier == "thorough" else 3, "others": 3 if tier == "thorough" else 2},
            "index keys": list(KEYS), "operations": "set mask (array, list, tuple), edit modes/eigenvalues/amplitudes in place, index and disturb the child, read everything"}


def cases(tier):
    for name, (mk, data, kind, off) in EST.items():
        full = alphabet(kind, True)
        small = alphabet(kind, False)
        depth = 3 if name == "DMD" else 2
        if tier == "thorough":
            depth += 1
        yield {"est": name, "ops": []}
        for n in range(1, depth + 1):
            for s in itertools.product(full if n <= 2 else small, repeat=n):
                yield {"est": name, "ops": list(s)}


_fit = {}


def fitted(name):
    if name not in _fit:
        mk, data, kind, off = EST[name]
        d = mk()
        a, kw = data(0 if kind in "cv" else 3)
        d.fit(*a, **kw)
        _fit[name] = d
    d = copy.deepcopy(_fit[name])
    return d


class Model:
    def __init__(self, M, E, A, mask):
        self.M, self.E, self.A, self.mask = M, E, A, mask

    def copy(self):
        return Model(self.M.copy(), self.E.copy(), self.A.copy(), self.mask.copy())

    def vis(self):
        return self.M[:, self.mask], self.E[self.mask], self.A[self.mask]


def rec_model(kind, off, d, m, extra):
    M, E, A = m.vis()
    if kind in "d":
        t = extra["t"]
        if off < 0:
            off = extra["m"] + off
        return M @ (A[:, None] * np.power(E[:, None].astype(complex), t[None] - off))
    if kind == "c" or kind == "v":
        return M @ (A[:, None] * np.exp(np.outer(E, extra["t"])))
    if kind == "w":
        return M @ (A[:, None] * np.power(E[:, None].astype(complex), extra["t"][None])) + extra["mean"]
    if kind == "h":
        # delay model: first occurrence rule, one row block per snapshot
        Z = M @ (A[:, None] * np.power(E[:, None].astype(complex), np.arange(len(extra["t"]))[None]))
        n = M.shape[0] // 2
        out = np.empty((n, len(extra["t"])), complex)
        out[:, 0] = Z[:n, 0]
        out[:, 1:] = Z[n:, :-1][:, : len(extra["t"]) - 1]
        return out
    return None


def look(rec, d, m, kind, off, extra, where):
    M, E, A = m.vis()
    rec.close(d.modes, M, where + ": visible modes")
    rec.close(d.eigs, E, where + ": visible eigenvalues")
    rec.close(d.amplitudes, A, where + ": visible amplitudes")
    rec.need(np.array_equal(d.modes_activation_bitmask, m.mask), where + ": reported mask", got=d.modes_activation_bitmask, want=m.mask)
    if kind == "u":
        return
    if kind == "x":
        if np.array_equal(m.E, extra["0"].E):
            c = sum((extra["c"][j] * (m.M[0, j] / extra["0"].M[0, j]) * (m.A[j] / extra["0"].A[j]) for j in range(R) if m.mask[j]),
                    np.zeros_like(extra["c"][0]))
            rec.close(d.reconstructed_data, c, where + ": reconstruction is the sum of the visible modes", tol=1e-6, scale=max(1.0, np.abs(c).max()))
        return
    want = rec_model(kind, off, d, m, extra)
    if kind != "h":
        rec.close(d.dynamics if kind != "w" else want, (A[:, None] * (np.exp(np.outer(E, extra["t"])) if kind in "cv" else
                  np.power(E[:, None].astype(complex), extra["t"][None] - (extra["m"] + off if off < 0 else off)))) if kind != "w" else want,
                  where + ": dynamics", tol=1e-6)
    rec.close(d.reconstructed_data, want, where + ": reconstruction is the sum of the visible modes", tol=1e-6,
              scale=max(1.0, float(np.abs(want).max()) if want.size else 1.0))


def run_case(case, rec):
    name = case["est"]
    mk, data, kind, off = EST[name]
    d = fitted(name)
    a, kw = data(0 if kind in "cv" else 3)
    if kind in "cv":
        extra = {"t": a[1], "m": a[0].shape[1]}
    else:
        extra = {"m": a[0].shape[1], "t": np.arange(a[0].shape[1], dtype=float), "mean": np.mean(a[0], axis=1, keepdims=True)}
    full0 = np.ones(len(d.eigs), bool)
    rec.need(len(d.eigs) == R, "number of modes", got=len(d.eigs))
    m = Model(np.array(d.modes), np.array(d.eigs), np.array(d.amplitudes), full0)
    if kind == "x":
        extra["0"] = m.copy()
        extra["c"] = []
        for j in range(R):
            c = fitted(name)
            c.modes_activation_bitmask = np.arange(R) == j
            extra["c"].append(np.array(c.reconstructed_data))
        rec.close(d.reconstructed_data, sum(extra["c"]), "reconstruction is the sum of the single modes")
    f = 1.25
    for i, op in enumerate(case["ops"]):
        rec.at(op)
        if op[0] == "M":
            b = np.array([c == "1" for c in op[1:]])
            form = FORMS[i % 3]
            v = b.copy() if form == "array" else (b.tolist() if form == "list" else tuple(b.tolist()))
            d.modes_activation_bitmask = v
            if form == "array":
                v[:] = ~v
            m.mask = b
        elif op == "eM":
            x = d.modes
            x *= f
            m.M[:, m.mask] *= f
        elif op == "eE":
            x = d.eigs
            x *= 0.9
            m.E[m.mask] *= 0.9
        elif op == "eA":
            x = d.amplitudes
            x += 0.5
            m.A[m.mask] += 0.5
        elif op[0] == "I":
            key = KEYS[op[1:]]
            c = d[key]
            cm = m.copy()
            cm.mask = np.zeros(R, bool)
            cm.mask[key] = True
            look(rec, c, cm, kind, off, extra, "indexed object")
            # disturb the child: edits, masks
            x = c.modes
            x *= 3.0
            x = c.eigs
            x *= 0.5
            x = c.amplitudes
            x += 2.0
            c.modes_activation_bitmask = np.zeros(R, bool)
            c.modes_activation_bitmask = np.ones(R, bool)
        elif op == "R":
            zoo.obs_base(d)
        f += 0.25
        look(rec, d, m, kind, off, extra, "after the step")
        rec.state(name, m.mask.tolist(), m.M, m.E, m.A)
    rec.at("enable all")
    d.modes_activation_bitmask = np.ones(R, bool)
    m.mask = np.ones(R, bool)
    look(rec, d, m, kind, off, extra, "all modes enabled again")
