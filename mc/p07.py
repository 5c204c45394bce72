"""P07: layout, memory order, numeric type and order of the spatial points of the snapshots."""
import itertools
import numpy as np
from . import zoo
from .lib import System, match
from .zoo import *  # noqa: F401,F403

PROPERTY = "P07"
TECHNIQUE = "exhaustive enumeration of estimators x snapshot layouts x shapes x numeric types x row orders on the real code; the plain matrix layout is the oracle"
ASSUMPTIONS = ["single precision is judged with a tolerance of 5e-3", "modes are compared through their contribution (mode times amplitude), matched by eigenvalue, because the phase of an eigenvector is not determined"]
CHUNK = 40

SHAPES = {"6": (6,), "2x3": (2, 3), "3x2": (3, 2), "1x6": (1, 6), "3x1x2": (3, 1, 2), "6x1": (6, 1)}
M = 10


def rows(X, shape):
    return [np.ascontiguousarray(X[:, j]).reshape(shape) for j in range(X.shape[1])]


def ro(a):
    a.flags.writeable = False
    return a


LAYOUTS = {
    "C": lambda X, s: np.ascontiguousarray(X).reshape(s + X.shape[1:]).copy(),
    "F": lambda X, s: np.asfortranarray(X.reshape(s + X.shape[1:])),
    "strided": lambda X, s: np.repeat(X.reshape(s + X.shape[1:]), 2, axis=-1)[..., ::2],
    "rstrided": lambda X, s: np.repeat(X.reshape(s + X.shape[1:]), 2, axis=0)[::2],
    "neg": lambda X, s: np.ascontiguousarray(X.reshape(s + X.shape[1:])[..., ::-1])[..., ::-1],
    "timefirst": lambda X, s: np.moveaxis(np.ascontiguousarray(np.moveaxis(X.reshape(s + X.shape[1:]), -1, 0)), 0, -1),
    "readonly": lambda X, s: ro(X.reshape(s + X.shape[1:]).copy()),
    "list": lambda X, s: rows(X, s),
    "tuple": lambda X, s: tuple(rows(X, s)),
    "listF": lambda X, s: [np.asfortranarray(r) for r in rows(X, s)],
    "lists": lambda X, s: [r.tolist() for r in rows(X, s)],
    "readonly-list": lambda X, s: [ro(r) for r in rows(X, s)],
}
TYPES = ["int64", "int32", "int16", "complex", "longer-int-list", "float32", ">f8"]

EST = {
    "DMD": lambda: DMD(svd_rank=3, exact=True, opt=True),
    "DMD-proj": lambda: DMD(svd_rank=3, tlsq_rank=4, opt=-1),
    "DMD-fb": lambda: DMD(svd_rank=3, forward_backward=True, exact=True),
    "DMD-xy": lambda: DMD(svd_rank=3),
    "FbDMD": lambda: FbDMD(svd_rank=2, exact=True),
    "CDMD": lambda: CDMD(svd_rank=3, compression_matrix=noise((5, 6), 4), opt=True),
    "RDMD": lambda: RDMD(svd_rank=3, seed=2, oversampling=2),
    "SubspaceDMD": lambda: SubspaceDMD(svd_rank=2),
    "EDMD": lambda: EDMD(svd_rank=3),
    "EDMD-rbf": lambda: EDMD(svd_rank=3, kernel_metric="rbf", kernel_params={"gamma": 0.1}),
    "EDMD-xy": lambda: EDMD(svd_rank=3, kernel_metric="poly", kernel_params={"degree": 2}),
    "SpDMD": lambda: SpDMD(svd_rank=3, gamma=0.1, verbose=False),
    "OptDMD": lambda: OptDMD(factorization="evd", svd_rank=3),
    "OptDMD-svd-xy": lambda: OptDMD(factorization="svd", svd_rank=3),
    "HankelDMD": lambda: HankelDMD(svd_rank=4, d=3),
    "HankelDMD-mean": lambda: HankelDMD(svd_rank=3, d=2, reconstruction_method="mean", exact=True),
    "HODMD": lambda: HODMD(svd_rank=3, d=2, svd_rank_extra=4),
    "DMDc": lambda: DMDc(svd_rank=-1),
    "DMDc-B": lambda: DMDc(svd_rank=-1),
    "PiDMD-uni": lambda: PiDMD(manifold="unitary", svd_rank=3),
    "PiDMD-diag": lambda: PiDMD(manifold="diagonal", manifold_opt=2, compute_A=True),
    "BOPDMD": lambda: BOPDMD(svd_rank=3, use_proj=True),
    "BOPDMD-full": lambda: BOPDMD(svd_rank=3, use_proj=False, compute_A=True),
    "VarProDMD": lambda: VarProDMD(svd_rank=3),
    "VarProDMD-x": lambda: VarProDMD(svd_rank=3, exact=True, compression=0.2),
    "MrDMD": lambda: MrDMD(DMD(svd_rank=2), max_level=1, max_cycles=1),
    "MrDMD-sub": lambda: MrDMD([SubspaceDMD(svd_rank=2), DMD(svd_rank=2)], max_level=1, max_cycles=2),
    "LANDO": lambda: LANDO(svd_rank=3, permute=False),
    "LANDO-poly-xy": lambda: LANDO(svd_rank=3, kernel_metric="poly", kernel_params={"degree": 2, "coef0": 1.0, "gamma": 1}, permute=False, x_rescale=0.5),
    "LANDO-online": lambda: LANDO(online=True, dict_tol=1e-3, permute=False),
}
NOCOMPLEX = {"EDMD", "EDMD-rbf", "EDMD-xy", "LANDO", "LANDO-poly-xy", "LANDO-online"}
NOSCALE = {"EDMD-rbf", "EDMD-xy", "SpDMD", "LANDO", "LANDO-poly-xy", "LANDO-online"}
NOPERM = {"CDMD", "PiDMD-diag"}
NOF32 = {"BOPDMD", "BOPDMD-full", "VarProDMD", "VarProDMD-x", "LANDO", "LANDO-poly-xy", "LANDO-online", "SubspaceDMD", "MrDMD-sub",
         "EDMD", "EDMD-rbf", "EDMD-xy", "HankelDMD", "HankelDMD-mean", "DMD-fb", "FbDMD"}
NOSHAPE = set()
PERMS = [[5, 4, 3, 2, 1, 0], [1, 0, 2, 3, 4, 5], [2, 4, 0, 5, 1, 3]]
FACTORS = [2.0, -1.0, 1e-3, 1e4]


def bounds(tier):
    return {"estimators": list(EST), "layouts": list(LAYOUTS), "snapshot shapes": list(SHAPES), "types": TYPES,
            "row orders": PERMS if tier == "quick" else "all 720 permutations for DMD, listed ones else", "factors": FACTORS, "data sets": 2}


def cases(tier):
    for name in EST:
        for data in (0, 1):
            if data == 1 and name in NOCOMPLEX:
                continue
            for sh in SHAPES:
                for lay in LAYOUTS:
                    yield {"k": "layout", "est": name, "data": data, "shape": sh, "layout": lay}
            if data == 0:
                for t in TYPES:
                    for sh in ("6", "2x3"):
                        yield {"k": "type", "est": name, "data": 0, "shape": sh, "type": t}
            perms = PERMS
            if tier == "thorough" and name in ("DMD", "HankelDMD", "DMDc", "MrDMD"):
                perms = [list(p) for p in itertools.permutations(range(6))]
            if name not in NOPERM:
                for p in perms:
                    yield {"k": "perm", "est": name, "data": data, "perm": p}
            if name not in NOSCALE:
                for f in FACTORS:
                    if name.startswith("VarPro") and abs(f) < 1:
                        continue  # the stopping rule of its optimiser is absolute
                    yield {"k": "scale", "est": name, "data": data, "factor": f}


def base_data(data, name):
    spec, c = [("pair+real", False), ("c3", True)][data]
    m = M if not name.startswith("MrDMD") else 17
    if name.startswith(("BOP", "VarPro")):
        s = System("pair+real" if not c else "c2r", 6, c)
        om = np.log(s.eigs)
        t = 0.4 * np.arange(m) + 0.05 * np.sin(np.arange(m))
        X = s.Phi @ (s.b[:, None] * np.exp(np.outer(om, t)))
        X = X if c else X.real
        return X + 1e-3 * noise(X.shape, 3, c), t
    X = System(spec, 6, c).data(m)
    return X + 0.03 * noise(X.shape, 3, c), None


def do_fit(name, d, X, t, conv, U=None, B=None):
    if name.endswith("-xy"):
        return d.fit(conv(X[:, :-1]), conv(X[:, 1:]))
    if name.startswith("DMDc"):
        return d.fit(conv(X), ctrl(), **({"B": (B if B is not None else noise((6, 2), 8))} if name == "DMDc-B" else {}))
    if t is not None:
        return d.fit(conv(X), t)
    d.fit(conv(X))
    if name.startswith("LANDO"):
        d.analyze_fixed_point(np.zeros(d.snapshots_shape), compute_A=True)
    return d


def ctrl():
    return noise((2, M - 1), 21)


def observe(name, d):
    o = {}
    if name.startswith("LANDO"):
        if name.endswith("-xy"):
            d.analyze_fixed_point(np.zeros(d.snapshots_shape), compute_A=True)
        o["linear"] = np.array(d.linear)
        o["f"] = d.f(np.array(d.snapshots).reshape(d.snapshots_shape + (-1,)))
        o["snapshots"] = np.array(d.snapshots)
        o["predict"] = d.predict(np.array(d.snapshots[:, 0]).reshape(d.snapshots_shape), 3, continuous=False)
        o["shape"] = tuple(d.snapshots_shape)
        o["eigs"] = np.array(d.eigs)
        return o
    if name.startswith("OptDMD"):
        o["eigs"] = np.array(d.eigs) if "svd" not in name else np.zeros(1)
        S = d.snapshots
        if S is None:
            S = next(v.snapshots for v in vars(d).values() if hasattr(v, "snapshots_shape") and v.snapshots is not None)
        o["predict"] = d.predict(np.array(S[:, :4]))
        return o
    if name.startswith("MrDMD"):
        o["eigs"] = np.array(d.eigs)
        o["rec"] = d.reconstructed_data
        o["snapshots"] = np.array(d.snapshots)
        o["shape"] = tuple(d.snapshots_shape)
        o["parts"] = [d.partial_reconstructed_data(0), d.partial_reconstructed_data(1)]
        return o
    o["eigs"] = np.array(d.eigs)
    M_, a = np.array(d.modes), np.array(d.amplitudes)
    o["contrib"] = M_ * a
    o["norms"] = np.linalg.norm(M_, axis=0)
    R = d.reconstructed_data
    o["rec"] = np.array(R() if callable(R) else R)
    o["snapshots"] = np.array(d.snapshots)
    o["shape"] = tuple(d.snapshots_shape)
    if hasattr(d, "predict"):
        o["predict"] = d.predict(np.array(d.snapshots[:, :4]))
    if name in ("BOPDMD-full", "PiDMD-diag"):
        o["A"] = np.array(d.A)
    if name == "DMDc":
        o["B"] = np.array(d.B)
    return o


def compare(rec, o, w, what, tol, perm=None, factor=1.0, shape=None):
    e, p = match(o["eigs"], w["eigs"])
    if not rec.check(e <= tol * max(1, np.max(np.abs(w["eigs"]))), f"{what}: eigenvalues", got=o["eigs"], want=w["eigs"]):
        return
    n = 6
    p = np.array(p, int)

    def permute(x, both=False):
        if perm is None:
            return x
        x = np.concatenate([x[i * n:(i + 1) * n][perm] for i in range(x.shape[0] // n)]) if x.shape[0] % n == 0 else x
        return x[:, perm] if both else x

    for k in ("rec", "snapshots", "predict", "f"):
        if k in w:
            rec.close(o[k], factor * permute(w[k]), f"{what}: {k}", tol=tol)
    if "parts" in w:
        for x, y in zip(o["parts"], w["parts"]):
            rec.close(x, factor * permute(y), f"{what}: level reconstruction", tol=tol)
    if "contrib" in w and not (perm is not None and w["contrib"].shape[0] % n):
        rec.close(o["contrib"], factor * permute(w["contrib"][:, p]), f"{what}: contributions of the modes", tol=tol)
    if "norms" in w and factor == 1.0:
        rec.close(o["norms"], w["norms"][p], f"{what}: mode norms", tol=tol)
    if "linear" in w:
        rec.close(o["linear"], permute(w["linear"], True), f"{what}: linear operator", tol=tol)
    if "A" in w:
        rec.close(o["A"], permute(w["A"], True), f"{what}: operator", tol=tol)
    if "B" in w:
        rec.close(o["B"], factor * permute(w["B"]), f"{what}: input matrix", tol=tol)
    if shape is not None and "shape" in w:
        rec.check(o["shape"] == shape, f"{what}: reported snapshot shape", got=o["shape"], want=shape)


_ref = {}


def fit_obs(name, X, t, conv, B=None):
    np.random.seed(2)
    d = EST[name]()
    do_fit(name, d, X, t, conv, B=B)
    return observe(name, d)


def reference(name, data, X, t, tag="", B=None):
    key = (name, data, tag)
    if key not in _ref:
        _ref[key] = fit_obs(name, X, t, lambda Z: np.array(Z, order="C"), B=B)
    return _ref[key]


def tolerance(name):
    if name.startswith(("BOP", "VarPro")):
        return 1e-5
    return 1e-8 if not name.startswith("LANDO") else 1e-7


def run_case(case, rec):
    name = case["est"]
    X, t = base_data(case["data"], name)
    tol = tolerance(name)
    if case["k"] == "layout":
        s = SHAPES[case["shape"]]
        w = reference(name, case["data"], X, t)
        rec.at("fit")
        o = fit_obs(name, X, t, lambda Z: LAYOUTS[case["layout"]](Z, s))
        compare(rec, o, w, "the layout of the snapshots matters", tol, shape=s)
        rec.state(name, case["shape"], o["eigs"])
    elif case["k"] == "type":
        s = SHAPES[case["shape"]]
        ty = case["type"]
        if ty == "float32":
            if name in NOF32:
                return
            Z = X.astype(np.float32).astype(float)
            tol = 5e-3
        elif ty in (">f8", "complex"):
            if ty == "complex" and name in NOCOMPLEX:
                return
            Z = X
        else:
            Z = np.round(X * 400)
            if name.startswith("LANDO"):
                Z = np.round(X * 20)
            if name == "EDMD-rbf":
                Z = np.round(X * 5)
        w = reference(name, 0, Z, t, ty)
        conv = {"int64": lambda A: A.astype(np.int64).reshape(s + A.shape[1:]),
                "int32": lambda A: A.astype(np.int32).reshape(s + A.shape[1:]),
                "int16": lambda A: A.astype(np.int16).reshape(s + A.shape[1:]),
                "complex": lambda A: A.astype(complex).reshape(s + A.shape[1:]),
                "longer-int-list": lambda A: [r.astype(int).tolist() for r in rows(A, s)],
                "float32": lambda A: A.astype(np.float32).reshape(s + A.shape[1:]),
                ">f8": lambda A: A.astype(">f8").reshape(s + A.shape[1:])}[ty]
        rec.at("fit")
        o = fit_obs(name, Z, t, conv)
        compare(rec, o, w, f"the numeric type {ty} of the snapshots matters", tol, shape=s)
        rec.state(name, ty)
    elif case["k"] == "perm":
        p = case["perm"]
        B = noise((6, 2), 8)
        w = reference(name, case["data"], X, t)
        rec.at("fit")
        o = fit_obs(name, X[p], t, lambda Z: np.array(Z), B=B[p])
        compare(rec, o, w, "the order of the spatial points matters", tol * 10, perm=p)
        rec.state(name, p)
    else:
        f = case["factor"]
        if name.startswith("DMDc"):
            # the inputs stay the same: the system matrix is unchanged and the input matrix scales
            w = reference(name, case["data"], X, t)
            o = fit_obs(name, X * f, t, lambda Z: np.array(Z), B=noise((6, 2), 8) * f)
        else:
            w = reference(name, case["data"], X, t)
            rec.at("fit")
            o = fit_obs(name, X * f, t, lambda Z: np.array(Z))
        ww = dict(w)
        for k in ("A", "linear"):
            ww.pop(k, None)
        compare(rec, o, ww, "the scale of the data matters", max(tol, 1e-7) * 10, factor=f)
        rec.state(name, f)
