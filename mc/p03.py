"""P03: noise-free linear dynamics are recovered exactly, every option."""
import numpy as np
from . import lib, ref
from .lib import System, SPECTRA, product

PROPERTY = "P03"
TECHNIQUE = "exhaustive enumeration of systems x option combinations on the real code, judged against the generating system"
ASSUMPTIONS = ["catalogue of spectra/dimensions in mc/lib.py", "tolerance 1e-6 relative: systems are conditioned so that rounding stays far below"]
CHUNK = 40
TOL = 2e-6


def dims(tier):
    specs = list(SPECTRA)
    shapes = ["sq", "tall", "long", "short"]
    return specs, shapes


def nm(spec, shape):
    r = len(SPECTRA[spec])
    return {"sq": (r, 2 * r + 2), "tall": (r + 4, r + 2), "long": (r + 1, 3 * r + 5), "short": (r + 2, max(3, r + 1))}[shape]


def cases(tier):
    specs, shapes = dims(tier)
    thorough = tier == "thorough"
    for spec in specs:
        r = len(SPECTRA[spec])
        for cplx in ([False, True] if spec in lib.REAL_OK else [True]):
            if cplx and spec in lib.REAL_OK and not thorough and spec not in ("pair", "four"):
                continue
            for shape in shapes:
                base = dict(spec=spec, cplx=cplx, shape=shape)
                fbs = [False, True] if spec in lib.RIGHT_HALF else [False]
                for c in product(cls=["DMD"], exact=[False, True], opt=[False, True, 0, 1, -1, -2],
                                 rescale=[None, "auto", "array"], fb=fbs, sort=[False, "abs", "real"],
                                 tlsq=[0, "r", 50], tik=[None] + ([0.0] if thorough else []), rank=["r", -1],
                                 pair=[False, True]):
                    if c["rank"] == -1 and not full(spec, shape, c["pair"]):
                        continue
                    if not thorough and c["sort"] == "real" and c["rescale"] == "array":
                        continue
                    if not thorough and c["fb"] and (c["rescale"] == "array" or c["sort"] == "abs" or c["tlsq"] == 50):
                        continue
                    yield {**base, **c}
                for c in product(cls=["FbDMD"], exact=[False, True], opt=[False, True, 2, -1], sort=[False, "abs", "real"],
                                 rescale=[None, "auto", "array"], tlsq=[0, "r"]):
                    if spec in lib.RIGHT_HALF:
                        yield {**base, **c}
                for c in product(cls=["CDMD"], comp=["normal", "uniform", "sparse", "sample", "matrix"], opt=[False, True, 1, -1],
                                 rescale=[None, "auto", "array"], fb=fbs, sort=[False, "abs", "real"], tlsq=[0, "r"], tik=[None, 0.0]):
                    if c["comp"] == "sample":
                        n, m = nm(spec, shape)
                        if m > n:
                            continue
                    yield {**base, **c}
                for c in product(cls=["RDMD"], seed=[0, 3], over=[0, 2, 10], power=[0, 2], opt=[False, True, 1, -1],
                                 rescale=[None, "auto", "array"], fb=fbs, sort=[False, "abs"], tlsq=[0, "r"]):
                    yield {**base, **c}
                for c in product(cls=["SubspaceDMD"], opt=[False, True, 1, -1], rescale=[None, "auto", "array"],
                                 sort=[False, "abs", "real"], rank=["r", -1]):
                    if nm(spec, shape)[1] - 3 >= r and not (c["rank"] == -1 and c["rescale"] == "array"):
                        yield {**base, **c}
                for c in product(cls=["OptDMD"], fact=["svd", "evd"], rank=["r", -1], tlsq=[0, "r"], pair=[False, True]):
                    if c["rank"] == -1 and not full(spec, shape, c["pair"]):
                        continue
                    yield {**base, **c}
                if not cplx:
                    for c in product(cls=["EDMD"], opt=[False, True, 1, -1], tlsq=[0, "r"], pair=[False, True],
                                     kernel=["linear", "poly1"]):
                        yield {**base, **c}


def full(spec, shape, pair):
    n, m = nm(spec, shape)
    return min(n, m - 1) == len(SPECTRA[spec])


def build(c, r):
    import pydmd
    rescale = c.get("rescale")
    if rescale == "array":
        rescale = 0.5 + np.arange(r)
    rank = r if c.get("rank", "r") == "r" else c["rank"]
    tlsq = r if c.get("tlsq") == "r" else c.get("tlsq", 0)
    k = c["cls"]
    if k == "DMD":
        return pydmd.DMD(svd_rank=rank, tlsq_rank=tlsq, exact=c["exact"], opt=c["opt"], rescale_mode=rescale,
                         forward_backward=c["fb"], sorted_eigs=c["sort"], tikhonov_regularization=c["tik"])
    if k == "FbDMD":
        return pydmd.FbDMD(svd_rank=rank, tlsq_rank=tlsq, exact=c["exact"], opt=c["opt"], rescale_mode=rescale, sorted_eigs=c["sort"])
    if k == "CDMD":
        comp = c["comp"]
        if comp == "matrix":
            n, m = nm(c["spec"], c["shape"])
            comp = np.random.RandomState(9).randn(max(r, n - 1), n)
        return pydmd.CDMD(svd_rank=rank, tlsq_rank=tlsq, compression_matrix=comp, opt=c["opt"], rescale_mode=rescale,
                          forward_backward=c["fb"], sorted_eigs=c["sort"], tikhonov_regularization=c["tik"])
    if k == "RDMD":
        return pydmd.RDMD(svd_rank=rank, tlsq_rank=tlsq, seed=c["seed"], oversampling=c["over"], power_iters=c["power"],
                          opt=c["opt"], rescale_mode=rescale, forward_backward=c["fb"], sorted_eigs=c["sort"])
    if k == "SubspaceDMD":
        return pydmd.SubspaceDMD(svd_rank=rank, opt=c["opt"], rescale_mode=rescale, sorted_eigs=c["sort"])
    if k == "OptDMD":
        return pydmd.OptDMD(factorization=c["fact"], svd_rank=rank, tlsq_rank=tlsq)
    if k == "EDMD":
        if c["kernel"] == "poly1":
            return pydmd.EDMD(svd_rank=rank, tlsq_rank=tlsq, opt=c["opt"], kernel_metric="poly",
                              kernel_params={"degree": 1, "coef0": 0, "gamma": 2.0})
        return pydmd.EDMD(svd_rank=rank, tlsq_rank=tlsq, opt=c["opt"])
    raise KeyError(k)


def run_case(c, rec):
    n, m = nm(c["spec"], c["shape"])
    S = System(c["spec"], n, c["cplx"])
    r = S.r
    D = S.data(m)
    dmd = build(c, r)
    pair = c.get("pair", False)
    rec.at("fit")
    if pair:
        X, Y = D[:, :-1], D[:, 1:]
        dmd.fit(X.copy(), Y.copy())
        target = X
    else:
        dmd.fit(D.copy())
        target = D
    if c["cls"] == "OptDMD":
        rec.at("predict")
        rec.close(dmd.predict(D), S.A @ D, "prediction is not one step of the system", tol=TOL)
        if c["fact"] == "svd":
            return
    rec.at("eigs", 1)
    err, perm = lib.match(dmd.eigs, S.eigs)
    fb = c["cls"] == "FbDMD" or c.get("fb")
    if fb and err > TOL and c["cls"] in ("DMD", "FbDMD", "CDMD", "RDMD"):
        C = None
        if c["cls"] in ("CDMD", "RDMD"):
            C = getattr(dmd, "compression_matrix", None)
            if not isinstance(C, np.ndarray):
                # the sketch drawn from the generator is not reachable: judged by P24 with given matrices
                rec.fail(FB)
                return
        X, Y = D[:, :-1], D[:, 1:]
        R = ref.RefDMD(X, Y, r, exact=c.get("exact", True), fb=True, tik=c.get("tik"), compress=C,
                       tlsq_rank=r if c.get("tlsq") == "r" else c.get("tlsq", 0))
        e2, _ = lib.match(dmd.eigs, R.eigs)
        if e2 <= 1e-5:
            rec.fail(FB)
            return
    rec.check(err <= TOL, "eigenvalues differ from the system's", err=err, got=dmd.eigs, want=S.eigs)
    rec.at("modes")
    Phi = np.asarray(dmd.modes)
    rec.need(Phi.shape == (n, r), "modes have the wrong shape", got=Phi.shape)
    nrm = np.linalg.norm(Phi, axis=0)
    rec.need(np.all(nrm > 1e-10), "a mode is zero", norms=nrm)
    U = Phi / nrm
    rec.close(S.A @ U, U * np.asarray(dmd.eigs)[None], "modes are not eigenvectors of the system", tol=TOL, scale=1.0)
    if c["cls"] == "OptDMD":
        return
    rec.check(lib.is_sorted(np.asarray(dmd.eigs), c.get("sort")), "eigenvalues are not in the requested order", eigs=dmd.eigs)
    if hasattr(dmd, "predict"):
        rec.at("predict")
        rec.close(dmd.predict(D), S.A @ D, "prediction is not one step of the system", tol=TOL)
    rec.at("reconstructed_data")
    out = dmd.reconstructed_data
    if c["cls"] in ("DMD", "FbDMD") and c["opt"] is True and not c["exact"] and out.shape == target.shape \
            and np.abs(out - target).max() > TOL * np.abs(target).max():
        rank = r if c.get("rank", "r") == "r" else c["rank"]
        R = ref.RefDMD(D[:, :-1], D[:, 1:], rank, exact=False, fb=bool(fb), sort=c["sort"], tik=c.get("tik"),
                       rescale=(0.5 + np.arange(r)) if c["rescale"] == "array" else c["rescale"],
                       tlsq_rank=r if c.get("tlsq") == "r" else c.get("tlsq", 0))
        want = R.modes @ (R.amplitudes(target, True, pair)[:, None] * np.vander(R.eigs, target.shape[1], True))
        if np.abs(want - out).max() <= 1e-5 * max(np.abs(target).max(), np.abs(want).max()):
            rec.fail(OPT)
            return
    rec.close(out, target, "reconstruction differs from the data", tol=TOL)
    rec.state(c["cls"], np.sort_complex(np.asarray(dmd.eigs)), target)


FB = "forward-backward operator combines two different singular bases"
OPT = "optimal amplitudes of projected modes drop the last snapshot"


def bounds(tier):
    return dict(spectra={k: [str(np.round(e, 3)) for e in v] for k, v in SPECTRA.items()}, shapes=["sq", "tall", "long", "short"],
                classes=["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "OptDMD", "EDMD"])
