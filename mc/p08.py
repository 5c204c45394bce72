"""P08: a saved, loaded, pickled or copied model answers like the original and is independent of it."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
from . import zoo
from .p26 import owned_rng

PROPERTY = "P08"
TECHNIQUE = "exhaustive enumeration of histories with the save/copy point at every position on the real code; the original object is the oracle"
ASSUMPTIONS = ["a factory given as a lambda cannot be pickled by Python itself: MrDMD with a lambda factory is only copied",
               "HAVOK and COSTS have no save method: they are pickled and copied"]
CHUNK = 12
WAYS = ["save", "deepcopy", "pickle"]


def bounds(tier):
    return {"estimators": list(zoo.ZOO), "ways": WAYS, "histories": "prefix op; copy; op on one side; compare; the same op on the other side; compare; refit"
            + (" with prefixes of two operations" if tier == "thorough" else "")}


def cases(tier):
    for name, e in sorted(zoo.ZOO.items(), key=lambda t: not t[1].heavy):
        ops = [o for o in zoo.ops_for(e)]
        pre = [["unfitted"], []] + [[o] for o in ops]
        if tier == "thorough" and not e.heavy:
            pre += [list(p) for p in itertools.product(ops, ops)]
        for p in pre:
            for w in WAYS:
                if name == "MrDMD-deep" and w != "deepcopy":
                    continue
                yield {"est": name, "pre": p, "way": w}


_tmp = None


def clone(d, way):
    if way == "deepcopy":
        return copy.deepcopy(d)
    if way == "pickle" or not hasattr(d, "save"):
        return pickle.loads(pickle.dumps(d))
    tmp = tempfile.mkdtemp(prefix="mc08_", dir="/tmp")
    try:
        f = os.path.join(tmp, "model.pkl")
        d.save(f)
        c = d.load(f)
    finally:
        shutil.rmtree(tmp)
    return c


_first = {}


def start(e, k):
    if e.heavy or e.name.startswith("BOPDMD"):
        if (e.name, k) not in _first:
            _first.clear()
            d = e.make()
            e.fit(d, k)
            _first[e.name, k] = d
        return copy.deepcopy(_first[e.name, k])
    d = e.make()
    e.fit(d, k)
    return d


def apply(d, ops, o):
    np.random.seed(9)
    try:
        ops[o](d)
    except Exception as x:
        return type(x).__name__
    return None


def run_case(case, rec):
    np.random.default_rng = owned_rng
    e = zoo.ZOO[case["est"]]
    ops = zoo.ops_for(e)
    k = e.ks[0]
    un = case["pre"] == ["unfitted"]
    if un:
        d = e.make()
    else:
        d = start(e, k)
        for o in case["pre"]:
            rec.at(o)
            apply(d, ops, o)
    if un:
        rec.at(case["way"])
        c = clone(d, case["way"])
        rec.check(type(c) is type(d), "the copy has another class")
        refit(rec, e, c, k, "a model copied before its first fit does not fit like a new one")
        rec.state(e.name, "unfitted")
        return
    rec.at(case["way"])
    # the save point comes before any query, and again after everything was queried
    c = clone(d, case["way"])
    rec.check(type(c) is type(d), "the copy has another class", got=str(type(c)))
    a, b = zoo.snap(e.obs(d)), zoo.snap(e.obs(c))
    zoo.same(rec, b, a, "the copy answers differently from the original", tol=1e-12)
    rec.state(e.name, case["pre"], a.get("eigs"))
    c2 = clone(d, case["way"])
    zoo.same(rec, e.obs(d), a, "saving or copying changed the original", tol=1e-12)
    zoo.same(rec, e.obs(c2), a, "a copy made after queries answers differently", tol=1e-12)
    seq = [o for o in ops if not (e.heavy and o == "sweep")]
    for o in seq:
        # each further operation on one side only, then on the other
        rec.at(o)
        one, two = clone(d, case["way"]), None
        r1 = apply(one, ops, o)
        zoo.same(rec, e.obs(d), a, f"an operation on the copy changed the original ({o})", tol=1e-12)
        two = clone(d, "deepcopy" if case["way"] != "deepcopy" else "pickle") if e.name != "MrDMD-deep" else clone(d, "deepcopy")
        r2 = apply(two, ops, o)
        rec.check(r1 == r2, f"the operation behaves differently on copies ({o})", got=[r1, r2])
        s1 = zoo.snap(e.obs(one))
        zoo.same(rec, e.obs(two), s1, f"the operation gives different results on copies ({o})", tol=1e-10)
        if o == seq[0]:
            keep = one, s1
    # operations on the original leave its copies alone and give what they gave on a copy
    o = seq[0]
    rec.at("original:" + o)
    apply(d, ops, o)
    zoo.same(rec, e.obs(d), keep[1], f"the original behaves differently from its copy ({o})", tol=1e-10)
    zoo.same(rec, e.obs(c2), a, f"an operation on the original changed the copy ({o})", tol=1e-12)
    k2 = e.ks[-1]
    if not e.heavy or case["pre"] == []:
        rec.at("refit")
        refit(rec, e, c2, k2, "a copied model does not refit like a new one")
        zoo.same(rec, e.obs(c), a, "refitting one copy changed another", tol=1e-12)


_fresh = {}


def refit(rec, e, c, k, what):
    if (e.name, k) not in _fresh:
        f = e.make()
        e.fit(f, k)
        _fresh[e.name, k] = zoo.snap(e.obs(f))
    e.fit(c, k)
    zoo.same(rec, e.obs(c), _fresh[e.name, k], what, tol=1e-8)
