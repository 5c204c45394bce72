"""P01: refitting equals fitting a fresh object, after every history."""
import itertools
import numpy as np
from . import zoo

PROPERTY = "P01"
TECHNIQUE = "exhaustive enumeration of fit/query/edit histories on the real code, fresh object as oracle"
ASSUMPTIONS = [
    "the global NumPy generator is put in the same state before every fit, so that unseeded randomness is compared under the same draws",
    "COSTS(initialize_artificially=True) is excluded: its start values are documented to come from the previous clustering",
]
CHUNK = 24
FEW = ["read", "mask0", "win"]


def bounds(tier):
    return {"estimators": list(zoo.ZOO), "histories": "fit a; op; fit b for all data-set pairs and all operations" +
            ("; fit a; op; op; fit b and fit a; op; fit b; op; fit c" if tier == "thorough" else
             "; fit a; op; op; fit b for one pair; fit a; fit b; fit c for all triples")}


def histories(e, tier):
    ops = list(zoo.ops_for(e))
    ks = e.ks if not (e.heavy and tier == "quick") else e.ks[:2]
    for a, b in itertools.product(ks, ks):
        yield [f"f{a}", f"f{b}"]
        for o in ops:
            if e.heavy and tier == "quick" and a == b and o != "read":
                continue
            yield [f"f{a}", o, f"f{b}"]
    if tier == "thorough" or not e.heavy:
        for o in ops:
            yield [o, f"f{ks[-1]}"] if o == "read" else [f"f{ks[0]}", o, o, f"f{ks[-1]}"]
        for a, b, c in itertools.product(ks, ks, ks):
            if tier == "thorough" or len({a, b, c}) == 3:
                yield [f"f{a}", f"f{b}", f"f{c}"]
        for o, q in itertools.product(ops, ops):
            yield [f"f{ks[0]}", o, q, f"f{ks[-1]}"]
    if tier == "thorough":
        for a, b in itertools.product(ks, ks):
            for o, q in itertools.product(ops, ops):
                if a != ks[0] or b != ks[-1]:
                    yield [f"f{a}", o, q, f"f{b}"]
                if not e.heavy:
                    yield [f"f{a}", o, f"f{b}", q, f"f{a}"]


def cases(tier):
    for name, e in sorted(zoo.ZOO.items(), key=lambda t: not t[1].heavy):
        for h in histories(e, tier):
            yield {"est": name, "h": h}


_fresh = {}


def fresh(e, k):
    if (e.name, k) not in _fresh:
        d = e.make()
        e.fit(d, k)
        _fresh[e.name, k] = zoo.snap(e.obs(d))
    return _fresh[e.name, k]


def run_case(case, rec):
    e = zoo.ZOO[case["est"]]
    ops = zoo.ops_for(e)
    d = e.make()
    h = case["h"]
    for step in h[:-1]:
        rec.at(step)
        if step[0] == "f" and step[1:].isdigit():
            e.fit(d, int(step[1:]))
        else:
            try:
                ops[step](d)
            except Exception:
                if len(h) > 3 or h[0] == step:
                    pass  # e.g. masking the last mode twice; the later fit is judged all the same
                else:
                    raise
    k = int(h[-1][1:])
    rec.at(h[-1])
    e.fit(d, k)
    o = e.obs(d)
    rec.state(case["est"], k, o.get("eigs"))
    zoo.same(rec, o, fresh(e, k), "a refitted object differs from a new one")
