"""Exhaustive bounded explorer: runs every case of a property's bounded space
against the code in /repo and judges each execution with a reference model.

A property module `mc.pNN` provides
    PROPERTY  id
    TECHNIQUE short text
    bounds(tier)  -> dict describing the enumerated space
    cases(tier)   -> iterable of JSON-able dicts; one per execution (trace)
    run_case(case, rec) -> None; uses rec.* to step, record states and judge
"""
import hashlib
import itertools
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYDMD_REPO", "/repo")
CASE_TIMEOUT = 150.0
DEADLINE = {"quick": 820.0, "thorough": 6 * 3600.0}


class CaseTimeout(BaseException):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"array": str(x.dtype), "shape": list(x.shape)}
        return jsonable(x.tolist())
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": float(x.real), "im": float(x.imag)}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


def canon(x, digits=6):
    """Canonical text of a state: floats rounded to `digits` significant ones."""
    import numpy as np
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{canon(v, digits)}" for k, v in sorted(x.items(), key=lambda t: str(t[0]))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v, digits) for v in x) + "]"
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            scale = np.max(np.abs(x)) if x.size else 0.0
            if not np.isfinite(scale) or scale == 0:
                scale = 1.0
            q = np.round(np.atleast_1d(x) / scale, digits) + 0.0
            return f"A{x.shape}{scale:.{digits}g}" + hashlib.sha1(np.ascontiguousarray(q).tobytes()).hexdigest()[:12]
        if x.dtype.kind == "O":
            return canon(x.tolist(), digits)
        return f"A{x.shape}" + hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12]
    if isinstance(x, (float, np.floating)):
        return f"{float(x):.{digits}g}"
    if isinstance(x, (complex, np.complexfloating)):
        return f"{x.real:.{digits}g}+{x.imag:.{digits}g}j"
    return repr(x)


class Stop(Exception):
    """Raised by a case to stop after a recorded violation."""


class Rec:
    """Recorder handed to one case."""

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.viol = []
        self.label = "start"

    def at(self, label, n=1):
        """An operation (transition) of the explored system is about to run."""
        self.label = label
        self.transitions += n

    def state(self, *x):
        self.states.add(hashlib.blake2b(canon(list(x)).encode(), digest_size=8).digest())

    def fail(self, what, **detail):
        self.viol.append({"what": what, "detail": jsonable(detail), "at": self.label})

    def check(self, cond, what, **detail):
        if not bool(cond):
            self.fail(what, **detail)
        return bool(cond)

    def need(self, cond, what, **detail):
        if not self.check(cond, what, **detail):
            raise Stop()

    def close(self, a, b, what, tol=1e-7, scale=None, **detail):
        """max-norm comparison relative to the size of the reference b."""
        import numpy as np
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(what, got_shape=a.shape, want_shape=b.shape, **detail)
            return False
        if a.size == 0:
            return True
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            ok = all(np.allclose(np.asarray(u, dtype=complex), np.asarray(v, dtype=complex), rtol=tol, atol=tol)
                     for u, v in zip(a.ravel(), b.ravel()))
            return self.check(ok, what, **detail)
        if b.dtype.kind == "b" or a.dtype.kind == "b":
            return self.check(np.array_equal(a, b), what, got=a, want=b, **detail)
        fin = np.isfinite(b)
        if not np.array_equal(fin, np.isfinite(a)):
            self.fail(what, got=a, want=b, note="finite pattern differs", **detail)
            return False
        s = scale if scale is not None else max(1e-300, float(np.max(np.abs(b[fin]))) if fin.any() else 0.0)
        if s == 0 or s < 1e-12:
            s = 1.0
        err = float(np.max(np.abs(a[fin] - b[fin]))) / s if fin.any() else 0.0
        if not err <= tol:
            self.fail(what, err=err, tol=tol, got=a, want=b, **detail)
            return False
        return True

    def raises(self, fn, what, exc=Exception):
        """fn must raise."""
        try:
            r = fn()
        except CaseTimeout:
            raise
        except exc:
            return True
        except Exception as e:  # wrong type
            self.fail(what, got=repr(e)[:200])
            return False
        self.fail(what, returned=repr(r)[:120])
        return False


def _alarm(signum, frame):
    raise CaseTimeout()


def seed_all():
    import random
    import numpy as np
    np.random.seed(20240711)
    random.seed(20240711)


_MOD = None
_KNOWN = []


def load_module(pid):
    import importlib
    return importlib.import_module("mc." + pid.lower())


def run_one(mod, case):
    rec = Rec(case)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            seed_all()
            mod.run_case(case, rec)
    except Stop:
        pass
    except CaseTimeout:
        rec.fail("no answer within the time limit")
    except MemoryError:
        rec.fail("out of memory")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
        rec.fail(f"unexpected {type(e).__name__}", message=str(e)[:300], where=where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return rec


def _work(chunk):
    states, trans, viols = set(), 0, []
    n = 0
    for case in chunk:
        rec = run_one(_MOD, case)
        n += 1
        states |= rec.states
        trans += rec.transitions
        for v in rec.viol:
            viols.append({"case": case, **v})
        if sum(known_match(v, _KNOWN) is None for v in viols) >= 40 and not os.environ.get("VERIF_ALL"):
            break
    return n, len(chunk), states, trans, viols


def chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def known_match(v, known):
    for k in known:
        if k["what"] != v["what"]:
            continue
        if "at" in k and k["at"] != v["at"]:
            continue
        if all(jsonable(v["case"].get(a)) == b for a, b in k.get("case", {}).items()):
            return k
    return None


def main(argv=None):
    global _MOD, _KNOWN
    argv = list(argv if argv is not None else sys.argv[1:])
    pid = argv[0]
    t0 = time.time()
    if len(argv) > 1 and argv[1] == "replay":
        return replay(pid, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    import numpy as np  # noqa: F401
    try:
        check_repo()
        _MOD = load_module(pid)
    except Exception as e:
        traceback.print_exc()
        path = write_replay(pid, {"what": "the library cannot be imported", "case": {}, "detail": repr(e), "at": "import"})
        write_evidence(pid, tier, seed, dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=False), [], t0, 1)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    known = _KNOWN = load_known(pid)
    n_cases = done = trans = 0
    states = set()
    viols = []
    samples = []
    complete = True
    chunk_size = getattr(_MOD, "CHUNK", 8)

    def gen():
        nonlocal n_cases
        for i, c in enumerate(_MOD.cases(tier)):
            n_cases += 1
            if i < 2:
                samples.append(c)
            elif i % 997 == 0 and len(samples) < 8:
                samples.append(c)
            yield c

    deadline = t0 + DEADLINE[tier]
    ctx = mp.get_context("fork")
    distinct = {}
    try:
        from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
        with ProcessPoolExecutor(procs, mp_context=ctx) as ex:
            pending = set()
            src = chunks(gen(), chunk_size)
            exhausted = False
            while True:
                while not exhausted and len(pending) < procs * 3:
                    c = next(src, None)
                    if c is None:
                        exhausted = True
                        break
                    pending.add(ex.submit(_work, c))
                if not pending:
                    break
                fin, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
                for f in fin:
                    n, size, st, tr, vs = f.result()
                    done += n
                    if n != size:
                        complete = False
                    states |= st
                    trans += tr
                    for v in vs:
                        if known_match(v, known) is None:
                            distinct.setdefault((v["what"], v["at"]), v)
                        viols.append(v)
                unknown = sum(1 for v in viols if known_match(v, known) is None)
                if os.environ.get("VERIF_ALL"):
                    unknown = 0
                if unknown >= 60 or (unknown and time.time() - t0 > 240) or time.time() > deadline:
                    complete = False
                    for f in pending:
                        f.cancel()
                    ex.shutdown(wait=False, cancel_futures=True)
                    kill_children()
                    break
    except Exception as e:  # a worker died
        complete = False
        v = {"what": "a worker process died", "case": {}, "at": "run", "detail": repr(e)[:300]}
        viols.append(v)
        distinct.setdefault((v["what"], v["at"]), v)
    if os.environ.get("VERIF_ALL"):
        with open(os.environ["VERIF_ALL"], "w") as f:
            for v in viols:
                f.write(json.dumps(jsonable(v)) + "\n")
    kf = {}
    unk = 0
    for v in viols:
        k = known_match(v, known)
        if k is None:
            unk += 1
        else:
            kf.setdefault(k["id"], k)
    cov = dict(states=len(states), transitions=trans,
               traces_validated_against_impl=done, cases_enumerated=n_cases,
               samples=jsonable(samples), exhaustive=bool(complete and done == n_cases),
               bounds=jsonable(_MOD.bounds(tier)),
               known_findings=sorted(kf))
    write_evidence(pid, tier, seed, cov, getattr(_MOD, "ASSUMPTIONS", []), t0, unk)
    for k in kf.values():
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    print(f"{pid} {tier}: cases={done}/{n_cases} states={len(states)} transitions={trans} "
          f"violations={unk} wall={time.time()-t0:.1f}s exhaustive={cov['exhaustive']}")
    if unk:
        shown = 0
        for v in distinct.values():
            path = write_replay(pid, v)
            if shown < 12:
                print(f"  {v['what']} | at {v['at']} | case {json.dumps(jsonable(v['case']))[:300]} | {json.dumps(v.get('detail'))[:400]}")
                print(f"VIOLATION property={pid} replay={path}")
            shown += 1
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def kill_children():
    for p in mp.active_children():
        try:
            p.kill()
        except Exception:
            pass


def check_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pydmd
    assert os.path.abspath(pydmd.__file__).startswith(os.path.abspath(REPO) + os.sep), pydmd.__file__


def write_replay(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, **jsonable(v)}
    h = hashlib.sha1(json.dumps([v["what"], jsonable(v["case"])], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def write_evidence(pid, tier, seed, cov, assumptions, t0, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
             assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def replay(pid, path):
    check_repo()
    mod = load_module(pid)
    v = json.load(open(path))
    rec = run_one(mod, v["case"])
    for x in rec.viol:
        print(json.dumps(jsonable(x), indent=1))
    if rec.viol:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    sys.exit(main())
