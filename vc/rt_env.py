"""Run-time contract checking on the real code (under /opt/venv/bin/python): replay of counter-models, random sampling.

usage: VC_MODE=rt python -m vc.rt_env JOBS.json OUT.jsonl
"""
import contextlib
import importlib
import io
import itertools
import json
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

from .spec import Done
from . import spec


class Discard(Exception):
    pass


class Violated(Exception):
    def __init__(self, clause, detail):
        Exception.__init__(self, clause)
        self.clause, self.detail = clause, detail


class RtMethod(object):
    """A deterministic function of an image and parameters that mixes positions (picklable)."""

    def __init__(self, grow, dtype):
        self.grow, self.dtype = grow, dtype

    def __call__(self, img, *par, **kw):
        img = np.asarray(img, dtype=np.float64)
        h, w = img.shape[0] + self.grow[0], img.shape[1] + self.grow[1]
        s = 0.5
        for i, p in enumerate(list(par) + [v for _, v in sorted(kw.items())]):
            s += (i + 2) * float(np.sum(p) if isinstance(p, np.ndarray) else len(p) if isinstance(p, (str, tuple, list)) else p or 0)
        out = np.zeros((h, w))
        m, n = min(h, img.shape[0]), min(w, img.shape[1])
        out[:m, :n] = np.cumsum(img, axis=1)[:m, :n] * s + img[::-1][:m, :n]
        out += np.arange(w) * 0.25 + img.mean()
        return out.astype(self.dtype)


class Env(object):
    rt = True

    def __init__(self, contract, case, rng, given=None, mode="full"):
        self.contract, self.case, self.rng, self.given = contract, case, rng, given
        self.mode = mode
        self.inputs = {}
        self.arrays = []
        self.ncall = 0
        self.nclauses = 0
        self.returned = False
        self.style = rng.random()

    # -------------------------------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None, small=None, dim=None):
        if self.given is not None and name in self.given:
            v = int(self.given[name])
        else:
            small = small or 11
            if lo is None and hi is None:
                lo, hi = -6, 6
            elif lo is None:
                lo = int(hi) - small
            elif hi is None:
                hi = int(lo) + small
            lo, hi = int(lo), int(hi)
            if hi < lo:
                raise Discard()
            if hi - lo > small:
                u = self.rng.random()
                if u < 0.75 or (dim is not False and lo >= 0):
                    v = self.rng.randint(lo, lo + small)
                elif u < 0.9:
                    v = self.rng.randint(max(lo, hi - small), hi)
                else:
                    v = self.rng.randint(lo, hi)
            else:
                v = self.rng.randint(lo, hi)
        self.inputs[name] = v
        return v

    def size(self, name, lo=1, hi=None, small=None):
        return self.int(name, lo, hi, small)

    def real(self, name, lo=None, hi=None, vals=None):
        if self.given is not None and name in self.given:
            v = float(self.given[name])
        elif vals is not None and self.rng.random() < 0.7:
            v = float(self.rng.choice(vals))
        else:
            a = -10.0 if lo is None else float(lo)
            b = max(a, 0) + 10.0 if hi is None else float(hi)
            u = self.rng.random()
            if u < 0.12 and lo is not None:
                v = a
            elif u < 0.24 and hi is not None:
                v = b
            elif u < 0.5:
                v = float(int(self.rng.uniform(a, b)))
                if not a <= v <= b:
                    v = self.rng.uniform(a, b)
            else:
                v = round(self.rng.uniform(a, b), 3)
                if not a <= v <= b:
                    v = self.rng.uniform(a, b)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = bool(self.given[name]) if self.given is not None and name in self.given else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def array(self, name, shape, dtype="float32", lo=None, hi=None, elem=None, gen=None):
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise Discard()
        if self.given is not None and name in self.given:
            g = self.given[name]
            if tuple(g["shape"]) != shape:
                raise Discard()
            a = np.array(g["data"], dtype=np.float64 if np.dtype(dtype).kind == "f" else object).reshape(shape)
            if np.dtype(dtype).kind in "iu":
                a = np.array([int(x) for x in a.ravel()], dtype=np.int64).reshape(shape)
            a = a.astype(dtype)
        else:
            rs = np.random.RandomState(self.rng.randrange(2 ** 31))
            a = self.gen(rs, shape, np.dtype(dtype), lo, hi) if gen is None else np.asarray(gen(rs, shape), dtype=dtype)
        if elem is not None:
            for ix in itertools.product(*[range(n) for n in shape]):
                r = elem(a[ix].item(), *ix)
                if not (all(r) if isinstance(r, (list, tuple)) else r):
                    raise Discard()
        self.inputs[name] = a.copy()
        self.arrays.append((name, a, a.copy()))
        return a

    def gen(self, rs, shape, dt, lo, hi):
        k = dt.kind
        if k == "b":
            return rs.rand(*shape) < rs.choice([0.2, 0.5, 0.8])
        u = rs.rand()
        if k in "iu":
            a = lo if lo is not None else (0 if k == "u" else -50)
            b = hi if hi is not None else 250
            if dt.itemsize == 1:
                b = min(b, 255 if k == "u" else 127)
            return rs.randint(int(a), int(b) + 1, size=shape).astype(dt)
        a = -2.0 if lo is None else float(lo)
        b = (max(a, 0) + 5.0) if hi is None else float(hi)
        if u < 0.5:
            v = rs.uniform(a, b, size=shape)
        elif u < 0.75:
            v = np.clip(np.round(rs.uniform(a, b, size=shape)), a, b)
        elif u < 0.82:
            v = np.full(shape, rs.uniform(a, b))
        elif u < 0.9:
            v = np.clip(np.cumsum(np.full(shape, (b - a) / 50.0), axis=-1) + a, a, b) if shape else np.array(a)
        else:
            v = np.where(rs.rand(*shape) < 0.3, a if lo is not None else 0.0, rs.uniform(a, b, size=shape))
        v = v.astype(dt)
        if lo is not None or hi is not None:
            v = np.clip(v, None if lo is None else dt.type(lo), None if hi is None else dt.type(hi)).astype(dt)
        return v

    def derived(self, name, shape, fn, dtype="float32"):
        shape = tuple(int(s) for s in shape)
        a = np.zeros(shape, dtype=dtype)
        for ix in itertools.product(*[range(n) for n in shape]):
            a[ix] = fn(*ix)
        self.inputs[name] = a.copy()
        self.arrays.append((name, a, a.copy()))
        return a

    def permutation(self, name, shape, axis, dtype="float64"):
        shape = tuple(int(s) for s in shape)
        rs = np.random.RandomState(self.rng.randrange(2 ** 31))
        a = np.argsort(rs.rand(*shape), axis=axis).astype(dtype)
        self.inputs[name] = a.copy()
        self.arrays.append((name, a, a.copy()))
        return a

    def require(self, *conds):
        for c in conds:
            if not c:
                raise Discard()

    # -------------------------------------------------------------------------------------- files
    box = None

    def scratch(self):
        """A folder of its own for the files of this run."""
        from . import rt_io
        if self.box is None:
            self.box = rt_io.Scratch()
        return self.box

    def dataset(self, name, shape, kind="array", dtype="float32", lo=None, hi=None, key="entry/data", ext=".tif", gen=None):
        """(what is passed to the function, the volume): an array, a hdf file or a folder of images."""
        from . import rt_io
        a = self.array(name, shape, dtype=dtype, lo=lo, hi=hi, gen=gen)
        if kind == "array":
            return a, a
        b = self.scratch()
        if kind == "hdf":
            p = b.path(name + ".hdf")
            rt_io.write_hdf(p, key, a)
        else:
            p = b.path(name)
            st = self.rng.choice([0, 0, 7, 98])
            for i in range(a.shape[0]):
                rt_io.write_tif(os.path.join(p, "f_%05d%s" % (st + i, ext)), a[i])
            if a.shape[0] == 0:
                os.makedirs(p)
        return p, a

    def output(self, name, kind):
        return None if kind == "array" else self.scratch().path(name + (".hdf" if kind == "hdf" else ""))

    def output_of(self, r, path, kind, key="entry/data"):
        """The volume an operation delivered."""
        from . import rt_io
        if kind == "array":
            return r
        return rt_io.read_hdf(path, key) if kind == "hdf" else rt_io.read_folder(path)[0]

    # -------------------------------------------------------------------------------------- running
    def fn(self, func=None, module=None):
        m = importlib.import_module(module or self.contract.module)
        func = func or self.contract.func
        o = m
        for p in func.split("."):
            o = getattr(o, p)
        return o

    def call(self, *args, **kw):
        return self.run(self.fn(), *args, **kw)

    def run(self, f, *args, **kw):
        raises = kw.pop("_raises", {})
        may = kw.pop("_may_raise", {})
        if isinstance(f, str):
            f = self.fn(f)
        self.ncall += 1
        tag = "" if self.ncall == 1 else "#%d" % self.ncall
        self.returned = True
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                r = f(*args, **kw)
        except Exception as e:
            names = [c.__name__ for c in type(e).__mro__]
            for et in list(raises) + list(may):
                if et in names:
                    self.ensure("raises_%s_only_if%s" % (et, tag), raises.get(et) if et in raises else may[et],
                                "raised %s: %s" % (type(e).__name__, e))
                    raise Done()
            if self.mode == "frame":
                raise Done()
            raise Violated("no_%s%s" % (type(e).__name__, tag), "%s: %s" % (type(e).__name__, str(e)[:400]))
        for et, cond in raises.items():
            self.ensure("raises_%s_if%s" % (et, tag), not cond, "no exception was raised")
        return r

    # -------------------------------------------------------------------------------------- clauses
    def ensure(self, name, cond, detail=""):
        if self.mode == "frame":
            return
        self.nclauses += 1
        if not cond:
            raise Violated(name, detail or "the clause evaluates to %r" % (cond,))

    def forall(self, name, shape, pred, sample=600):
        if self.mode == "frame":
            return
        shape = [int(s) for s in shape]
        tot = 1
        for s in shape:
            tot *= s
        if tot <= sample:
            it = itertools.product(*[range(s) for s in shape])
        else:
            it = (tuple(self.rng.randrange(s) for s in shape) for _ in range(sample))
        for ix in it:
            r = pred(*ix)
            rs = r if isinstance(r, (list, tuple)) else [r]
            for n, x in enumerate(rs):
                self.nclauses += 1
                if not x:
                    raise Violated(name if len(rs) == 1 else "%s.%d" % (name, n), "fails at index %s" % (ix,))

    def lemma(self, text, cond):
        pass

    def assume_proved(self, cond):
        pass

    def hint(self, *e):
        pass

    def case_split(self, cond):
        return bool(cond)

    def skolem(self, name, lo, hi):
        if int(hi) < int(lo):
            raise Done()
        return self.rng.randint(int(lo), int(hi))

    def method(self, name, grow=(0, 0), dtype="float64"):
        return RtMethod(grow, dtype)

    def apply(self, func, module, *args, **kw):
        return self.fn(func, module)(*args, **kw)

    def lib(self, mod, name, *args, **kw):
        return getattr(importlib.import_module(mod), name)(*args, **kw)

    def ndim(self, a):
        return a.ndim

    def isarr(self, a):
        return isinstance(a, np.ndarray)

    def inputs_size(self, name):
        """A size drawn earlier."""
        return self.inputs[name]

    def same(self, name, before, after):
        """Frame clause for data the contract had derived from its inputs."""
        self.nclauses += 1
        if before.shape != after.shape or not np.array_equal(before, after, equal_nan=True):
            raise Violated("frame_%s" % name, "'%s' was modified" % name)

    def frame_clauses(self):
        for name, a, old in self.arrays:
            self.nclauses += 1
            if a.shape != old.shape or not np.array_equal(a, old, equal_nan=(a.dtype.kind == "f")):
                w = np.argwhere(a != old) if a.shape == old.shape else None
                raise Violated("frame_%s" % name, "argument '%s' was modified%s" % (
                    name, "" if w is None or not len(w) else " at %s: %r -> %r" % (tuple(int(x) for x in w[0]), old[tuple(w[0])].item(), a[tuple(w[0])].item())))


def jsonable(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, np.ndarray):
            if v.size > 20000:
                out[k] = {"shape": list(v.shape), "dtype": str(v.dtype), "too_large": True}
            else:
                out[k] = {"shape": list(v.shape), "dtype": str(v.dtype), "data": v.ravel().tolist()}
        else:
            out[k] = v
    return out


def run_once(contract, case, rng, given=None, mode="full"):
    """-> (status, clause, detail, env): ok / discard / violated / error"""
    env = Env(contract, case, rng, given, mode)
    spec.TOL[0] = 1e-5
    try:
        try:
            contract.harness(env, **case)
        except Done:
            pass
        if mode == "frame" and contract.frame:
            env.frame_clauses()
    except Discard:
        return "discard", None, None, env
    except Violated as e:
        return "violated", e.clause, e.detail, env
    except Exception as e:
        if type(e).__name__ == "HarnessViolation":
            return "violated", e.args[0], e.args[1], env
        if getattr(env, "returned", False) and isinstance(e, (TypeError, AttributeError, IndexError, ValueError, KeyError)):
            return "violated", "result_form", "the result does not have the specified form: %s" % traceback.format_exc()[-600:], env
        return "error", type(e).__name__, traceback.format_exc()[-1500:], env
    finally:
        if env.box is not None:
            env.box.close()
    return "ok", None, None, env


def run_job(job, contracts):
    c = contracts[job["contract"]]
    case = job["case"]
    mode = job.get("mode", "full")
    try:
        importlib.import_module(c.module)
    except Exception:
        pass
    t0 = time.time()
    out = {"contract": c.name, "case": case, "key": c.key(case), "ran": 0, "discarded": 0, "clauses": 0, "violation": None,
           "error": None, "samples": [], "kind": job.get("kind", "random")}
    if "inputs" in job:
        runs = [(0, job["inputs"])]
    else:
        runs = ((i, None) for i in range(job.get("n", 40)))
    done = 0
    for i, given in runs:
        rng = random.Random("%s|%s|%s|%s" % (job.get("seed", 1), c.name, sorted(case.items()), i))
        st, cl, det, env = run_once(c, case, rng, given, mode)
        if st == "discard":
            out["discarded"] += 1
        else:
            out["ran"] += 1
            out["clauses"] += env.nclauses
            if len(out["samples"]) < 1:
                out["samples"].append({k: (v if not isinstance(v, np.ndarray) else "array%s %s" % (v.shape, v.dtype))
                                       for k, v in env.inputs.items()})
        if st == "violated":
            out["violation"] = {"clause": cl, "detail": det, "inputs": jsonable(env.inputs), "iteration": i,
                                "seed": job.get("seed", 1)}
            break
        if st == "error":
            out["error"] = {"type": cl, "trace": det, "inputs": jsonable(env.inputs) if sum(
                getattr(v, "size", 1) for v in env.inputs.values()) < 400 else None}
            break
        if time.time() - t0 > job.get("budget", 2.0) and i >= 1:
            break
    out["seconds"] = time.time() - t0
    return out


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    return {c.name: c for c in spec.CONTRACTS}


def main():
    jobs = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    cs = load_contracts()
    with open(sys.argv[2], "w") as f:
        for j in jobs:
            f.write(json.dumps({"begin": j["id"]}) + "\n")
            f.flush()
            try:
                r = run_job(j, cs)
            except Exception:
                r = {"error": {"type": "runner", "trace": traceback.format_exc()[-1500:]}, "contract": j["contract"], "case": j["case"],
                     "ran": 0, "violation": None, "discarded": 0, "clauses": 0, "samples": []}
            r["id"] = j["id"]
            f.write(json.dumps(r, default=str) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
