"""Path exploration, concrete (real-build) world, scheduling and reporting."""
from __future__ import annotations

import argparse
import concurrent.futures
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, loader, pyxint
from .core import (B, EngineError, I, Inconclusive, NonFinite, PathAbort, R,
                   STATS, Violation, World, z3)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = loader.REPO


class Scenario:
    def __init__(self, name, fn, opts=None, concrete=True, **params):
        self.name = name
        self.fn = fn
        self.opts = dict(opts or {})
        self.params = params
        self.concrete = concrete       # also validated on the real build

    def __repr__(self):
        return f"<{self.name}>"


# ---------------------------------------------------------------------------
# symbolic world
# ---------------------------------------------------------------------------

class SWorld(pyxint.PyxWorld, World):
    """World + the package under test + the harness API."""

    def __init__(self, scen, prefix):
        super().__init__(scen.params, prefix, scen.opts)
        self.scen = scen
        self._loader = None
        self.p = scen.params
        self.pyx_init()

    def new_process(self, k):
        """Behave as a new interpreter process (fresh modules, new str-hash salt)."""
        self.env_run = k
        self._loader = None
        if hasattr(self, "_streams"):
            del self._streams

    def load(self, name):
        if self._loader is None:
            self._loader = loader.Loader()
        return self._loader.load(name)

    def in_processes(self, envs, fn, *args):
        """Results of fn(W, *args) in several interpreter processes (k, cpus)."""
        out, old = [], self.opts
        for k, cpus in envs:
            self.new_process(k)
            self.opts = dict(old, cpu_count=cpus)
            out.append(fn(self, *args))
        self.opts = old
        return out

    def schedules(self, fn):
        """Results of fn under every explored order of worker threads."""
        return [fn()]

    def rng_free(self, label, A, B=None):
        """The random entries A and B can take any values independently."""
        A = [R._co(x) for x in np.asarray(A, dtype=object).reshape(-1)]
        B = [] if B is None else [R._co(x) for x in np.asarray(B, dtype=object).reshape(-1)]
        va = [core._vars_of(x.e) if x.c is None else set() for x in A]
        vb = [core._vars_of(x.e) if x.c is None else set() for x in B]
        self.goal_log.append(label)
        if any(not v for v in va + vb):
            raise Violation(label, {}, "entry does not depend on the random source")
        # jointly reachable targets; a shared random number makes this unsat
        cs = [x.e == 3 + k for k, x in enumerate(A)] + [x.e == -5 - k for k, x in enumerate(B)]
        STATS.queries += 1
        v, _ = core.solve(cs + self.facts + self.path, 20000, ("default", "nlsat"), want_model=False)
        if v == "unsat":
            raise Violation(label, {}, "random entries are not independent")
        if v != "sat":
            raise Inconclusive(label)

    def normals(self, label, fn, seed, var):
        """fn(seed): independent normal numbers of mean 0 and variance var."""
        A = [R._co(x) for x in np.asarray(fn(seed), dtype=object).reshape(-1)]
        used = set()
        self.goal_log.append(label)
        for x in A:
            vs = self._normal_vars(x)
            if len(vs) != 1:
                raise Violation(label, {}, "entry is not one random number")
            if vs[0] in used:
                raise Violation(label, {}, "shared random number")
            used.add(vs[0])
            v = R(e=z3.Real(vs[0]))
            self.eq(f"{label}: variance", x * x, v * v * var)

    def _normal_vars(self, x):
        """Random numbers x is computed from (through quotients and roots)."""
        if x.c is not None:
            return []
        vs, seen = set(), set()
        todo = core._vars_of(x.e)
        names = {}

        def consts(e):
            stack = [e]
            while stack:
                t = stack.pop()
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names[t.get_id()] = str(t)
                stack.extend(t.children())
        consts(x.e)
        todo = list(todo)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if names.get(i, "").startswith("rngn("):
                vs.add(names[i])
                continue
            if names.get(i, "").startswith("sqrt"):
                continue
            for f in self.facts:
                fv = core._vars_of(f)
                if i in fv and len(fv) <= 8:
                    consts(f)
                    todo.extend(fv)
        return sorted(vs)

    def sqrt_(self, x):
        from . import npshim
        return npshim.sqrt(x)

    def num(self, x):
        return R(c=Fraction(x)) if isinstance(x, (str, Fraction)) else R._co(x)

    def idx(self, a):
        return np.array(a, dtype=np.int64)

    def zeros(self, shape):
        from . import npshim
        return npshim.konst(shape, 0)

    def eye(self, n):
        from . import npshim
        return npshim.eye(n)

    def given(self, label, a, b):
        """Assume a == b (entrywise)."""
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            self.assume(R._co(x) == R._co(y))

    def lemma(self, label, a, b):
        """Prove a == b, then keep it as a fact."""
        self.eq(label, a, b)
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = R._co(x), R._co(y)
            if x.c is None or y.c is None:
                self.axiom(x.e == y.e)

    def isfinite(self, label, a):
        self.goal_log.append(label)

    def derive(self, label, a, b):
        """Fact that follows from lemmas proved before (see lib.py)."""
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = R._co(x), R._co(y)
            if x.c is None or y.c is None:
                self.axiom(x.e == y.e)

    def entails(self, label, terms, facts, goal):
        """Prove facts(names) => goal(names) for all reals, the facts for the
        given terms, and keep the goal for the terms as a fact.
        facts: pairs that are equal; goal: such a pair, or a condition."""
        def rel(g):
            if isinstance(g, tuple):
                a, b = R._co(g[0]), R._co(g[1])
                return a == b
            return g
        names = [self.fresh("n") for _ in terms]
        F = [rel(f).e if isinstance(rel(f), B) else z3.BoolVal(bool(rel(f))) for f in facts(*names)]
        g = rel(goal(*names))
        STATS.queries += 1
        v, _ = core.solve(F + [z3.Not(g.e) if isinstance(g, B) else z3.BoolVal(not g)],
                          20000, ("nlsat", "default"), want_model=False)
        if v != "unsat":
            raise Inconclusive(f"{label}: step not entailed ({v})")
        STATS.unsat += 1
        for k, f in enumerate(facts(*terms)):
            if isinstance(f, tuple):
                self.eq(f"{label}: premise {k}", *f)
            else:
                self.true(f"{label}: premise {k}", f)
        g = rel(goal(*terms))
        self.goal_log.append(label)
        if isinstance(g, B):
            self.axiom(g.e)

    def attempt(self, fn):
        """Try to establish helper facts; False if they do not hold / are unknown."""
        nf = len(self.facts)
        ng = len(self.goal_log)
        try:
            fn()
            return True
        except (Violation, Inconclusive):
            del self.facts[nf:]
            del self.goal_log[ng:]
            return False

    def free(self, name, shape):
        """Fresh universally quantified variables (no concrete counterpart)."""
        from . import npshim
        return npshim.fresh_array(shape, name)

    def pinv(self, a):
        from . import npshim
        return npshim.c_pinv(npshim.lift(a))

    def svdvals(self, a):
        from . import npshim
        return npshim.c_svd(npshim.lift(a), False)[1]

    def concrete_only(self, fn):
        pass

    def fork_env(self):
        return None


SWorld.rng_differ = SWorld.rng_free


def is_engine_exc(e):
    return isinstance(e, (EngineError, Inconclusive))


def explore(scen, max_paths=4000, deadline=None):
    """Depth-first exploration of all feasible paths of one scenario."""
    out = dict(status="ok", violations=[], undecided=[], paths=0, goals=0,
               labels={}, functions=set(), assumptions=[], facts=0,
               sample=None, aborted=0, witnesses=0)
    todo = [[]]
    seen_viol = set()
    while todo:
        if deadline and time.time() > deadline:
            out["undecided"].append("time limit: %d paths left" % len(todo))
            break
        if out["paths"] >= max_paths:
            out["undecided"].append("path limit")
            break
        prefix = todo.pop()
        w = SWorld(scen, prefix)
        w.deadline = deadline
        core.set_world(w)
        first = out["paths"] == 0
        funcs = out["functions"]
        if first:
            root = REPO.rstrip("/") + "/"

            def prof(frame, event, arg):
                if event == "call":
                    c = frame.f_code
                    if c.co_filename.startswith(root) and c.co_name[0] != "<":
                        funcs.add(c.co_filename[len(root):] + ":" + c.co_qualname)
            sys.setprofile(prof)
        viol = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                scen.fn(w)
        except Violation as v:
            viol = v
        except PathAbort:
            out["aborted"] += 1
            w.goal_log.clear()
        except (EngineError, Inconclusive) as e:
            out["undecided"].append(f"{type(e).__name__}: {e}")
        except NonFinite as e:
            viol = Violation("nonfinite", w.any_values(), f"non-finite value: {e}")
        except RecursionError as e:
            viol = Violation("exception:RecursionError", w.any_values(), str(e)[:200])
        except Exception as e:  # raised by the code under test
            if w.opts.get("debug"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.relpath(f.filename, REPO)}:{f.lineno}"
                          for f in reversed(tb) if f.filename.startswith(REPO)), "?")
            dead = False
            try:
                w.check_alive("exception")
            except PathAbort:
                dead = True
            except Inconclusive:
                pass
            viol = None if dead else Violation(f"exception:{type(e).__name__}", w.any_values(),
                             f"{type(e).__name__}: {str(e)[:200]} at {where}")
            if viol is not None:
                viol.is_exc = True
            else:
                out["aborted"] += 1
                w.goal_log.clear()
        finally:
            if first:
                sys.setprofile(None)
        out["paths"] += 1
        STATS.paths += 1
        todo.extend(w.alternatives)
        funcs |= w.pyx_functions
        for lab in w.goal_log:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        for a in w.assumed:
            if a not in out["assumptions"]:
                out["assumptions"].append(a)
        out["facts"] = max(out["facts"], len(w.facts))
        if viol is not None:
            if viol.label not in seen_viol:
                seen_viol.add(viol.label)
                out["violations"].append(dict(label=viol.label, values=viol.values,
                                              detail=viol.detail,
                                              graded=getattr(w, "graded", 0),
                                              narrowed=getattr(w, "narrowed", False),
                                              exc=getattr(viol, "is_exc", False)))
            if len(out["violations"]) >= 3 or out["paths"] > 50:
                break
        elif out["sample"] is None and w.goal_log:
            out["sample"] = dict(scenario=scen.name, path=list(map(str, w.trace[:20])),
                                 goals=sorted(set(w.goal_log))[:12],
                                 facts=len(w.facts), inputs=len(w.inputs))
            # vacuity guard: the facts + path of this path must be satisfiable
            if scen.opts.get("witness", True):
                r = _witness(w)
                if r < 0:              # infeasible path: look at another one
                    out["sample"] = None
                    out["dead"] = out.get("dead", 0) + 1
                else:
                    out["witnesses"] += r
    if out["violations"]:
        out["status"] = "violation"
    elif out["undecided"]:
        out["status"] = "undecided"
    elif not out["labels"] or (out["sample"] is None and out.get("dead")):
        out["status"] = "undecided"
        out["undecided"].append("vacuous: no goal reached")
    out["functions"] = sorted(out["functions"])
    return out


def _witness(w):
    """1 if a concrete model of the path's constraints is found quickly."""
    if not w.facts and not w.path:
        return 1
    try:
        v, _ = core.solve(w.facts + w.path, 1500, ("default",) if w.opts.get("bv") else ("nlsat", "default"),
                          want_model=False)
    except Exception:
        return 0
    return {"sat": 1, "unsat": -1}.get(v, 0)


# ---------------------------------------------------------------------------
# concrete world (unmodified package, real numpy / scipy / compiled extension)
# ---------------------------------------------------------------------------

class Skip(Exception):
    pass


class _LazyFuture(concurrent.futures.Future):
    ex = None

    def result(self, timeout=None):
        self.ex.drain()
        return super().result(timeout)

    def exception(self, timeout=None):
        self.ex.drain()
        return super().exception(timeout)


class ordered_threads:
    """Worker tasks run in a chosen order (one possible thread schedule)."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        cf = concurrent.futures
        self.saved = cf.ThreadPoolExecutor, cf.wait, cf.as_completed
        order = self.order

        class Ex:
            def __init__(self, *a, **k):
                self.p = []

            def submit(self, fn, *a, **k):
                f = _LazyFuture()
                f.ex = self
                self.p.append((f, fn, a, k))
                return f

            def map(self, fn, *its, **k):
                fs = [self.submit(fn, *a) for a in zip(*its)]
                return iter([f.result() for f in fs])

            def drain(self):
                p, self.p = self.p, []
                n = list(range(len(p)))
                if order == "reversed":
                    n = n[::-1]
                elif isinstance(order, int) and order < len(n):
                    n = [i for i in n if i != order] + [order]
                for i in n:
                    f, fn, a, k = p[i]
                    try:
                        f.set_result(fn(*a, **k))
                    except Exception as e:  # noqa: BLE001
                        f.set_exception(e)

            def shutdown(self, *a, **k):
                self.drain()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.drain()

        def wait(fs, *a, **k):
            for f in list(fs):
                if isinstance(f, _LazyFuture):
                    f.ex.drain()
            return self.saved[1](fs, *a, **k)

        def as_completed(fs, *a, **k):
            for f in list(fs):
                if isinstance(f, _LazyFuture):
                    f.ex.drain()
            return self.saved[2](fs, *a, **k)
        cf.ThreadPoolExecutor, cf.wait, cf.as_completed = Ex, wait, as_completed

    def __exit__(self, *a):
        cf = concurrent.futures
        cf.ThreadPoolExecutor, cf.wait, cf.as_completed = self.saved


def child_main(path):
    """Body of one of CWorld.in_processes' interpreters."""
    with open(path, "rb") as f:
        d = pickle.load(f)
    cpus = d["cpus"]
    if cpus:
        mp.cpu_count = os.cpu_count = lambda: cpus
        os.sched_getaffinity = lambda pid=0: set(range(cpus))
    w = CWorld(Scenario("child", None, d["opts"], **d["params"]), d["values"], d["seed"])
    np.random.seed(1234 + 77 * d["k"])
    try:
        r = getattr(importlib.import_module(d["mod"]), d["fn"])(w, *d["args"])
    except Exception as e:  # noqa: BLE001
        r = e
    with open(path, "wb") as f:
        pickle.dump(r, f)


class EncodingMismatch(BaseException):
    """The symbolic model and the real build compute different things."""


def _layout(a, k):
    """A copy of a: in C order, in Fortran order, or a strided view."""
    if k % 3 == 1:
        return np.array(a, order="F")
    if k % 3 == 2 and a.ndim:
        b = np.zeros(tuple(2 * n for n in a.shape))
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a.copy()


class CWorld:
    symbolic = False

    def __init__(self, scen, values=None, seed=0, graded=0):
        self.scen = scen
        self.graded = graded
        self.p = self.params = scen.params
        self.opts = scen.opts
        self.values = values or {}
        self.rng = np.random.RandomState(seed % 2**32)
        self.seed = seed
        self.tol = float(scen.opts.get("tol", 1e-7))
        self.checked = 0
        self.named = {}

    def new_process(self, k):
        for m in [m for m in sys.modules if m.split(".")[0] == "tt_sketch"
                  and "fast_lazy" not in m]:
            del sys.modules[m]

    def load(self, name):
        return importlib.import_module(name)

    def in_processes(self, envs, fn, *args):
        ps = []
        for k, cpus in envs:
            f = tempfile.NamedTemporaryFile(dir=os.getcwd(), suffix=".pkl", delete=False)
            pickle.dump(dict(mod=fn.__module__, fn=fn.__name__, args=args, values=self.values,
                             params=self.params, opts=self.opts, seed=self.seed, cpus=cpus, k=k), f)
            f.close()
            env = dict(os.environ, PYTHONHASHSEED=str(k + 1))
            ps.append((f.name, subprocess.Popen(
                [PY, "-c", f"import sys; sys.path[:0] = [{sys.path[0]!r}, {VERIF!r}]; "
                 f"from symtt import engine; engine.child_main(sys.argv[1])", f.name],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        out = []
        for name, p in ps:
            txt, _ = p.communicate(timeout=120)
            try:
                if p.returncode:
                    raise RuntimeError("child process: " + txt.decode(errors="replace")[-300:])
                with open(name, "rb") as f:
                    r = pickle.load(f)
                if isinstance(r, Exception):
                    raise r
                out.append(r)
            finally:
                os.unlink(name)
        return out

    def schedules(self, fn):
        out = [fn()]
        for order in ("fifo", "reversed", 0, 1, 2):
            with ordered_threads(order):
                out.append(fn())
        return out

    def rng_free(self, label, A, B=None):
        self.checked += 1
        A = np.asarray(A, float).reshape(-1)
        if B is None:
            if len(set(A.tolist())) < len(A):
                raise Violation(label, {}, "repeated random numbers")
        elif set(A.tolist()) & set(np.asarray(B, float).reshape(-1).tolist()):
            raise Violation(label, {}, "shared random numbers")

    def normals(self, label, fn, seed, var):
        self.checked += 1
        a = np.concatenate([np.asarray(fn(k), float).reshape(-1) for k in range(seed, seed + _SAMPLES)])
        if not a.size:
            return
        if len(set(a.tolist())) < len(a):
            raise Violation(label, {}, "repeated random numbers")
        z = a / np.sqrt(float(var))
        if abs(np.mean(z)) > 6 / np.sqrt(len(z)) or abs(np.mean(z * z) - 1) > 6 * np.sqrt(2 / len(z)):
            raise Violation(f"{label}: variance", {}, f"mean {np.mean(z)}, variance {np.mean(z * z)} (normalised)")

    def rng_differ(self, label, A, B):
        self.checked += 1
        if np.array_equal(np.asarray(A), np.asarray(B)):
            raise Violation(label, {}, "same random matrix")

    def _val(self, name):
        v = self.values.get(name)
        if v is None:
            return None
        return Fraction(v)

    def real(self, name):
        if ("real", name) not in self.named:
            self.named["real", name] = self._real(name)
        return self.named["real", name]

    def positive(self, name):
        if ("pos", name) not in self.named:
            v = self._val(name)
            self.named["pos", name] = (float(abs(self.rng.standard_normal()) + 0.3)
                                       if v is None else float(v))
        return self.named["pos", name]

    def _real(self, name):
        r = self.rng.standard_normal()
        v = self._val(name)
        return float(r if v is None else v)

    def array(self, name, shape):
        shape = tuple(int(s) for s in shape)
        if (name, shape) in self.named:      # same name = same numbers
            return _layout(self.named[name, shape], self.seed)
        out = self.rng.standard_normal(shape)
        if self.graded and len(shape) >= 2:     # ill-conditioned unfoldings
            q = max(shape[-1] - 1, 1)
            out = out * 10.0 ** (-self.graded * np.arange(shape[-1]) / q)
        self.named[name, shape] = out
        for idx in np.ndindex(*shape):
            v = self._val(name + "[" + ",".join(map(str, idx)) + "]")
            if v is not None:
                out[idx] = float(v)
        return _layout(out, self.seed)

    def const_array(self, name, shape, lo=-3, hi=3):
        rng = np.random.RandomState(
            (core.hash_name(name) + int(self.params.get("seed", 0))) % (2**31))
        vals = rng.randint(1, hi + 1, size=shape) * rng.choice([-1, 1], size=shape)
        return vals.astype(np.float64)

    def int(self, name, lo=None, hi=None):
        lo_, hi_ = (-50 if lo is None else lo), (50 if hi is None else hi)
        r = int(self.rng.randint(lo_, hi_ + 1))
        v = self._val(name)
        return int(r if v is None else v)

    pick = int

    def choose(self, n):
        return 0

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def given(self, label, a, b):
        if not np.allclose(np.asarray(a, float), np.asarray(b, float), atol=1e-8):
            raise Skip()

    def sqrt_(self, x):
        return np.sqrt(x)

    def num(self, x):
        return float(Fraction(x)) if isinstance(x, (str, Fraction)) else float(x)

    def idx(self, a):
        return np.array(a, dtype=np.int64)

    def zeros(self, shape):
        return np.zeros(shape)

    def eye(self, n):
        return np.eye(n)

    def isfinite(self, label, a):
        self.checked += 1
        if not np.all(np.isfinite(np.asarray(a, dtype=float))):
            raise Violation(label, {}, "non-finite values")

    def eq(self, label, a, b, detail=""):
        self.checked += 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation(label + ":shape", {}, f"shape {a.shape} != {b.shape}")
        a = a.astype(np.float64)
        b = b.astype(np.float64)
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            same = np.array_equal(a, b)
            if not same:
                raise Violation(label, {}, f"non-finite: {a.reshape(-1)[:6]} vs {b.reshape(-1)[:6]}")
            return
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-3)
        err = np.max(np.abs(a - b))
        if err > self.tol * scale:
            raise Violation(label, {}, f"max error {err:.3g} at scale {scale:.3g}")

    lemma = eq

    def squares(self, X):
        pass

    def derive(self, label, a, b):
        pass

    def entails(self, label, terms, facts, goal):
        g = goal(*terms)
        if isinstance(g, tuple):
            self.eq(label, *g)
        elif not g:
            # an inequality may be tight
            self.checked += 1

    def attempt(self, fn):
        n = self.checked
        try:
            fn()
            return True
        except Violation:
            return False
        finally:
            self.checked = n

    def free(self, name, shape):
        return self.rng.standard_normal(shape)

    def pinv(self, a):
        return np.linalg.pinv(np.asarray(a, float))

    def concrete_only(self, fn):
        fn()

    # ---- extension module
    def pyx_load(self):
        return importlib.import_module("tt_sketch.drm.fast_lazy_gaussian")

    def u64(self, name, hi=None):
        hi = 2**64 - 1 if hi is None else hi
        r = int(self.rng.randint(0, 2**63 - 1)) * 2 + int(self.rng.randint(0, 2))
        v = self._val(name)
        return np.uint64(r % (hi + 1) if v is None else int(v))

    def i64(self, name, lo, hi):
        r = lo + (int(self.rng.randint(0, 2**62)) % (hi - lo + 1))
        v = self._val(name)
        return int(r if v is None else int(v))

    def pyx_differ(self, a, b):
        if list(map(int, a)) == list(map(int, b)):
            raise Skip()

    def pyx_indices(self, cols, dtype="int64"):
        return np.array([[int(x) for x in c] for c in cols]).astype(dtype).T.copy()

    def pyx_bits(self, cells):
        return np.array([int(x) for x in cells], dtype=np.uint64)

    def pyx_eq(self, label, a, b):
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Violation(label, {}, f"{a.shape} {a.dtype} / {b.shape} {b.dtype}")
        if a.size and not np.array_equal(a.view(a.dtype), b, equal_nan=a.dtype.kind == "f"):
            raise Violation(label, {}, f"{a.reshape(-1)[:4]} / {b.reshape(-1)[:4]}")

    def pyx_isfinite(self, label, a):
        self.isfinite(label, a)

    def pyx_row_weight(self, label, out, nnz):
        self.checked += 1
        out = np.asarray(out)
        if not np.all(np.isin(out, (-1, 0, 1))):
            raise Violation(label, {}, f"entries {out.tolist()}")
        if not np.all(np.count_nonzero(out, axis=1) == nnz):
            raise Violation(label, {}, f"nonzeros {out.tolist()}")

    def pyx_independent(self, label, out, pairs):
        """Listed entries do not use equal randomness."""
        self.checked += 1
        out = np.asarray(out)
        for p, q in pairs:
            if out[p] == out[q]:
                raise Violation(label, {}, f"entries {p} and {q} are both {out[p]!r}")

    def pyx_cross(self, name, out, *args):
        """The interpreter of the .pyx source computes what the compiled code does."""
        w = SWorld(self.scen, [])
        core.set_world(w)
        try:
            a = [pyxint.PNumpy._arr(x) if isinstance(x, np.ndarray) else
                 pyxint.V(pyxint.U64, int(x)) if isinstance(x, np.uint64) else x for x in args]
            r = getattr(pyxint.Module(os.path.join(sys.path[0], pyxint.REL)), name)(*a)
        finally:
            core.set_world(None)
        out = np.asarray(out)
        for i in np.ndindex(*out.shape):
            if r.get(i).sym or r.get(i).v != out[i]:
                raise EncodingMismatch(f"{name}{args}: {r.get(i)} / {out[i]}")

    def pyx_distinct_arrays(self, label, a, b):
        self.checked += 1
        if np.array_equal(np.asarray(a), np.asarray(b)):
            raise Violation(label, {}, f"{np.asarray(a)} / {np.asarray(b)}")

    def pyx_refused(self, label, fn, ok=(ValueError,)):
        """fn (run in a child process) raises `ok`."""
        self.checked += 1
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                try:
                    fn()
                except ok:
                    os._exit(0)
                os._exit(3)
            except BaseException:
                os._exit(4)
        _, st = os.waitpid(pid, 0)
        if st:
            raise Violation(label, {}, f"child ended with status {st}")

    def true(self, label, cond, detail=""):
        self.checked += 1
        if not bool(cond):
            raise Violation(label, {}, detail)

    def le(self, label, a, b, detail=""):
        self.checked += 1
        if not float(a) <= float(b) + 1e-7 * max(abs(float(a)), abs(float(b)), 1e-3):
            raise Violation(label, {}, detail or f"{a} > {b}")

    def raises(self, label, excs, fn):
        self.checked += 1
        try:
            fn()
        except excs:
            return
        raise Violation(label, {}, f"no {excs} raised")

    def reach(self, label):
        pass

    def any_values(self):
        return {}


def run_concrete(scen, values, seed, graded=0, narrowed=False):
    """-> (outcome, label, detail): outcome in ok / skip / fail."""
    w = CWorld(scen, values, seed, graded)
    if narrowed:                # values rounded to a shorter type show at a finer scale
        w.tol = min(w.tol, 1e-9)
    core.set_world(None)
    np.random.seed(seed % 2**32)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            scen.fn(w)
    except Skip:
        return "skip", "", ""
    except Violation as v:
        return "fail", v.label, v.detail
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)
                      if "tt_sketch" in f.filename), "?")
        return "fail", f"exception:{type(e).__name__}", f"{type(e).__name__}: {str(e)[:200]} at {where}"
    return ("ok" if w.checked else "skip"), "", ""


_SAMPLES = 60    # random tensors per statistic, more when a counterexample is replayed


def replay(scen, viol, seed):
    """Replay a counterexample against the real package."""
    global _SAMPLES
    _SAMPLES = 1000
    tries = []
    for k, vals in enumerate([viol["values"], viol["values"], {}, {}, {}]):
        if k and vals is viol["values"] and not vals:
            continue
        o, lab, det = run_concrete(scen, vals, seed + 17 * k, 0, viol.get("narrowed"))
        tries.append((o, lab, det))
        if o == "fail":
            return dict(values=vals, seed=seed + 17 * k, label=lab, detail=det, narrowed=bool(viol.get("narrowed")))
    if viol.get("graded"):
        # the counterexample needs an ill-conditioned input
        for k in range(4):
            o, lab, det = run_concrete(scen, {}, seed + k, viol["graded"])
            if o == "fail":
                return dict(values={}, seed=seed + k, graded=viol["graded"], label=lab, detail=det)
    return None


# ---------------------------------------------------------------------------
# scratch build of the real package
# ---------------------------------------------------------------------------

_BUILD = """
import os, sys
os.chdir(sys.argv[1])
import numpy as np, setuptools
from setuptools import Extension, Distribution
from Cython.Build import cythonize
ext = Extension("tt_sketch.drm.fast_lazy_gaussian",
    [os.path.join("tt_sketch","drm","fast_lazy_gaussian.pyx")],
    include_dirs=[np.get_include(), "tt_sketch/drm"],
    extra_compile_args=["-fopenmp", "-O1"], extra_link_args=["-fopenmp"])
from Cython.Distutils import build_ext
d = Distribution({"name": "tt_sketch", "ext_modules": cythonize([ext], quiet=True)})
cmd = build_ext(d); cmd.inplace = 1; cmd.ensure_finalized(); cmd.run()
"""

PY = "/opt/venv/bin/python"


def start_build(dst, checked=False):
    """Copy the package to dst and compile the extension there (background).

    checked: compile with Cython's bounds checks switched on everywhere, so
    that an out-of-range access found by the solver shows on the real build."""
    shutil.copytree(os.path.join(REPO, "tt_sketch"), os.path.join(dst, "tt_sketch"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "*.html", "__pycache__"))
    if checked:
        for base, _, files in os.walk(os.path.join(dst, "tt_sketch")):
            for f in files:
                if f.endswith(".pyx"):
                    path = os.path.join(base, f)
                    src = open(path).read()
                    src = src.replace("boundscheck(False)", "boundscheck(True)")
                    src = src.replace("boundscheck=False", "boundscheck=True")
                    open(path, "w").write(src)
    if os.path.isdir(os.path.join(REPO, "scripts")):
        os.makedirs(os.path.join(dst, "scripts"), exist_ok=True)
        for f in os.listdir(os.path.join(REPO, "scripts")):
            if f.endswith(".py"):
                shutil.copy(os.path.join(REPO, "scripts", f), os.path.join(dst, "scripts", f))
    log = open(os.path.join(dst, "build.log"), "w")
    return subprocess.Popen([PY, "-c", _BUILD, dst], stdout=log, stderr=log)


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------

def _sym_worker(scen, conn, limit, mem_gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        STATS.__init__()
        t0 = time.time()
        out = explore(scen, scen.opts.get("max_paths", 4000), time.time() + limit)
        out["stats"] = STATS.asdict()
        out["wall"] = time.time() - t0
        conn.send(out)
    except MemoryError:
        conn.send(dict(status="undecided", undecided=["memory limit"], violations=[]))
    except BaseException as e:
        conn.send(dict(status="undecided", violations=[],
                       undecided=[f"engine crash {type(e).__name__}: {e}\n" +
                                  traceback.format_exc()[-1500:]]))
    finally:
        conn.close()


def run_symbolic(scens, limit, jobs=8, mem_gb=3.5, verbose=False):
    """Run scenarios in forked workers; returns {index: result}."""
    ctx = mp.get_context("fork")
    pending = sorted(range(len(scens)),
                     key=lambda i: -float(scens[i].opts.get("weight", 1)))
    running = {}
    results = {}
    t_start, found = time.time(), 0
    while pending or running:
        if found >= 8 and time.time() - t_start > 120:
            # plenty of counterexamples: on to replaying them
            for i in list(running):
                if time.time() - running[i][2] > 30 or time.time() - t_start > 200:
                    p, a, t0, lim = running.pop(i)
                    p.kill()
                    p.join(5)
                    results[i] = dict(status="undecided", violations=[],
                                      undecided=["stopped, violations were found elsewhere"])
            for i in pending:
                results[i] = dict(status="undecided", violations=[],
                                  undecided=["not run, violations were found elsewhere"])
            pending = []
            if not running:
                break
        while pending and len(running) < jobs:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            lim = scens[i].opts.get("limit", limit)
            p = ctx.Process(target=_sym_worker, args=(scens[i], b, lim, mem_gb))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), lim)
        ready = mp.connection.wait([r[1] for r in running.values()], timeout=0.5)
        for i in list(running):
            p, a, t0, lim = running[i]
            done = None
            if a in ready:
                try:
                    done = a.recv()
                except EOFError:
                    done = dict(status="undecided", undecided=["worker died"], violations=[])
            elif time.time() - t0 > lim * 1.5 + 10:
                done = dict(status="undecided", undecided=["hard time limit"], violations=[])
                p.kill()
            if done is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                done.setdefault("wall", time.time() - t0)
                results[i] = done
                del running[i]
                found += any(not (v.get("exc") or v.get("graded")) for v in done["violations"])
                if verbose:
                    print(f"  [{done['status']:9}] {scens[i].name} "
                          f"{done.get('wall', 0):.1f}s paths={done.get('paths')} "
                          f"{[v['label'] + ' ' + v['detail'] for v in done['violations']]} "
                          f"{done['undecided'][:2]}", flush=True)
    return results


def concrete_main(argv):
    """Subprocess: real package. argv: check-module tier scratch jobfile outfile"""
    mod, tier, scratch, job, outp = argv
    sys.path.insert(0, scratch)
    import tt_sketch
    if os.path.dirname(os.path.dirname(tt_sketch.__file__)) != scratch:
        # the editable install must not shadow the scratch copy
        raise SystemExit(f"wrong package {tt_sketch.__file__}")
    for m in [m for m in sys.modules if m.split(".")[0] == "tt_sketch"]:
        del sys.modules[m]
    chk = importlib.import_module("checks." + mod)
    scens = {s.name: s for s in chk.scenarios(tier)}
    todo = json.load(open(job))
    res = []
    t0, failed = time.time(), 0
    for t in todo:
        s = scens[t["scenario"]]
        global _SAMPLES
        if failed >= 3 and time.time() - t0 > 20:      # enough confirmed
            res.append(dict(skipped=True))
            continue
        if t["kind"] == "validate":
            _SAMPLES = 60
            r = dict(ok=0, skip=0, fail=None)
            for k in range(t["n"]):
                try:
                    o, lab, det = run_concrete(s, {}, t["seed"] + k)
                except EncodingMismatch as e:
                    r = dict(error=f"encoding mismatch: {e}")
                    break
                if o == "fail":
                    # must fail for other data too before it is believed
                    again = [run_concrete(s, {}, t["seed"] + 1000 + j)[0] for j in range(2)]
                    if "fail" in again or lab.startswith("exception"):
                        r["fail"] = dict(values={}, seed=t["seed"] + k, label=lab, detail=det)
                        break
                else:
                    r[o] += 1
            res.append(r)
            failed += r.get("fail") is not None
        else:
            res.append(replay(s, t["viol"], t["seed"]))
            failed += res[-1] is not None
        with open(outp + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(outp + ".tmp", outp + ".part")
    with open(outp, "w") as f:
        json.dump(res, f)


def concrete_run(mod, tier, scratch, jobs, timeout=600, procs=4):
    """Distribute concrete jobs over subprocesses of the real package."""
    if not jobs:
        return []
    n = min(procs, len(jobs))
    chunks = [list(range(k, len(jobs), n)) for k in range(n)]
    ps = []
    for k, ch in enumerate(chunks):
        jf = os.path.join(scratch, f"job{k}.json")
        of = os.path.join(scratch, f"out{k}.json")
        if os.path.exists(of):
            os.unlink(of)
        json.dump([jobs[i] for i in ch], open(jf, "w"))
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        ps.append((subprocess.Popen(
            [PY, "-c", f"import sys; sys.path.insert(0,{VERIF!r}); "
             f"from symtt import engine; engine.concrete_main(sys.argv[1:])",
             mod, tier, scratch, jf, of], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, cwd=scratch), of, ch))
    res = [None] * len(jobs)
    t0 = time.time()
    for p, of, ch in ps:
        try:
            out, _ = p.communicate(timeout=max(5, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            out = b"timeout"
        if os.path.exists(of):
            for i, r in zip(ch, json.load(open(of))):
                res[i] = r
        elif out == b"timeout" and os.path.exists(of + ".part"):
            part = json.load(open(of + ".part"))
            for i in ch:
                res[i] = dict(skipped=True)
            for i, r in zip(ch, part):
                res[i] = r
            if not any(r and ("values" in r or r.get("fail")) for r in part):
                for i in ch[len(part):]:
                    res[i] = dict(error="timeout")
        else:
            tail = out.decode(errors="replace")[-1500:]
            for i in ch:
                res[i] = dict(error=tail)
    return res


# ---------------------------------------------------------------------------
# top level
# ---------------------------------------------------------------------------

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:4] if "=" in x)
                if d.get("property") == prop:
                    d["text"] = line
                    out.append(d)
    return out


def run_check(modname, tier, verbose=False, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = importlib.import_module("checks." + modname)
    prop = chk.PROPERTY
    scens = list(chk.scenarios(tier))
    if only:
        scens = [s for s in scens if only in s.name]
    assert len({s.name for s in scens}) == len(scens), "duplicate scenario names"
    scratch = tempfile.mkdtemp(prefix=f"symtt_{prop}_")
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rc = 0
    lines = []
    try:
        build = start_build(scratch, getattr(chk, "CHECKED_BUILD", False))
        limit = getattr(chk, "LIMIT", {}).get(tier, 120 if tier == "quick" else 500)
        results = run_symbolic(scens, limit, jobs=int(os.environ.get("SYMTT_JOBS", "8")),
                               verbose=verbose)
        build_err = None
        if build is not None:
            if build.wait() != 0:
                build_err = open(os.path.join(scratch, "build.log")).read()[-800:]
        # --- concrete jobs: encoding validation + counterexample replay
        jobs, meta = [], []
        for i, s in enumerate(scens):
            if s.concrete:
                jobs.append(dict(kind="validate", scenario=s.name, seed=seed * 101 + i,
                                 n=s.opts.get("nval", 2)))
                meta.append((i, None))
            for k, v in enumerate(results[i]["violations"]):
                if s.concrete:
                    jobs.append(dict(kind="replay", scenario=s.name, seed=seed * 7 + i, viol=v))
                    meta.append((i, k))
        extra = getattr(chk, "extra", None)
        cres = concrete_run(modname, tier, scratch, jobs,
                            timeout=250 if tier == "quick" else 500) if build_err is None else \
            [dict(error=build_err)] * len(jobs)
        validated = 0
        confirmed = []      # (scenario, label, detail, replay-dict)
        unconfirmed = []
        undecided = []
        cerrors = []
        for (i, k), r in zip(meta, cres):
            s = scens[i]
            if r is not None and r.get("skipped"):
                undecided.append(f"{s.name}: not run on the real build, other violations are confirmed")
                continue
            if r is not None and "error" in r:
                cerrors.append(f"{s.name}: {r['error']}")
                continue
            if k is None:
                validated += r["ok"]
                if r["fail"]:
                    confirmed.append((i, r["fail"]["label"], r["fail"]["detail"], r["fail"]))
            else:
                v = results[i]["violations"][k]
                if r is None:
                    unconfirmed.append((i, v))
                else:
                    confirmed.append((i, v["label"], v["detail"] + " | real build: " +
                                      r["label"] + " " + r["detail"], r))
        extra_out = None
        if extra is not None and not only:
            extra_out = extra(tier, scratch, seed)
            for v in extra_out.get("violations", []):
                confirmed.append((None, v["label"], v["detail"], v))
            undecided += extra_out.get("undecided", [])
            validated += extra_out.get("validated", 0)
        conf_scen = {c[0] for c in confirmed}
        for i, s in enumerate(scens):
            if results[i]["status"] == "undecided":
                undecided.append(f"{s.name}: {'; '.join(map(str, results[i]['undecided'][:2]))}")
        # an exception the real build does not raise is an engine limitation
        hard_unconf = []
        for i, v in unconfirmed:
            if i in conf_scen:
                continue
            txt = f"{scens[i].name}: counterexample for {v['label']} not reproduced ({v['detail']})"
            if v.get("exc") or v.get("graded") or v.get("narrowed"):
                undecided.append(txt)
            else:
                hard_unconf.append(txt)
        known = known_findings(prop)
        nviol = 0
        seen = set()
        for i, label, detail, rep in confirmed:
            name = scens[i].name if i is not None else rep.get("scenario", "extra")
            hit = next((f for f in known if f.get("scenario") == name and f.get("label") == label), None)
            if hit:
                lines.append(f"KNOWN-FINDING: property={prop} {hit['text']}")
                continue
            if (name) in seen:
                continue
            seen.add(name)
            path = os.path.join(ev_dir, f"{prop}.replay{nviol}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, module=modname, tier=tier, scenario=name,
                               label=label, detail=detail, **{k: rep[k] for k in rep
                               if k not in ("label", "detail", "scenario")}),
                          f, indent=1, default=str)
            nviol += 1
            if nviol <= 5:
                lines.append(f"  {name}: {label}: {detail}")
                lines.append(f"VIOLATION property={prop} replay={path}")
        # --- evidence
        tot = core.Stats()
        for r in results.values():
            if "stats" in r:
                tot.merge(r["stats"])
        if extra_out and "stats" in extra_out:
            tot.merge(extra_out["stats"])
        funcs, assumptions, labels, samples = set(), [], {}, []
        wit = 0
        for i, r in results.items():
            funcs |= set(r.get("functions", []))
            wit += r.get("witnesses", 0)
            for a in r.get("assumptions", []):
                if a not in assumptions:
                    assumptions.append(a)
            for lab, n in r.get("labels", {}).items():
                labels[lab] = labels.get(lab, 0) + n
            if r.get("sample") and len(samples) < 8:
                samples.append(r["sample"])
        if extra_out:
            funcs |= set(extra_out.get("functions", []))
            assumptions += extra_out.get("assumptions", [])
            samples += extra_out.get("samples", [])[:6]
        decided = sum(1 for r in results.values() if r["status"] == "ok")
        n_units = len(scens) + (extra_out or {}).get("units", 0)
        decided += (extra_out or {}).get("units_ok", 0)
        cov = dict(
            states=tot.paths, transitions=tot.queries + tot.feas,
            traces_validated_against_impl=validated, samples=samples,
            scenarios=n_units, scenarios_decided=decided,
            undecided=undecided, not_reproduced=hard_unconf,
            functions_encoded=sorted(funcs), bounds=getattr(chk, "BOUNDS", {}).get(tier, ""),
            goal_queries=tot.queries, unsat=tot.unsat, sat=tot.sat, unknown=tot.unknown,
            feasibility_queries=tot.feas, branches=tot.branches, solver_s=round(tot.solver_s, 2),
            goals_by_label=labels, satisfiable_witnesses=wit,
            meaning="states = feasible symbolic paths executed to the end; transitions = SMT "
                    "queries discharged (goals + branch feasibility); traces_validated = concrete "
                    "executions of the unmodified build on which the same harness held")
        if extra_out and "coverage" in extra_out:
            cov.update(extra_out["coverage"])
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=cov, assumptions=list(getattr(chk, "ASSUMPTIONS", [])) + assumptions,
                  wall_s=round(time.time() - t0, 2), violations=nviol)
        if not only:
            with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for u in undecided[:6]:
            lines.append(f"UNDECIDED {u[:600]}")
        for u in hard_unconf[:6]:
            lines.append(f"NOT-REPRODUCED {u[:600]}")
        for u in cerrors[:3]:
            lines.append(f"CONCRETE-ERROR {u[:1500]}")
        if nviol:
            rc = 1
        elif cerrors or hard_unconf or decided < max(1, (n_units + 1) // 2):
            rc = 2
        lines.append(f"{prop} {tier}: {decided}/{n_units} scenarios decided, "
                     f"{tot.paths} paths, {tot.queries} goal queries, solver {tot.solver_s:.1f}s, "
                     f"{validated} real-build runs, {nviol} violations, wall {time.time()-t0:.1f}s")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("\n".join(lines), flush=True)
    return rc


def run_replay(path):
    d = json.load(open(path))
    chk = importlib.import_module("checks." + d["module"])
    scratch = tempfile.mkdtemp(prefix="symtt_replay_")
    try:
        b = start_build(scratch, getattr(chk, "CHECKED_BUILD", False))
        b.wait()
        if "values" not in d or not any(s.name == d["scenario"] for s in chk.scenarios(d["tier"])):
            print(json.dumps(d, indent=1))
            if hasattr(chk, "replay_extra"):
                return chk.replay_extra(d, scratch)
            return 1
        sys.path.insert(0, scratch)
        s = {s.name: s for s in chk.scenarios(d["tier"])}[d["scenario"]]
        global _SAMPLES
        _SAMPLES = 1000
        o = run_concrete(s, d["values"], d["seed"], d.get("graded", 0), d.get("narrowed", False))
        print(o)
        return 1 if o[0] == "fail" else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return run_replay(a.replay)
    return run_check(a.id, a.tier, a.v, a.only)
