"""Runs the harnesses of one property, replays counterexamples, writes evidence."""

from __future__ import annotations

import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


@dataclass
class H:
    """One harness: a function over a ctx, executed symbolically."""

    name: str
    fn: object
    encodes: list  # functions of /repo executed symbolically
    bounds: str
    params: dict = field(default_factory=dict)
    covers: tuple = ()
    opts: dict = field(default_factory=dict)
    thorough_only: bool = False
    known: dict = field(default_factory=dict)

    def bind(self):
        p = self.params
        fn = self.fn
        return (lambda ctx: fn(ctx, **p)) if p else fn


# ------------------------------------------------------------------ replay server
def _run_concrete(fn, inputs):
    from .ctx import CheckFailed, ConcreteCtx, Diverged, Skip

    ctx = ConcreteCtx(inputs)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(ctx)
    except Skip:
        return "skip", {"why": "inputs leave the assumed region"}
    except Diverged as c:
        return "pass", {"why": f"replay continues past the symbolic path (needs input {c})"}
    except CheckFailed as c:
        return "violation", {"label": c.label, "detail": str(c.detail)[:2000]}
    except Exception as e:  # noqa: BLE001
        return "violation", {
            "label": "no unexpected exception",
            "detail": f"{type(e).__name__}: {str(e)[:600]}\n{traceback.format_exc(limit=-5)[-1500:]}",
        }
    return "pass", {"checks": ctx.checks}


def _replay_server(conn, fn):
    """Clean process (no shims): one fork per request so that no state leaks."""
    while True:
        try:
            inputs = conn.recv()
        except EOFError:
            os._exit(0)
        if inputs is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(60)
            res = _run_concrete(fn, inputs)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res, default=str))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, how = os.waitpid(pid, 0)
        if not data and os.WIFSIGNALED(how) and os.WTERMSIG(how) == signal.SIGALRM:
            conn.send(["timeout", {"label": "the code ends", "detail": "still running after 60 s"}])
            continue
        conn.send(json.loads(data) if data else ["error", {"detail": "replay process died"}])


def _worker(h: H, opts, out):
    sys.setrecursionlimit(20000)
    fn = h.bind()
    pa, ch = mp.Pipe()
    srv = os.fork()
    if srv == 0:
        pa.close()
        try:
            _replay_server(ch, fn)
        finally:
            os._exit(0)
    ch.close()

    def replay(inputs):
        # not interrupted by the time limit of a path: request and answer stay in step
        signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGALRM})
        try:
            pa.send(inputs)
            st, info = pa.recv()
        finally:
            signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGALRM})
        return st, info

    res = {"name": h.name}
    try:
        from . import shims
        from .ctx import SymCtx
        from .engine import Engine

        shims.install()
        e = Engine(h.name, replay, opts)
        with contextlib.redirect_stdout(io.StringIO()):
            e.run(fn, SymCtx())
        res["stats"] = e.stats()
        res["violations"] = [
            {"label": v.label, "inputs": v.inputs, "detail": v.detail} for v in e.violations
        ]
        res["unconfirmed"] = [
            {"label": a, "inputs": b, "detail": c} for a, b, c in e.unconfirmed[:10]
        ]
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    finally:
        try:
            pa.send(None)
        except Exception:  # noqa: BLE001
            pass
        try:
            os.kill(srv, signal.SIGKILL)
            os.waitpid(srv, 0)
        except OSError:
            pass
    out.send(res)
    out.close()


def run_all(hs, tier, seed, jobs=8, budget=800):
    ctxm = mp.get_context("fork")
    t0 = time.time()
    pending = list(hs)
    pending.sort(key=lambda h: -h.opts.get("weight", 1))
    running, results = [], {}
    while pending or running:
        while pending and len(running) < jobs:
            h = pending.pop(0)
            left = budget - (time.time() - t0)
            opts = {"time": max(5, min(h.opts.get("time", 700 if tier == "thorough" else 500), left)), "seed": seed, "path": 400 if tier == "thorough" else 100}
            opts.update({k: v for k, v in h.opts.items() if k not in ("time", "weight")})
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_worker, args=(h, opts, w))
            p.start()
            w.close()
            running.append((h, p, r, time.time()))
        for item in list(running):
            h, p, r, t = item
            if r.poll(0.02):
                try:
                    results[h.name] = r.recv()
                except EOFError:
                    results[h.name] = {"name": h.name, "error": "harness process died"}
                p.join(10)
                if p.is_alive():
                    p.kill()
                results[h.name]["wall"] = round(time.time() - t, 2)
                running.remove(item)
            elif not p.is_alive():
                results[h.name] = {"name": h.name, "error": f"harness process died ({p.exitcode})"}
                running.remove(item)
            elif time.time() - t0 > budget + 60:
                p.kill()
                results[h.name] = {"name": h.name, "error": "overall time limit"}
                running.remove(item)
    return results


def known_findings(prop):
    out = []
    p = ROOT / "known_findings.jsonl"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status", "known") == "known":
                    out.append(d)
    return out


def main(prop, tier, seed, module, only=None, verbose=False):
    t0 = time.time()
    mod = importlib.import_module(f"harness.{module}")
    hs = [h for h in mod.HARNESSES(tier) if tier == "thorough" or not h.thorough_only]
    if only:
        hs = [h for h in hs if any(o in h.name for o in only)]
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    res = run_all(hs, tier, seed)
    wall = time.time() - t0

    errors, viols, incomplete, per = [], [], [], []
    tot = dict(paths=0, queries=0, obligations=0, discharged=0, unsat=0, sat=0, unknown=0)
    solver_s = 0.0
    for h in hs:
        r = res[h.name]
        if "error" in r:
            errors.append(f"{h.name}: {r['error'].strip().splitlines()[-1]}")
            per.append({"harness": h.name, "error": r["error"][-1500:]})
            if verbose:
                print(r["error"])
            continue
        st = r["stats"]
        st["wall_s"] = r["wall"]
        st["bounds"] = h.bounds
        st["encodes"] = h.encodes
        per.append(st)
        for k in tot:
            tot[k] += st[k]
        solver_s += st["solver_s"]
        for v in r["violations"]:
            viols.append((h, v))
        for u in r["unconfirmed"]:
            if not any(v["label"] == u["label"] for v in r["violations"]):
                errors.append(
                    f"{h.name}: counterexample to '{u['label']}' did not reproduce on the real code: "
                    f"{u['inputs']} :: {u['detail'][-300:]}"
                )
        if st["truncated"] and not r["violations"]:
            incomplete.append(f"{h.name}: {st['truncated']}")
        if st["inconclusive"]:
            incomplete.append(f"{h.name}: {st['inconclusive'][0]}")
        if st["spurious"]:
            incomplete.append(
                f"{h.name}: {len(st['spurious'])} counterexample(s) of the over-approximation did not "
                f"reproduce on the real code, e.g. {st['spurious'][0][-700:]}"
            )
        if st["concretised"]:
            incomplete.append(f"{h.name}: concretised {st['concretised']}")
        if not r["violations"] and not st["truncated"]:
            for c in h.covers:
                if not st["covers"].get(c):
                    errors.append(f"{h.name}: vacuous: witness '{c}' never reached")
            if st["obligations"] == 0:
                errors.append(f"{h.name}: vacuous: no obligation reached")
        if verbose:
            print(
                f"{h.name:44s} paths={st['paths']:6d} q={st['queries']:7d} obl={st['discharged']}/{st['obligations']}"
                f" solver={st['solver_s']:.1f}s wall={r['wall']}s {st['truncated'] or ''} {st['concretised'] or ''} {[k for k, v in st['covers'].items() if not v]}"
            )

    kf = known_findings(prop)
    new, hit = [], {}
    for h, v in viols:
        k = next(
            (
                f
                for f in kf
                if f["harness"] == h.name and f["label"] == v["label"] and _matches(f, v["inputs"])
            ),
            None,
        )
        if k:
            hit[k["id"]] = k
        else:
            new.append((h, v))
    for f in kf:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")

    funcs = sorted({f for h in hs for f in h.encodes})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Bounded symbolic execution of the real functions listed in functions_encoded "
                "(imported from /repo on this run and executed with z3-backed values; every feasible "
                "path inside the stated bounds is enumerated by the solver, every assertion is decided "
                "by z3 for all values of the symbolic inputs on that path). 'discharged' obligations "
                "are unsat answers for the negated assertion (or reduced to true by exact linear "
                "arithmetic). Nothing is claimed outside the bounds."
            ),
            "exhaustive_within_bounds": not incomplete and not errors,
            "functions_encoded": funcs,
            "harnesses": per,
            "paths": tot["paths"],
            "queries": tot["queries"],
            "unsat": tot["unsat"],
            "sat": tot["sat"],
            "unknown": tot["unknown"],
            "obligations": tot["obligations"],
            "discharged": tot["discharged"],
            "solver_s": round(solver_s, 2),
            "incomplete": incomplete,
            "errors": errors[:20],
            "known_findings": [f["id"] for f in kf],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))

    for s in incomplete:
        print(f"INCOMPLETE {s}")
    if new:
        rd = ROOT / "evidence" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        for i, (h, v) in enumerate(new):
            path = rd / f"{prop}_{i}.json"
            path.write_text(
                json.dumps(
                    {"property": prop, "module": module, "tier": tier, "harness": h.name, **v}, indent=1, default=str
                )
            )
            print(f"# {h.name}: {v['label']}: inputs={v['inputs']}")
            print(f"# {str(v['detail'])[-1200:]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for s in errors:
        print(f"ERROR {s}")
    if errors and (os.environ.get("VERIF_STRICT") or not tot["discharged"]):
        # outside --strict, a harness that could not be decided is reported above and in the
        # evidence as not explored; what the other harnesses explored still stands
        return 2
    print(
        f"OK property={prop} harnesses={len(hs)} paths={tot['paths']} queries={tot['queries']} "
        f"obligations={tot['discharged']}/{tot['obligations']} solver={solver_s:.1f}s wall={wall:.1f}s"
    )
    return 0


def _matches(f, inputs):
    """A known finding names the exact inputs (or a subset of them) that fail."""
    return all(inputs.get(k) == v for k, v in f.get("inputs", {}).items())


COMMON_ASSUMPTIONS = [
    "floating point: every operation is exact up to a relative error 2^-53 of the largest magnitude in "
    "the stated input ranges (sound over-approximation of IEEE-754 round-to-nearest; no overflow, "
    "underflow, NaN or infinity inside the ranges)",
    "operation hashes of symbolic parameters are taken to differ when the parameter terms differ "
    "(except in the harnesses about hashing)",
    "trusted: z3, CPython, the proxy layer in /verif/symx (counterexamples are replayed on the "
    "unmodified code before being reported)",
]


def replay_file(path):
    d = json.loads(Path(path).read_text())
    mod = importlib.import_module(f"harness.{d['module']}")
    h = next(h for h in mod.HARNESSES(d.get("tier", "thorough")) if h.name == d["harness"])
    st, info = _run_concrete(h.bind(), d["inputs"])
    print(st, json.dumps(info, indent=1, default=str))
    return 1 if st == "violation" else 0
