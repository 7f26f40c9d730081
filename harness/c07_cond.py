"""C07: conditional playback plays its body exactly when the acquisition says so, in the same time."""

from __future__ import annotations

from harness.tree import *
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile (conditional playback pass, latch resets, control flow insertion, program assembly)",
    "FeedbackTriggerCondition / ConditionalManager / QASMProgram.conditional",
]


def cond(ctx, layouts, reps, count, gap, acq=("thr",)):
    kind = ctx.choice("acq", acq)
    cfg = QTM_CFG if kind.startswith("qtm") else TTL_CFG if kind.startswith("ttl") else TREE_CFG
    check(ctx, ctx.choice("layout", layouts), reps, gap, count, cfg, acq=kind)


def HARNESSES(tier):
    one = [[{"q0": ["a"]}], [{"q0": ["a", "b"]}, "a"], [{"q0": ["a"]}, "b", "a"], ["a", {"q0": [("a", "a")]}]]
    two = [[{"q0": ["a"]}, {"q1": ["a", "b"]}], [{"q0": ["a"]}, {"q0": ["b"]}]]
    lp = [[[{"q0": ["a"]}, "-"]], [{"q0": [["a"]]}], [{"q0": [["a", "b"], "a"]}]]
    b = "gaps 4..20000 ns, every outcome of every acquisition"
    return [
        H("one", cond, FUNCS, f"layouts {one}; repetitions 1, 2; {b}", dict(layouts=one, reps=(1, 2), count=2, gap=(4, 20000)), ("end", "taken", "skipped")),
        H("two", cond, FUNCS, f"layouts {two}; {b}", dict(layouts=two, reps=1, count=2, gap=(4, 20000)), ("end", "taken", "skipped")),
        H("loops", cond, FUNCS, f"layouts {lp}; loop count 2; {b}", dict(layouts=lp, reps=1, count=2, gap=(4, 20000)), ("end", "taken", "skipped")),
        H(
            "protocols",
            cond,
            FUNCS,
            f"layouts {one[:2]} with weighted thresholded acquisitions and trigger counts of 0..8 against a threshold "
            f"of 4 in either direction, on QRM and QTM; {b}",
            dict(layouts=one[:2], reps=1, count=2, gap=(4, 20000), acq=("weighted", "ttl_ge", "ttl_lt", "qtm_ge", "qtm_lt")),
            ("end", "taken", "skipped"),
        ),
    ]
