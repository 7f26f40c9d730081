"""C06: loops and repetitions play their body exactly as often as asked, back to back."""

from __future__ import annotations

from harness.tree import *
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile (loop compilation, control flow insertion, sequencer program assembly)",
    "LoopOperation, QASMProgram.loop / auto_wait, control flow strategies",
]


def loops(ctx, layouts, reps, count, gap):
    check(ctx, ctx.choice("layout", layouts), reps, gap, count, TREE_CFG)


def HARNESSES(tier):
    flat = [["a"], ["a", "b"], [["a"]], ["b", ["a"]], [["a"], "a"], [["a", "b"], "b"], [("a",), ["b"]], [[["a"]]]]
    nest = [[["a", ["b"]], "a"], ["a", [["a"], ["b"]]], [["-", ["a"]], ["b"]], ([["a"], "a"], "b")]
    deep = [[[["a"], "b"], "a"], [["a", ["b", ["a"]]]], [[("a", ["b"]), ["-", "a"]], "b"], [["a"], ["b"], ["a"]]]
    b = "gaps 4..20000 ns"
    return [
        H("flat", loops, FUNCS, f"layouts {flat}; loop counts 3, repetitions 1, 2, 3; {b}", dict(layouts=flat, reps=(1, 2, 3), count=3, gap=(4, 20000)), ("end",)),
        H("nested", loops, FUNCS, f"layouts {nest}; loop counts 2, repetitions 1, 2; {b}", dict(layouts=nest, reps=(1, 2), count=2, gap=(4, 20000)), ("end",)),
        H("counts", loops, FUNCS, f"one loop, counts 1, 2, 5, 17; {b}", dict(layouts=[[["a"]], [["a", "b"]]], reps=(1, 2), count=(1, 2, 5, 17), gap=(4, 20000)), ("end",)),
        H("long", loops, FUNCS, "pauses 100..200000 ns inside and around a loop", dict(layouts=[["-", ["-", "a"]], [["a"], "b"]], reps=(2,), count=2, gap=(100, 200000)), ("end",)),
        H("depth4", loops, FUNCS, f"four and five nested loops with and without pulses between, repetitions 1, 2; {b}", dict(layouts=[[[["a", [["a"], "b"]]]], [[[["a"]]], "b"], [["-", [["-", [["a"], "a"]]]]], [[[[["a"]]]], "b"]], reps=(1, 2), count=2, gap=(4, 20000)), ("end",)),
        H("deep", loops, FUNCS, f"layouts {deep}; {b}", dict(layouts=deep, reps=(1, 2), count=(2, 3), gap=(4, 20000)), ("end",), thorough_only=True),
    ]
