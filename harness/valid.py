"""What the instrument demands of a compiled sequencer, whatever it is meant to play."""

from __future__ import annotations

from harness.hw import sequencers
from symx import q1asm

MEM = {"QCM": 16384, "QRM": 16384, "QTM": 0}


def valid(ctx, compiled, triggers=None, cluster="c0", max_instr=12288):
    for key, st in sequencers(compiled, cluster).items():
        seq = st.sequence
        p = q1asm.Program(ctx, seq["program"])
        ctx.check(len(p.code) <= max_instr, "the program fits the instruction memory")
        for cond, text in p.immediates_ok():
            ctx.check(cond, "every immediate operand is one the instrument accepts", text)
        tr = q1asm.run(ctx, p, triggers)
        ctx.check(tr.stopped, "the program stops")
        ctx.check(not tr.hazards, "registers are written before they are read", lambda: tr.hazards)
        for what, n in (("waveforms", 16384), ("weights", 16384)):
            w = seq.get(what) or {}
            idx = [v["index"] for v in w.values()]
            ctx.check(len(set(idx)) == len(idx), f"{what} have distinct indices")
            ctx.check(all(0 <= i < 1024 for i in idx), f"{what} indices exist")
            ctx.check(sum(len(v["data"]) for v in w.values()) <= n, f"{what} fit the memory")
            for v in w.values():
                for x in v["data"]:
                    if x is not None and not isinstance(x, (int,)):
                        if type(x) is float:
                            ctx.check(-1 <= x <= 1, f"{what} samples are within the range of the memory", lambda: x)
                        else:
                            ctx.check(ctx.And(x >= -1, x <= 1), f"{what} samples are within the range of the memory")
        W = {v["index"] for v in (seq.get("waveforms") or {}).values()}
        G = {v["index"] for v in (seq.get("weights") or {}).values()}
        A = {int(v["index"]): int(v["num_bins"]) for v in (seq.get("acquisitions") or {}).values()}
        for e in tr.events:
            if e.kind == "play":
                ctx.check(all(int(a) in W for a in e.args[:2]), "played waveforms exist")
            if e.kind.startswith("acquire"):
                ctx.check(int(e.args[0]) in A, "acquisitions are declared")
                ctx.check(0 <= int(e.args[1]) < A[int(e.args[0])], "bins are declared", lambda: (e, A))
            if e.kind == "acquire_weighed":
                ctx.check(all(int(a) in G for a in e.args[2:4]), "integration weights exist")
