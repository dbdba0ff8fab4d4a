"""C22: inconsistent dimensions are always rejected"""
import dimdrv as dd

MC = """CONSTANTS MaxD = %d
SPECIFICATION Spec
VIEW View
INVARIANTS Sound
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCDims", MC % (ctx.scale(2, 3), ""))
    ctx.mc("MCDims", (MC % (1, "")).replace("VIEW View\n", "").replace("Sound", "Sound Decides"))
    for d, w in (("RowsOnly", "columns never compared"), ("ColsAtOnce", "square matrices not compared with themselves"), ("ZeroFree", "empty matrices not compared")):
        ctx.broken("MCDims", MC % (2, "CONSTANT Accept1 <- %s\n" % d), w)
    hs = ctx.gen("GenDims", dd.GEN % (2, 3, ctx.scale(12, 60), ctx.scale(1, 0)), num=1, shards=1)
    cs = [{"kind": h["kind"], "sh": h["sh"][k:k + 400], "seed": ctx.rng.randrange(10 ** 6), "cc": i % ctx.scale(6, 2) == 0}
          for i, h in enumerate(hs) for k in range(0, len(h["sh"]), 400)]
    ctx.judge("DimsTrace", cs, ctx.drive(dd.replay, cs), dd.CFG, keyf=dd.keyf)
