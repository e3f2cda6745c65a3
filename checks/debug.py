"""Checks of the debugger."""
from vlib import *
from checks.lite import files


def d01(r):
    n = r.scale(2, 3)
    r.explore("debug", "DebugGen", env=dict(LEN=n, OUT=r.path("gen.ndjson")), workers=1, minstates=r.scale(800, 20000))
    b = build_harness("debugdrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "prefix=gen", "gen=" + r.path("gen.ndjson"), "oneof=%d" % r.scale(4, 5), "per=%d" % r.scale(66, 300), "seed=%d" % r.seed])
    r.drive(b, ["dir=" + r.work, "prefix=dbg", "hist=%d" % r.scale(220, 5000), "files=%d" % r.scale(5, 64), "steps=14", "atonce=12", "seed=%d" % r.seed])
    fs = files(r, "gen") + files(r, "dbg")
    r.samples = samples_of(fs)
    r.validate("debug", "DebugTrace", fs)
    r.traces = len(fs)
    r.notes = ["contracts are scripted ones in two versions, behind the stub of wasmer",
               "worlds are seen through queries only, not through the files which keep them",
               "requests sent at once go to one debugger, directly and through its server"]


CHECKS = {"D01": d01}
