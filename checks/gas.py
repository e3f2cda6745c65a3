"""Checks of gas configurations."""
from vlib import *
from checks.lite import files


def g02(r):
    r.explore("config", "GasGen", env=dict(OUT=r.path("gen.ndjson")), workers=1, minstates=3900)
    b = build_harness("gasdrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "gen=" + r.path("gen.ndjson"), "oneof=%d" % r.scale(5, 1), "texts=%d" % r.scale(200, 4000), "hosts=%d" % r.scale(4, 120), "per=%d" % r.scale(270, 300),
                "schedules=" + os.path.join(REPO, "arwenmandos/gasSchedules"), "seed=%d" % r.seed])
    fs = files(r, "gas")
    r.samples = samples_of(fs)
    r.validate("config", "GasTrace", fs)
    r.traces = len(fs)
    r.notes = ["names are given exactly as the configuration spells them (the decoder also takes other capitals)"]


CHECKS = {"G02": g02}
