"""Checks of the modelled blockchain of scenarios and debugging."""
from vlib import *
from checks.lite import files


def w01(r):
    b = build_harness("worlddrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "prefix=world", "seed=%d" % r.seed, "hist=%d" % r.scale(160, 4000), "files=%d" % r.scale(8, 64)])
    fs = files(r, "world")
    r.samples = samples_of(fs)
    r.validate("world", "WorldTrace", fs)
    r.traces = len(fs)
    r.notes = ["the code of an output comes with metadata that allow everything and the deployer becomes the owner of a created account, as the code documents",
               "a value of no bytes is no value"]


def w02(r):
    n = r.scale(5, 6)
    r.explore("world", "WorldGen", env=dict(LEN=n, OUT=r.path("gen.ndjson")), workers=1, minstates=1000)
    b = build_harness("worlddrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "prefix=snap", "gen=" + r.path("gen.ndjson"), "per=%d" % r.scale(24000, 60000), "prof=snap", "seed=%d" % r.seed,
                "hist=%d" % r.scale(80, 2000), "files=%d" % r.scale(4, 32)])
    fs = files(r, "snap")
    r.samples = samples_of(fs)
    r.validate("world", "WorldTrace", fs)
    r.traces = len(fs)
    r.cov["model_bounds"] = dict(LEN=n)
    r.notes = ["snapshots hold the storage of the accounts, not their balances and nonces: those change only when an output is applied"]


CHECKS = {"W01": w01, "W02": w02}
