"""Checks of scenario files."""
from vlib import *
from checks.lite import files


def m03(r):
    r.explore("scenario", "ScenarioGen", env=dict(OUT=r.path("gen.ndjson")), workers=1, minstates=20000)
    b = build_harness("scendrv")
    r.drive(b, ["dir=" + r.work, "gen=" + r.path("gen.ndjson"), "oneof=%d" % r.scale(20, 1), "n=%d" % r.scale(600, 20000), "per=%d" % r.scale(450, 900), "rper=%d" % r.scale(120, 400),
                "seed=%d" % r.seed])
    fs = files(r, "scen")
    r.samples = samples_of(fs)
    r.validate("scenario", "ScenarioTrace", fs)
    r.traces = len(fs)
    r.notes = ["values of no bytes are the same value however written, except in checks",
               "the old form of the log check (a hash in text form) is read but not interpreted"]


RUN = ["a scenario's contract is a scripted one (echo, store, log, pay, fail, report, burn) behind the stub of wasmer",
       "what becomes of no units of a semi-fungible token, and of being frozen for tokens not held, is not seen"]


def m04(r):
    r.explore("scenario", "CheckGen", env=dict(OUT=r.path("gen.ndjson")), workers=1, minstates=10000)
    b = build_harness("scrundrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "prefix=gen", "gen=" + r.path("gen.ndjson"), "oneof=%d" % r.scale(2, 1), "per=%d" % r.scale(720, 1500), "seed=%d" % r.seed])
    r.drive(b, ["dir=" + r.work, "prefix=run", "prof=checks", "hist=%d" % r.scale(160, 8000), "files=%d" % r.scale(4, 64), "steps=12", "seed=%d" % r.seed])
    fs = files(r, "gen") + files(r, "run")
    r.samples = samples_of(fs)
    r.validate("scenario", "ScenarioRunTrace", fs)
    r.traces = len(fs)
    r.notes = RUN


def m06(r):
    b = build_harness("scrundrv", wasmer=True)
    r.drive(b, ["dir=" + r.work, "prefix=run", "prof=steps", "hist=%d" % r.scale(420, 16000), "files=%d" % r.scale(8, 128), "steps=14", "seed=%d" % r.seed])
    fs = files(r, "run")
    r.samples = samples_of(fs)
    r.validate("scenario", "ScenarioRunTrace", fs)
    r.traces = len(fs)
    r.notes = RUN


CHECKS = {"M03": m03, "M04": m04, "M06": m06}
