"""Suites of scenario and test files, and resolvers of files."""
from vlib import *
from .lite import files


def m07(r):
    r.explore("suite", "SuiteGen", env=dict(OUT=r.path("gen.ndjson")), workers=1, minstates=1)
    b = build_harness("suitedrv")
    r.drive(b, ["dir=" + r.work, "gen=" + r.path("gen.ndjson"), "oneof=%d" % r.scale(20, 1), "per=%d" % r.scale(400, 2000), "seed=%d" % r.seed])
    fs = files(r, "suite")
    r.samples = samples_of(fs)
    r.validate("suite", "SuiteTrace", fs)
    r.traces = len(fs)
    r.notes = ["71 k runs and histories enumerated by the specification, one in %d replayed; directories exist and do not end like scenarios; patterns use * and ?" % r.scale(20, 1)]


CHECKS = {"M07": m07}
