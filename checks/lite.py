"""Checks of the parts that do not need the VM library."""
import glob, os
from vlib import *
from . import vm


def files(r, prefix):
    return sorted(glob.glob(os.path.join(r.work, prefix + "-*.ndjson")), key=lambda p: int(p.rsplit("-", 1)[1][:-7]))


def g01(r):
    b = build_harness("mathdrv")
    r.drive(b, ["dir=" + r.work, "seed=%d" % r.seed, "n=%d" % r.scale(150, 6000), "per=%d" % r.scale(800, 4000)])
    fs = files(r, "math")
    r.samples = samples_of(fs)
    r.validate("math", "IntMathTrace", fs)
    r.traces = len(fs)
    r.notes = ["operands: all pairs of type boundaries, plus seeded random operands and pairs next to the overflow bound"]


CHECKS = {"G01": g01}


def _gen(r, depth):
    t = r.tlc("mandos", "ExprGen", env={"OUT": r.path("gen.ndjson"), "OUTJ": r.path("genj.ndjson"), "DEPTH": depth})
    if not os.path.exists(r.path("genj.ndjson")):
        raise CheckError("the specification generated no inputs:" + t.out[-3000:])


def m01(r):
    _gen(r, 1)
    b = build_harness("exprdrv")
    r.drive(b, ["mode=expr", "dir=" + r.work, "gen=" + r.path("gen.ndjson"), "seed=%d" % r.seed, "n=%d" % r.scale(2500, 60000), "per=%d" % r.scale(900, 5000)])
    fs = files(r, "expr")
    r.samples = samples_of(fs)
    r.validate("mandos", "ExprTrace", fs)
    r.traces = len(fs)


def m02(r):
    _gen(r, r.scale(4, 5))
    b = build_harness("exprdrv")
    r.drive(b, ["mode=oj", "dir=" + r.work, "gen=" + r.path("genj.ndjson"), "seed=%d" % r.seed, "n=%d" % r.scale(2000, 60000), "per=%d" % r.scale(3000, 8000)])
    fs = files(r, "oj")
    r.samples = samples_of(fs)
    r.validate("mandos", "ExprTrace", fs)
    r.traces = len(fs)


def m05(r):
    b = build_harness("exprdrv")
    r.drive(b, ["mode=render", "dir=" + r.work, "seed=%d" % r.seed, "n=%d" % r.scale(1500, 40000), "per=%d" % r.scale(1500, 6000)])
    fs = files(r, "render")
    r.samples = samples_of(fs)
    r.validate("mandos", "ExprTrace", fs)
    r.traces = len(fs)


CHECKS.update(M01=m01, M02=m02, M05=m05)


def v16(r):
    b = build_harness("cryptodrv")
    r.drive(b, ["dir=" + r.work, "seed=%d" % r.seed, "n=%d" % r.scale(300, 1500), "files=%d" % r.scale(3, 16)])
    fs = sorted(glob.glob(r.path("*.ndjson")))
    r.samples = samples_of(fs)
    r.validate("crypto", "CryptoTrace", fs)
    vs = vm.record(r, "V16", r.scale(16, 32), r.scale(60, 300))   # contracts that use the primitives
    r.validate("vm", "VmTrace", vs, heap="3g")
    r.traces = len(fs) + len(vs)
    r.notes = ["signature schemes are modelled as ideal; keys, messages and signatures are altered by bit flips, truncation, extension and exchange",
               "the digests are computed by the specification itself (spec/lib/Hashes.tla)"]


CHECKS.update(V16=v16)
