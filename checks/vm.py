"""Checks of the virtual machine: recorded runs of the real code are behaviours of spec/vm."""
import glob, os, re
from vlib import *

# property -> (files, transactions per file) in the quick tier
QUICK = {"V01": (16, 260), "V02": (16, 260), "V03": (16, 220), "V04": (16, 240), "V05": (16, 220), "V06": (16, 240), "V07": (16, 260),
         "V08": (16, 240), "V09": (16, 260), "V10": (16, 220), "V11": (6, 240), "V12": (16, 220), "V13": (16, 160), "V14": (6, 220), "V15": (16, 260), "V17": (16, 220)}
ASSUME = ["the WebAssembly engine is replaced by harness/stub: contracts are programs of API calls chosen by the driver, instructions only use gas",
          "numbers beyond 2^30 in gas and balances are recorded clamped",
          "built-in functions are those of harness/sim/world.go, modelled in spec/vm/VmHost.tla"]


def record(r, profile, files, txs, seed=None, segs=4, sub="vm", extra=()):
    """Runs the real machine; a run that kills the process is a violation."""
    b = build_harness("vmdrv", wasmer=True)
    d = os.path.dirname(r.path(sub, "x"))
    e = goenv()
    rc, o = sh([b, "out=" + d, "profile=" + profile, "files=%d" % files, "txs=%d" % txs, "segs=%d" % segs, "seed=%d" % (r.seed if seed is None else seed)] + list(extra),
               timeout=300, env=e, cwd=r.work)
    fs = sorted(glob.glob(os.path.join(d, "*.ndjson")), key=os.path.getsize, reverse=True)
    if rc == 124:
        raise CheckError("the driver did not end in time:\n" + o[-2000:])
    if rc:
        if re.search(r"(?m)^(fatal error:|panic:|SIG[A-Z]+:|unexpected fault)", o) and "/arwen/" in o and fs:
            last = max(fs, key=os.path.getmtime)
            raise Violation("the machine killed its process", {"driver": o[-6000:], "trace_file": last})
        raise CheckError("driver vmdrv ended with %s:\n%s" % (rc, o[-4000:]))
    return fs


def vm(prop):
    def run(r):
        f, n = QUICK[prop]
        if r.thorough:
            f, n = f * 2, n * 3
        fs = record(r, prop, f, n)
        r.samples = samples_of(fs)
        r.traces = len(fs)
        r.notes = ASSUME
        r.validate("vm", "VmTrace", fs, heap="3g")
    return run


CHECKS = {p: vm(p) for p in QUICK}
