"""Checks of the protocol between the node and the process of the virtual machine."""
import glob, os, re
from vlib import *
from checks.lite import files
from checks import vm as vmcheck


def drive(r, args, timeout=400):
    """A driver whose process dies because of the code under test is a violation."""
    b = build_harness("ipcdrv", wasmer=True)
    rc, o = sh([b] + [str(a) for a in args], timeout=timeout, env=goenv(), cwd=r.work)
    if rc == 124:
        raise CheckError("the driver did not end in time:\n" + o[-2000:])
    if rc:
        if re.search(r"(?m)^(fatal error:|panic:|SIG[A-Z]+:|unexpected fault)", o) and re.search(r"/ipc/(common|nodepart|arwenpart|marshaling)/", o):
            raise Violation("the code under test killed its process", {"driver": o[-6000:]})
        raise CheckError("driver ipcdrv %s ended with %s:\n%s" % (args, rc, o[-4000:]))


def i01(r):
    q = dict(SENDS=3, FAULTS=1, LEN=7) if not r.thorough else dict(SENDS=4, FAULTS=2, LEN=8)
    m = dict(SENDS=4, FAULTS=2, LEN=8) if not r.thorough else dict(SENDS=5, FAULTS=2, LEN=10)
    r.explore("ipc", "ChannelMC", cfg="ChannelMC.cfg", env=m, minstates=1000)
    r.explore("ipc", "ChannelMC", cfg="ChannelGen.cfg", env=dict(q, OUT=r.path("gen.ndjson")), workers=1, minstates=100)
    drive(r, ["mode=chan", "dir=" + r.work, "gen=" + r.path("gen.ndjson"), "seed=%d" % r.seed, "n=%d" % r.scale(6, 60), "hist=%d" % r.scale(300, 6000),
              "per=%d" % r.scale(1500, 8000)])
    fs = files(r, "chan")
    r.samples = samples_of(fs)
    r.traces = len(fs)
    r.validate("ipc", "ChannelTrace", fs)
    r.cov["model_bounds"] = m
    r.notes = ["contents of messages are compared by digest; both marshalizers",
               "numbers are those of one dialogue: a frame replayed in a later dialogue is excluded by closing the pipes, see I03"]


def i02(r):
    drive(r, ["mode=remote", "dir=" + r.work, "seed=%d" % r.seed, "sessions=%d" % r.scale(16, 64), "n=%d" % r.scale(70, 400)])
    fs = files(r, "remote")
    r.samples = samples_of(fs)
    r.validate("ipc", "RemoteTrace", fs)
    r.traces = len(fs)
    # the real machine and a modelled blockchain, connected by real pipes, against the specification of the machine
    for k, prof in enumerate(("V02", "V08", "V06")[:r.scale(2, 3)]):
        vs = vmcheck.record(r, prof, 8, r.scale(60, 400), sub="pipe" + prof, seed=r.seed + 77 + k, extra=["pipe=1"])
        try:
            r.validate("vm", "VmTrace", vs, heap="3g")
        except Violation as v:
            # the machine's own fault, if it also shows without pipes
            ls = vmcheck.record(r, prof, 8, r.scale(60, 400), sub="local" + prof, seed=r.seed + 77 + k)
            try:
                r.validate("vm", "VmTrace", ls, heap="3g")
            except Violation:
                r.cov["local_deviation"] = prof
                continue
            raise v
        r.traces += len(vs)
    r.notes = ["values are random, of every type, including texts that are no valid UTF-8"] + vmcheck.ASSUME


def i03(r):
    mc = dict(OPS=3, HOOKS=2, FAULTS=2, KILL=1) if not r.thorough else dict(OPS=5, HOOKS=4, FAULTS=4, KILL=1)
    r.explore("ipc", "SessionMC", env=mc, minstates=1000)
    n = r.scale(4, 5)
    for side in ("node", "vm"):
        r.explore("ipc", "SessionGen", env=dict(SIDE=side, LEN=n, OUT=r.path("gen-%s.ndjson" % side)), workers=1, minstates=1000)
        drive(r, ["mode=" + side, "dir=" + r.work, "gen=" + r.path("gen-%s.ndjson" % side), "seed=%d" % r.seed, "per=%d" % r.scale(8000, 40000)])
    fs = files(r, "node") + files(r, "drip") + files(r, "vm")
    r.samples = samples_of(fs)
    r.validate("ipc", "SessionTrace", fs)
    drive(r, ["mode=driver", "dir=" + r.work, "seed=%d" % r.seed, "sessions=%d" % r.scale(40, 240), "par=40", "ops=%d" % r.scale(12, 20)])
    ds = files(r, "driver")
    r.validate("ipc", "DriverTrace", ds)
    r.traces = len(fs) + len(ds)
    r.cov["model_bounds"] = mc
    r.notes = ["an end that does nothing for 30 s (120 s for a driver) counts as waiting forever",
               "the process behind the driver is the real VM's end with a scripted machine"]


CHECKS = {"I01": i01, "I02": i02, "I03": i03}
