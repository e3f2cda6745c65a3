"""Shared machinery of the checks: building harnesses, running drivers, TLC, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOFLAGS="-mod=mod", GOSUMDB="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    return e


def sh(cmd, timeout=600, env=None, cwd=None, input=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, cwd=cwd, input=input)
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace")


def build_stub():
    """The stand-in for libwasmer: same C interface, 'code' is interpreted by the harness."""
    out = os.path.join(BUILD, "lib")
    os.makedirs(out, exist_ok=True)
    lib = os.path.join(out, "libwasmer_linux_amd64.so")
    src = os.path.join(VERIF, "harness", "stub", "wasmer_stub.c")
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        tmp = lib + ".%d" % os.getpid()
        rc, o = sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-fexceptions", "-Wl,-soname,libwasmer_linux_amd64.so",
                    "-I", os.path.join(REPO, "wasmer"), "-o", tmp, src])
        if rc:
            raise CheckError("stub library does not build:\n" + o)
        os.replace(tmp, lib)
    return out


def build_harness(name, wasmer=False, race=False):
    """go build ./cmd/<name> of the harness module against REPO's working tree."""
    hdir = os.path.join(BUILD, "hmod-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    os.makedirs(hdir, exist_ok=True)
    env = goenv()
    # module file with the replacement for REPO; sums from REPO and the harness
    modfile = os.path.join(hdir, "go.mod")
    txt = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    if not os.path.exists(modfile) or open(modfile).read() != txt:
        open(modfile, "w").write(txt)
    shutil.copyfile(os.path.join(REPO, "go.sum"), os.path.join(hdir, "go.sum"))
    binp = os.path.join(BUILD, "bin-" + os.path.basename(hdir), name + ("-race" if race else ""))
    os.makedirs(os.path.dirname(binp), exist_ok=True)
    cmd = ["go", "build", "-modfile", modfile, "-o", binp]
    if race:
        cmd.append("-race")
    if wasmer:
        d = build_stub()
        cmd += ["-ldflags", "-extldflags '-L%s -Wl,-rpath,%s'" % (d, d)]
    cmd.append("./cmd/" + name)
    rc, o = sh(cmd, timeout=800, env=env, cwd=os.path.join(VERIF, "harness"))
    if rc:
        raise CheckError("harness %s does not build:\n%s" % (name, o[-6000:]))
    return binp


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.findings = [], [], []
        self.cov = {}
        self.level = "model_checking"

    thorough = property(lambda s: s.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        p = os.path.join(self.work, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def drive(self, binp, args, timeout=300, env=None, ok=(0,)):
        e = goenv()
        e.update(env or {})
        rc, o = sh([binp] + [str(a) for a in args], timeout=timeout, env=e, cwd=self.work)
        if rc not in ok:
            # The drivers run to the end on every behaviour the specifications allow: a Go panic or a fault
            # comes from the code under test (what it did, or what it refused to do), unless resources ran out.
            crash = re.search(r"^(panic: |fatal error: |SIG[A-Z]+: ).*", o, re.M)
            if (rc == 2 or rc < 0) and crash and "goroutine " in o and not re.search(r"no space left|out of memory|cannot allocate|too many open files|resource temporarily", o, re.I):
                raise Violation("the code stopped the driver: " + crash.group(0)[:200], {"driver": [os.path.basename(binp)] + [str(a) for a in args], "output": o[-6000:]})
            raise CheckError("driver %s %s ended with %s:\n%s" % (binp, args, rc, o[-4000:]))
        return o

    # ------------------------------------------------------------------ TLC
    def tlc(self, specdir, module, cfg=None, env=None, workers=1, heap="2g", timeout=800, extra=(), tag=None, stack="64m"):
        d = os.path.join(SPEC, specdir)
        tag = tag or module
        meta = self.path("tlc-" + tag, "x")
        meta = os.path.dirname(meta)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        libs = ":".join([d, os.path.join(SPEC, "lib")] + [os.path.join(SPEC, x) for x in os.listdir(SPEC) if os.path.isdir(os.path.join(SPEC, x))])
        cmd = ["java", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + meta, "-XX:TieredStopAtLevel=%d" % (4 if timeout > 100 else 1), "-Xmx" + heap, "-Xss" + stack, "-DTLA-Library=" + libs,
               "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", os.path.join(d, cfg or module + ".cfg")] + list(extra) + [os.path.join(d, module + ".tla")]
        t = time.time()
        rc, o = sh(cmd, timeout=timeout, env=e, cwd=meta)
        r = TlcResult(rc, o, time.time() - t)
        open(os.path.join(meta, "out.txt"), "w").write(o)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def validate(self, specdir, module, files, cfg=None, env=None, heap="2g", timeout=800, par=None, extra=()):
        """Each file: an ndjson trace. The spec's POSTCONDITION prints <<"ACCEPTED", n>> when the whole
        trace is a behaviour of the specification; otherwise <<"REJECTED", index>>."""
        def one(f):
            e = {"TRACE": f}
            e.update(env or {})
            return f, self.tlc(specdir, module, cfg=cfg, env=e, heap=heap, timeout=timeout, tag=module + "-" + os.path.basename(f), extra=extra)
        with ThreadPoolExecutor(par or NCPU) as ex:
            res = list(ex.map(one, files))
        for f, r in res:
            n = sum(1 for _ in open(f))
            if r.accepted is not None:
                if r.accepted != n:
                    raise CheckError("TLC accepted %s events of %s in %s" % (r.accepted, n, f))
                self.events += n
                continue
            if r.rejected is None and not r.eval_error:
                raise CheckError("TLC gave no verdict on %s:\n%s" % (f, r.out[-3000:]))
            idx = r.rejected if r.rejected is not None else r.eval_index
            lines = open(f).read().splitlines()
            ev = lines[idx - 1] if idx and 0 < idx <= len(lines) else None
            raise Violation("event %s of %s is not a step of the specification" % (idx, os.path.basename(f)),
                            {"spec": module, "trace_file": f, "index": idx, "event": json.loads(ev) if ev else None,
                             "trace": f, "tlc": r.out[-3000:]})

    def explore(self, specdir, module, cfg=None, env=None, heap="8g", workers=NCPU, timeout=800, extra=(), minstates=1):
        r = self.tlc(specdir, module, cfg=cfg, env=env, heap=heap, workers=workers, timeout=timeout, extra=extra, tag=module + "-" + (cfg or "mc"))
        if not r.ok or r.distinct < minstates:
            raise CheckError("model checking of %s failed:\n%s" % (module, r.out[-4000:]))
        return r


class TlcResult:
    def __init__(self, rc, out, wall):
        out = "\n".join(x for x in out.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        a = re.findall(r'<<"ACCEPTED", (\d+)>>', out)
        b = re.findall(r'<<"REJECTED", (\d+)', out)
        self.accepted = int(a[-1]) if a and self.ok else None
        self.rejected = int(b[-1]) if b and self.accepted is None else None
        # an exception while evaluating the next step of a recorded trace: the recorded value does not
        # even have the shape the specification requires
        self.eval_error = False
        self.eval_index = None
        if self.accepted is None and self.rejected is None:
            if "OutOfMemory" not in out and "StackOverflow" not in out and "Parsing or semantic analysis failed" not in out \
                    and rc in (75, 12, 13) :
                k = re.findall(r"(?m)^(?:/\\ )?(?:l|i) = (\d+)", out)
                self.eval_error = bool(k)
                self.eval_index = int(k[-1]) if k else None


def samples_of(files, n=3, maxlen=1500):
    out = []
    for f in files[:n]:
        with open(f) as fh:
            ls = fh.read().splitlines()
        if ls:
            s = max((x for x in ls[:200] if len(x) < maxlen), key=len, default=ls[0])
            out.append(json.loads(s) if len(s) < maxlen else s[:maxlen])
    return out


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py PROPERTY [quick|thorough]", file=sys.stderr)
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    r = Run(prop, tier, seed)
    viol = None
    try:
        checks[prop](r)
    except Violation as v:
        viol = v
    except CheckError as ex:
        print("CHECK-ERROR property=%s: %s" % (prop, ex))
        shutil.rmtree(r.work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        sys.exit(3)
    for f in r.findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    cov = {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces,
           "samples": r.samples[:5] or ["none"], "events_checked": r.events}
    cov.update(r.cov)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": r.level, "coverage": cov,
          "assumptions": r.notes, "wall_s": round(time.time() - r.t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.json" % (prop, seed))
        d = dict(viol.detail) if isinstance(viol.detail, dict) else {"detail": viol.detail}
        tf = d.get("trace_file")
        if tf and os.path.exists(tf):
            dst = rp + ".trace.ndjson"
            shutil.copyfile(tf, dst)
            d["trace_file"] = dst
            d.pop("trace", None)
        d.update(property=prop, seed=seed, tier=tier, what=viol.what)
        json.dump(d, open(rp, "w"), indent=1)
        print(viol.what)
        print(json.dumps(d.get("event"))[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(r.work, ignore_errors=True)
    print("%s %s seed=%d: %s in %.1fs (%d states, %d traces, %d events)" % (
        prop, tier, seed, "VIOLATION" if viol else "ok", time.time() - r.t0, r.states, r.traces, r.events))
    sys.exit(1 if viol else 0)
