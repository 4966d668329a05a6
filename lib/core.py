"""Shared machinery of the checks: building, running the harness, running TLC,
verdicts and evidence."""
import hashlib
import json
import os
import queue
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
ENV = dict(os.environ)
ENV["PATH"] = "/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
ENV.update(RUSTUP_TOOLCHAIN="1.99.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
for _k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(_k, None)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """the machinery itself failed: neither held nor violated"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def rng(*salt):
    return random.Random("/".join(map(str, (SEED,) + salt)))


# ---------------------------------------------------------------------------
# building


def _lock_files():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        pass  # the harness has its own lock file; nothing to do in /repo


def cargo(args, cwd, target, timeout=840, extra_env=None):
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = target
    if extra_env:
        env.update(extra_env)
    t = time.time()
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolError("cargo " + " ".join(args) + " failed")
    log("built %s in %.1fs" % (" ".join(args)[:60], time.time() - t))


_built = {}


def harness():
    """path of the harness binary built from /repo's current tree"""
    if "abe_exec" not in _built:
        cargo(["build", "--offline", "--locked"], os.path.join(VERIF, "harness"), TARGET)
        _built["abe_exec"] = os.path.join(TARGET, "debug", "abe_exec")
    return _built["abe_exec"]


def harness_sched():
    """the same harness around a library whose atomic and static accesses are scheduling points"""
    if "sched" not in _built:
        t = os.path.join(TARGET, "sched")
        cargo(["build", "--offline", "--locked", "--features", "sched"], os.path.join(VERIF, "harness"), t,
              extra_env={"RUSTC_BOOTSTRAP": "1", "RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc_sched.sh")})
        _built["sched"] = os.path.join(t, "debug", "abe_exec")
    return _built["sched"]


# ---------------------------------------------------------------------------
# running histories


class Proc:
    """one harness process; a history is a list of commands"""

    def __init__(self, argv, env=None):
        self.argv = argv
        self.env = env
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None

    def _line(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.0, end - time.time()))
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                return b""
            self.buf += d
        i = self.buf.index(b"\n")
        out, self.buf = self.buf[:i], self.buf[i + 1:]
        return out

    def call(self, cmd, timeout=60):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(cmd) + "\n").encode())
        except (BrokenPipeError, OSError):
            self.stop()
            return {"res": "crash"}
        out = self._line(timeout)
        if out is None:
            self.stop()
            return {"res": "hang"}
        if out == b"":
            rc = self.p.wait()
            self.stop()
            return {"res": "crash", "sig": rc}
        r = json.loads(out)
        if r.get("res") == "badcmd" or (r.get("res") == "panic" and str(r.get("msg", "")).startswith("harness:")):
            raise ToolError("harness refused %s: %s" % (str(cmd)[:600], r))
        return r


def run_history(proc, cmds, timeout=120):
    """results, one per command.  Sent as one batch; when that kills the process the history
    is run again command by command, and what follows the crash is 'skip'."""
    r = proc.call({"op": "batch", "cmds": [{"op": "reset"}] + cmds}, timeout)
    if r["res"] == "ok":
        out = r["out"][1:]
    else:
        out, dead = [], False
        proc.call({"op": "reset"}, timeout)
        for c in cmds:
            if dead:
                out.append({"res": "skip"})
                continue
            x = proc.call(c, timeout)
            dead = x["res"] in ("crash", "hang")
            out.append(x)
    for c, x in zip(cmds, out):
        if x["res"] == "badcmd" or (x["res"] == "panic" and str(x.get("msg", "")).startswith("harness:")):
            raise ToolError("harness refused %s: %s" % (str(c)[:600], x))
    return out


def run_histories(histories, backend="toyl", workers=None, env=None, timeout=120):
    """[[cmd]] -> [[result]]"""
    return pool_map(lambda p, h: run_history(p, h, timeout), histories, [harness(), backend], workers, env)


def pool_map(fn, items, argv, workers=None, env=None):
    """fn(proc, item) -> result, on several harness processes"""
    workers = workers or min(8, os.cpu_count() or 4)
    res = [None] * len(items)
    q = queue.Queue()
    for i, it in enumerate(items):
        q.put((i, it))
    errs = []

    def work():
        p = Proc(argv, env)
        try:
            while not errs:
                try:
                    i, it = q.get_nowait()
                except queue.Empty:
                    break
                res[i] = fn(p, it)
        except BaseException as e:  # noqa
            errs.append(e)
        finally:
            p.stop()

    ts = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(items))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


# ---------------------------------------------------------------------------
# TLC


class TLCResult:
    pass


def scratch(name):
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    return d


def tlc(module, cfg, env=None, args=(), timeout=800, workers="auto", heap="6g", tag=None, ok_codes=(0,)):
    """run TLC on spec/<module>.tla with spec/<cfg>; returns parsed statistics and output"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch("tlc"))
    e = dict(ENV)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -Djava.io.tmpdir=%s" % (heap, meta)
    cmd = ["java", "-XX:+UseParallelGC", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    r = TLCResult()
    r.out, r.code, r.wall = out, p.returncode, time.time() - t
    r.states = r.distinct = 0
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            r.states = r.distinct = int(m[-1].replace(",", ""))
    r.lines = out.splitlines()
    if p.returncode not in ok_codes:
        log(out[-5000:])
        raise ToolError("TLC failed (%d) on %s/%s" % (p.returncode, module, cfg))
    log("TLC %s %s: %d states, %d distinct, %.1fs" % (module, cfg, r.states, r.distinct, r.wall))
    return r


def prove(ck, module, timeout=800):
    """check the proofs of spec/<module>.tla with TLAPS"""
    d = tempfile.mkdtemp(prefix="tlapm-", dir=scratch("tlc"))
    t = time.time()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        p = subprocess.run(["tlapm", "--threads", "6", module + ".tla"], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("tlapm timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations? proved", p.stdout)
    if p.returncode or not m:
        log(p.stdout[-3000:])
        raise ToolError("tlapm did not prove %s" % module)
    log("TLAPS %s: %s obligations proved, %.1fs" % (module, m.group(1), time.time() - t))
    ck.add("obligations_proved", int(m.group(1)))


def tagged(r, tag):
    """JSON values printed by the specification as  "@@TAG {...}" """
    out = []
    pre = '"@@%s ' % tag
    for ln in r.lines:
        if ln.startswith(pre) and ln.endswith('"'):
            s = ln[len(pre):-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            out.append(json.loads(s))
    return out


def write_ndjson(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")


def refuted(ck, module, designs, env=None):
    """models of broken designs: TLC has to find a counterexample in each, or the invariants say nothing"""
    for d in designs:
        m = tlc(module, "%s_%s.cfg" % (module, d), ok_codes=(12,), env=env)
        ck.add("states", m.distinct)
        ck.add("transitions", m.states)
        ck.add("broken_designs_refuted")


def complete(module, cfg, events, name, extra=0, timeout=800, env=None):
    """check recorded events against a trace specification, which visits one state per event
    (and `extra` more); returns (rejections, TLC's result)"""
    path = os.path.join(scratch("traces"), name + ".ndjson")
    write_ndjson(path, events)
    ev = {"TRACE": path}
    if env:
        ev.update(env)
    for last in (False, True):
        r = tlc(module, cfg, env=ev, timeout=timeout)
        rej = tagged(r, "REJECT")
        if rej or r.distinct == len(events) + extra:
            return rej, r
        # TLC ended without having looked at every event: keep what it wrote, and run it once more
        with open(os.path.join(scratch("tlc"), name + ".out"), "w") as f:
            f.write(r.out)
        log("%s %s: %d events + %d but %d distinct states" % (module, name, len(events), extra, r.distinct))
    raise ToolError("%s %s: %d events + %d but %d distinct states" % (module, name, len(events), extra, r.distinct))


def validate(module, cfg, events, name, nhist, timeout=800, env=None):
    """check histories against a stateful trace specification; returns (rejections, TLC's result)"""
    return complete(module, cfg, events, name, nhist, timeout, env)


def validate_pure(ck, module, events, name, timeout=800, env=None):
    """events checked one by one by <module>'s Checked; returns [(index, spec text)]"""
    if not events:
        return []
    rej, r = complete(module, module + ".cfg", events, name, 0, timeout, env)
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(events))
    return [(x["line"] - 1, x["spec"]) for x in rej]


# ---------------------------------------------------------------------------
# verdicts


class Check:
    """collects what one check covered and what it found"""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.samples = []
        self.findings = load_findings(prop)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def put(self, key, v):
        self.cov[key] = v

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, replay, ident=None):
        """what: text; replay: anything JSON able; ident: compared with known findings"""
        for f in self.findings:
            if ident is not None and f.get("ident") == ident:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if self.violations:
            d = scratch("replay")
            for n, (what, replay) in enumerate(self.violations[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, n))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1)
                print("%s: %s" % (self.prop, what))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held (%s)" % (self.prop, ", ".join(
            "%s=%s" % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, int))))
        return 0


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]
