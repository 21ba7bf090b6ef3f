"""Infrastructure shared by every check: build, TLC, evidence, verdicts."""
import asyncio, logging, hashlib, json, os, re, shutil, subprocess, sys, time, random, signal, fcntl, tempfile, traceback
logging.getLogger("asyncio").setLevel(logging.CRITICAL)     # peers that are cut off are part of the histories

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="1.97.1", RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


def _src_hashes():
    res = {}
    for base in ("bin/router", "lib/hive-console-sdk", "lib/graphql-tools"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git", "tests", "benches")]
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".html", ".pest", ".graphql", ".json")) and os.path.isfile(p):
                    with open(p, "rb") as fh:
                        res[p] = hashlib.sha1(fh.read()).hexdigest()
    return res


def build():
    """Builds the harness (which embeds the real router) from /repo's working tree."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        man = os.path.join(BUILD, "sources.json")
        binp = os.path.join(BUILD, "target/debug/vh")
        try:
            old = json.load(open(man))
        except Exception:
            old = {}
        new = _src_hashes()
        # cargo decides by mtime: make sure a file whose content changed since the last build looks newer
        if old and os.path.exists(binp):
            bt = os.stat(binp).st_mtime
            for p, h in new.items():
                if old.get(p) != h and os.stat(p).st_mtime <= bt:
                    os.utime(p)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "harness"),
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout[-6000:])
        json.dump(new, open(man, "w"))
    log(f"[build] {time.time()-t0:.1f}s")
    return binp


VH = os.path.join(BUILD, "target/debug/vh")


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.states = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r"(?:Invariant|Action property|Temporal properties|Property) (\S+) (?:is|was|were) violated", out)
        self.violated = m.group(1) if m else None
        if not self.violated and "Temporal properties were violated" in out:
            self.violated = "temporal"
        if not self.violated and re.search(r"evaluating (?:the )?(?:POSTCONDITION|postcondition)", out, re.I) and "violated" in out.lower():
            self.violated = "POSTCONDITION"
        if not self.violated and "Deadlock reached" in out:
            self.violated = "Deadlock"
        if not self.violated and re.search(r"[Pp]ost-?condition.*(violated|false)", out):
            self.violated = "POSTCONDITION"
        self.ok = ("Model checking completed. No error has been found" in out or
                   ("The number of states generated" in out and "Error" not in out)) and rc == 0
        self.prints = re.findall(r'^"?(VF:.*?)"?$', out, re.M)


def tlc(module, cfg=None, env=None, workers="auto", timeout=600, extra=(), heap="6g", cwd=None):
    """Runs TLC on spec/<module>.tla. Raises ToolError unless TLC finished or found a violation."""
    cwd = cwd or SPEC
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="vf-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cp = jar
    for d in ("/opt/veriftools/tla",):
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and f != "tla2tools.jar":
                cp += ":" + os.path.join(d, f)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={meta}", "-cp", cp, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC timed out on {module} after {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult(r.stdout, r.returncode)
    if not res.ok and not res.violated:
        raise ToolError(f"TLC failed on {module} ({cfg}), rc={r.returncode}:\n{r.stdout[-5000:]}")
    return res


# ---------------------------------------------------------------- check object
class Check:
    """Collects what a check covered, its violations, and writes evidence + verdict."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.violations = []   # dicts {what, replay}
        self.known = []
        self.mc = []           # model checking runs
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.notes = {}
        os.makedirs(OUT, exist_ok=True)
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        try:
            self.findings = [f for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if f["property"] == pid]
        except FileNotFoundError:
            self.findings = []

    def note(self, **kw):
        self.notes.update(kw)

    def model(self, module, cfg=None, timeout=600, must_hold=True, **kw):
        """Exhaustive model-checking run of the design."""
        r = tlc(module, cfg, timeout=timeout, **kw)
        self.mc.append(dict(module=module, cfg=cfg or module, states=r.states, distinct=r.distinct))
        log(f"[tlc] {cfg or module}: {r.states} states, {r.distinct} distinct, violated={r.violated}")
        if must_hold and r.violated:
            raise ToolError(f"the specification itself violates {r.violated} ({module}/{cfg}):\n{r.out[-4000:]}")
        return r

    def sample(self, s):
        if len(self.samples) < 6:
            s = s if isinstance(s, str) else json.dumps(s)
            self.samples.append(s[:600])

    def write_trace(self, name, events):
        p = os.path.join(self.dir, name + ".ndjson")
        with open(p, "w") as f:
            for e in events:
                if "src" in e:          # for reports only
                    e = {k: v for k, v in e.items() if k != "src"}
                f.write(json.dumps(e) + "\n")
        return p

    def violation(self, what, replay_obj=None, key=None):
        """key identifies the failing input/call site for known findings."""
        for k in self.findings:
            if k.get("status") == "known" and key is not None and k.get("key") == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k["what"]))
                return
        n = len(self.violations)
        p = os.path.join(self.dir, f"violation-{n}.json")
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, seed=SEED, tier=TIER, what=what, detail=replay_obj), f, indent=1, default=str)
        self.violations.append(dict(what=what, replay=p))
        if n < 20:
            log(f"[violation] {what} -> {p}")

    def validate_cases(self, module, cases, name="trace", cfg=None, explain=None, timeout=600, heap="6g", maxviol=5, key=None, env=None):
        """Conformance: every recorded case/event must be accepted by the TLA+ module.

        The module reads the ndjson at IOEnv.TRACE and has the invariant family evaluated per line l.
        On a rejection the offending line is reported, removed (cases are independent), and the rest is checked.
        """
        cases = list(cases)
        self.traces += len(cases)
        self.events += len(cases)
        bad = []
        p = self.write_trace(name, cases)
        e = dict(TRACE=p)
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, extra=("-continue",), heap=heap)
        self.mc.append(dict(module=module, cfg=cfg or module, states=r.states, distinct=r.distinct, kind="conformance"))
        if r.distinct < len(cases):
            raise ToolError(f"{module}: only {r.distinct} states for {len(cases)} cases\n{r.out[-3000:]}")
        if r.violated:
            idx = sorted(set(int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)$", r.out, re.M)))
            idx = self._violating_lines(r.out)
            for i in idx:
                c = cases[i - 1]
                bad.append(c)
                if len(bad) <= maxviol or key:
                    what = explain(c) if explain else f"{module} rejects case {i}: {json.dumps(c)[:300]}"
                    self.violation(what, c, key=key(c) if key else None)
        log(f"[conform] {module}: {len(cases)} cases, {len(bad)} rejected")
        return bad

    @staticmethod
    def _violating_lines(out):
        idx = []
        # each "Invariant X is violated." is followed by a behaviour; its last state carries l
        parts = re.split(r"Error: Invariant \S+ is violated[^\n]*\n", out)[1:]
        for part in parts:
            ls = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", part, re.M)
            if ls:
                idx.append(int(ls[-1]))
        return sorted(set(idx))

    def validate_trace(self, module, events, name="trace", cfg=None, timeout=600, what=None, key=None, env=None, heap="6g"):
        """Trace validation of a history: accepted iff TLC can consume every line (module's TraceAccepted).

        The module must print nothing and keep `l` as position; acceptance is the POSTCONDITION/invariant. We use the
        highest l reached (printed through TLCGet register 1 as VF:<l>).
        """
        events = list(events)
        self.traces += 1
        self.events += len(events)
        p = self.write_trace(name, events)
        e = dict(TRACE=p)
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, workers=1, heap=heap)
        self.mc.append(dict(module=module, cfg=cfg or module, states=r.states, distinct=r.distinct, kind="conformance"))
        m = [int(x) for x in re.findall(r'VFMAX\D+(\d+)', r.out)]
        reached = max(m) if m else None
        if reached is None:
            raise ToolError(f"{module}: no VFMAX\n{r.out[-3000:]}")
        if r.violated or reached <= len(events):
            if r.violated:
                ls = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", r.out, re.M)
                at = int(ls[-1]) - 1 if ls else reached
                why = f"invariant {r.violated} broken"
            else:
                at, why = reached, "no behaviour of the specification explains the next event"
            ev = events[min(at, len(events)) - 1] if events else None
            msg = f"{what or module}: {why} at event {at}/{len(events)}: {json.dumps(ev)[:400]}"
            self.violation(msg, dict(trace=p, at=at, event=ev, events=events[: at + 2][-60:]), key=key(at, ev) if key else None)
            return False
        return True

    def validate_many(self, module, traces, name="traces", cfg=None, timeout=600, key=None, env=None, heap="6g", maxviol=4, describe=None):
        """Trace validation of many histories in one TLC run: each history is a list of events and begins with its own reset
        event. A rejected history is reported, set aside, and the rest is checked again."""
        traces = [list(t) for t in traces if t]
        self.traces += len(traces)
        self.events += sum(map(len, traces))
        left = list(range(len(traces)))
        bad = []
        while left:
            evs, own = [], []
            for i in left:
                evs += traces[i]
                own += [i] * len(traces[i])
            p = self.write_trace(name, evs)
            e = dict(TRACE=p)
            e.update(env or {})
            r = tlc(module, cfg, env=e, timeout=timeout, workers=1, heap=heap)
            self.mc.append(dict(module=module, cfg=cfg or module, states=r.states, distinct=r.distinct, kind="conformance"))
            m = [int(x) for x in re.findall(r'VFMAX\D+(\d+)', r.out)]
            ls = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", r.out, re.M)
            if r.violated and ls:
                at, why = int(ls[-1]) - 1, f"invariant {r.violated} broken"
            elif not m:
                raise ToolError(f"{module}: no VFMAX\n{r.out[-3000:]}")
            elif max(m) <= len(evs):
                at, why = max(m), "no behaviour of the specification explains the next event"
            else:
                break
            at = min(max(at, 1), len(evs))
            i = own[at - 1]
            bad.append(i)
            start = own.index(i)
            t = traces[i]
            d = describe(t) if describe else ""
            self.violation(f"{module}: {why} at event {at-start}/{len(t)} of history {i} {d}: {json.dumps(evs[at-1])[:400]}",
                           dict(history=t, at=at - start, why=why), key=key(t, evs[at - 1]) if key else None)
            left.remove(i)
            if len(bad) >= maxviol and not key:
                break
        log(f"[conform] {module}: {len(traces)} histories, {sum(map(len, traces))} events, {len(bad)} rejected")
        return bad

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        states = sum(m["distinct"] for m in self.mc)
        trans = sum(m["states"] for m in self.mc)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=LEVELS.get(self.pid, "model_checking"),
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=self.traces,
                                samples=self.samples or ["(none)"], tlc_runs=self.mc, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            for v in self.violations[:5]:
                print(f"VIOLATION property={self.pid} replay={v['replay']}  # {v['what'][:300]}")
            sys.stdout.flush()
            return 1
        print(f"OK property={self.pid} traces={self.traces} states={states} wall={time.time()-self.t0:.1f}s")
        return 0


LEVELS = {}


def main(pid, fn):
    """Entry of a check; fn(check) drives it. Exits 0/1/2."""
    try:
        build()
        c = Check(pid)
        r = fn(c)
        if asyncio.iscoroutine(r):
            asyncio.run(r)
        rc = c.finish()
    except ToolError as e:
        log("TOOL ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
