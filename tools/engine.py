"""Machinery shared by all checks: build the harness, run it, run TLC, report."""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
JOBS = 8


class ToolError(Exception):
    """the check itself could not be carried out"""


class Violation(Exception):
    def __init__(self, what, replay_lines):
        super().__init__(what)
        self.what = what
        self.replay = replay_lines


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTUP_TOOLCHAIN="stable",
               CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(BUILD, "target", "debug", "vharness")


class Run:
    """one run of one check"""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, ".run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.bin = build()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.lines = 0
        self.cov = {}
        self.samples = []
        self.known = []
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---- the real code
    def harness(self, args, timeout=300, mem=12):
        """Run the harness; a crash, hang or memory blow-up of the code under test is a violation."""
        cmd = [self.bin] + [str(a) for a in args]
        env = dict(os.environ, RUST_BACKTRACE="0")
        what = None
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                               timeout=timeout, preexec_fn=limits(mem), errors="replace")
            if p.returncode == 0:
                return p.stdout
            if p.returncode == 3:   # the harness found a mismatch itself (replay of exported behaviours)
                raise Violation("replayed behaviour disagrees with the specification", p.stdout.splitlines()[-60:])
            what = f"harness ended with status {p.returncode}: {p.stderr[-1500:]}"
            if p.returncode == 2:
                raise ToolError(what)
        except subprocess.TimeoutExpired:
            what = f"code under test did not finish within {timeout} s"
        raise Violation(what, [what, "command: " + " ".join(cmd)])

    # ---- TLC
    def tlc(self, spec, cfg=None, env=None, timeout=600, workers=1, heap="2g", extra=(), throws=False):
        tag = f"{spec}.{time.time_ns()}"
        meta = self.path("md." + tag)
        cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg or f"{spec}.cfg", *extra, f"{spec}.tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC did not finish {spec} within {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        if re.search(r"OutOfMemoryError|StackOverflowError|Parsing or semantic analysis failed|Unknown error", out) \
                or "TLC threw an unexpected exception" in out and "evaluating" not in out and not throws:
            raise ToolError(f"TLC failed on {spec}:\n{out[-3000:]}")
        return p.returncode, out

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)

    def validate(self, spec, trace, count=True):
        """Does the trace specification allow the recorded trace?  -> None, or (line, failed check)"""
        code, out = self.tlc(spec, env={"TRACE": trace})
        gen, dist = self.counts(out)
        if '"ACCEPTED"' in out and code == 0:
            if count:
                self.states += dist
                self.transitions += gen
            return None
        m = re.findall(r'<<"FAILED", (\d+), "([^"]*)">>', out)
        if m:
            line = max(int(x[0]) for x in m)
            return line, ", ".join(sorted({x[1] for x in m if int(x[0]) == line}))
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        if m:
            return int(m.group(1)), "no step of the specification allows this event"
        if "Error:" in out and "The error occurred when TLC was evaluating" in out or "Attempted to" in out:
            # the event does not even make sense to the specification (e.g. an unknown version or key)
            m = re.findall(r"/\\ l = (\d+)", out)
            n = int(m[-1]) if m else 1
            return n, "the specification has no meaning for this event: " + \
                " ".join(re.findall(r"(Attempted to[^\n]*|The [^\n]*was not[^\n]*)", out)[:1])
        raise ToolError(f"TLC failed on {spec} with {trace}:\n{out[-3000:]}")

    def validate_all(self, spec, traces, label):
        """Validate recorded traces in parallel; raise on the first rejected one."""
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda t: self.validate(spec, t), traces))
        for t, r in zip(traces, res):
            evs = open(t).read().splitlines()
            if r is None:
                self.lines += len(evs)
                self.traces += sum('"e":"reset"' in x for x in evs)
                continue
            line, why = r
            start = line - 1
            while start > 0 and '"e":"reset"' not in evs[start]:
                start -= 1
            raise Violation(f"{label}: {why}",
                            [f"# {label}: event {line - start} of this history is not allowed: {why}",
                             f"# specification: spec/{spec}.tla; the last line below is the event"]
                            + evs[start:line])

    def sample(self, evs, n=12):
        """one recorded history, cut short"""
        self.samples.append(evs[:n])

    # ---- result
    def evidence(self, violations, level="model_checking"):
        d = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
             "coverage": {"states": self.states, "transitions": self.transitions,
                          "traces_validated_against_impl": self.traces,
                          "trace_events": self.lines, "samples": self.samples[:4] or [["none"]], **self.cov},
             "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def main(prop, fn):
    try:
        run = Run(prop)
    except ToolError as e:
        print(f"ERROR {prop}: {e}")
        return 2
    try:
        fn(run)
    except Violation as v:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}.{TIER}.{SEED}.txt")
        with open(path, "w") as f:
            f.write(f"# property {prop}, VERIF_SEED={SEED} VERIF_TIER={TIER} ./check.sh {prop}\n")
            f.write("\n".join(v.replay) + "\n")
        run.evidence(1)
        print(f"{prop}: {v.what}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except ToolError as e:
        print(f"ERROR {prop}: {e}")
        return 2
    for k in run.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    run.evidence(0)
    print(f"{prop}: held ({run.traces} histories, {run.lines} events, {run.states} states, {time.time() - run.t0:.0f} s)")
    shutil.rmtree(run.dir, ignore_errors=True)
    return 0
