#!/usr/bin/env python3
"""One check per property; see DESIGN.md."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
from engine import JOBS, SEED, TIER, ToolError, Violation, main

QUICK = TIER == "quick"


# ------------------------------------------------------------------ corrupted observations
def setf(k, v):
    return lambda e: e.__setitem__(k, v)


def bump(k):
    return lambda e: e.__setitem__(k, e[k] + 1 if isinstance(e[k], int) else e[k])


def dropl(k):
    return lambda e: e.__setitem__(k, e[k][:-1])


# property -> [(name, event kind, condition, mutation)]: each must make the history unacceptable
CORRUPT = {
    "C01": [("wrong value read", "read", lambda e: e["get"] > 0, bump("get")),
            ("absence instead of a value", "read", lambda e: e["gwp"] > 0, setf("gwp", -1)),
            ("item missing from an iteration", "iter", lambda e: e["st"] == "end" and e["out"], dropl("out")),
            ("missing version read as empty", "nover", lambda e: True, setf("gwp", -1))],
    "C02": [("root of the empty tree", "root", lambda e: e["root"] > 0, setf("root", 0)),
            ("announced root of the empty tree", "roots", lambda e: e["roots"] and e["roots"][0] > 0, lambda e: e["roots"].__setitem__(0, 0)),
            ("rebuilt tree with the empty root", "rebuild", lambda e: e["root"] > 0, setf("root", 0))],
    "C03": [("proof one sibling short", "proof", lambda e: len(e["sibs"]) > 0, dropl("sibs")),
            ("verification fails", "proof", lambda e: e["ver"], lambda e: e["ver"].__setitem__(0, "err"))],
    "C04": [("false claim accepted", "claim", lambda e: e["res"] == "err", setf("res", "ok")),
            ("crash", "claim", lambda e: True, setf("res", "panic"))],
    "C05": [("value changed later", "read", lambda e: e["get"] >= 0, bump("get")),
            ("open iterator ends early", "inext", lambda e: e["out"], setf("out", [])),
            ("root changed later", "root", lambda e: e["root"] > 0, setf("root", 0))],
    "C06": [("retained version unreadable", "prune", lambda e: True, setf("res", "err")),
            ("node that should be gone", "prune", lambda e: e["left"], lambda e: (e["left"].append(dict(e["left"][0], v=0, n=63, ch=[])), e.__setitem__("num", e["num"] + 1)))],
    "C07": [("leaf count off", "upd", lambda e: any(n["t"] == "I" for n in e["nodes"]), lambda e: [bump("cnt")(n) for n in e["nodes"] if n["t"] == "I"]),
            ("statistics off", "upd", lambda e: e["stats"], lambda e: e["stats"][0].__setitem__(0, e["stats"][0][0] + 1)),
            ("retired node left out", "upd", lambda e: e["stale"], lambda e: (e["stale"].pop()))],
    "C08": [("last item missing", "iter", lambda e: e["out"], dropl("out")),
            ("item repeated", "iter", lambda e: e["out"], lambda e: e["out"].append(e["out"][-1]))],
    "C09": [("neighbour missing", "excl", lambda e: e["res"] == "excl" and e["left"], setf("left", [])),
            ("false claim accepted", "claim", lambda e: e["res"] == "err", setf("res", "ok")),
            ("ICS23 verifier refuses", "ics", lambda e: e["res"] == "ok", setf("ver", "err"))],
    "C10": [("valid chunk refused", "rchunk", lambda e: e["res"] == "ok", setf("res", "err")),
            ("value missing after restore", "read", lambda e: e["get"] >= 0, setf("get", -1))],
    "C11": [("bad chunk admitted", "rchunk", lambda e: e["res"] == "err" and e["good"] == 0 and not e["refused"], setf("res", "ok")),
            ("store changed by a rejected chunk", "rchunk", lambda e: e["res"] == "err", setf("same", 0)),
            ("finish succeeds without a root", "rfinish", lambda e: True, lambda e: e.update(res="ok", root=0)),
            ("failed finish stores a root", "rfinish", lambda e: e["res"] == "err", setf("root", 1))],
    "C12": [("length off", "book", lambda e: True, bump("len")),
            ("node silently replaced", "rawnode", lambda e: e["had"] == 1 and e["overwrite"] == 0 and e["res"] != "ok", setf("res", "ok"))],
    "C13": [("wrong value", "get", lambda e: e["get"] > 0, bump("get")),
            ("false absence", "get", lambda e: e["get"] > 0, setf("get", -1)),
            ("removal of an absent key reported", "rem", lambda e: e["res"] == 0, setf("res", 1)),
            ("empty value accepted", "ins", lambda e: e["v"] == 0, setf("res", 0))],
    "C14": [("other root", "commit", lambda e: len(e["db"]) > 1, lambda e: e.__setitem__("root", [x for x in e["db"] if x != e["root"]][0])),
            ("one byte of an encoding", "commit", lambda e: e["new"], lambda e: e["new"][-1]["s"].__setitem__(0, (e["new"][-1]["s"][0] + 1) % 256))],
    "C15": [("value of another root", "get", lambda e: e["get"] > 0, setf("get", -1)),
            ("item missing", "iter", lambda e: e["b"], dropl("b"))],
    "C16": [("node missing", "commit", lambda e: len(e["db"]) > 1, lambda e: e["db"].remove([x for x in e["db"] if x != e["root"]][0])),
            ("node left behind", "commit", lambda e: True, lambda e: e["db"].append(4711)),
            ("count off", "count", lambda e: True, bump("n"))],
    "C17": [("node too many", "proof", lambda e: len(e["ids"]) > 1 and e["ver"], lambda e: e["ids"].append(e["ids"][0])),
            ("node missing", "proof", lambda e: len(e["ids"]) > 1 and e["ver"], dropl("ids")),
            ("wrong answer", "proof", lambda e: e["ver"] and e["ver"][0] > 0, lambda e: e["ver"].__setitem__(0, -1))],
    "C18": [("insufficient proof accepted", "verify", lambda e: e["res"][0] == -2 and e["own"] == 0, lambda e: e["res"].__setitem__(0, -1)),
            ("sufficient proof refused", "verify", lambda e: e["res"][0] > 0 and e["own"] == 0, lambda e: e["res"].__setitem__(0, -2)),
            ("crash", "verify", lambda e: True, lambda e: e["res"].__setitem__(0, -3))],
    "C19": [("item missing", "iter", lambda e: e["b"], dropl("b")),
            ("owned iteration in another order", "iter", lambda e: len(e["o"]) > 1, lambda e: e["o"].reverse()),
            ("extra value", "iter", lambda e: e["v"], lambda e: e["v"].append(e["v"][0]))],
    "C21": [("value never written", "call", lambda e: e["op"] == "get" and e["res"] > 0, setf("res", 99999)),
            ("length off", "call", lambda e: e["op"] == "len", lambda e: e.__setitem__("res", e["res"] + 60)),
            ("failure under contention", "call", lambda e: e["op"] == "len", setf("res", -3)),
            ("listing comes back empty", "call", lambda e: e["op"] == "values" and e["all"], lambda e: e.update(all=[], res=0))],
    "C20": [("failure hidden", "get", lambda e: e["hit"] == 1, setf("get", -1)),
            ("failed removal reported as absence", "rem", lambda e: e["hit"] == 1, setf("res", 0)),
            ("failed commit reported as done", "commit", lambda e: e["hit"] == 1, setf("res", 0)),
            ("value lost after a failure", "get", lambda e: e["hit"] == 0 and e["get"] > 0, setf("get", -1))],
}


def corrupt(run, spec, traces, prop):
    """Take histories with a fitting event, falsify that one observation, require rejection.
    (Up to a dozen places per corruption: in some the specification leaves the answer open.)"""
    jobs = []
    for i, (name, kind, cond, mut) in enumerate(CORRUPT.get(prop, [])):
        found = []
        for t in traces:
            hist = []
            for n, line in enumerate(open(t)):
                if '"e":"reset"' in line:
                    hist = []
                hist.append(line)
                if f'"e":"{kind}"' in line:
                    e = json.loads(line)
                    if e["e"] == kind and cond(e):
                        mut(e)
                        p = run.path(f"corrupt{i}.{len(found)}.ndjson")
                        more = []
                        if spec == "MemDbTrace":   # the effect is only due at the return
                            rest = open(t).read().splitlines(True)[n + 1:]
                            more = rest[:next((i for i, x in enumerate(rest) if '"e":"reset"' in x), len(rest))]
                        open(p, "w").writelines(hist[:-1] + [json.dumps(e) + "\n"] + more)
                        found.append(p)
                        if len(found) % 2 == 0:
                            break
                        hist[-1] = line
            if len(found) >= 12:
                break
        if found:
            jobs.append((name, found))
        else:  # an event kind that this seed did not produce is reported, not failed
            run.cov.setdefault("corruptions_not_applicable", []).append(name)

    def rejected(j):
        name, found = j
        for p in found:
            if run.validate(spec, p, count=False) is not None:
                return True
        raise ToolError(f"binding demonstration: the specification accepted a corrupted trace ({name})")
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(rejected, jobs))
    run.cov["corrupted_traces_rejected"] = run.cov.get("corrupted_traces_rejected", 0) + len(jobs)
    if not jobs:
        raise ToolError("no observation to corrupt")


# ------------------------------------------------------------------ trace validation
def traces(run, cmd, spec, prop, count, label, rounds=1, extra=()):
    """Record histories of the real code and validate them against the trace specification."""
    hist = 0
    first = None
    for r in range(rounds):
        pre = run.path(f"{cmd}{r}.")
        run.harness([cmd, "--focus", prop, "--out", pre, "--count", count, "--seed", SEED + 7919 * r,
                     "--shards", JOBS, *extra], timeout=600 if QUICK else 900)
        files = [f"{pre}{i}.ndjson" for i in range(JOBS)]
        if r == 0:
            kinds = {}
            for f in files:
                for line in open(f):
                    e = json.loads(line)
                    kinds[e["e"]] = kinds.get(e["e"], 0) + 1
            run.cov["events_by_kind"] = {**run.cov.get("events_by_kind", {}), **kinds}
            run.sample([json.loads(x) for x in open(files[0]).read().splitlines()[:8]])
        run.validate_all(spec, files, label)
        if r == 0:
            corrupt(run, spec, files, prop)
        for f in files:
            os.unlink(f)


def large(run, prop, rounds):
    """four histories with 258-280 keys, most below one node, and four with 257-275 versions"""
    for r in range(rounds):
        pre = run.path(f"large{r}.")
        run.harness(["jmt-trace", "--focus", prop, "--out", pre, "--count", 1, "--seed", SEED + 104729 * (r + 1),
                     "--shards", JOBS, "--scale", 1], timeout=600)
        files = [f"{pre}{i}.ndjson" for i in range(JOBS)]
        run.validate_all("JmtTrace", files, "large recorded history")
        for f in files:
            os.unlink(f)
    run.cov["large_histories"] = JOBS * rounds


JMT = {  # focus -> histories per shard (8 shards), quick
    "C01": 60, "C02": 200, "C03": 60, "C04": 40, "C05": 60, "C06": 60, "C07": 120, "C08": 100, "C09": 50, "C10": 50,
    "C11": 100, "C12": 100,
}

def memdb(run):
    """Concurrent histories of the in-memory database: linearizable?"""
    total = []
    for r in range(1 if QUICK else 8):
        pre = run.path(f"memdb{r}.")
        out = run.harness(["memdb-trace", "--out", pre, "--shards", JOBS, "--keep", 80 if QUICK else 200, "--count",
                           12000 if QUICK else 60000, "--big", 8, "--seed", SEED + 7919 * r, "--budget", 60],
                          timeout=400)
        total.append(json.loads(out))
        files = [f"{pre}{i}.ndjson" for i in range(JOBS)]
        if r == 0:
            run.sample([json.loads(x) for x in open(files[0]).read().splitlines()[:8]])
        run.validate_all("MemDbTrace", files, "concurrent history")
        if r == 0:
            corrupt(run, "MemDbTrace", files, "C21")
        for f in files:
            os.unlink(f)
    run.cov["concurrency"] = {k: sum(t[k] for t in total) for k in total[0]}


MEMDB_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  TH = {{t1, t2, t3}}
  KEYS = {{1, 2}}
  Light = {light}
  Calls = {calls}
  Fault = {fault}
SYMMETRY Sym
INVARIANTS Linearizable NoDeadlock Quiet
"""


def memdb_model(run):
    """the locking of the database, all interleavings of three threads; with faults planted in the model"""
    jobs = [("TRUE", 3, f) for f in range(1, 6)] + [("TRUE", 3, 0), ("FALSE", 3, 0)] + ([] if QUICK else [("TRUE", 4, 0), ("FALSE", 4, 0)])

    def one(j):
        light, calls, fault = j
        cfg = run.path(f"memdb.{light}.{calls}.{fault}.cfg")
        with open(cfg, "w") as f:
            f.write(MEMDB_CFG.format(light=light, calls=calls, fault=fault))
        return j, run.tlc("MemDbMC", cfg=cfg, workers=4, heap="4g", timeout=840)
    with ThreadPoolExecutor(2) as ex:
        for (light, calls, fault), (code, text) in ex.map(one, jobs):
            if fault:
                if "is violated" not in text:
                    raise ToolError(f"MemDbMC does not notice fault {fault}:\n" + text[-2000:])
                run.cov["model_mutations_noticed"] = run.cov.get("model_mutations_noticed", 0) + 1
                continue
            if code or "No error has been found" not in text:
                raise ToolError("the model of the locking violates its own invariants:\n" + text[-3000:])
            gen, dist = run.counts(text)
            run.states += dist
            run.transitions += gen
            run.cov.setdefault("models", {})[f"locking, {calls} calls, {'pruning' if light == 'TRUE' else 'archive'}"] = \
                {"states": dist, "transitions": gen}


def known_shared_leaf(run):
    """the one history listed for C16 in KNOWN_FINDINGS.txt; any other failure is a violation"""
    out = run.harness(["pmt-known"]).strip()
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")) as f:
        listed = [x.split(None, 2)[2].strip() for x in f if x.startswith("known: property=C16 shared-leaf ")]
    if out == "missing" and listed:
        run.known.append(listed[0])
    elif out != "held":
        raise Violation("two equal leaves in a pruning database", [
            "# MemoryDB::new(true): insert 1abcd -> [7;40], insert 2abcd -> [7;40], commit, insert 1abcd -> z, commit, get 2abcd",
            "# answer: " + out])


MPT_CFG = """SPECIFICATION {spec}
CHECK_DEADLOCK FALSE
CONSTANTS
  KN <- {kn}
  VALS <- {vals}
  PERKEY = TRUE
  Light = TRUE
  Faults = {faults}
  Thaws = {thaws}
  MaxOps = 40
  MaxKeys = {maxkeys}
  Out = {out}
"""
MPT_INV = "VIEW view\nCONSTRAINT Bounded\nINVARIANTS Canonical Lookups Durable Tidy RootOk\n"


def mpt_cfg(run, name, kn, vals, maxkeys, faults=0, export=False, table=False, thaws=0):
    p = run.path(name + ".cfg")
    with open(p, "w") as f:
        f.write(MPT_CFG.format(spec="TSpec" if table else "Spec", kn=kn, vals=vals, faults=faults, thaws=thaws, maxkeys=maxkeys,
                               out="TRUE" if export else "FALSE"))
        if not table:
            f.write(MPT_INV + ("INVARIANT Export\n" if export else ""))
    return p


def mpt_table(run, kn, vals):
    """what the definition says about every content of a universe"""
    out = run.path(f"table.{kn}.json")
    code, text = run.tlc("MptTable", cfg=mpt_cfg(run, "table." + kn, kn, vals, 9, table=True), env={"OUT": out})
    if code or not os.path.exists(out):
        raise ToolError("no table:\n" + text[-2000:])
    return out


def mpt_model(run, name, kn, vals, maxkeys, faults=0, export=True, thaws=0):
    """explore the transcribed algorithm exhaustively; export a behaviour leading to every state"""
    code, text = run.tlc("MptUni", cfg=mpt_cfg(run, name, kn, vals, maxkeys, faults, export, thaws=thaws), workers=8, heap="8g",
                         timeout=840)
    if code or "No error has been found" not in text:
        raise ToolError(f"the model {name} violates its own invariants:\n" + text[-3000:])
    gen, dist = run.counts(text)
    run.states += dist
    run.transitions += gen
    run.cov.setdefault("models", {})[name] = {"states": dist, "transitions": gen}
    if not export:
        return None
    h = run.path(name + ".hist")
    lines = [x[4:-3].replace(",", "") for x in text.splitlines() if x.startswith('"H<<')]
    if len(lines) != dist:
        raise ToolError(f"{len(lines)} behaviours exported for {dist} states")
    with open(h, "w") as f:
        f.write("\n".join(lines) + "\n")
    return h


def mpt_replay(run, prop, name, table, hist, light, stride=1):
    """the exported behaviours, each extended by every next operation, in the real code"""
    out = run.harness(["pmt-replay", "--focus", prop, "--table", table, "--hist", hist or "/dev/null", "--light", light,
                       "--stride", stride, "--offset", SEED % stride, "--threads", JOBS], timeout=600 if QUICK else 850)
    r = json.loads(out)
    tot = run.cov.setdefault("behaviours_replayed_into_impl", {})
    tot[f"{name}/{'pruning' if light else 'archive'}"] = r
    run.traces += r["behaviours_replayed"]


def mpt_stage(run, prop):
    modes = {"C15": [0], "C16": [1], "C18": [0]}.get(prop, [0, 1])
    stride = {"C15": 4, "C19": 6, "C17": 2, "C20": 8}.get(prop, 1) if QUICK else 1
    table = mpt_table(run, "KN4", "VALS8")
    if prop == "C18":
        mpt_replay(run, prop, "KN4", table, None, 0)
        mpt_replay(run, prop, "KN6", mpt_table(run, "KN6", "VALS12"), None, 0, 20 if QUICK else 1)
        return
    hist = mpt_model(run, "KN4", "KN4", "VALS8", 4)
    for m in modes:
        mpt_replay(run, prop, "KN4", table, hist, m, stride)
    if prop == "C20":
        mpt_model(run, "KN3-faults", "KN3", "VALS6", 3, faults=1, export=False)
    if not QUICK:
        for name, kn, vals, mk in [("KN5", "KN5", "VALS10", 4), ("KN6", "KN6", "VALS12", 3)]:
            hist = mpt_model(run, name, kn, vals, mk)
            table = mpt_table(run, kn, vals)
            for m in modes:
                mpt_replay(run, prop, name, table, hist, m, {"C15": 8, "C19": 8, "C17": 2, "C20": 24}.get(prop, 1))


JMT_CFG = """SPECIFICATION {spec}
CHECK_DEADLOCK FALSE
CONSTANTS
  KJ <- {kj}
  NV = {nv}
  MaxOps = 60
  MaxKeys = {maxkeys}
  Out = {out}
"""
JMT_INV = """VIEW view
CONSTRAINT Bounded
INVARIANTS Minimal AllReachable RootWritten LeavesCounted RetiredExactly
INVARIANT Export
"""


def jmt_table(run, kj, nv):
    """what the definitions say about every content of a universe"""
    out, cfg = run.path(f"table.{kj}.{nv}.json"), run.path(f"table.{kj}.{nv}.cfg")
    with open(cfg, "w") as f:
        f.write(JMT_CFG.format(spec="TSpec", kj=kj, nv=nv, maxkeys=9, out="FALSE"))
    code, text = run.tlc("JmtTable", cfg=cfg, env={"OUT": out})
    if code or not os.path.exists(out):
        raise ToolError("no table:\n" + text[-2000:])
    return out


def jmt_model(run, kj, nv, maxkeys=9):
    """explore the transcribed update algorithm exhaustively; export a behaviour leading to every state"""
    name = f"{kj}/{nv} values"
    cfg, h = run.path(f"model.{kj}.{nv}.cfg"), run.path(f"model.{kj}.{nv}.hist")
    with open(cfg, "w") as f:
        f.write(JMT_CFG.format(spec="Spec", kj=kj, nv=nv, maxkeys=maxkeys, out="TRUE") + JMT_INV)
    code, text = run.tlc("JmtUni", cfg=cfg, workers=8, heap="8g", timeout=840)
    if code or "No error has been found" not in text:
        raise ToolError(f"the model {name} violates its own invariants:\n" + text[-3000:])
    gen, dist = run.counts(text)
    run.states += dist
    run.transitions += gen
    run.cov.setdefault("models", {})[name] = {"states": dist, "transitions": gen}
    lines = [x[4:-3].replace(",", "") for x in text.splitlines() if x.startswith('"H<<')]
    if len(lines) != dist:
        raise ToolError(f"{len(lines)} behaviours exported for {dist} states")
    with open(h, "w") as f:
        f.write("\n".join(lines) + "\n")
    return h


# every how many exported behaviours one is replayed: quick, thorough
JMT_STRIDE = {"C01": (1, 1), "C02": (1, 1), "C03": (2, 1), "C05": (10, 4), "C06": (12, 8), "C07": (1, 1), "C08": (1, 1),
              "C09": (10, 4), "C12": (1, 1), "C22": (16, 2)}


def jmt_stage(run, prop):
    for kj, nv in [("KJ5", 2)] + ([] if QUICK else [("KJ6", 2)]):
        with ThreadPoolExecutor(2) as ex:
            table, hist = ex.submit(jmt_table, run, kj, nv), ex.submit(jmt_model, run, kj, nv)
            table, hist = table.result(), hist.result()
        stride = JMT_STRIDE[prop][0 if QUICK else 1] * (8 if kj == "KJ6" else 1)
        out = run.harness(["jmt-replay", "--focus", prop, "--table", table, "--hist", hist, "--stride", stride, "--offset",
                           SEED % stride, "--threads", JOBS, "--modes", 1 if QUICK else 4], timeout=600 if QUICK else 850)
        r = json.loads(out)
        run.cov.setdefault("behaviours_replayed_into_impl", {})[f"{kj}/{nv} values"] = r
        run.traces += r["behaviours_replayed"]


PROOF_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KB <- {kb}
  NV = {nv}
  Depth = {depth}
  DomainSep = {sep}
INVARIANTS Sound Complete Unique
"""


def proof_stage(run):
    """the verifier against an adversary, in the model; the adversary's moves against the real verifier"""
    for kb, nv, depth, sep in [("KB3", 2, 3, "TRUE"), ("KB3", 2, 3, "FALSE")] + ([] if QUICK else [("KB4", 1, 4, "TRUE"), ("KB4", 2, 4, "TRUE")]):
        cfg = run.path(f"proof.{kb}.{nv}.{sep}.cfg")
        with open(cfg, "w") as f:
            f.write(PROOF_CFG.format(kb=kb, nv=nv, depth=depth, sep=sep))
        code, text = run.tlc("ProofUni", cfg=cfg, workers=8, heap="8g", timeout=840)
        if sep == "FALSE":   # without domain separation the model must show the forgery: it is not vacuous
            if "Invariant Sound is violated" not in text:
                raise ToolError("the adversary of ProofMC finds no forgery where there is one:\n" + text[-2000:])
            continue
        if code or "No error has been found" not in text:
            raise ToolError("the proof model violates its own invariants:\n" + text[-3000:])
        gen, dist = run.counts(text)
        run.states += dist
        run.transitions += gen
        run.cov.setdefault("models", {})[f"proofs {kb}/{nv} values"] = {"states": dist, "transitions": gen}
    for kj, stride, inner in [("KJ5", 9, 3)] if QUICK else [("KJ5", 1, 3), ("KJ6", 3, 3)]:
        out = run.harness(["jmt-attack", "--table", jmt_table(run, kj, 2), "--stride", stride, "--inner", inner, "--offset",
                           SEED % stride, "--threads", JOBS], timeout=600 if QUICK else 850)
        run.cov.setdefault("tampered_proofs", {})[kj] = json.loads(out)


RESTORE_CFG = """SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  KJ <- {kj}
  NV = {nv}
  MaxBad = {maxbad}
  Fault = {fault}
  MaxOps = 60
  MaxKeys = 9
  Out = {out}
CONSTRAINT Bounded
INVARIANTS Exactly OnlyTrueNodes OnlyTrueValues Complete NoEarlyRoot ValuesFirst
"""


def restore_model(run, kj, nv, maxbad=0, fault=0, export=False):
    """the restore algorithm against any source: exhaustive, or (fault) with a check left out, or exporting behaviours"""
    name = f"{kj}.{nv}.{maxbad}.{fault}"
    cfg = run.path(f"restore.{name}.cfg")
    with open(cfg, "w") as f:
        f.write(RESTORE_CFG.format(kj=kj, nv=nv, maxbad=maxbad, fault=fault, out="TRUE" if export else "FALSE")
                + ("INVARIANT Export\n" if export else ""))
    code, text = run.tlc("RestoreUni", cfg=cfg, workers=8, heap="8g", timeout=840, throws=bool(fault))
    if fault:
        if "is violated" not in text and "no internal node has a leaf as its only child" not in text:
            raise ToolError(f"RestoreMC does not notice the missing check {fault}:\n" + text[-2000:])
        run.cov["model_mutations_noticed"] = run.cov.get("model_mutations_noticed", 0) + 1
        return None
    if code or "No error has been found" not in text:
        raise ToolError(f"the restore model {name} violates its own invariants:\n" + text[-3000:])
    gen, dist = run.counts(text)
    run.states += dist
    run.transitions += gen
    run.cov.setdefault("models", {})[f"restore {kj}/{nv} values, {maxbad} bad chunks"] = {"states": dist, "transitions": gen}
    if not export:
        return None
    lines = [x[5:-2].translate(str.maketrans(",<>", "   ")) for x in text.splitlines() if x.startswith('<<"H"')]
    if len(lines) != dist:
        raise ToolError(f"{len(lines)} behaviours exported for {dist} states")
    h = run.path(f"restore.{name}.hist")
    with open(h, "w") as f:
        f.write("\n".join(lines) + "\n")
    return h


def restore_stage(run, prop):
    if prop == "C11":
        for fault in (1, 2, 3):
            restore_model(run, "KJ4", 1, 1, fault)
        for kj, nv in [("KJ4", 1)] + ([] if QUICK else [("KJ4", 2), ("KJ5", 1)]):
            restore_model(run, kj, nv, 1)
        uni = [("KJ5", 1, 1, 40)] if QUICK else [("KJ5", 1, 1, 4), ("KJ5", 2, 5, 60), ("KJ6", 1, 1, 40)]
    else:
        uni = [("KJ5", 2, 1, 1)] if QUICK else [("KJ5", 2, 1, 1), ("KJ6", 2, 1, 1)]
    for kj, nv, stride, inner in uni:
        with ThreadPoolExecutor(2) as ex:
            table, hist = ex.submit(jmt_table, run, kj, nv), ex.submit(restore_model, run, kj, nv, 0, 0, True)
            table, hist = table.result(), hist.result()
        out = run.harness(["restore-replay", "--focus", prop, "--table", table, "--hist", hist, "--stride", stride, "--inner",
                           inner, "--offset", SEED, "--threads", JOBS], timeout=600 if QUICK else 850)
        r = json.loads(out)
        run.cov.setdefault("behaviours_replayed_into_impl", {})[f"restore {kj}/{nv} values"] = r
        run.traces += r["behaviours_replayed"]


def thaw_stage(run):
    """the trie written out and read back at any point of any behaviour, in the model and in the code"""
    with ThreadPoolExecutor(2) as ex:
        table, hist = ex.submit(mpt_table, run, "KN3", "VALS6"), ex.submit(mpt_model, run, "KN3-thaw", "KN3", "VALS6", 3, 0, True, 1)
        table, hist = table.result(), hist.result()
    for m in (0, 1):
        mpt_replay(run, "C22", "KN3-thaw", table, hist, m, 40 if QUICK else 3)
    if not QUICK:
        table, hist = mpt_table(run, "KN5", "VALS10"), mpt_model(run, "KN5", "KN5", "VALS10", 4)
        for m in (0, 1):
            mpt_replay(run, "C22", "KN5", table, hist, m, 20)


PMT = {"C13": 60, "C14": 60, "C15": 60, "C16": 60, "C17": 60, "C18": 60, "C19": 60, "C20": 60}


def check(prop):
    def fn(run):
        if prop == "C21":
            memdb_model(run)
            memdb(run)
        if prop in PMT:
            if prop == "C16":
                known_shared_leaf(run)
            mpt_stage(run, prop)
            traces(run, "pmt-trace", "MptTrace", prop, PMT[prop] * (1 if QUICK else 4), "recorded history",
                   rounds=1 if QUICK else 6)
        if prop == "C22":
            thaw_stage(run)
        if prop == "C04":
            proof_stage(run)
        if prop in ("C10", "C11"):
            restore_stage(run, prop)
        if prop in JMT_STRIDE:
            jmt_stage(run, prop)
        if prop in JMT:
            traces(run, "jmt-trace", "JmtTrace", prop, JMT[prop] * (1 if QUICK else 4), "recorded history",
                   rounds=1 if QUICK else 6)
            large(run, prop, 1 if QUICK else 8)
        run.assumptions += ["SHA-256/Keccak-256 have no collisions",
                            "bounded exploration: the histories, universes and depths named in DESIGN.md"]
    return fn


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], check(sys.argv[1])))
