"""Runs the generated-input search for one property, shards it over processes, shrinks
failures, writes the replay file and the evidence file.

A property module calls main(PID, parts) where parts is a list of Part.  A Part is a
Hypothesis strategy producing JSON-serialisable cases plus a check function check(case, ctx)
which raises Violation when the property is broken on that case.  Any other exception is a
harness error (exit 2), never a violation.
"""
from . import env  # noqa: F401
import argparse
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.errors import Flaky, FlakyFailure, Unsatisfiable

try:  # bound the time spent shrinking; the unshrunk failure is still reported
    import hypothesis.internal.conjecture.engine as _eng

    _eng.MAX_SHRINKING_SECONDS = 60
except Exception:  # pragma: no cover
    pass

KNOWN_FILE = os.path.join(env.VERIF, "known_findings.json")
REPLAY_DIR = os.path.join(env.VERIF, "replays")
EVID_DIR = os.path.join(env.VERIF, "evidence")
CPU_LIMIT = 40  # CPU seconds for one case (a normal one takes milliseconds)


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, message, sig=None):
        super().__init__(message)
        self.sig = sig


class CpuLimit(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CpuLimit()


class Ctx:
    """Per-case recorder."""

    def __init__(self, known):
        self.labels = Counter()
        self.nontrivial = False
        self.known = known  # known findings of this property: sig -> entry
        self.known_hit = Counter()
        self.discard = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def count(self, name, n=1):
        self.labels[name] += n


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None, weight=1.0, max_shards=8, isolate=False):
        self.isolate = isolate  # each case in a process of its own, so that no case sees what another left behind
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.max_shards = max_shards


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_case(part, case, known):
    """Returns ctx; raises Violation or harness errors."""
    return forked(lambda: run_case_here(part, case, known)) if part.isolate else run_case_here(part, case, known)


def forked(f):
    """f() in a forked process: its result, or its Violation"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except Violation as v:
                out = ("violation", (str(v), v.sig))
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as p:
                pickle.dump(out, p)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    kind, v = pickle.loads(data) if data else ("error", "the process of the case ended")
    if kind == "violation":
        raise Violation(v[0], sig=v[1])
    if kind == "error":
        raise RuntimeError(v)
    return v


def run_case_here(part, case, known):
    ctx = Ctx(known)
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        part.check(case, ctx)
    except CpuLimit:
        raise Violation(
            "no answer after %d s of CPU time on a case that normally takes milliseconds" % CPU_LIMIT,
            sig="cpu-limit",
        )
    except Violation as v:
        if v.sig is not None and v.sig in known:
            ctx.known_hit[v.sig] += 1
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return ctx


def shard_main(part, seed, n, known, queue, idx):
    try:
        res = run_shard(part, seed, n, known)
    except BaseException:
        res = {"error": traceback.format_exc()}
    queue.put((idx, res))


def run_shard(part, seed, n, known):
    stat = {
        "evals": 0,
        "nontrivial": set(),
        "distinct": set(),
        "labels": Counter(),
        "samples": [],
        "known": Counter(),
        "fail": None,
        "discards": 0,
    }
    last = {"case": None, "msg": None, "first": None}

    state = {"failed": False}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
    )
    @given(part.strategy)
    def prop(case):
        try:
            ctx = run_case(part, case, known)
        except Violation as v:
            state["failed"] = True
            last["case"], last["msg"] = case, str(v)
            if last["first"] is None:
                last["first"] = (case, str(v))
            raise
        if state["failed"]:
            return  # shrinking: do not count
        stat["evals"] += 1
        key = case_key(case)
        stat["distinct"].add(key)
        if ctx.discard:
            stat["discards"] += 1
        if ctx.nontrivial:
            if key not in stat["nontrivial"] and len(stat["samples"]) < 2:
                stat["samples"].append(case)
            stat["nontrivial"].add(key)
        stat["labels"].update(ctx.labels)
        stat["known"].update(ctx.known_hit)

    try:
        prop()
    except Violation:
        stat["fail"] = (last["case"], last["msg"])
    except (Flaky, FlakyFailure, BaseExceptionGroup) as e:
        if last["first"] is None:
            raise
        # the failure did not reproduce under the shrinker: what a case does depends on the cases before it
        for cand in (last["first"], (last["case"], last["msg"])):
            for _ in range(3):
                try:
                    run_case(part, cand[0], known)
                except Violation as v:
                    stat["fail"] = (cand[0], str(v))
                    break
            if stat["fail"]:
                break
        else:
            stat["history"] = last["first"]
    except Unsatisfiable:
        stat["labels"]["unsatisfiable"] += 1
    return stat


def load_known(pid):
    if not os.path.exists(KNOWN_FILE):
        return {}
    with open(KNOWN_FILE) as f:
        data = json.load(f)
    return {e["sig"]: e for e in data.get("findings", []) if e["property"] == pid}


def run_tasks(tasks, known, nproc):
    """tasks: list of (part, seed, n).  Runs each in its own forked process."""
    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    results = [None] * len(tasks)
    running = {}
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < nproc:
            part, seed, n = tasks[nxt]
            p = ctx.Process(target=shard_main, args=(part, seed, n, known, queue, nxt))
            p.start()
            running[nxt] = p
            nxt += 1
        try:
            idx, res = queue.get(timeout=1.0)
            results[idx] = res
            running.pop(idx).join()
        except Exception:
            for idx, p in list(running.items()):
                if not p.is_alive() and queue.empty():
                    time.sleep(0.3)
                    if queue.empty() and results[idx] is None:
                        results[idx] = {"error": "shard process died (exit %s)" % p.exitcode}
                        running.pop(idx)
    return results


def main(pid, parts, rule, assumptions=(), pinned=(), level="exploration"):
    """pinned: list of (name, case-part-name, case) regression cases always run first."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("PBT_SCALE", "1")))
    ap.add_argument("--nproc", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    known = load_known(pid)
    by_name = {p.name: p for p in parts}

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        seq = data["case"].get("sequence") if isinstance(data["case"], dict) else None
        try:
            if seq and set(seq) == {"seed", "n"}:
                r = run_tasks([(by_name[data["part"]], seq["seed"], seq["n"])], known, 1)[0]
                if r.get("fail") or r.get("history"):
                    raise Violation((r.get("fail") or r["history"])[1])
            else:
                run_case(by_name[data["part"]], data["case"], {})
        except Violation as v:
            print("replay fails: %s" % v)
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
            sys.exit(1)
        print("replay passes")
        sys.exit(0)

    t0 = time.time()
    if args.part:
        parts = [by_name[n] for n in args.part.split(",")]
    failures = []
    pinned_run = 0
    known_hit = Counter()
    for name, part_name, case in pinned:
        if part_name not in {p.name for p in parts}:
            continue
        pinned_run += 1
        try:
            c = run_case(by_name[part_name], case, known)
            known_hit.update(c.known_hit)
        except Violation as v:
            failures.append((part_name, case, "pinned case %s: %s" % (name, v)))

    tasks = []
    for pi, p in enumerate(parts):
        total = int((p.quick if args.tier != "thorough" else p.thorough) * args.scale) or 1
        shards = max(1, min(p.max_shards, args.nproc, total // 10 or 1))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((p, (args.seed * 1000003 + pi * 1009 + s) & 0x7FFFFFFF, n))
    results = run_tasks(tasks, known, args.nproc)

    evals = len(pinned) and pinned_run
    nontriv, distinct = set(), set()
    labels = Counter()
    samples = []
    errors = []
    per_part = {}
    for (p, seed, n), r in zip(tasks, results):
        if "error" in r:
            errors.append("part %s seed %d: %s" % (p.name, seed, r["error"]))
            continue
        evals += r["evals"]
        nontriv |= {p.name + k for k in r["nontrivial"]}
        distinct |= {p.name + k for k in r["distinct"]}
        for k, v in r["labels"].items():
            labels["%s:%s" % (p.name, k)] += v
        pp = per_part.setdefault(p.name, {"evaluations": 0, "distinct_nontrivial": 0})
        pp["evaluations"] += r["evals"]
        pp["distinct_nontrivial"] += len(r["nontrivial"])
        known_hit.update(r["known"])
        if r["samples"] and sum(1 for s in samples if s["part"] == p.name) < 2:
            samples.append({"part": p.name, "case": r["samples"][0]})
        if r["fail"]:
            failures.append((p.name, r["fail"][0], r["fail"][1]))
        elif r.get("history"):
            # only reproducible as the whole sequence of cases of a fresh process
            again = run_tasks([(p, seed, n)], known, 1)[0]
            if again.get("fail") or again.get("history"):
                case, msg = again.get("fail") or again["history"]
                failures.append((p.name, {"sequence": {"seed": seed, "n": n}, "last": case}, "after the cases before it: " + msg))
            else:
                errors.append("part %s seed %d: failure that does not reproduce: %s" % (p.name, seed, r["history"][1]))

    out = {
        "property": pid,
        "tier": "thorough" if args.tier == "thorough" else "quick",
        "seed": args.seed,
        "level": level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "distinct": len(distinct),
            "rule": rule,
            "samples": samples[:6],
            "per_part": per_part,
            "classification": dict(sorted(labels.items())),
            "known_findings_hit": dict(known_hit),
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(EVID_DIR, exist_ok=True)
    with open(os.path.join(EVID_DIR, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)

    for sig, entry in known.items():
        print("KNOWN-FINDING: property=%s %s (hit on %d generated cases)" % (pid, entry["what"], known_hit.get(sig, 0)))
    if args.verbose:
        for k, v in sorted(labels.items()):
            print("   %-60s %d" % (k, v))
    print(
        "%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
        % (pid, out["tier"], args.seed, evals, len(nontriv), out["wall_s"])
    )
    if failures:
        os.makedirs(REPLAY_DIR, exist_ok=True)
        failures.sort(key=lambda f: len(json.dumps(f[1], default=str)))
        seen = set()
        for i, (pn, case, msg) in enumerate(failures):
            if pn in seen:
                continue
            seen.add(pn)
            path = os.path.join(REPLAY_DIR, "%s-%s-%s.json" % (pid, pn, case_key(case)))
            with open(path, "w") as f:
                json.dump({"property": pid, "part": pn, "message": msg, "case": case}, f, indent=1, default=str)
            print("  part %s: %s" % (pn, msg[:2000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        for e in errors:
            print("HARNESS ERROR " + e, file=sys.stderr)
        sys.exit(2)
    sys.exit(0)
