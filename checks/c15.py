"""C15: a simulation depends on nothing but its inputs and the random numbers."""
import _boot
import contextlib
import copy
import csv
import io
import json
import os
import re
import subprocess
import sys
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
import c02
import c07
import c09
import c10
import c16
from prosimos.simulation_engine import run_simulation
from prosimos.simulation_setup import SimDiffSetup

# no event-based gateways: their ties are broken by system randomness, which no seed controls
KINDS = ("task", "seq", "xor", "and", "or", "loop")
CFG = model.TreeCfg(kinds=KINDS, events=True, max_tasks=7, max_branches=4)
MANY = model.TreeCfg(kinds=("task", "seq", "seq", "and", "and"), events=False, max_tasks=9, max_branches=4)


@st.composite
def noisy(draw, **kw):
    c = draw(gen.scenarios(CFG, **kw))
    for td in c["scn"]["task_resource_distribution"]:
        for r in td["resources"]:
            if draw(st.booleans()):
                lo = draw(st.integers(1, 3000))
                r.update({"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": lo + 999}, {"value": lo}, {"value": lo + 999}]})
    return c


@st.composite
def shuffled(draw):
    """tasks sharing resources that are listed in another order for each of them"""
    c = draw(gen.scenarios(MANY, max_cases=6, max_pools=2, arrival=gen.durations(1, 3000)))
    out = []
    for td in c["scn"]["task_resource_distribution"]:
        out.append(dict(td, resources=draw(st.permutations(td["resources"]))))
    c["scn"]["task_resource_distribution"] = out
    return c


def fuzzy():
    def f(c):
        c["scn"] = c["scn"]["__as__"]
        return c
    return c16.sure_cases(cfg=CFG, max_cases=4).map(f)


def attributes():
    def f(c):
        c["scn"] = dict(c["scn"], **c10.scenario_sections(c.pop("sec")))
        return c
    return c10.log_scen().map(f)


def any_case():
    return st.one_of(noisy(), shuffled(), fuzzy(), attributes(), c02.cond_scen(), c09.order_cases(False), c07.scen(cfg=CFG, prio=True, noisy=True), c07.scen(cfg=CFG))


def job(case, **kw):
    j = {"xml": gen.xml_of(case, defaults=case.get("defaults") or {}), "scn": case["scn"], "total": case["total"],
         "start": sim.iso(case["start"], case["tz"]), "seed": case["seed"], "fixed": case.get("fixed"), "events": case.get("events", True)}
    j.update(kw)
    return j


UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|\b\d{30,}\b")


def plain(text):
    """ids of batches are unique, not reproducible: numbered in order of appearance"""
    ids = {}
    return UUID.sub(lambda m: ids.setdefault(m.group(0), "id%d" % len(ids)), text)


def execute(j, folder=None):
    """-> what the simulation writes and returns; the inputs must be left as they are"""
    with contextlib.nullcontext(folder) if folder else sim.Scratch() as d:
        b, s, lp, sp = (os.path.join(d, n) for n in ("m.bpmn", "s.json", "log.csv", "stats.csv"))
        text = j.get("text") or json.dumps(j["scn"])
        open(b, "w", encoding="utf-8").write(j["xml"])
        open(s, "w", encoding="utf-8").write(text)
        sim.seed_all(j["seed"])
        fixed = list(j["fixed"]) if j.get("fixed") is not None else None
        cwd = os.getcwd()
        os.chdir(d)
        try:
            sim.sut(run_simulation, b, s, j["total"], sp, lp, j["start"], j["events"], fixed)
        finally:
            os.chdir(cwd)
        if open(b, encoding="utf-8").read() != j["xml"] or open(s, encoding="utf-8").read() != text:
            raise Violation("the simulation changed its input files")
        if fixed is not None and fixed != list(j["fixed"]):
            raise Violation("the simulation changed the given arrival times: %s, given %s" % (fixed, j["fixed"]))
        out = {}
        for n in ("log.csv", "stats.csv", "simulation_warnings.txt"):
            with open(os.path.join(d, n), encoding="utf-8", newline="") as f:
                out[n] = plain(f.read())
        return out


def same(a, b, what):
    for n in a:
        if a[n] != b[n]:
            x, y = a[n].splitlines(), b[n].splitlines()
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            raise Violation("%s: %s differs at line %d: %s / %s" % (what, n, k, x[k:k + 1], y[k:k + 1]))


def rows_of(out):
    return out["log.csv"].count("\n") - 1


# ---------------------------------------------------------------- what happened before
@st.composite
def histories(draw):
    a = draw(any_case())
    if draw(st.integers(0, 3)) == 0:
        t, a["fixed"] = 0, []
        for _ in range(a["total"]):
            t += draw(st.integers(0, 5000))
            a["fixed"].append(t)
    others = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["same", "other", "seed", "broken-json", "broken-gateway", "setup", "memory", "fail"]))
        others.append({"k": k, "case": draw(any_case()) if k in ("other", "broken-gateway", "setup", "memory", "fail") else None})
    # everything in one folder: the same file names, with other contents
    return {"a": a, "others": others, "folder": draw(st.booleans())}


def meanwhile(o, a, folder):
    j = job(o["case"] or a)
    if o["k"] == "seed":
        j["seed"] += 1
    if o["k"] in ("same", "other", "seed"):
        execute(j, folder)
        return
    with contextlib.nullcontext(folder) if folder else sim.Scratch() as d:
        b, s = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        if o["k"] == "broken-json":
            text = json.dumps(j["scn"])[:-3]
        elif o["k"] == "broken-gateway":
            scn = copy.deepcopy(j["scn"])
            scn["gateway_branching_probabilities"].append({"gateway_id": "nowhere", "probabilities": [
                {"path_id": "x", "value": 0.5, "condition_id": "no"}, {"path_id": "y", "value": 0.9}, {"path_id": "z"}]})
            text = json.dumps(scn)
        elif o["k"] == "fail":
            # fails in the middle of the simulation: tasks without resources
            scn = copy.deepcopy(j["scn"])
            scn["task_resource_distribution"] = scn["task_resource_distribution"][:-1]
            text = json.dumps(scn)
        else:
            text = json.dumps(j["scn"])
        open(b, "w", encoding="utf-8").write(j["xml"])
        open(s, "w", encoding="utf-8").write(text)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with sim.quiet():
                if o["k"] == "setup":
                    SimDiffSetup(b, s, False, 3)
                else:
                    run_simulation(b, s, j["total"], None, None, j["start"], False)
        except Exception:
            if o["k"] in ("setup", "memory"):
                raise
        finally:
            os.chdir(cwd)


def check_history(case, ctx):
    j = job(case["a"])
    with sim.Scratch() as d:
        folder = d if case["folder"] else None
        a = execute(j, folder)
        for o in case["others"]:
            meanwhile(o, case["a"], folder)
            ctx.label(o["k"])
            same(a, execute(j, folder), "simulated again after %r" % o["k"])
    ctx.nontrivial = rows_of(a) > 2


# ---------------------------------------------------------------- in other processes
WORKER = """
import sys, json
sys.path.insert(0, %r)
import _boot
import c15
for line in sys.stdin:
    try:
        r = c15.execute(json.loads(line))
    except c15.Violation as e:
        r = {"error": str(e)}
    sys.stdout.write(json.dumps(r) + chr(10))
    sys.stdout.flush()
"""
workers = {}


def remote(j, hash_seed):
    p = workers.get(hash_seed)
    if p is None:
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        p = workers[hash_seed] = subprocess.Popen([sys.executable, "-c", WORKER % os.path.dirname(os.path.abspath(__file__))],
                                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
    p.stdin.write(json.dumps(j) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        workers.pop(hash_seed)
        raise RuntimeError("worker ended")
    r = json.loads(line)
    if "error" in r:
        raise Violation(r["error"])
    return r


def check_process(case, ctx):
    j = job(case)
    a = remote(j, 1)
    for h in (2, 3):
        same(a, remote(j, h), "simulated by another process")
    ctx.nontrivial = rows_of(a) > 2


# ---------------------------------------------------------------- order and layout of the JSON
@st.composite
def layouts(draw):
    c = draw(any_case())
    c["shuffle"] = draw(st.integers(0, 2**31 - 1))
    c["indent"] = draw(st.sampled_from([None, 0, 4]))
    return c


def mixed(v, rnd):
    if isinstance(v, dict):
        k = list(v)
        rnd.shuffle(k)
        # (the order of the values of an attribute decides which one a random number stands for)
        return {x: v[x] if x == "values" else mixed(v[x], rnd) for x in k}
    if isinstance(v, list):
        return [mixed(x, rnd) for x in v]
    return v


def check_layout(case, ctx):
    import random
    rnd = random.Random(case["shuffle"])
    j = job(case)
    a = execute(j)
    scn = mixed(case["scn"], rnd)
    for k in ("resource_calendars", "arrival_time_calendar", "event_distribution"):
        rnd.shuffle(scn[k])
    for p in scn["resource_profiles"]:
        for r in p["resource_list"]:
            r["amount"] = rnd.choice([str, int])(r["amount"])
            r["cost_per_hour"] = rnd.choice([str, float])(r["cost_per_hour"])
    for g in scn["gateway_branching_probabilities"]:
        for p in g["probabilities"]:
            if "value" in p:
                p["value"] = rnd.choice([repr, float])(float(p["value"]))
    same(a, execute(dict(j, text=json.dumps(scn, indent=case["indent"], ensure_ascii=rnd.random() < 0.5))), "with the JSON in another order")
    ctx.nontrivial = rows_of(a) > 2


# ---------------------------------------------------------------- the absolute date
@st.composite
def moved(draw):
    c = draw(any_case())
    c["weeks"] = draw(st.one_of(st.integers(-300, 300), st.sampled_from([1, 8, 9, 52, -1])))
    c["tz2"] = draw(st.sampled_from([c["tz"], "+00:00", "+05:30", "-11:00", "+14:00", "-03:30"]))
    return c


def move(text, shift, tz_from):
    out = []
    for i, r in enumerate(csv.reader(io.StringIO(text, newline=""))):
        if i:
            for k in (2, 3, 4):
                d = sim.datetime.datetime.fromisoformat(r[k])
                off = d.strftime("%z")
                if off[:3] + ":" + off[3:] != tz_from:
                    raise Violation("line %d: %s has not the UTC offset of the start of the simulation (%s)" % (i, r[k], tz_from))
                r[k] = "%.6f" % (sim.secs(d) + shift)
        out.append(r)
    return out


def check_moved(case, ctx):
    j = job(case)
    a = execute(j)
    s = case["weeks"] * 7 * 86400
    b = execute(dict(j, start=sim.iso(case["start"] + s, case["tz2"])))
    x, y = move(a["log.csv"], s, case["tz"]), move(b["log.csv"], 0, case["tz2"])
    if x != y:
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        raise Violation("started %d weeks later in %s the log differs at line %d: %s, expected %s" % (case["weeks"], case["tz2"], k, y[k:k + 1], x[k:k + 1]))

    def numbers(t):
        return [r for r in csv.reader(io.StringIO(t, newline="")) if not r or r[0] not in ("started_at", "completed_at")]
    for p, q in zip(numbers(a["stats.csv"]), numbers(b["stats.csv"])):
        if len(p) != len(q):
            raise Violation("statistics of the moved simulation: %s, expected %s" % (q, p))
        for u, v in zip(p, q):
            if u == v:
                continue
            try:
                ok = abs(float(u) - float(v)) <= 1e-6 * max(1, abs(float(u)))
            except ValueError:
                ok = False
            if not ok:
                raise Violation("statistics of the moved simulation: %s, expected %s" % (q, p))
    ctx.nontrivial = rows_of(a) > 2 and (case["weeks"] != 0 or case["tz"] != case["tz2"])


PARTS = [
    Part("history", histories(), check_history, 1500, isolate=True),
    Part("processes", any_case(), check_process, 2000),
    Part("layout", layouts(), check_layout, 1500, isolate=True),
    Part("moved", moved(), check_moved, 1500, isolate=True),
]
RULE = (
    "Random scenarios of every kind (random durations, fuzzy calendars, attributes, conditions, priorities, batches). history: the simulation is repeated "
    "after others, after failed ones and after only reading scenarios. processes: three processes with other hash seeds. layout: keys, numbers as text, "
    "lists without order and indentation of the JSON are changed. moved: start moved by whole weeks and to another UTC offset. "
    "Log, statistics and warnings must be the same; inputs must be untouched. Non-trivial: more than two rows."
)
if __name__ == "__main__":
    runner.main("C15", PARTS, RULE)
