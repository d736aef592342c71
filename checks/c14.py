"""C14: what is invalid is rejected before anything is simulated or written; what is valid is not."""
import _boot  # noqa: F401
import json
import os
from hypothesis import strategies as st
from pbt import gen, model, runner, sim
from pbt.runner import Part, Violation
from bpdfr_discovery.exceptions import InvalidInputDiscoveryParameters
from bpdfr_discovery.log_parser import preprocess_xes_log
from prosimos.exceptions import (
    InvalidBpmnModelException,
    InvalidCaseAttributeException,
    InvalidEventAttributeException,
    InvalidGlobalAttributeException,
    InvalidLogFileException,
    InvalidRuleDefinitionException,
)
from prosimos.simulation_engine import run_simulation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and"), events=False, max_tasks=5)
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
KEYS = ["a", "b", "c", "d"]
# what is off the exact sum: the documented tolerance is 1e-6
BAD = [2e-6, 1e-5, 1e-4, 0.01, 0.1, 0.5]
GOOD = [0, 0, 1e-9, 5e-7]


# ---------------------------------------------------------------- scenarios
def probs(draw, bad, off=None):
    """probabilities (one to four) whose sum is off by a little or not at all"""
    n = draw(st.integers(1, 4))
    w = [draw(st.integers(1, 9)) for _ in range(n)]
    p = [x / sum(w) for x in w]
    d = off if off is not None else draw(st.sampled_from(BAD if bad else GOOD)) * draw(st.sampled_from([1, -1]))
    k = max(range(n), key=lambda i: p[i])
    if p[k] + d < 0:
        d = -d
    p[k] += d
    return p


def discrete(draw, bad, name, off=None):
    return {"name": name, "type": "discrete",
            "values": [{"key": k, "value": draw(st.sampled_from([p, repr(p)]))} for k, p in zip(KEYS, probs(draw, bad, off))]}


def sums(draw, bad):
    """which of one to three sums are off, and by how much: one of them, or two that make up for each other"""
    n = draw(st.integers(1, 3))
    off = [None] * n
    if bad:
        k = draw(st.permutations(range(n)))
        d = draw(st.sampled_from(BAD)) * draw(st.sampled_from([1, -1]))
        off[k[0]] = d
        if n > 1 and draw(st.booleans()) and abs(d) <= 0.1:
            off[k[1]] = -d
    return off


def d_case_attr(draw, c, bad):
    c["scn"]["case_attributes"] = [discrete(draw, False, "x%d" % i, d) for i, d in enumerate(sums(draw, bad))]
    return InvalidCaseAttributeException


def d_global_attr(draw, c, bad):
    c["scn"]["global_attributes"] = [discrete(draw, False, "g%d" % i, d) for i, d in enumerate(sums(draw, bad))]
    return InvalidGlobalAttributeException


def d_event_attr(draw, c, bad):
    """discrete values and rows of transition matrices of any event"""
    tasks = model.tasks_of(c["tree"])
    entries = []
    n = draw(st.integers(1, 3))
    k = draw(st.integers(0, n - 1))
    for i in range(n):
        b = bad and i == k
        if draw(st.booleans()):
            a = discrete(draw, b, "e%d" % i)
        else:
            a = {"name": "e%d" % i, "type": "discrete", "values": {
                KEYS[r]: dict(zip(KEYS, probs(draw, False, d))) for r, d in enumerate(sums(draw, b))}}
        entries.append({"event_id": tasks[draw(st.integers(0, len(tasks) - 1))], "attributes": [a]})
    c["scn"]["event_attributes"] = entries
    return InvalidEventAttributeException


def d_attr_type(draw, c, bad):
    where = draw(st.sampled_from(["case", "event", "global"]))
    t = draw(st.sampled_from(["Discrete", "text", "", "numeric", "markov "])) if bad else "continuous"
    a = {"name": "x", "type": t, "values": gen.fix(draw(st.integers(0, 5)))}
    if where == "event":
        c["scn"]["event_attributes"] = [{"event_id": draw(st.sampled_from(model.tasks_of(c["tree"]))), "attributes": [a]}]
    else:
        c["scn"]["%s_attributes" % where] = [a]
    return ValueError


def d_clash(draw, c, bad):
    """an attribute of the case may be changed by an event only if it is global"""
    one = {"name": "x", "type": "continuous", "values": gen.fix(1)}
    c["scn"]["case_attributes"] = [discrete(draw, False, "y"), one][draw(st.integers(0, 1)):]
    c["scn"]["event_attributes"] = [
        {"event_id": draw(st.sampled_from(model.tasks_of(c["tree"]))),
         "attributes": [dict(one, name="w")] * draw(st.integers(0, 1)) + [dict(one, values=gen.fix(2))]}]
    if not bad:
        k = draw(st.integers(0, 1))
        if k:
            c["scn"]["global_attributes"] = [dict(one)]
        else:
            c["scn"]["event_attributes"][0]["attributes"][-1]["name"] = "X"
    elif draw(st.booleans()):
        c["scn"]["global_attributes"] = [dict(one, name="z")]
    return ValueError


def R(a, comp, v):
    return {"attribute": a, "comparison": comp, "value": v}


def batch(draw, c, rules, kind="Sequential"):
    """on any of the tasks; others may have (valid) batches, too"""
    tasks = draw(st.permutations(model.tasks_of(c["tree"])))[:draw(st.integers(1, 3))]
    k = draw(st.integers(0, len(tasks) - 1))
    c["scn"]["batch_processing"] = [{"task_id": t, "type": kind if i == k else "Parallel", "size_distrib": [
        {"key": "1", "value": 0.0}, {"key": "2", "value": 1.0}], "duration_distrib": [{"key": "2", "value": 0.5}],
        "firing_rules": rules if i == k else [[R("size", ">=", 2)]]} for i, t in enumerate(tasks)]


def around(draw, rule):
    """other alternatives of the rule, valid"""
    ok = [[R("size", ">=", 2)], [R("ready_wt", "<", 600)], [R("week_day", "=", "Friday"), R("daily_hour", ">", "8")],
          [R("daily_hour", ">=", "8"), R("daily_hour", "<", "12")], [R("week_day", "=", "Monday")]]
    return draw(st.lists(st.sampled_from(ok), max_size=2)) + [rule] + draw(st.lists(st.sampled_from(ok), max_size=1))


def d_week_day(draw, c, bad):
    d = [draw(st.sampled_from(DAYS)) for _ in range(2)]
    k = draw(st.integers(0, 1))
    if bad:
        rule = [R("week_day", draw(st.sampled_from([">", "<", ">=", "<=", "!="])), d[0])] if k else [
            R("week_day", "=", d[0]), R("week_day", "=", d[1])]
        rule = draw(st.permutations(rule + draw(st.sampled_from([[], [R("daily_hour", ">", "9")], [R("size", ">=", 2)]]))))
    else:
        rule = [R("week_day", "=", d[0])] + draw(st.sampled_from([[], [R("daily_hour", ">", "9")]]))
        if k:
            rule = draw(st.permutations(rule))
    batch(draw, c, around(draw, rule))
    return InvalidRuleDefinitionException


def d_daily_hour(draw, c, bad):
    h = sorted(draw(st.lists(st.integers(1, 22), min_size=3, max_size=3, unique=True)))
    rule = [R("daily_hour", ">=", str(h[0])), R("daily_hour", "<=", str(h[1]))]
    if bad:
        rule = draw(st.permutations(rule + [R("daily_hour", draw(st.sampled_from(["<", ">"])), str(h[2]))]))
    batch(draw, c, around(draw, list(rule)))
    return InvalidRuleDefinitionException


def d_open_range(draw, c, bad):
    """waiting time rules need an upper limit"""
    a = draw(st.sampled_from(["ready_wt", "large_wt"]))
    lo = R(a, draw(st.sampled_from([">", ">="])), draw(st.integers(1, 3000)))
    rule = [lo] if bad else [lo, R(a, draw(st.sampled_from(["<", "<="])), 3600)]
    batch(draw, c, around(draw, list(draw(st.permutations(rule)))))
    return Exception


def d_batch_type(draw, c, bad):
    t = draw(st.sampled_from(["sequential", "PARALLEL", "", "Both", "Parallel "] if bad else ["Sequential", "Parallel"]))
    batch(draw, c, around(draw, [R("size", ">=", 2)]), t)
    return ValueError


def d_start(draw, c, bad):
    t = sim.when(c["start"])
    if bad:
        c["starting_at"] = draw(st.sampled_from([
            "tomorrow-ish", "2024-13-01T00:00:00+00:00", "2024-02-30T00:00:00+00:00", "2024-01-01T25:00:00+00:00", "monday of week",
            "2024-01-01T10:61:00+00:00"]))
    else:
        c["starting_at"] = draw(st.sampled_from([
            t.isoformat() + "+00:00", t.isoformat() + "Z", t.isoformat() + ".000000+03:00", t.isoformat(), str(t), t.strftime("%b %d %Y %I:%M%p"),
            t.strftime("%B %d, %Y, %H:%M:%S")]))
    return ValueError


def d_resource(draw, c, bad):
    """references that lead nowhere"""
    if bad:
        k = draw(st.integers(0, 2))
        td = c["scn"]["task_resource_distribution"]
        if k == 0:
            td[draw(st.integers(0, len(td) - 1))]["resources"][0]["resource_id"] = "nobody"
        elif k == 1:
            c["scn"]["resource_profiles"][0]["resource_list"][0].pop("calendar")
        else:
            c["scn"].pop(draw(st.sampled_from(["resource_profiles", "resource_calendars", "task_resource_distribution", "arrival_time_distribution",
                                               "gateway_branching_probabilities"])))
    return KeyError


def d_ends(draw, c, bad):
    c["ends"] = draw(st.sampled_from([0, 2, 3])) if bad else 1
    return InvalidBpmnModelException


DEFECTS = [d_case_attr, d_global_attr, d_event_attr, d_attr_type, d_clash, d_week_day, d_daily_hour, d_open_range, d_batch_type, d_start,
           d_resource, d_ends]


@st.composite
def scenario_cases(draw):
    c = draw(gen.scenarios(CFG, max_cases=3))
    f = DEFECTS[draw(st.integers(0, len(DEFECTS) - 1))]
    bad = draw(st.integers(0, 2)) > 0
    c["defect"] = f.__name__[2:]
    c["bad"] = bad
    c["expect"] = f(draw, c, bad).__name__
    c["cli"] = draw(st.integers(0, 3)) == 0
    c["files"] = draw(st.integers(0, 3))
    return c


EXC = {e.__name__: e for e in [InvalidBpmnModelException, InvalidCaseAttributeException, InvalidEventAttributeException,
                               InvalidGlobalAttributeException, InvalidRuleDefinitionException, ValueError, KeyError, Exception]}


def model_xml(case):
    nodes, flows = model.to_graph(case["tree"])
    xml = model.to_xml(nodes, flows)
    n = case.get("ends", 1)
    if n != 1:
        import re
        m = re.search(r"<(\w+:)?endEvent\b[^>]*/>|<(\w+:)?endEvent\b.*?</(\w+:)?endEvent>", xml, re.S)
        end = m.group(0)
        if n == 0:
            ident = re.search(r'id="([^"]+)"', end).group(1)
            xml = xml.replace(end, end.replace("endEvent", "task"))
            assert ident
        else:
            more = "".join(end.replace('id="', 'id="more%d_' % i) for i in range(n - 1))
            xml = xml.replace(end, end + more)
    return xml


def check_scenario(case, ctx):
    ctx.label(case["defect"] + (" bad" if case["bad"] else " good"))
    ctx.nontrivial = case["bad"]
    want = EXC[case["expect"]]
    start = case.get("starting_at") or sim.iso(case["start"], case["tz"])
    with sim.Scratch() as d:
        b, j = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        open(b, "w", encoding="utf-8").write(model_xml(case))
        json.dump(case["scn"], open(j, "w", encoding="utf-8"))
        sp = os.path.join(d, "stats.csv") if case["files"] & 1 else None
        lp = os.path.join(d, "log.csv") if case["files"] & 2 else None
        sim.seed_all(case["seed"])
        cwd = os.getcwd()
        os.chdir(d)
        err = None
        try:
            with sim.quiet():
                if case["cli"]:
                    from click.testing import CliRunner
                    from cli.diff_res_bpsim import cli

                    args = ["start-simulation", "--bpmn_path", b, "--json_path", j, "--total_cases", str(case["total"]), "--starting_at", start]
                    args += (["--stat_out_path", sp] if sp else []) + (["--log_out_path", lp] if lp else [])
                    r = CliRunner().invoke(cli, args)
                    if r.exit_code != 0:
                        err = r.exception if r.exception is not None else Exception("exit code %s" % r.exit_code)
                else:
                    run_simulation(b, j, case["total"], sp, lp, start)
        except Exception as e:
            err = e
        finally:
            os.chdir(cwd)
        out = sorted(f for f in os.listdir(d) if f.endswith(".csv"))
        if not case["bad"]:
            if err is not None:
                raise Violation("valid input (%s) rejected: %s: %s" % (case["defect"], type(err).__name__, err))
            if len(out) != (sp is not None) + (lp is not None):
                raise Violation("valid input (%s): files written are %s" % (case["defect"], out))
            if lp:
                _, rows = sim.read_log(lp)
                if case["defect"] == "start" and rows:
                    first = min(r.enable for r in rows)
                    t = case["start"] - case["start"] % 60 if start[-1] == "M" else case["start"]
                    if first < t - 1e-6:
                        raise Violation("started at %s, asked for %s" % (sim.when(first), start))
            return
        if err is None:
            raise Violation("invalid input (%s, %s expected) accepted; files written: %s" % (case["defect"], case["expect"], out))
        if not isinstance(err, want):
            raise Violation("invalid input (%s): %s: %s instead of %s" % (case["defect"], type(err).__name__, err, case["expect"]))
        if out:
            raise Violation("invalid input (%s) rejected after writing %s" % (case["defect"], out))


# ---------------------------------------------------------------- discovery
@st.composite
def discovery_cases(draw):
    c = draw(gen.scenarios(CFG, max_cases=3, cal=st.just(gen.FULL), arrival_cal=st.just(gen.FULL)))
    c["total"] = draw(st.integers(3, 6))
    c["granule"] = draw(st.sampled_from([10, 15, 20, 30, 60]))
    c["conf"], c["supp"], c["part"] = 0.1, 0.5, 0.1
    k = draw(st.sampled_from(["granule", "conf", "supp", "part", "column", "unknown", "resource", "ends", "xml", "missing"]))
    c["defect"], c["bad"] = k, draw(st.integers(0, 2)) > 0
    if k == "granule":
        c["granule"] = draw(st.one_of(st.integers(-60, 0), st.integers(1, 3000).filter(lambda v: 1440 % v))) if c["bad"] else draw(
            st.sampled_from([v for v in range(1, 61) if 60 % v == 0]))
    elif k in ("conf", "supp", "part"):
        c[k] = draw(st.one_of(st.sampled_from([-1e-6, 1.000001, -1, 2, 50]), st.floats(1.0001, 1e6), st.floats(-1e6, -1e-4))) if c["bad"] else draw(
            st.one_of(st.sampled_from([0.0, 1.0, 0, 1]), st.floats(0, 1)))
    elif k == "column":
        c["column"] = draw(st.sampled_from(["case_id", "activity", "resource", "start_time", "end_time"])) if c["bad"] else draw(
            st.sampled_from(["enable_time", None]))
    elif k == "unknown":
        c["share"] = draw(st.sampled_from(["most", "all"])) if c["bad"] else "half"
        c["pick"] = draw(st.randoms(use_true_random=False)).random()
    elif k == "resource":
        c["pick"] = draw(st.floats(0, 0.999))
    elif k == "ends" and c["bad"]:
        c["ends"] = draw(st.sampled_from([0, 2]))
    return c


def check_discovery(case, ctx):
    import csv
    import random

    ctx.label(case["defect"] + (" bad" if case["bad"] else " good"))
    ctx.nontrivial = case["bad"]
    k, bad = case["defect"], case["bad"]
    good = dict(case)
    good.pop("ends", None)
    res = sim.simulate(model_xml(good), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    if len(res.rows) < 2:
        ctx.nontrivial = False
        ctx.label("empty log")
        return
    head, rows = res.header, [list(r.raw) for r in res.rows]
    ia, ir = head.index("activity"), head.index("resource")
    want = InvalidLogFileException
    if k in ("granule", "conf", "supp", "part"):
        want = InvalidInputDiscoveryParameters
    elif k in ("ends", "xml"):
        want = InvalidBpmnModelException
    if k == "column" and case["column"]:
        i = head.index(case["column"])
        head = head[:i] + head[i + 1:]
        rows = [r[:i] + r[i + 1:] for r in rows]
    if k == "unknown":
        n = len(rows)
        m = {"all": n, "most": n // 2 + 1, "half": n // 2}[case["share"]]
        for i in random.Random(case["pick"]).sample(range(n), m):
            rows[i][ia] = "unheard of"
    if k == "resource" and bad:
        rows[int(case["pick"] * len(rows))][ir] = ""
    with sim.Scratch() as d:
        b, l, o = os.path.join(d, "m.bpmn"), os.path.join(d, "l.csv"), os.path.join(d, "out.json")
        with open(b, "w", encoding="utf-8") as f:
            f.write("<definitions><process" if k == "xml" and bad else model_xml(case))
        with open(l, "w", encoding="utf-8", newline="") as f:
            w = csv.writer(f)
            w.writerow(head)
            w.writerows(rows)
        if k == "missing" and bad:
            os.remove(l)
        err = None
        try:
            with sim.quiet():
                preprocess_xes_log(l, b, o, case["granule"], case["conf"], case["supp"], case["part"], True, is_csv=True)
        except Exception as e:
            err = e
        wrote = os.path.exists(o)
    if bad:
        if err is None:
            raise Violation("discovery: invalid input (%s) accepted" % k)
        if not isinstance(err, want):
            raise Violation("discovery: invalid input (%s): %s: %s instead of %s" % (k, type(err).__name__, err, want.__name__))
        if wrote:
            raise Violation("discovery: invalid input (%s) rejected after writing the scenario" % k)
    elif isinstance(err, (InvalidInputDiscoveryParameters, InvalidLogFileException, InvalidBpmnModelException)):
        raise Violation("discovery: valid input (%s) rejected: %s: %s" % (k, type(err).__name__, err))
    elif err is not None:
        ctx.label("valid input, other failure")


PARTS = [
    Part("scenario", scenario_cases(), check_scenario, 5000),
    Part("discovery", discovery_cases(), check_discovery, 2000),
]
RULE = (
    "scenario: one kind of defect (sums of probabilities off by 2e-6 to 0.5, types, clashes of names, firing rules, dates, references, end "
    "events) put at a random place of an otherwise valid scenario, or its valid neighbour (sums off by 5e-7, ...). discovery: parameters "
    "and logs. The declared error must come out of run_simulation or the command line before any file is written; valid neighbours run. "
    "Non-trivial: the input is invalid."
)
if __name__ == "__main__":
    runner.main("C14", PARTS, RULE)
