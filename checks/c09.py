"""C09: cases are prioritised as the rules say, and waiting work is served by priority."""
import _boot  # noqa: F401
import copy
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.cal import FULL
from pbt.runner import Part, Violation
import c05
import c07

KEYS = ["a", "b", "c"]


# -- the rules

NAMES = ["x", "y", "kind", "Loan amount"]
NUM = st.one_of(st.integers(0, 12), st.sampled_from([0.5, 2.25, 9.75]))
TXT = st.sampled_from(["", "a", "b", "gold", "5"])


@st.composite
def and_rule(draw, names):
    n = draw(st.sampled_from(names))
    if n == "kind":
        return {"attribute": n, "comparison": "=", "value": draw(TXT)}
    if draw(st.integers(0, 5)) == 0:
        return {"attribute": n, "comparison": "=", "value": draw(NUM)}
    lo = draw(NUM)
    k = draw(st.integers(0, 4))
    hi = "inf" if k == 0 else lo if k == 1 else lo + draw(NUM)
    form = draw(st.sampled_from([str, lambda v: v]))
    return {"attribute": n, "comparison": "in", "value": [form(lo), form(hi) if hi != "inf" else hi]}


@st.composite
def rule_sets(draw, names=NAMES, max_levels=4):
    lv = draw(st.lists(st.integers(1, 9) | st.sampled_from([0, 10, 12, 25, 100]), min_size=0, max_size=max_levels, unique=True))
    form = draw(st.sampled_from([int, int, str]))
    return [{"priority_level": form(v), "rules": draw(st.lists(
        st.lists(and_rule(names), min_size=1, max_size=3), min_size=1, max_size=3))} for v in lv]


@st.composite
def rule_cases(draw):
    rs = draw(rule_sets())
    vals = [{"x": draw(NUM), "y": draw(NUM), "Loan amount": draw(NUM), "kind": draw(TXT)} for _ in range(draw(st.integers(1, 6)))]
    return {"rules": rs, "values": vals}


def holds(r, env):
    v = env[r["attribute"]]
    if r["comparison"] == "=":
        return r["value"] == v
    lo, hi = r["value"]
    return float(lo) <= v and (hi == "inf" or v <= float(hi))


def priority(rules, env):
    """the lowest level with an alternative all of whose conditions hold"""
    ok = [int(p["priority_level"]) for p in rules if any(all(holds(r, env) for r in alt) for alt in p["rules"])]
    return min(ok) if ok else float("inf")


def check_rules(case, ctx):
    from prosimos.prioritisation_parser import PrioritisationParser

    parsed = sim.sut(PrioritisationParser(copy.deepcopy(case["rules"])).parse)
    seen = set()
    prio = [(priority(case["rules"], v), sim.sut(parsed.get_priority, v), v) for v in case["values"]]
    for e, g, v in prio:
        seen.add(e)
        if e != float("inf") and g != e:
            raise Violation("attributes %s: priority level %s, the rules give %s" % (v, g, e))
        # no rule applies: behind every level
        if e == float("inf") and not all(g > int(p["priority_level"]) for p in case["rules"]):
            raise Violation("attributes %s match no rule, but get the level %s" % (v, g))
    ctx.count("levels", len(seen))
    ctx.nontrivial = len(seen) > 1


# -- the order of work

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), max_tasks=5, max_depth=3, events=True)


@st.composite
def case_attrs(draw):
    out = [{"name": "kind", "type": "discrete", "values": [{"key": k, "value": v} for k, v in zip(KEYS, (0.4, 0.3, 0.3))]}]
    if draw(st.booleans()):
        out.append({"name": "x", "type": "continuous", "values": {
            "distribution_name": "uniform", "distribution_params": [{"value": 0}, {"value": 10}]}})
    return out


@st.composite
def level_rules(draw, names):
    def one():
        if draw(st.sampled_from(names)) == "kind":
            return {"attribute": "kind", "comparison": "=", "value": draw(st.sampled_from(KEYS))}
        lo = draw(st.integers(0, 8))
        return {"attribute": "x", "comparison": "in", "value": [str(lo), draw(st.sampled_from([str(lo + 3), "inf"]))]}

    lv = draw(st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True))
    return [{"priority_level": v, "rules": [[one() for _ in range(draw(st.sampled_from([1, 1, 2])))]
                                            for _ in range(draw(st.sampled_from([1, 1, 2])))]} for v in lv]


@st.composite
def order_cases(draw, single=True):
    if single:
        c = draw(gen.scenarios(CFG, max_cases=10, max_pools=1, max_amount=1, cal=gen.calendars(3), arrival=gen.durations(1, 1800)))
        for td in c["scn"]["task_resource_distribution"]:
            td["resources"] = td["resources"][:1]
    else:
        # one pool of interchangeable resources which always work
        c = draw(gen.scenarios(CFG, max_cases=10, max_pools=1, max_amount=1, cal=st.just([dict(p) for p in FULL]),
                               arrival=gen.durations(1, 400)))
        e = c["scn"]["resource_profiles"][0]["resource_list"]
        del e[1:]
        e[0]["amount"] = draw(st.integers(2, 3))
        e[0]["assignedTasks"] = [td["task_id"] for td in c["scn"]["task_resource_distribution"]]
        for td in c["scn"]["task_resource_distribution"]:
            td["resources"] = [dict(td["resources"][0], resource_id=e[0]["id"])]
    c["scn"]["case_attributes"] = draw(case_attrs())
    c["scn"]["prioritisation_rules"] = draw(level_rules([a["name"] for a in c["scn"]["case_attributes"]]))
    return c


def prio_of(case, res):
    """priority of every case, from the attributes in the log"""
    out = {}
    for k, rows in sim.by_case(res.rows).items():
        a = rows[0].attrs
        env = {n: float(v) if n == "x" else v for n, v in a.items() if n in ("kind", "x")}
        for r in rows:
            if {n: r.attrs[n] for n in env} != {n: a[n] for n in env}:
                raise Violation("the attributes of case %s change: %s" % (k, r))
        out[k] = priority(case["scn"]["prioritisation_rules"], env)
    return out


def check_order(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    info = gen.Info(case["scn"])
    tasks = set(model.tasks_of(case["tree"]))
    oracle.basic_rows(case, res, info)
    prio = prio_of(case, res)
    rows = [r for r in res.rows if r.act in tasks]
    over = 0
    for b in rows:
        for a in rows:
            if b.res not in info.eligible[a.act] or a is b or a.enable >= b.start - 0.01 or a.start <= b.start + 0.01:
                continue
            # b was started although a was waiting for the same resources
            pa, pb = prio[a.case], prio[b.case]
            if pa < pb:
                raise Violation("%r (level %s) was served before the waiting %r (level %s)" % (b, pb, a, pa))
            if pa == pb and a.enable < b.enable - 0.01:
                raise Violation("%r was served before %r of the same level, which was waiting for longer" % (b, a))
            over += pa > pb and a.enable < b.enable - 0.01
    ctx.count("served-first", over)
    ctx.nontrivial = over > 0
    late = idle(rows, info, prio)
    if late:
        ctx.count("idle-waits")
        # the recorded finding, and nothing else: cases of a level are only served once all the ones of the levels before are
        c05.replay(rows, info, c05.first_start(case, res), prio)
        raise Violation(late, sig="priority-idle-wait")


def idle(rows, info, prio):
    """a task that waits although all of its resources could start it"""
    from pbt import cal

    work = {}
    for r in rows:
        work.setdefault(r.res, []).append((r.start, r.end))
    for b in rows:
        if len(info.eligible[b.act]) > 1:
            c = None
        else:
            c = cal.Cal(info.cal[b.res])
        for n in info.eligible[b.act]:
            # the instants at which the resource may become usable: the enablement and the completions after it
            for t in [b.enable] + [e for _, e in work.get(n, []) if e > b.enable]:
                t = c.next_open(t) if c else t
                if t < b.start - 0.01 and not any(s < t + 0.01 and t < e - 0.01 or abs(s - t) < 0.01 for s, e in work.get(n, [])):
                    return "%r could be started at %s by %s, which was not working on anything" % (b, sim.when(t), n)
    return None


# -- batches

@st.composite
def batch_cases(draw):
    rule = None if draw(st.booleans()) else c07.size_rule()
    c = draw(c07.scen(rule=rule, arrival=gen.durations(1, 3000)))
    c["scn"]["case_attributes"] = draw(case_attrs())
    c["scn"]["prioritisation_rules"] = draw(level_rules([a["name"] for a in c["scn"]["case_attributes"]]))
    return c


def check_batches(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    prio = prio_of(case, res)
    bs = {}
    for r in res.rows:
        b = r.attrs.get("batch_id")
        if b not in (None, "", "None"):
            bs.setdefault(b, []).append(r)
    mixed = 0
    for b, rows in bs.items():
        rows.sort(key=lambda r: (round(r.start, 3), r.idx))
        key = [(prio[r.case], round(r.enable, 2)) for r in rows]
        if any(prio[x.case] > prio[y.case] for x, y in zip(rows, rows[1:])):
            raise Violation("inside a batch, the order of the levels is %s: %s" % ([k[0] for k in key], rows))
        if any(k[0] == m[0] and k[1] > m[1] + 0.02 for k, m in zip(key, key[1:])):
            raise Violation("inside a batch, tasks of one level are not in the order of enablement: %s" % (rows,))
        mixed += len({k[0] for k in key}) > 1
    ctx.count("mixed-batches", mixed)
    ctx.nontrivial = mixed > 0


PARTS = [
    Part("rules", rule_cases(), check_rules, 12000),
    Part("one-resource", order_cases(True), check_order, 3000),
    Part("pool", order_cases(False), check_order, 3000),
    Part("batches", batch_cases(), check_batches, 2500),
]
RULE = (
    "rules: random sets of rules over four attributes against an independent evaluation (non-trivial: the values of the case lead to "
    "several levels). one-resource, pool: simulations with contention; no task may be started while one of a better level, or an older "
    "one of the same level, waits for the same resource (non-trivial: a later task of a better level overtakes). batches: order of the "
    "members inside of every batch (non-trivial: a batch with members of several levels)."
)
if __name__ == "__main__":
    runner.main("C09", PARTS, RULE)
