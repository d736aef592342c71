"""C07: batched tasks are executed in batches as configured, and no case is lost or delayed beyond its batch."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "seq", "xor", "and", "or", "loop"), max_tasks=5, max_depth=3)
EV = model.TreeCfg(kinds=("task", "seq", "seq", "xor", "and", "loop", "evgw"), events=True, max_tasks=5, max_depth=3)
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def R(a, c, v):
    return {"attribute": a, "comparison": c, "value": v}


@st.composite
def wait_range(draw, name):
    k = draw(st.integers(0, 3))
    v = draw(st.integers(2, 50)) * draw(st.sampled_from([60, 600, 3600]))
    if k == 0:
        return [R(name, "=", v)]
    if k == 1:
        return [R(name, draw(st.sampled_from(["<", "<="])), v)]
    return [R(name, draw(st.sampled_from([">", ">="])), v), R(name, draw(st.sampled_from(["<", "<="])), v + draw(st.integers(2, 20)) * 600)]


@st.composite
def and_rule(draw):
    k = draw(st.integers(0, 9))
    size = lambda: [R("size", draw(st.sampled_from(["=", ">=", ">", "<", "<="])), draw(st.integers(3, 5)))]
    if k < 4:
        return size()
    if k == 4:
        return draw(wait_range("ready_wt"))
    if k == 5:
        return draw(wait_range("large_wt"))
    if k == 6:
        return [R("week_day", "=", draw(st.sampled_from(DAYS)))]
    h = draw(st.integers(1, 22))
    hour = [[R("daily_hour", ">", str(h))], [R("daily_hour", "<", str(h))],
            [R("daily_hour", ">=", str(h)), R("daily_hour", "<=", str(draw(st.integers(h + 1, 23))))]][draw(st.integers(0, 2))]
    if k == 7:
        return hour
    out = hour + (size() if draw(st.booleans()) else [])
    if draw(st.booleans()):
        out.append(R("week_day", "=", draw(st.sampled_from(DAYS))))
    return out


@st.composite
def batch_conf(draw, task, rule=None, kind=None):
    alone = draw(st.sampled_from([0, 0, 0, 0.3, 1]))
    others = sorted(draw(st.lists(st.integers(2, 6), min_size=1, max_size=3, unique=True)))
    sd = [{"key": str(o), "value": (1 - alone) / len(others)} for o in others]
    if alone or draw(st.booleans()):
        sd.append({"key": "1", "value": alone})
    sd = draw(st.permutations(sd))
    ks = sorted(draw(st.lists(st.integers(2, 6), max_size=3, unique=True)))
    f = 1.0
    dd = []
    for k in ks:
        f = round(f * draw(st.sampled_from([0.5, 0.8, 1.0, 1.25])), 4)
        dd.append({"key": str(k), "value": f})
    rules = draw(rule) if rule is not None else [draw(and_rule()) for _ in range(draw(st.integers(1, 2)))]
    return {"task_id": task, "type": kind or draw(st.sampled_from(["Sequential", "Parallel"])),
            "size_distrib": sd,
            "duration_distrib": draw(st.permutations(dd)), "firing_rules": rules}


PRIO = [{"name": "vip", "type": "discrete", "values": [{"key": "a", "value": 0.4}, {"key": "b", "value": 0.3}, {"key": "c", "value": 0.3}]}]


def uniform(lo, hi):
    return {"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": hi}]}


@st.composite
def scen(draw, cfg=CFG, rule=None, prio=False, noisy=False, **kw):
    kw.setdefault("arrival", gen.durations(1, 30000))
    c = draw(gen.scenarios(cfg, max_cases=12, **kw))
    ts = model.tasks_of(c["tree"])
    k = draw(st.integers(1, min(2, len(ts))))
    batched = draw(st.permutations(ts))[:k]
    c["scn"]["batch_processing"] = [draw(batch_conf(t, rule)) for t in batched]
    if prio:
        c["scn"]["case_attributes"] = PRIO
        c["scn"]["prioritisation_rules"] = [
            {"priority_level": i + 1, "rules": [[R("vip", "=", v)]]} for i, v in enumerate(draw(st.permutations("abc"))[:2])]
    if noisy:
        for td in c["scn"]["task_resource_distribution"]:
            for r in td["resources"]:
                r.update(uniform(60, draw(st.sampled_from([600, 7200]))))
    return c


@st.composite
def size_rule(draw):
    return [[R("size", draw(st.sampled_from(["=", ">=", ">", "<", "<="])), draw(st.integers(3, 5)))]]


def factor(conf, n):
    """README: starting from batches of `key` tasks, the duration is scaled by the value of the key."""
    f = 1.0
    for d in sorted(conf["duration_distrib"], key=lambda d: int(d["key"])):
        if int(d["key"]) <= n:
            f = d["value"]
    return f


def ambiguous_factor(conf, n):
    """Sizes between two keys: the code takes the nearest key, the README the one below."""
    keys = sorted({1} | {int(d["key"]) for d in conf["duration_distrib"]})
    up = [k for k in keys if k > n]
    lo = max(k for k in keys if k <= n)
    return bool(up) and lo != n and up[0] - n < n - lo


def batches(case, res):
    conf = {b["task_id"]: b for b in case["scn"]["batch_processing"]}
    out = {}
    for r in res.rows:
        b = r.attrs.get("batch_id")
        if b in (None, "", "None"):
            continue
        if r.act not in conf:
            raise Violation("a task without batching is in a batch: %r" % r)
        out.setdefault(b, []).append(r)
    for b, rows in out.items():
        if len({r.act for r in rows}) > 1:
            raise Violation("batch %s mixes tasks %s" % (b, rows))
        if len({r.case for r in rows}) != len(rows):
            raise Violation("batch %s has a case twice: %s" % (b, rows))
    return conf, out


def alone_prob(c):
    return sum(d["value"] for d in c["size_distrib"] if d["key"] == "1")


def check(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    oracle.basic_rows(case, res, None)
    conf, groups = batches(case, res)
    info = gen.Info(case["scn"])
    cals = {n: cal.Cal(p) for n, p in info.cal.items()}
    tasks = set(model.tasks_of(case["tree"]))
    # nothing lost, duplicated or out of place
    oracle.case_runs(case, res, ctx)
    size_of = {}
    for b, rows in groups.items():
        for r in rows:
            size_of[r.idx] = len(rows)
        c = conf[rows[0].act]
        if len({r.res for r in rows}) > 1:
            raise Violation("one batch is executed by several resources: %s" % rows)
        if c["type"] == "Parallel":
            if len({(r.start, r.end) for r in rows}) > 1:
                raise Violation("the members of a parallel batch do not start and end together: %s" % rows)
        else:
            o = sorted(rows, key=lambda r: r.start)
            for x, y in zip(o, o[1:]):
                if y.start < x.end - 1e-3:
                    raise Violation("the members of a sequential batch overlap: %s" % o)
        if min(r.start for r in rows) < max(r.enable for r in rows) - 1e-3:
            raise Violation("a batch starts before all its members are enabled: %s" % rows)
    # alone only when the size distribution allows it
    for r in res.rows:
        if r.act in conf and r.idx not in size_of and alone_prob(conf[r.act]) == 0:
            raise Violation("executed alone although every task must be batched: %r" % r)
        if r.act in conf and alone_prob(conf[r.act]) == 1 and r.idx in size_of:
            raise Violation("executed in a batch although no task is batched: %r" % r)
    oracle.exclusivity([r for r in res.rows if r.act in tasks], batch=True)
    par = {}
    for r in res.rows:
        if r.act not in tasks:
            continue
        if r.res not in info.eligible[r.act]:
            raise Violation("%r is not assigned to the task" % r)
        if info.eligible[r.act][r.res]["distribution_name"] != "fix":
            continue
        base = info.eligible[r.act][r.res]["distribution_params"][0]["value"]
        n = size_of.get(r.idx, 1)
        if n > 1:
            c = conf[r.act]
            if ambiguous_factor(c, n):
                ctx.label("between-keys")
                continue
            base *= factor(c, n) * (n if c["type"] == "Parallel" else 1)
            ctx.label("batch-" + c["type"])
        err = cal.task_timing_error(cals[r.res], r.start, r.end, base)
        if err:
            raise Violation("%r in a batch of %d must take %s s of working time: %s" % (r, n, base, err))
    check_sizes(conf, groups, ctx, one_flush=len(conf) == 1 and not any(k == "loop" for k, _ in model.splits_of(case["tree"]).values()))
    ctx.nontrivial = any(len(v) > 1 for v in groups.values())
    for v in groups.values():
        ctx.label("size-%d" % min(len(v), 6))


def check_sizes(conf, groups, ctx, one_flush):
    """Sizes admitted by the configuration: a single size rule or, without rules, the size distribution.
    Only the tasks waiting when nothing else is left to execute may form a batch of another (lower) size: that
    happens once per simulation if there is a single batched task outside of loops."""
    for t, c in conf.items():
        sizes = [len(v) for v in groups.values() if v[0].act == t]
        rules = c["firing_rules"]
        if not rules:
            keys = {int(d["key"]) for d in c["size_distrib"] if d["value"] > 0}
            ok, below = (lambda n: n in keys), max(keys)
            ctx.label("no-rules")
        elif len(rules) == 1 and [r["attribute"] for r in rules[0]] == ["size"]:
            op, v = rules[0][0]["comparison"], rules[0][0]["value"]
            ok = {"=": lambda n: n == v, ">=": lambda n: n >= v, ">": lambda n: n > v,
                  "<": lambda n: n < v, "<=": lambda n: n <= v}[op]
            below = v + 1 if op == ">" else v
            ctx.label("size" + op)
        else:
            continue
        odd = [n for n in sizes if not ok(n)]
        if (one_flush and len(odd) > 1) or any(n >= below for n in odd):
            raise Violation("task %s: batches of %s tasks, but the configuration is %s" % (t, sizes, c))


PARTS = [
    Part("any-rule", scen(), check, 2500),
    Part("events", scen(EV), check, 1500),
    Part("size", scen(rule=size_rule()), check, 1500),
    Part("no-rules", scen(rule=st.just([])), check, 1000),
    Part("priorities", scen(prio=True), check, 1000),
    Part("random-duration", scen(noisy=True), check, 1000),
]
RULE = "at least one batch of two or more tasks was executed"
if __name__ == "__main__":
    runner.main("C07", PARTS, RULE)
