"""C08: batches fire when their rule says, for any history of enablements (uncongested, so start = firing)."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import gen, model, runner, sim
from pbt.cal import FULL
from pbt.runner import Part, Violation

DAY = 86400
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def R(a, c, v):
    return {"attribute": a, "comparison": c, "value": v}


def bounds(rule, default_high=None):
    """[low, high] in seconds of a range rule: strict comparisons exclude one second"""
    lo, hi = 0, default_high
    for r in rule:
        v, c = r["value"], r["comparison"]
        if c == "=":
            lo = hi = v
        elif c == "<":
            hi = v - 1
        elif c == "<=":
            hi = v
        elif c == ">":
            lo = v + 1
        elif c == ">=":
            lo = v
    return lo, hi


# -- references: enabling times (ascending) -> [(members, firing time)], number of tasks left at the end

def ref_size(rule, en):
    op, v = rule[0]["comparison"], rule[0]["value"]
    need = {"=": v, ">=": v, ">": v + 1, "<": 2, "<=": 2}[op]
    out = [(list(range(i, i + need)), en[i + need - 1]) for i in range(0, len(en) - need + 1, need)]
    return out, len(out) * need


def ref_ready(rule, en):
    """fires once no task joined for `low` seconds (two tasks or more) or for `high` seconds (a single one)"""
    lo, hi = bounds(rule)
    out, cur = [], []
    for i, t in enumerate(en):
        if cur:
            due = en[cur[-1]] + (lo if len(cur) > 1 else hi)
            if t > due:
                out.append((cur, due))
                cur = []
        cur = cur + [i]
        if len(cur) == 2 and lo == 0:
            out.append((cur, t))
            cur = []
    if cur:
        out.append((cur, en[cur[-1]] + (lo if len(cur) > 1 else hi)))
    return out, len(en)


def ref_large(rule, en):
    """fires when the oldest task has waited for `low` seconds, with two tasks or more; a single one waits for a second until `high`"""
    lo, hi = bounds(rule)
    out, i = [], 0
    while i < len(en):
        j = i + 1
        while lo and j < len(en) and en[j] <= en[i] + lo:
            j += 1
        if j - i > 1:
            out.append((list(range(i, j)), en[i] + lo))
        elif j < len(en) and en[j] <= en[i] + hi:
            j += 1
            out.append((list(range(i, j)), en[j - 1]))
        else:
            out.append(([i], en[i] + hi + 1))
        i = j
    return out, len(en)


def ref_open(is_open, next_open, en):
    """windows of time: while open, fires as soon as there are two tasks; otherwise, with those waiting at the next opening"""
    out, cur = [], []
    for i, t in enumerate(en):
        if len(cur) > 1:
            o = next_open(en[cur[-1]])
            if o <= t:
                out.append((cur, o))
                cur = []
        cur = cur + [i]
        if len(cur) > 1 and is_open(t):
            out.append((cur, t))
            cur = []
    if len(cur) > 1:
        out.append((cur, next_open(en[cur[-1]])))
        cur = []
    return out, len(en) - len(cur)


def ref_week(rule, en):
    d = DAYS.index(rule[0]["value"])

    def is_open(t):
        return int(t // DAY) % 7 == d

    def nxt(t):
        k = int(t // DAY) + 1
        while k % 7 != d:
            k += 1
        return k * DAY

    return ref_open(is_open, nxt, en)


def window(rule):
    lo, hi = 0, DAY
    for r in rule:
        v = int(r["value"]) * 3600
        if r["comparison"] in (">", ">=", "="):
            lo = v
        if r["comparison"] in ("<", "<=", "="):
            hi = v

    def is_open(t):
        return lo < t % DAY < hi

    def nxt(t):
        s = t - t % DAY + lo
        return s if s > t else s + DAY
    return is_open, nxt


def ref_hour(rule, en):
    return ref_open(*window(rule), en)


def alternative(conds):
    """conditions that all hold -> (due, most tasks in a batch): due(enabling times of the waiting) = when they go if nothing else joins"""
    by = {}
    for r in conds:
        by.setdefault(r["attribute"], []).append(r)
    need, cap = 2, 10 ** 9
    for r in by.get("size", []):
        op, v = r["comparison"], r["value"]
        need = {"=": v, ">=": v, ">": v + 1, "<": 2, "<=": 2}[op]
        cap = {"=": v, "<": v - 1, "<=": v}.get(op, cap)
    if "ready_wt" in by:
        lo, hi = bounds(by["ready_wt"])
        return lambda en: en[-1] + (lo if len(en) > 1 else hi), cap
    if "large_wt" in by:
        lo, hi = bounds(by["large_wt"])
        return lambda en: max(en[-1], en[0] + lo) if len(en) > 1 else en[0] + hi + 1, cap
    if "week_day" not in by and "daily_hour" not in by:
        return lambda en: en[-1] if len(en) >= need else None, cap
    hours = by.get("daily_hour", [])
    is_open, nxt = window(hours)
    lo = nxt(0) % DAY if hours else 0
    days = [DAYS.index(r["value"]) for r in by.get("week_day", [])] or range(7)

    def due(en):
        if len(en) < need:
            return None
        t = en[-1]
        if int(t // DAY) % 7 in days and is_open(t):
            return t
        k = int(t // DAY)
        while k % 7 not in days or k * DAY + lo <= t:
            k += 1
        return k * DAY + lo
    return due, cap


def ref_any(rules, en):
    """whichever alternative is satisfied first; `rules` is a list of alternatives"""
    alts = [alternative(c) for c in rules]
    out, cur = [], []

    def fire(until):
        nonlocal cur
        while cur:
            best = min(((d, a[1]) for d, a in ((a[0]([en[i] for i in cur]), a) for a in alts) if d is not None), default=None)
            if best is None or best[0] > until:
                return
            # those that were too many wait for the same moment
            out.append((cur[:best[1]], best[0]))
            cur = cur[best[1]:]
    for i, t in enumerate(en):
        fire(t - 1e-3)
        cur = cur + [i]
        fire(t)
    fire(float("inf"))
    return out, len(en) - len(cur)


REF = {"any": ref_any, "size": ref_size, "ready_wt": ref_ready, "large_wt": ref_large, "week_day": ref_week, "daily_hour": ref_hour}


@st.composite
def wait_rule(draw, name):
    k = draw(st.integers(0, 3))
    v = draw(st.integers(2, 60)) * draw(st.sampled_from([60, 600, 3600]))
    if k == 0:
        return [R(name, "=", v)]
    if k == 1:
        return [R(name, draw(st.sampled_from(["<", "<="])), v)]
    out = [R(name, draw(st.sampled_from([">", ">="])), v), R(name, draw(st.sampled_from(["<", "<="])), v + draw(st.integers(2, 60)) * 600)]
    return draw(st.permutations(out))


@st.composite
def hour_rule(draw):
    h = draw(st.integers(1, 22))
    k = draw(st.integers(0, 2))
    if k == 0:
        return [R("daily_hour", draw(st.sampled_from([">", ">="])), str(h))]
    if k == 1:
        return [R("daily_hour", draw(st.sampled_from(["<", "<="])), str(h))]
    return [R("daily_hour", ">=", str(h)), R("daily_hour", "<=", str(draw(st.integers(h + 1, 23))))]


RULES = {
    "size": st.tuples(st.sampled_from(["=", ">=", ">", "<", "<="]), st.integers(3, 6)).map(lambda t: [R("size", t[0], t[1])]),
    "ready_wt": wait_rule("ready_wt"),
    "large_wt": wait_rule("large_wt"),
    "week_day": st.sampled_from(DAYS).map(lambda d: [R("week_day", "=", d)]),
    "daily_hour": hour_rule(),
}


@st.composite
def window_rule(draw, size=True):
    """times of the day and days of the week, maybe with a size"""
    kind = draw(st.sampled_from(["day", "hour", "both", "both"]))
    out = draw(RULES["week_day"]) if kind != "hour" else []
    if kind != "day":
        h = draw(hour_rule() | st.integers(0, 23).map(lambda h: [R("daily_hour", "=", str(h))]))
        out = out + h
    if size and draw(st.booleans()):
        out = out + draw(st.tuples(st.sampled_from(["=", ">=", ">", "<", "<="]), st.integers(3, 6)).map(lambda t: [R("size", t[0], t[1])]))
    return draw(st.permutations(out))


@st.composite
def any_rule(draw):
    if draw(st.integers(0, 2)) == 0:
        return [draw(window_rule())]
    at_least = st.tuples(st.sampled_from([">=", ">"]), st.integers(2, 6)).map(lambda t: R("size", t[0], t[1]))
    alt = (at_least.map(lambda r: [r]) | RULES["ready_wt"] | RULES["large_wt"] | window_rule(False)
           | st.tuples(window_rule(False), at_least).map(lambda t: t[0] + [t[1]]))
    return draw(st.lists(alt, min_size=2, max_size=3))


RULES["any"] = any_rule()


@st.composite
def scen(draw, name):
    rule = draw(RULES[name])
    n = draw(st.integers(1, 14))
    scale = draw(st.sampled_from([60, 600, 1800, 3600, 6 * 3600]))
    t, arr = 0, []
    for i in range(n):
        # no difference between two times is a multiple of a minute, or one second off
        arr.append(t)
        t += draw(st.integers(0, 40)) * scale + 3
    return {"rule": rule, "name": name, "arr": arr, "start": draw(st.integers(0, 7 * 24 * 60)) * 60 + 30,
            "kind": draw(st.sampled_from(["Parallel", "Sequential"]))}


def scenario(rules, kinds, n, spread=None):
    """A, then one batched task per rule: B, C.."""
    tasks = ["A"] + ["B", "C"][:len(rules)]
    first = {"distribution_name": "uniform", "distribution_params": [{"value": 1}, {"value": spread}]} if spread else gen.fix(1)
    return {
        "resource_profiles": [{"id": "p" + t, "name": "p" + t, "resource_list": [{
            "id": "r" + t, "name": "r" + t, "cost_per_hour": "1", "amount": n + 1, "calendar": "c", "assignedTasks": [t]}]} for t in tasks],
        "resource_calendars": [{"id": "c", "name": "c", "time_periods": FULL}],
        "arrival_time_distribution": gen.fix(1), "arrival_time_calendar": FULL,
        "gateway_branching_probabilities": [], "event_distribution": [],
        "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id="r" + t, **(first if t == "A" else gen.fix(1)))]} for t in tasks],
        "batch_processing": [{"task_id": t, "type": k, "size_distrib": [{"key": "1", "value": 0}, {"key": "2", "value": 1}],
                              "duration_distrib": [], "firing_rules": r} for t, k, r in zip(tasks[1:], kinds, rules)],
    }


def observe(case, rules, kinds):
    n = len(case["arr"])
    steps, scn = [{"k": "task", "id": t} for t in ["A", "B", "C"][:len(rules) + 1]], scenario(rules, kinds, n, case.get("spread"))
    if "event" in case:  # some of the cases wait for an event before the batched task
        steps.insert(1, {"k": "xor", "id": "X", "br": [{"k": "ev", "id": "V"}, {"k": "skip"}]})
        scn["event_distribution"] = [dict(event_id="V", **gen.fix(case["event"]))]
        scn["gateway_branching_probabilities"] = [{"gateway_id": "X_s", "probabilities": [{"path_id": "X_b0", "value": "0.5"}, {"path_id": "X_b1", "value": "0.5"}]}]
    nodes, flows = model.to_graph({"k": "seq", "ch": steps})
    res = sim.simulate(model.to_xml(nodes, flows), scn, n, case["start"], case.get("seed", 1), fixed=case["arr"])
    out = []
    for t in ["B", "C"][:len(rules)]:
        rows = sorted((r for r in res.rows if r.act == t), key=lambda r: int(r.case))
        if [int(r.case) for r in rows] != list(range(n)):
            raise Violation("task %s was not executed once per case: %s" % (t, rows))
        groups = {}
        for r in rows:
            groups.setdefault(r.attrs["batch_id"], []).append(r)
        # tasks enabled at the same time may go in any order, so a batch is what its tasks waited since
        got = [(sorted(r.enable for r in g), min(r.start for r in g)) for g in groups.values()]
        out.append((sorted(r.enable for r in rows), sorted(got, key=lambda g: (g[0], g[1]))))
    return out


def compare(name, rule, en, got, ctx, until=float("inf")):
    """-> (number of firings, when the first leftovers go);  only what happens before `until` is compared"""
    if name in ("daily_hour", "any") and any(abs((t + 1800) % 3600 - 1800) < 1.5 for t in en):
        ctx.label("within a second of a limit")  # strict limits exclude one second, so either answer is fine
        return 0, float("-inf")
    exp, done = REF[name](rule, en)
    ctx.label("left" if done < len(en) else "all-fired")
    exp = [([en[i] for i in m], t) for m, t in exp if t < until - 2]
    rest = list(got)
    for m, t in exp:
        same = [g for g in rest if len(g[0]) == len(m) and all(abs(a - b) < 1e-3 for a, b in zip(g[0], m))]
        found = [g for g in same if abs(g[1] - t) < 1.5]
        if not found:
            show = lambda g: "tasks enabled at %s at %s" % ([str(sim.when(e)) for e in g[0]], sim.when(g[1]))
            raise Violation("rule %s, enabled at %s: expected %s; got %s" % (
                rule, [str(sim.when(e)) for e in en], show((m, t)), "; ".join(map(show, same or rest)) or "no batch"))
        rest.remove(found[0])
    if until < float("inf"):
        return len(exp), until
    for m, t in rest:
        if t < max(m) - 1e-3:
            raise Violation("leftover batch of tasks enabled at %s started at %s" % ([str(sim.when(e)) for e in m], sim.when(t)))
    return len(exp), min([t for _, t in rest], default=until)


def alternatives(name, rule):
    return rule if name == "any" else [rule]


def check(case, ctx):
    [(en, got)] = observe(case, [alternatives(case["name"], case["rule"])], [case["kind"]])
    ctx.nontrivial = compare(case["name"], case["rule"], en, got, ctx)[0] > 1


@st.composite
def scen3(draw):
    """cases overtake each other before the batched task"""
    case = draw(scen(draw(st.sampled_from(sorted(RULES)))))
    case["spread"] = draw(st.sampled_from([60, 3600, 20000, 100000]))
    return case


@st.composite
def scen_ev(draw):
    case = draw(scen3())
    case["event"] = draw(st.sampled_from([60, 3600, 20000, 100000])) + 7
    case["seed"] = draw(st.integers(0, 10 ** 6))
    return case


@st.composite
def scen2(draw):
    """two batched tasks in a row, each with its own rule"""
    names = [draw(st.sampled_from(sorted(RULES))) for _ in range(2)]
    case = draw(scen(names[0]))
    case["arr"] = [t + 0.5 for t in case["arr"]]
    case["names"], case["rules"] = names, [case.pop("rule"), draw(RULES[names[1]])]
    for r in [r for alt in alternatives(names[1], case["rules"][1]) for r in alt]:  # no instant of one rule coincides with one of the other
        if r["attribute"].endswith("_wt"):
            r["value"] += 17
    case["kinds"] = ["Parallel", "Parallel"]
    case["spread"] = draw(st.sampled_from([None, None, 3600, 100000]))
    return case


def check2(case, ctx):
    obs = observe(case, [alternatives(n, r) for n, r in zip(case["names"], case["rules"])], case["kinds"])
    ctx.nontrivial, until = True, float("inf")
    for name, rule, (en, got) in zip(case["names"], case["rules"], obs):
        # when the leftovers of the first task go, nothing else can happen: those of the second one go as well
        n, until = compare(name, rule, en, got, ctx, until)
        ctx.nontrivial &= n > 1


PARTS = [Part(n, scen(n), check, 4000 if n == "any" else 800) for n in RULES] + [Part("two_tasks", scen2(), check2, 2000), Part("overtaking", scen3(), check, 1500), Part("events", scen_ev(), check, 1000)]
RULE = "each rule fires at least twice in the history"
if __name__ == "__main__":
    runner.main("C08", PARTS, RULE)
