"""Hypothesis strategies for simulation scenarios."""
from . import env  # noqa: F401
from hypothesis import strategies as st

from . import model
from .cal import DAYS, FULL


def fix(v):
    return {"distribution_name": "fix", "distribution_params": [{"value": v}, {"value": 0}, {"value": 1}]}


def _t(minute):
    return "23:59:59.999" if minute >= 1440 else "%02d:%02d:00" % (minute // 60, minute % 60)


@st.composite
def patterns(draw):
    n = draw(st.integers(1, 3))
    pts = sorted(draw(st.lists(st.integers(0, 48), min_size=2 * n, max_size=2 * n, unique=True)))
    return [[pts[2 * i] * 30, pts[2 * i + 1] * 30] for i in range(n)]


@st.composite
def calendars(draw, full_prob=2):
    """Weekly calendars: disjoint, non-touching periods, at least one working period."""
    kind = draw(st.integers(0, 5))
    if kind < full_prob:
        return [dict(p) for p in FULL]
    if kind == full_prob:
        return [{"from": "MONDAY", "to": "FRIDAY", "beginTime": "09:00:00", "endTime": "17:00:00"}]
    pats = [draw(patterns()) for _ in range(draw(st.integers(1, 2)))]
    days = [draw(st.integers(-1, len(pats) - 1)) for _ in range(7)]
    if all(d < 0 for d in days):
        days[draw(st.integers(0, 6))] = 0
    out = []
    used = set()
    start0 = draw(st.integers(0, 6))  # ranges may wrap around the week
    i = 0
    while i < 7:
        d = (start0 + i) % 7
        if days[d] < 0:
            i += 1
            continue
        j = i
        while j + 1 < 7 and days[(start0 + j + 1) % 7] == days[d] and draw(st.booleans()):
            j += 1
        for a, b in pats[days[d]]:
            out.append({"from": DAYS[d], "to": DAYS[(start0 + j) % 7], "beginTime": _t(a), "endTime": _t(b)})
        i = j + 1
    return out


@st.composite
def durations(draw, lo=1, hi=6 * 3600):
    """odd integer seconds, with some long ones and some with a fraction"""
    k = draw(st.integers(0, 9))
    if k < 6:
        v = draw(st.integers(lo, min(hi, 3600)))
    else:
        v = draw(st.integers(lo, hi))
    return (v | 1) + (0.125 * draw(st.integers(1, 7)) if k in (5, 9) else 0)


@st.composite
def resources(draw, tasks, max_pools=3, max_amount=3, cal=None, dur=None, share=True):
    """-> (resource_profiles, resource_calendars, task_resource_distribution, info)
    info: {"eligible": {task: {resource name: duration}}, "cal": {resource name: periods}, "cost": {..}}"""
    cal = cal if cal is not None else calendars()
    dur = dur if dur is not None else durations()
    n_cal = draw(st.integers(1, 3))
    cals = [draw(cal) for _ in range(n_cal)]
    entries = []
    pools = []
    for pi in range(draw(st.integers(1, max_pools))):
        lst = []
        for ri in range(draw(st.integers(1, 2))):
            rid = "r%d_%d" % (pi, ri)
            e = {
                "id": rid,
                "name": "Res %d-%d" % (pi, ri),
                "cost_per_hour": str(draw(st.integers(1, 60))),
                "amount": draw(st.integers(1, max_amount)),
                "calendar": "cal%d" % draw(st.integers(0, n_cal - 1)),
                "assignedTasks": [],
            }
            lst.append(e)
            entries.append(e)
        pools.append({"id": "pool%d" % pi, "name": "Pool %d" % pi, "resource_list": lst})
    dist = []
    eligible = {}
    for t in tasks:
        k = draw(st.integers(1, min(3, len(entries))))
        idx = draw(st.permutations(range(len(entries))))[:k]
        rs = []
        eligible[t] = {}
        for i in idx:
            v = draw(dur)
            entries[i]["assignedTasks"].append(t)
            rs.append(dict(resource_id=entries[i]["id"], **fix(v)))
            for nm in names_of(entries[i]):
                eligible[t][nm] = v
        dist.append({"task_id": t, "resources": rs})
    rescal = [{"id": "cal%d" % i, "name": "cal%d" % i, "time_periods": c} for i, c in enumerate(cals)]
    return pools, rescal, dist


def names_of(e):
    n = int(e["amount"])
    return ["%s_%d" % (e["name"], i) if n > 1 else e["name"] for i in range(n)]


class Info:
    """Independent reading of a scenario."""

    def __init__(self, scn):
        calp = {c["id"]: c["time_periods"] for c in scn["resource_calendars"]}
        self.cal, self.cost = {}, {}
        by_id = {}
        for p in scn["resource_profiles"]:
            for e in p["resource_list"]:
                by_id[e["id"]] = names_of(e)
                for n in names_of(e):
                    self.cal[n] = calp[e["calendar"]]
                    self.cost[n] = float(e["cost_per_hour"])
        self.eligible = {}
        for td in scn["task_resource_distribution"]:
            m = self.eligible.setdefault(td["task_id"], {})
            for r in td["resources"]:
                for n in by_id[r["resource_id"]]:
                    m[n] = r


@st.composite
def gateway_probs(draw, tree, loop_max=60, zero=True):
    out = []
    for g, (kind, fl) in model.splits_of(tree).items():
        if kind == "loop":
            p = draw(st.integers(0, loop_max))
            vals = [100 - p, p]
        else:
            w = [draw(st.integers(0 if zero else 1, 5)) for _ in fl]
            if sum(w) == 0:
                w[draw(st.integers(0, len(w) - 1))] = 1
            s = sum(w)
            vals = [round(100 * x / s) for x in w]
            k = max(range(len(vals)), key=lambda i: vals[i])
            vals[k] += 100 - sum(vals)
        out.append({"gateway_id": g, "probabilities": [
            {"path_id": f, "value": repr(v / 100.0)} for f, v in zip(fl, vals)]})
    return out


@st.composite
def scenarios(draw, cfg=None, max_cases=6, cal=None, arrival_cal=None, dur=None, max_pools=3, max_amount=3,
              arrival=None, start=None, tz=None, probs=None):
    """The core domain: a block-structured model plus a complete scenario with fixed durations."""
    cfg = cfg or model.TreeCfg()
    tree = draw(model.trees(cfg))
    tasks = model.tasks_of(tree)
    pools, rescal, dist = draw(resources(tasks, max_pools=max_pools, max_amount=max_amount, cal=cal, dur=dur))
    scn = {
        "resource_profiles": pools,
        "arrival_time_distribution": fix(draw(arrival if arrival is not None else durations(1, 86400))),
        "arrival_time_calendar": draw(arrival_cal if arrival_cal is not None else calendars(4)),
        "gateway_branching_probabilities": draw(probs(tree) if probs else gateway_probs(tree)),
        "task_resource_distribution": dist,
        "resource_calendars": rescal,
        "event_distribution": [dict(event_id=e, **fix(draw(durations()))) for e in model.events_of(tree)],
    }
    return {
        "tree": tree,
        "scn": scn,
        "total": draw(st.integers(1, max_cases)),
        "start": draw(start if start is not None else st.integers(0, 8 * 86400)),
        "tz": draw(tz if tz is not None else st.sampled_from(["+00:00", "+00:00", "+02:00", "-05:00"])),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def xml_of(case, contract=(), **kw):
    nodes, flows = model.to_graph(case["tree"])
    if contract:
        nodes, flows, _ = model.contract(nodes, flows, contract)
    return model.to_xml(nodes, flows, **kw)
