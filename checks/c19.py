"""C19: a scenario discovered from a log describes that log, and can be simulated."""
import _boot  # noqa: F401
import csv
import datetime
import io
import json
import math
from collections import Counter
from hypothesis import strategies as st
from c18 import known_sig
from pbt import gen, model, oracle, runner, sim
from pbt.cal import Cal, DAYS
from pbt.runner import Part, Violation
from bpdfr_discovery.log_parser import preprocess_xes_log

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "loop", "or"), events=False, max_tasks=6, silent=False)
UTC = datetime.timezone.utc


# ---------------------------------------------------------------- logs
@st.composite
def cases(draw):
    c = draw(gen.scenarios(CFG, arrival_cal=st.just(gen.FULL) if draw(st.booleans()) else None,
                           arrival=gen.durations(1, 7200) if draw(st.booleans()) else None))
    for td in c["scn"]["task_resource_distribution"]:
        for r in td["resources"]:
            if draw(st.integers(0, 3)):
                lo = draw(st.integers(1, 3000))
                w = draw(st.sampled_from([3, 999, 20000]))
                r.update({"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": lo + w}, {"value": lo}, {"value": lo + w}]})
    a = c["scn"]["arrival_time_distribution"]
    if draw(st.booleans()):
        lo = draw(st.integers(1, 3000))
        w = draw(st.sampled_from([3, 999, 90000]))
        a.update({"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": lo + w}, {"value": lo}, {"value": lo + w}]})
    style = draw(st.sampled_from(["%s", "Task %s", "%s, twice", "%s 'x' (new)"]))
    c["names"] = {t: style % t for t in model.tasks_of(c["tree"])}
    c["total"] = draw(st.integers(2, 25)) if draw(st.integers(0, 5)) else draw(st.integers(50, 80))
    c["par"] = {
        "minutes_x_granule": draw(st.sampled_from([60, 15, 30, 10, 20, 1, 45, 90, 120, 480, 1440])),
        "min_confidence": draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.9, 1.0])),
        "min_support": draw(st.sampled_from([0.0, 0.1, 0.5, 0.7, 1.0])),
        "min_participation": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9])),
        "fit_calendar": draw(st.booleans()),
        "min_bin": draw(st.sampled_from([50, 1, 2, 5, 10])),
        "use_observed_arrival_times": draw(st.booleans()),
    }
    return c


def log_of(c):
    r = sim.simulate(gen.xml_of(c, names=c["names"]), c["scn"], c["total"], c["start"], c["seed"], c["tz"], add_events=False)
    back = {v: k for k, v in c["names"].items()}
    for x in r.rows:
        x.act = back.get(x.act, x.act)
    return r, list(csv.reader(io.StringIO(r.log_text)))


def text(rows):
    f = io.StringIO()
    csv.writer(f).writerows(rows)
    return f.getvalue()


def discover(xml, log, par, seed=1):
    with sim.Scratch() as d:
        open(d + "/m.bpmn", "w", encoding="utf-8").write(xml)
        open(d + "/l.csv", "w", encoding="utf-8", newline="").write(log)
        sim.seed_all(seed)
        sim.sut(preprocess_xes_log, d + "/l.csv", d + "/m.bpmn", d + "/o.json", is_csv=True, **par)
        return json.load(open(d + "/o.json"))


def utc(s):
    d = datetime.datetime.fromisoformat(s).astimezone(UTC).replace(tzinfo=None) - sim.BASE
    return d.days * 86400 + d.seconds + d.microseconds / 1e6


# ---------------------------------------------------------------- the parts of the scenario
def granules(times, g):
    return {(int(t // 86400) % 7, int(t % 86400 // 60) // g) for t in times}


def of_calendar(periods, g, what):
    """the granules of a calendar: its periods consist of whole granules"""
    out = set()
    for p in periods:
        if p["from"] != p["to"]:
            raise Violation("%s: %s" % (what, p))
        c = Cal([p])
        (s, e), = c.iv
        s, e = s / 60, round(e / 60, 3)
        d = int(s // 1440)
        a, b = s - 1440 * d, e - 1440 * d
        if a % g or round(b) % g or abs(b - round(b)) > 1e-3:
            raise Violation("%s does not consist of granules of %d minutes: %s" % (what, g, p))
        out |= {(d, i) for i in range(int(a) // g, int(round(b)) // g)}
    return out


def params(d):
    """(mean or None, min, max) of a distribution as written"""
    p = [x["value"] for x in d["distribution_params"]]
    k = d["distribution_name"]
    if any(not math.isfinite(x) for x in p):
        raise Violation("parameters of a distribution: %s" % d)
    if k == "fix" and len(p) == 1:
        return "fix", p[0], p[0], p[0]
    if k == "expon" and len(p) == 3:
        return k, p[0], p[1], p[2]
    if k in ("norm", "lognorm") and len(p) == 4:
        return k, p[0], p[2], p[3]
    if k == "uniform" and len(p) == 2:
        return k, None, p[0], p[1]
    raise Violation("unknown distribution, or parameters: %s" % d)


def check_dist(d, data, what, exact=True, tol=0.01):
    k, mean, lo, hi = params(d)
    a, b, m = min(data), max(data), sum(data) / len(data)
    tol = tol + 1e-9 * abs(b)
    if lo < a - tol or hi > b + tol:
        raise Violation("%s: %s, but the values in the log are between %s and %s" % (what, d, a, b))
    if exact:
        near = sum(abs(x - lo) < 5 + tol for x in data) / len(data)
        if k == "fix":
            if not any(abs(x - lo) <= tol for x in data) or near <= 0.95:
                raise Violation("%s: fixed to %s, but the log has %s" % (what, lo, sorted(data)[:20]))
        elif abs(lo - a) > tol or abs(hi - b) > tol or (mean is not None and abs(mean - m) > tol + 1e-6 * m):
            raise Violation("%s: %s, in the log: from %s to %s, mean %s" % (what, d, a, b, m))
    return k


def check_all(c, ctx, r, out):
    par = c["par"]
    g = par["minutes_x_granule"]
    tree = c["tree"]
    # the log, independently
    col = {n: i for i, n in enumerate(r.header)}
    ev = []  # (case, task, resource, start, end), in UTC
    for row in r.rows:
        ev.append((row.case, row.act, row.res, utc(row.raw[col["start_time"]]), utc(row.raw[col["end_time"]])))
    tasks = {e[1] for e in ev}
    perf = {}
    for e in ev:
        perf.setdefault(e[1], {}).setdefault(e[2], []).append((e[3], e[4]))

    # -- the parts refer to one another
    cals = {}
    for x in out["resource_calendars"]:
        if x["id"] in cals or not x["time_periods"]:
            raise Violation("an empty calendar, or two of them: %s" % x)
        cals[x["id"]] = x["time_periods"]
    pools = {}
    cal_of, assigned = {}, {}
    for p in out["resource_profiles"]:
        if p["id"] in pools:
            raise Violation("two profiles %s" % p["id"])
        pools[p["id"]] = [x["id"] for x in p["resource_list"]]
        for x in p["resource_list"]:
            if x["calendar"] not in cals:
                raise Violation("%s has the calendar %s, which is not there" % (x["id"], x["calendar"]))
            if cal_of.setdefault(x["id"], x["calendar"]) != x["calendar"] or int(x["amount"]) != 1:
                raise Violation("%s: %s" % (x["id"], x))
            if len(set(x["assigned_tasks"])) != len(x["assigned_tasks"]) or assigned.setdefault(x["id"], sorted(x["assigned_tasks"])) != sorted(x["assigned_tasks"]):
                raise Violation("%s: assigned tasks %s and %s" % (x["id"], assigned[x["id"]], x["assigned_tasks"]))
    dist = {}
    for td in out["task_resource_distribution"]:
        if td["task_id"] in dist:
            raise Violation("two entries for the durations of %s" % td["task_id"])
        dist[td["task_id"]] = {x["resource_id"]: x for x in td["resources"]}
        if len(dist[td["task_id"]]) != len(td["resources"]):
            raise Violation("%s: a resource is repeated: %s" % (td["task_id"], td["resources"]))
    want = tasks
    if set(dist) != want or set(pools) != want:
        raise Violation("the log has the tasks %s; durations for %s, profiles for %s" % (sorted(want), sorted(dist), sorted(pools)))
    per_res = {}
    for t in dist:
        if sorted(dist[t]) != sorted(pools[t]):
            raise Violation("%s: durations for %s, profile with %s" % (t, sorted(dist[t]), sorted(pools[t])))
        for x in dist[t]:
            per_res.setdefault(x, []).append(t)
    if {k: sorted(v) for k, v in per_res.items()} != assigned:
        raise Violation("assigned tasks %s, with durations: %s" % (assigned, per_res))

    # -- resources and calendars
    joints = 0
    for t in tasks:
        if not dist[t]:
            raise Violation("%s has no resource" % t)
        for x in dist[t]:
            if x in perf[t]:
                times = [s for e in ev if e[2] == x for s in e[3:]]
            elif x.startswith("Joint_%s_" % c["names"][t]) and x[len("Joint_%s_" % c["names"][t]):].isdigit():
                joints += 1
                times = [s for e in ev if e[1] == t for s in e[3:]]
            else:
                raise Violation("%s never worked on %s" % (x, t))
            gr = of_calendar(cals[cal_of[x]], g, "the calendar of %s" % x)
            seen = granules(times, g)
            if not gr or not gr <= seen:
                raise Violation("the calendar of %s has %s, which were not observed (or nothing at all): %s" % (x, sorted(gr - seen), cals[cal_of[x]]))
            if par["min_confidence"] == 0 and x in perf[t] and gr != seen:
                raise Violation("without a minimal confidence the calendar of %s misses %s" % (x, sorted(seen - gr)))
        if par["min_confidence"] == 0 and par["min_participation"] == 0 and set(dist[t]) != set(perf[t]):
            raise Violation("%s: performed by %s, discovered: %s" % (t, sorted(perf[t]), sorted(dist[t])))

    # -- durations
    def durations(x, evs):
        cal = Cal(cals[cal_of[x]])
        return [cal.work(a, b) if par["fit_calendar"] else b - a for a, b in evs]

    for t in tasks:
        d = {x: durations(x, perf[t][x]) for x in dist[t] if x in perf[t]}
        jd = [v for x in dist[t] if x not in perf[t] for v in durations(x, sum(perf[t].values(), []))]
        every = sum(d.values(), []) + jd
        tol = 0.01 if not par["fit_calendar"] else 0.01 + 0.0011 * (2 + max(b - a for v in perf[t].values() for a, b in v) / 86400)
        for x in dist[t]:
            what = "duration of %s by %s" % (t, x)
            if x in d and len(d[x]) >= par["min_bin"]:
                k = check_dist(dist[t][x], d[x], what, True, tol)
            else:
                k = check_dist(dist[t][x], every, what, not jd, tol)
            ctx.label(k)

    # -- arrivals
    ac = out["arrival_time_calendar"]
    if not isinstance(ac, list):
        raise Violation("the arrival calendar is not a list of periods: %s" % ac)
    first = {}
    for e in ev:
        first[e[0]] = min(first.get(e[0], 1e18), e[3])
    gr = of_calendar(ac, 60, "the arrival calendar")
    if not gr or not gr <= granules(first.values(), 60):
        raise Violation("the arrival calendar has hours in which no case started: %s" % ac)
    acal = Cal(ac)
    inside = [x for x in first.values() if any(a <= x % (7 * 86400) <= b for a, b in acal.iv)]
    inside.sort()
    gaps = [b - a for a, b in zip(inside, inside[1:])]
    ad = out["arrival_time_distribution"]
    if not par["use_observed_arrival_times"]:
        check_dist(ad, gaps, "arrivals")
    else:
        check_histogram(ad, gaps)

    # -- decisions
    sp = {k: v for k, v in model.splits_of(tree).items() if v[0] in ("xor", "or", "loop")}
    probs = {}
    for x in out["gateway_branching_probabilities"]:
        if x["gateway_id"] in probs:
            raise Violation("two entries for %s" % x["gateway_id"])
        probs[x["gateway_id"]] = {p["path_id"]: float(p["value"]) for p in x["probabilities"]}
    if set(probs) != set(sp) or any(set(probs[k]) != set(sp[k][1]) for k in sp):
        raise Violation("probabilities for %s, the decisions of the model: %s" % (probs, sp))
    runs = oracle.case_runs(c, r)
    exact = known_sig(tree) is None and len(runs) == c["total"] and not any(x[3] for x in runs.values())
    if exact:
        n = Counter(sp[gid][1][i] for x in runs.values() for gid, sel, _ in x[2] for i in sel)
        for k in sp:
            s = sum(n[f] for f in sp[k][1])
            for f in sp[k][1]:
                if abs(probs[k][f] - (n[f] / s if s else 0)) > 1e-9:
                    raise Violation("%s: probabilities %s, taken in the log: %s" % (k, probs[k], {f: n[f] for f in sp[k][1]}))
        ctx.label("decisions compared")
    for k in probs:
        s = sum(probs[k].values())
        if any(v < 0 for v in probs[k].values()) or min(abs(s), abs(s - 1)) > 1e-9:
            raise Violation("%s: probabilities %s" % (k, probs[k]))
    ctx.nontrivial = len(ev) >= 6 and len(gaps) >= 2
    if joints:
        ctx.label("joint resources")
    return exact


def check_histogram(ad, gaps):
    if ad["distribution_name"] != "histogram_sampling":
        raise Violation("observed arrival times asked for, found %s" % ad)
    cdf, mid = ad["histogram_data"]["cdf"], ad["histogram_data"]["bin_midpoints"]
    srt = sorted(gaps)

    def median(v):
        v = sorted(v)
        return (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2

    med = median(srt)
    dev = median([abs(x - med) for x in srt])
    near = [x for x in srt if not dev or abs(x - med) / dev < 5 - 1e-9]
    if not dev or any(abs(abs(x - med) / dev - 5) < 1e-6 for x in srt):
        near = srt if not dev else near
    lo, hi = near[0], near[-1]
    if len(cdf) != len(mid) or not cdf or abs(cdf[-1] - 1) > 1e-9 or any(b < a - 1e-12 for a, b in zip(cdf, cdf[1:])) or min(cdf) < 0:
        raise Violation("not a cumulative distribution: %s" % cdf)
    n = len(cdf)
    for i, m in enumerate(mid):
        if abs(m - (lo + (hi - lo) * (i + 0.5) / n)) > 1e-3 + 1e-9 * hi:
            raise Violation("middle of bin %d is %s; the gaps are between %s and %s" % (i, m, lo, hi))
    for i in range(n - 1):
        edge = lo + (hi - lo) * (i + 1) / n
        eps = 1e-6 * max(1, hi)
        a, b = sum(x < edge - eps for x in near) / len(near), sum(x < edge + eps for x in near) / len(near)
        if hi > lo and not a - 1e-9 <= cdf[i] <= b + 1e-9:
            raise Violation("share of the gaps below %s: %s, expected %s (gaps %s)" % (edge, cdf[i], a, near[:30]))


def domain(c, r, ctx):
    if len({x.case for x in r.rows}) < 2:
        ctx.discard = True
        return False
    return True


def check_discovery(c, ctx):
    r, rows = log_of(c)
    if not domain(c, r, ctx):
        return
    xml = gen.xml_of(c, names=c["names"])
    out = discover(xml, r.log_text, c["par"], c["seed"])
    if not check_all(c, ctx, r, out):
        return
    # -- what was discovered can be simulated, and gives runs of the model by the resources discovered
    s = dict(c, scn=out, total=min(c["total"], 6))
    r2 = sim.simulate(xml, out, s["total"], c["start"], c["seed"], c["tz"], add_events=False)
    back = {v: k for k, v in c["names"].items()}
    for x in r2.rows:
        x.act = back.get(x.act, x.act)
    oracle.case_runs(s, r2)
    ok = {x["task_id"]: {y["resource_id"] for y in x["resources"]} for x in out["task_resource_distribution"]}
    for x in r2.rows:
        if x.act not in ok or x.res not in ok[x.act]:
            raise Violation("%s executed by %s in the simulation of the discovered scenario" % (x.act, x.res))
    ctx.label("simulated")


# ---------------------------------------------------------------- the same log written in another way
HOW = ["columns", "names", "week", "offset", "foreign", "order"]


@st.composite
def variants(draw):
    c = draw(cases())
    c["total"] = min(c["total"], 25)
    c["how"] = draw(st.sampled_from(HOW))
    c["k"] = draw(st.integers(0, 10**6))
    c["n"] = draw(st.integers(-60, 60).filter(bool))
    return c


NAMES = {"case_id": ["Case ID", "case", "caseid", "case:concept:name"], "activity": ["Activity", "ACTIVITY", "activity_name"],
         "start_time": ["start", "Start Timestamp", "start_timestamp"], "end_time": ["End", "end_timestamp", "END TIME"],
         "resource": ["Resource", "org:resource", "resource_name"]}
ZONES = ["+00:00", "+05:30", "-03:00", "+13:00"]


def vary(c, rows):
    import random
    rnd = random.Random(c["k"])
    h, body = rows[0], rows[1:]
    how = c["how"]
    if how == "columns":
        p = list(range(len(h)))
        rnd.shuffle(p)
        out = [[row[i] for i in p] for row in rows]
        x = rnd.choice([["gender"], ["cost", "casetype", "started_by"], []])
        return [out[0] + x] + [row + [rnd.choice(["1", "a,b", ""]) for _ in x] for row in out[1:]]
    if how == "names":
        return [[rnd.choice(NAMES.get(n, [n])) for n in h]] + body
    tc = [h.index(n) for n in ("enable_time", "start_time", "end_time")]

    def conv(f):
        return [h] + [[f(x) if i in tc and x else x for i, x in enumerate(row)] for row in body]

    if how == "week":
        return conv(lambda x: (datetime.datetime.fromisoformat(x) + datetime.timedelta(weeks=c["n"])).isoformat())
    if how == "offset":
        return conv(lambda x: datetime.datetime.fromisoformat(x).astimezone(datetime.datetime.fromisoformat("2024-01-01T00:00:00" + rnd.choice(ZONES)).tzinfo).isoformat())
    if how == "foreign":
        out = []
        left = max(0, len(body) - 1) // 2
        for row in body:
            if left and rnd.random() < 0.3:
                left -= 1
                f = list(row)
                f[h.index("activity")] = rnd.choice(["Not in the model", "noise"])
                f[h.index("resource")] = rnd.choice(["nobody", f[h.index("resource")]])
                out.append(f)
            out.append(row)
        return [h] + out
    assert how == "order", how
    per = {}
    ci = h.index("case_id")
    for row in body:
        per.setdefault(row[ci], []).append(row)
    lists = list(per.values())
    rnd.shuffle(lists)
    out = []
    if rnd.random() < 0.5:
        return [h] + sum(lists, [])
    while lists:
        i = rnd.randrange(len(lists))
        out.append(lists[i].pop(0))
        if not lists[i]:
            lists.pop(i)
    return [h] + out


def norm_cals(out):
    return {x["id"]: sorted(map(json.dumps, x["time_periods"])) for x in out["resource_calendars"]}


def check_variant(c, ctx):
    r, rows = log_of(c)
    if not domain(c, r, ctx):
        return
    xml = gen.xml_of(c, names=c["names"])
    a = discover(xml, r.log_text, c["par"], c["seed"])
    v = vary(c, rows)
    b = discover(xml, text(v), c["par"], c["seed"])
    ctx.label(c["how"])
    ctx.nontrivial = len(rows) > 6 and (v != rows)
    if c["how"] in ("columns", "names", "week", "offset", "foreign"):
        if close(a, b):
            return
        for k in a:
            if not close(a[k], b.get(k)):
                raise Violation("%s: the same log gives another %s: %s / %s" % (c["how"], k, a[k], b.get(k)))
    # the order of the cases in the file: same decisions, arrivals and (where nothing is selected) calendars
    pa = {x["gateway_id"]: {p["path_id"]: p["value"] for p in x["probabilities"]} for x in a["gateway_branching_probabilities"]}
    pb = {x["gateway_id"]: {p["path_id"]: p["value"] for p in x["probabilities"]} for x in b["gateway_branching_probabilities"]}
    if not close(pa, pb):
        raise Violation("another order of the cases gives other probabilities: %s / %s" % (pa, pb))
    if {t["task_id"] for t in a["task_resource_distribution"]} != {t["task_id"] for t in b["task_resource_distribution"]}:
        raise Violation("another order of the cases gives other tasks")
    if c["par"]["min_confidence"] == 0 and c["par"]["min_participation"] == 0 and norm_cals(a) != norm_cals(b):
        raise Violation("another order of the cases gives other calendars")


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(a))
    return a == b


PARTS = [
    Part("discovery", cases(), check_discovery, 1500),
    Part("variants", variants(), check_variant, 700),
]
RULE = (
    "discovery: simulated logs of random models (2 to 80 cases), discovered with random parameters: references between the parts, tasks and resources, calendars (only "
    "observed granules), durations, arrivals, probabilities, recomputed from the log; then simulated. variants: the same log with other columns, names of columns, weeks, UTC "
    "offsets, activities outside the model, order of cases: the same scenario. Non-trivial: at least 6 rows and 3 cases."
)
if __name__ == "__main__":
    runner.main("C19", PARTS, RULE)
