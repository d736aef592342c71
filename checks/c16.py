"""C16: fuzzy calendars: sure granules are worked, impossible ones never, and the work adds up to the sampled time."""
import _boot  # noqa: F401
import json
import math
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
import c04
import c05
import c11

SEQ = model.TreeCfg(kinds=("task", "seq", "xor", "loop"), events=True, max_tasks=6)
DAYS = cal.DAYS


def end_of(t):
    return "00:00:00" if t.startswith("23:59:59.999") else t


@st.composite
def split(draw, periods, whole=False):
    """Spreads the periods of a crisp calendar over the two fuzzy ones."""
    avail, work = [], []
    for p in periods:
        q = dict(p, endTime=end_of(p["endTime"]), probability=1.0)
        k = draw(st.integers(0, 5))
        if k == 0 and not whole:
            work.append(q)
        else:
            avail.append(q)
            if k == 1:
                work.append(dict(q, probability=draw(st.sampled_from([0, 0.5, 1]))))
    return avail, work


@st.composite
def sure_cases(draw, **kw):
    """A scenario with crisp calendars, and the same one written with fuzzy calendars of probabilities 0 and 1."""
    c = draw(gen.scenarios(kw.pop("cfg", c11.CFG), **kw))
    f = json.loads(json.dumps(c["scn"]))
    f["model_type"] = "FUZZY"
    f["granule_size"] = draw(st.sampled_from([
        {"value": 30, "time_unit": "MINUTES"}, {"value": 30, "time_unit": "minutes"}, {"value": 0.5, "time_unit": "HOURS"}, {"value": 15, "time_unit": "MINUTES"}, {"value": 10, "time_unit": "minutes"},
        {"value": 5, "time_unit": "Minutes"}, {"value": 1800, "time_unit": "SECONDS"},
        {"value": 300, "time_unit": "SECONDS"}, {"value": 50, "time_unit": "SECONDS"}]))
    for rc in f["resource_calendars"]:
        rc["time_periods"], rc["workload_ratio"] = draw(split(rc["time_periods"]))
    c["scn"]["__as__"] = f
    return c


def check_timing(case, ctx):
    c04.check(case, ctx)
    a = ctx.nontrivial
    c05.check(case, ctx)
    ctx.nontrivial = a


def check_stats(case, ctx):
    try:
        c11.check(case, ctx)
    except Violation as e:
        if getattr(e, "sig", None) != "task-duration-columns":  # the same for crisp calendars: a known finding of C11
            raise


@st.composite
def probable_cases(draw):
    g = draw(st.sampled_from([60, 60, 30, 120, 15]))
    c = draw(gen.scenarios(SEQ, max_cases=4, max_pools=2, max_amount=2, dur=gen.durations(1, 8 * 3600)))
    f = c["scn"]
    f["model_type"] = "FUZZY"
    f["granule_size"] = {"value": g, "time_unit": "MINUTES"}
    n = 1440 // g
    probs = st.sampled_from([0.1, 0.3, 0.5, 0.9, 1.0, 1, 0.0])

    def hm(i):
        m = i * g % 1440
        return "%02d:%02d:00" % (m // 60, m % 60)

    for rc in f["resource_calendars"]:
        for key, least in (("time_periods", 1), ("workload_ratio", 0)):
            out = []
            for d in range(7):
                if draw(st.integers(0, 3)) and not (least and d == 6 and not out):
                    continue
                cuts = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=8, unique=True)))
                for a, b in zip(cuts, cuts[1:]):
                    if draw(st.integers(0, 3)):
                        out.append({"from": DAYS[d], "to": DAYS[d], "beginTime": hm(a), "endTime": hm(b), "probability": draw(probs)})
            if least and not any(p["probability"] > 0 for p in out):
                out.append({"from": "SUNDAY", "to": "TUESDAY", "beginTime": hm(0), "endTime": hm(n // 2), "probability": draw(st.sampled_from([0.3, 0.6, 1.0]))})
            rc[key] = out
    c["g"] = g * 60
    return c


def table(rc, g):
    """Probability of each granule of the week."""
    n = 86400 // g
    out = []
    for key in ("time_periods", "workload_ratio"):
        p = [0.0] * (7 * n)
        for e in rc[key]:
            d, last = DAYS.index(e["from"]), DAYS.index(e["to"])
            while True:
                a, b = int(cal.hms(e["beginTime"])) // g, int(cal.hms(e["endTime"]) or 86400) // g
                for i in range(a, b):
                    p[d * n + i] = float(e["probability"])
                if d == last:
                    break
                d = (d + 1) % 7
        out.append(p)
    return [1 - (1 - a) * (1 - b) for a, b in zip(*out)]


def check_row(r, dur, P, g):
    n = len(P)
    tol = 0.002
    k0 = math.floor((r.start + tol) / g)
    if P[k0 % n] == 0:
        return "starts in a granule of probability 0"
    k1 = max(k0, math.ceil((r.end - tol) / g) - 1)
    if P[k1 % n] == 0:
        return "finishes in a granule of probability 0"
    if k1 == k0:
        return None if abs(r.end - r.start - dur) < tol else "takes %s s, expected %s" % (r.end - r.start, dur)
    before = dur - (r.end - k1 * g)  # must have been worked before the last granule
    first = (k0 + 1) * g - r.start
    sure = sum(P[k % n] == 1 for k in range(k0 + 1, k1))
    may = sum(P[k % n] > 0 for k in range(k0 + 1, k1))
    for f in ([first] if P[k0 % n] == 1 else [0.0, first]):
        k = round((before - f) / g)
        if sure <= k <= may and abs(before - f - k * g) < tol:
            return None
    return "works %s s before its last granule; the first one has %s s, then %d of %d granules are sure (of %d s)" % (before, first, sure, may, g)


def check_probable(case, ctx):
    scn, g = case["scn"], case["g"]
    res = sim.simulate(gen.xml_of(case), scn, case["total"], case["start"], case["seed"], case["tz"], stats=True)
    oracle.case_runs(case, res, ctx)
    info = gen.Info(scn)
    tasks = set(model.tasks_of(case["tree"]))
    tabs = {rc["id"]: table(rc, g) for rc in scn["resource_calendars"]}
    cal_of = {nm: e["calendar"] for p in scn["resource_profiles"] for e in p["resource_list"] for nm in gen.names_of(e)}
    last, worked, total = {}, {}, {}
    paused = 0
    for r in sorted((r for r in res.rows if r.act in tasks), key=lambda r: (r.start, r.end)):
        if r.res not in info.eligible[r.act]:
            raise Violation("%r was executed by a resource that is not assigned to it" % r)
        P = tabs[cal_of[r.res]]
        dur = info.eligible[r.act][r.res]["distribution_params"][0]["value"]
        err = check_row(r, dur, P, g)
        if err:
            raise Violation("%r of %s s %s" % (r, dur, err))
        if r.start < r.enable - 0.002 or r.start < last.get(r.res, -1e9) - 0.002:
            raise Violation("%r starts before it is enabled or its resource is free (%s)" % (r, sim.when(last.get(r.res, 0))))
        if r.res in last:
            ready = max(r.enable, last[r.res])
            k, n = math.floor((ready + 0.002) / g), len(P)
            ks = math.floor((r.start + 0.002) / g)
            if ks > k:
                if abs(r.start - ks * g) > 0.002:
                    raise Violation("%r could start at %s and does not start with a granule" % (r, sim.when(ready)))
                if any(P[i % n] == 1 for i in range(k, ks)):
                    raise Violation("%r could start at %s and waits beyond a granule of probability 1" % (r, sim.when(ready)))
            elif abs(r.start - ready) > 0.002:
                raise Violation("%r could start at %s" % (r, sim.when(ready)))
        last[r.res] = r.end
        worked[r.res] = worked.get(r.res, 0) + dur
        total.setdefault(r.act, []).append(dur)
        paused += r.end - r.start > dur + 1
    if not res.rows:
        return
    s = c11.parse_stats(res.stats_text)
    for d in s["res"]:
        nm = d["Resource name"]
        w, a, u = (float(d[k]) for k in ("Worked Time (seconds)", "Available Time (seconds)", "Utilization Ratio"))
        if abs(w - worked.get(nm, 0)) > 0.01:
            raise Violation("%s: worked %s, the log says %s" % (nm, w, worked.get(nm, 0)))
        if w > a + 0.01 * (1 + len(res.rows)):
            raise Violation("%s: worked %s s, more than the %s s available" % (nm, w, a))
    for t, ds in total.items():
        v = float(s["task"][t]["Total Processing Time"])
        if abs(v - sum(ds)) > 0.01 * len(ds):
            raise Violation("%s: total processing time %s, of its durations %s" % (t, v, sum(ds)))
    # without parallel tasks nothing overlaps within a case
    v = float(s["kpi"]["processing_time"]["Accumulated Value"])
    ex = sum(map(sum, total.values()))
    if abs(v - ex) > 0.01 * len(res.rows):
        raise Violation("process processing time %s, the tasks were processed for %s s" % (v, ex))
    ctx.nontrivial = paused > 0
    ctx.count("paused", paused)


PARTS = [
    Part("sure-timing", sure_cases(cfg=c04.CFG, max_cases=5, cal=gen.calendars(1), dur=gen.durations(1, 6 * 3600)), check_timing, 800),
    Part("sure-statistics", sure_cases(max_cases=5), check_stats, 1500),
    Part("probable", probable_cases(), check_probable, 2500),
]
RULE = (
    "sure-*: a scenario with crisp calendars rewritten with fuzzy calendars of probabilities 0 and 1 (granules of 50 s to 30 min) is judged by the "
    "oracles of the crisp one: eligible resource, calendar, service order, statistics. probable: random probabilities, with zeros and ones; "
    "every task must start and end in possible granules, its elapsed granules must admit working exactly the sampled time, and never wait "
    "beyond a sure granule; the statistics must add up. Non-trivial: some task was interrupted."
)
if __name__ == "__main__":
    runner.main("C16", PARTS, RULE)
