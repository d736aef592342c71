"""C06: cases arrive inside the arrival calendar, separated by the sampled inter-arrival times."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and"), max_tasks=3, max_depth=2, silent=False, events=True)


def arrivals(case, res):
    per = sim.by_case(res.rows)
    out = []
    for i in range(case["total"]):
        rows = per.get(str(i))
        if not rows:
            raise Violation("case %d is missing" % i)
        out.append(min(r.enable for r in rows))
    return out


def check(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    a = arrivals(case, res)
    c = cal.Cal(case["scn"]["arrival_time_calendar"])
    d = case["scn"]["arrival_time_distribution"]
    if d["distribution_name"] == "fix":
        gaps = [d["distribution_params"][0]["value"]]
    elif d["distribution_name"] == "histogram_sampling":
        gaps = list(d["histogram_data"]["bin_midpoints"])
    else:
        gaps = None
        lo, hi = d["distribution_params"][0]["value"], d["distribution_params"][1]["value"]
    moved = 0
    s = case["start"]
    for i, t in enumerate(a):
        if not c.is_open(t):
            raise Violation("case %d arrives at %s, outside the arrival calendar" % (i, sim.when(t)))
    if c.next_open(s) == s:  # a period does not include its last instant; there both readings are accepted
        if abs(a[0] - s) > 0.002:
            raise Violation("the first case arrives at %s, requested start %s is inside the calendar" % (sim.when(a[0]), sim.when(s)))
        ctx.label("start-open")
    else:
        top = max(gaps) if gaps else hi
        if not s - 0.002 <= a[0] <= c.next_open(s + top) + 0.01:
            raise Violation("the first case arrives at %s, requested start %s" % (sim.when(a[0]), sim.when(s)))
        ctx.label("start-closed")
    for i in range(1, len(a)):
        if gaps is not None:
            exp = [c.next_open(a[i - 1] + g) for g in gaps]
            # an instant at the very end of a period may count as open or closed
            exp += [a[i - 1] + g for g in gaps if c.is_open(a[i - 1] + g)]
            if min(abs(a[i] - e) for e in exp) > 0.003:
                raise Violation("case %d arrives at %s, previous at %s, inter-arrival times %s" % (
                    i, sim.when(a[i]), sim.when(a[i - 1]), gaps))
            moved += min(abs(a[i] - a[i - 1] - g) for g in gaps) > 1
        else:
            e0 = c.next_open(a[i - 1] + lo)
            e1 = c.next_open(a[i - 1] + hi)
            if not e0 - 0.01 <= a[i] <= e1 + 0.01:
                raise Violation("case %d arrives at %s, outside [%s, %s]" % (i, sim.when(a[i]), sim.when(e0), sim.when(e1)))
            moved += a[i] - a[i - 1] > hi + 1
    if any(y < x - 0.001 for x, y in zip(a, a[1:])):
        raise Violation("arrivals are not in order")
    ctx.count("arrivals-moved-by-calendar", moved)
    ctx.nontrivial = len(a) > 1 and moved > 0


@st.composite
def scen(draw, kind):
    c = draw(gen.scenarios(CFG, max_cases=10, arrival_cal=gen.calendars(0), arrival=gen.durations(1, 2 * 86400), max_amount=2))
    if kind == "hist":
        n = draw(st.integers(1, 4))
        mids = sorted(draw(st.lists(st.integers(1, 90000), min_size=n, max_size=n, unique=True)))
        w = [draw(st.integers(1, 5)) for _ in mids]
        tot = sum(w)
        cdf = [sum(w[: i + 1]) / tot for i in range(n)]
        cdf[-1] = 1.0
        c["scn"]["arrival_time_distribution"] = {
            "distribution_name": "histogram_sampling",
            "histogram_data": {"cdf": cdf, "bin_midpoints": mids},
        }
    elif kind == "uniform":
        lo = draw(st.integers(0, 20000))
        hi = lo + draw(st.integers(1, 90000))
        c["scn"]["arrival_time_distribution"] = {"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": hi}]}
    return c


def check_fixed(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"], fixed=case["fixed"])
    a = arrivals(case, res)
    base = case["start"]
    for i, (t, f) in enumerate(zip(a, case["fixed"])):
        if abs(t - (base + f)) > 0.002:
            raise Violation("case %d arrives at %s, expected %s" % (i, sim.when(t), sim.when(base + f)))
    oracle.case_runs(case, res, ctx)
    ctx.nontrivial = len(a) > 1


@st.composite
def fixed_scen(draw):
    c = draw(gen.scenarios(CFG, max_cases=8, arrival_cal=st.just(cal.FULL), max_amount=2))
    c["fixed"] = sorted(draw(st.lists(st.integers(0, 400000), min_size=c["total"], max_size=c["total"])))
    return c


PARTS = [
    Part("fix", scen("fix"), check, 4000),
    Part("histogram", scen("hist"), check, 2500),
    Part("uniform", scen("uniform"), check, 1500),
    Part("given-arrivals", fixed_scen(), check_fixed, 1000),
]
RULE = (
    "Random arrival calendars and inter-arrival distributions (fixed, histogram, uniform) or explicitly given arrival times; the "
    "first enablement of each case is compared with the earliest open instant at or after the previous arrival plus an admissible "
    "inter-arrival time. Non-trivial: more than one case and some arrival moved by the calendar (or given arrivals for several cases)."
)
if __name__ == "__main__":
    runner.main("C06", PARTS, RULE)
