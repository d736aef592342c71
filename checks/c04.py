"""C04: only eligible resources work, inside their calendars, for exactly the sampled duration."""
import _boot  # noqa: F401
from collections import Counter
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
import c03
import c07

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "loop"), max_tasks=6, events=True)


def check(case, ctx):
    conf = {b["task_id"]: b for b in case["scn"].get("batch_processing", [])}
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    info = gen.Info(case["scn"])
    tasks = set(model.tasks_of(case["tree"]))
    cals = {n: cal.Cal(p) for n, p in info.cal.items()}
    crossed = waited = 0
    members = Counter(r.attrs.get("batch_id") for r in res.rows)
    for r in res.rows:
        if r.act not in tasks:
            continue
        if r.res not in info.eligible[r.act]:
            raise Violation("%r was executed by a resource that is not assigned to it (%s)" % (r, sorted(info.eligible[r.act])))
        d = info.eligible[r.act][r.res]
        c = cals[r.res]
        sig = None
        if d["distribution_name"] == "fix":
            n = members[r.attrs.get("batch_id")] if r.act in conf and r.attrs.get("batch_id") not in (None, "", "None") else 1
            if n > 1:
                ctx.label("batched")
                if c07.ambiguous_factor(conf[r.act], n):
                    continue
            dur = d["distribution_params"][0]["value"] * (
                1 if n == 1 else c07.factor(conf[r.act], n) * (n if conf[r.act]["type"] == "Parallel" else 1))
            err = cal.task_timing_error(c, r.start, r.end, dur, strict=True)
            if err and cal.whole_weeks(c, dur):
                sig = "whole-weeks"
        else:
            lo, hi = (d["distribution_params"][i]["value"] for i in ((0, 1) if d["distribution_name"] == "uniform" else (2, 3)))
            w = c.work(r.start, r.end)
            tol = 0.005 + 0.0012 * (2 + (r.end - r.start) / 86400)
            err = None
            if not c.is_open(r.start):
                err = "starts outside the working time of its resource"
            elif not lo - tol <= w <= hi + tol:
                err = "works %.3f s, outside [%s, %s]" % (w, lo, hi)
            else:
                err = cal.task_timing_error(c, r.start, r.end, w)
        if err:
            raise Violation("%r %s; calendar %s" % (r, err, info.cal[r.res]), sig=sig)
        if r.end - r.start > c.work(r.start, r.end) + 1:
            crossed += 1
        if r.start > r.enable + 1:
            waited += 1
    ctx.count("rows-paused-by-calendar", crossed)
    ctx.count("rows-that-waited", waited)
    ctx.nontrivial = crossed > 0


@st.composite
def long_tasks(draw):
    return draw(gen.scenarios(CFG, max_cases=4, cal=gen.calendars(0), dur=gen.durations(1, 9 * 86400)))


# durations that end exactly when working periods do
ALIGNED = st.integers(1, 24).map(lambda n: n * 1800)

PARTS = [
    Part("calendars", gen.scenarios(CFG, max_cases=5, cal=gen.calendars(0)), check, 6000),
    Part("long", long_tasks(), check, 3000),
    Part("random-durations", c03.random_durations(), check, 1500),
    Part("aligned", gen.scenarios(CFG, max_cases=6, max_pools=2, max_amount=2, cal=gen.calendars(0), dur=ALIGNED, arrival=ALIGNED,
                                  start=st.integers(0, 400).map(lambda n: n * 1800)), check, 2500),
    Part("batches", c07.scen(cfg=CFG, rule=c07.size_rule(), max_pools=2, max_amount=2, cal=gen.calendars(0), dur=ALIGNED, arrival=ALIGNED), check, 2500),
]
RULE = (
    "Random weekly calendars (wrapping ranges, several periods per day, gaps of days), random shared resource pools, fixed "
    "and bounded random durations; each task row is checked against an independent calendar: eligible resource, starts in "
    "working time, working seconds between start and end equal the duration, ends no later than needed. Non-trivial: some "
    "task was interrupted by non-working time."
)
if __name__ == "__main__":
    runner.main("C04", PARTS, RULE)
