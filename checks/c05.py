"""C05: tasks are handed to resources in order, to the eligible resource that is free earliest, as soon as possible."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), max_tasks=7, events=True)


def replay(rows, info, first, prio=None):
    """Reference allocation.  rows: task rows; order = (priority, enable time, order of the log).
    first = (earliest, latest) instant at which the simulation may have started."""
    cals = {n: cal.Cal(p) for n, p in info.cal.items()}
    # from when on each resource can be used: (earliest, latest)
    # (a first instant exactly at the end of a working period may count as working time or not)
    lo, hi = first
    avail = {n: (lo if c.is_open(lo) else c.next_open(lo), c.next_open(hi)) for n, c in cals.items()}
    rows = sorted(rows, key=lambda r: ((prio or {}).get(r.case, 0), round(r.enable, 3), r.idx))
    waited = 0
    for r in rows:
        elig = info.eligible[r.act]
        if r.res not in elig:
            raise Violation("%r was executed by a resource that is not assigned to it" % r)
        best = min(avail[n][1] for n in elig)
        if avail[r.res][0] > best + 0.002:
            raise Violation("%r: %s was free only at %s, but %s was free at %s" % (
                r, r.res, sim.when(avail[r.res][0]), [n for n in elig if avail[n][1] == best], sim.when(best)))
        c = cals[r.res]
        exp = set()
        for a in avail[r.res]:
            t = max(r.enable, a)
            exp |= {t if c.is_open(t) else c.next_open(t), c.next_open(t)}
        if min(abs(r.start - e) for e in exp) > 0.003:
            raise Violation("%r should start at %s (enabled then or resource free at %s)" % (
                r, [str(sim.when(e)) for e in exp], sim.when(avail[r.res][0])))
        waited += r.start > r.enable + 0.01 and avail[r.res][0] > r.enable
        avail[r.res] = (r.end, r.end)
    return waited


def check(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    info = gen.Info(case["scn"])
    tasks = set(model.tasks_of(case["tree"]))
    oracle.basic_rows(case, res, info)
    rows = [r for r in res.rows if r.act in tasks]
    waited = replay(rows, info, first_start(case, res))
    ctx.count("queued-rows", waited)
    ctx.nontrivial = waited > 0 and len(rows) > 2


def first_start(case, res):
    c = cal.Cal(case["scn"]["arrival_time_calendar"])
    s = float(case["start"])
    if c.is_open(s):
        return s, s
    # outside of the arrival calendar the simulation starts with the first case
    rows = sim.by_case(res.rows).get("0")
    if rows:
        t = min(r.enable for r in rows)
        return t, t
    d = case["scn"]["arrival_time_distribution"]["distribution_params"][0]["value"]
    return c.next_open(s), c.next_open(s + d)


# instants that differ by less than a second
FINE = st.integers(1, 40).map(lambda n: n * 0.37)

PARTS = [
    Part("congested", gen.scenarios(CFG, max_cases=8, max_pools=2, max_amount=3, arrival=gen.durations(1, 3600)), check, 5000),
    Part("calendars", gen.scenarios(CFG, max_cases=6, cal=gen.calendars(0), arrival=gen.durations(1, 20000)), check, 4000),
    Part("subsecond", gen.scenarios(CFG, max_cases=10, max_pools=2, max_amount=2, cal=gen.calendars(5), dur=FINE, arrival=FINE), check, 2500),
]
RULE = (
    "The log of a random scenario is replayed by a reference allocator: serve tasks in order of enablement, give each to an "
    "eligible resource with the earliest release, start it at the first working instant. Non-trivial: some task waited for a busy resource."
)
if __name__ == "__main__":
    runner.main("C05", PARTS, RULE)
