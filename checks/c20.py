"""C20: intermediate events delay their case by their own duration; event-based gateways follow the earliest event."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "loop", "evgw", "evgw"), events=True, max_tasks=5, max_depth=4)


def hist(vals):
    n = len(vals)
    return {"distribution_name": "histogram_sampling",
            "histogram_data": {"cdf": [(i + 1) / n for i in range(n)], "bin_midpoints": vals}}


@st.composite
def scen(draw):
    c = draw(gen.scenarios(CFG, max_cases=6, max_amount=2))
    for e in c["scn"]["event_distribution"]:
        k = draw(st.integers(0, 4))
        lo = draw(st.integers(0, 50000))
        hi = lo + draw(st.integers(1, 50000))
        if k == 1:
            e["distribution_name"] = "uniform"
            e["distribution_params"] = [{"value": lo}, {"value": hi}]
        elif k == 2:
            e["distribution_name"] = "norm"
            e["distribution_params"] = [{"value": (lo + hi) / 2}, {"value": hi - lo}, {"value": lo}, {"value": hi}]
        elif k == 3:
            e.update(gen.fix(draw(st.sampled_from([600, 600, 1200]))))
        elif k == 4:  # close to each other
            e.update(gen.fix(draw(st.integers(1, 12)) * 0.3 + draw(st.sampled_from([0, 3600]))))
    c["kinds"] = {e: draw(st.sampled_from(["timer", "message", "signal", "link"])) for e in model.events_of(c["tree"])}
    c["log_events"] = draw(st.booleans()) or draw(st.booleans())
    return c


def bounds(e):
    p = [x["value"] for x in e.get("distribution_params", [])]
    if e["distribution_name"] == "fix":
        return p[0], p[0]
    if e["distribution_name"] == "uniform":
        return p[0], p[1]
    return p[2], p[3]


def check(case, ctx):
    scn = case["scn"]
    res = sim.simulate(gen.xml_of(case, event_kind=case["kinds"]), scn, case["total"], case["start"], case["seed"], case["tz"], add_events=case["log_events"])
    evs = {e["event_id"]: bounds(e) for e in scn["event_distribution"]}
    tasks = set(model.tasks_of(case["tree"]))
    erows = [r for r in res.rows if r.act in evs]
    if not case["log_events"]:
        if erows:
            raise Violation("events are in the log although they were not requested: %r" % erows[0])
        ctx.label("events-not-logged")
        return
    known = {n for p in scn["resource_profiles"] for e in p["resource_list"] for n in gen.names_of(e)}
    for r in erows:
        lo, hi = evs[r.act]
        if r.start != r.enable:
            raise Violation("an event waited: %r" % r)
        if not lo - 0.01 <= r.end - r.start <= hi + 0.01:
            raise Violation("%r took %.3f s, its distribution allows [%s, %s]" % (r, r.end - r.start, lo, hi))
        if r.res in known:
            raise Violation("an event was executed by a resource: %r" % r)
    runs = oracle.case_runs(case, res, ctx)
    gws = {n["id"] + "_s": [b[0] for b in n["br"]] for n in model.walk(case["tree"]) if n["k"] == "evgw"}
    per = sim.by_case(res.rows)
    decided = 0
    for cid, (t0, end, dec, amb) in runs.items():
        if amb:
            continue
        for g, sel, t in dec:
            if g not in gws:
                continue
            win = gws[g][sel[0]]
            row = next(r for r in per[cid] if r.act == win and abs(r.enable - t) <= 0.002)
            d = row.end - row.start
            for other in gws[g]:
                lo, hi = evs[other]
                if other != win and d > hi + 0.01:
                    raise Violation("case %s: %s followed %s after %.3f s although %s occurs within %s s" % (cid, g, win, d, other, hi))
                if other != win and evs[win][0] > hi:
                    raise Violation("case %s: %s followed %s although %s always occurs earlier" % (cid, g, win, other))
            decided += 1
            ctx.label("evgw-decisions")
            if len({evs[e] for e in gws[g]}) > 1 and any(evs[e][0] < evs[e][1] for e in gws[g]):
                ctx.label("evgw-random-race")
    ctx.nontrivial = decided > 0
    ctx.count("event-rows", len(erows))


PARTS = [Part("events", scen(), check, 6000)]
RULE = (
    "Random models with timers and event-based gateways (2-3 events with fixed, uniform or truncated normal durations). Each event row must start when "
    "enabled, last within its distribution and use no resource; the event followed at a gateway must be one that occurs no later than all the others can. "
    "Non-trivial: at least one event-based gateway decided."
)
if __name__ == "__main__":
    runner.main("C20", PARTS, RULE)
