"""C11: the reported statistics agree with the log they summarise, and can be loaded back."""
import _boot  # noqa: F401
import csv
import datetime
import io
import os
from hypothesis import strategies as st
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
from prosimos.simulation_engine import run_simulation
from prosimos.simulation_stats import load_diff_simulation_results

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), events=True, max_tasks=7, max_branches=4)
KPIS = ["cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time"]
GROUPS = ["Duration", "Waiting Time", "Processing Time", "Cycle Time", "Idle Time", "Idle Cycle Time", "Idle Processing Time", "Cost"]


def union(iv):
    tot, cur = 0.0, None
    for s, e in sorted(iv):
        if cur is None or s > cur:
            cur = s
        if e > cur:
            tot += e - cur
            cur = e
    return tot


def agg(vals):
    return {"Min": min(vals), "Max": max(vals), "Avg": sum(vals) / len(vals), "Total": sum(vals)}


def expected(case, res):
    """Recomputes every figure from the log and the scenario."""
    info = gen.Info(case["scn"])
    cals = {n: cal.Cal(p) for n, p in info.cal.items()}
    tasks = set(model.tasks_of(case["tree"]))
    per_task, per_case = {}, {}
    per_res = {n: [0, 0.0] for n in info.cal}
    for r in res.rows:
        proc, cost = 0.0, 0.0
        if r.act in tasks:
            proc = info.eligible[r.act][r.res]["distribution_params"][0]["value"]
            cost = proc * info.cost[r.res] / 3600
            per_res[r.res][0] += 1
            per_res[r.res][1] += proc
            v = {"Waiting Time": r.start - r.enable, "Processing Time": proc, "Cycle Time": r.start - r.enable + proc,
                 "Idle Time": r.end - r.start - proc, "Idle Cycle Time": r.end - r.enable,
                 "Idle Processing Time": r.end - r.start, "Cost": cost}
            for g, x in v.items():
                per_task.setdefault(r.act, {}).setdefault(g, []).append(x)
    kp = {k: [] for k in KPIS}
    for i in range(case["total"]):
        rows = [r for r in res.rows if r.case == str(i)]
        if not rows:
            for k in KPIS:
                kp[k].append(0.0)
            continue
        work = []
        for r in rows:
            if r.act in tasks:
                c = cals[r.res]
                t = r.start
                while t < r.end - 1e-6:  # working intervals of this task
                    t = c.next_open(t)
                    w = t % cal.WEEK
                    e = t - w + next(b for a, b in c.iv if w < b - 1e-5)
                    if t < r.end:
                        work.append((t, min(e, r.end)))
                    t = e
        arr, end = min(r.enable for r in rows), max(r.end for r in rows)
        ip = union([(r.start, r.end) for r in rows])
        p = union(work)
        kp["idle_cycle_time"].append(end - arr)
        kp["idle_processing_time"].append(ip)
        kp["processing_time"].append(p)
        kp["waiting_time"].append(union([(r.enable, r.start) for r in rows]))
        kp["idle_time"].append(max(0.0, ip - p))
        kp["cycle_time"].append(end - arr - max(0.0, ip - p))
    span = (min(r.start for r in res.rows), max(r.end for r in res.rows))
    avail = {n: c.work(*span) for n, c in cals.items()}
    return per_task, per_res, kp, span, avail


def parse_stats(text):
    out = {"res": [], "task": {}, "kpi": {}}
    sec = None
    for row in csv.reader(io.StringIO(text)):
        if not row or row == [""]:
            continue
        if row[0] in ("started_at", "completed_at"):
            out[row[0]] = datetime.datetime.fromisoformat(row[1])
        elif row[0] == "Resource ID":
            sec, head = "res", row
        elif row[0] == "Name":
            sec, head = "task", row
        elif row[0] == "KPI":
            sec, head = "kpi", row
        elif len(row) > 1:
            d = dict(zip(head, row))
            if len(row) != len(head):
                raise Violation("statistics row %s does not fit its header %s" % (row, head))
            if sec == "res":
                out["res"].append(d)
            else:
                if d[head[0]] in out[sec]:
                    raise Violation("duplicate row %s in the statistics" % d[head[0]])
                out[sec][d[head[0]]] = d
    return out


def close(a, b, n, span):
    return abs(a - b) <= 0.005 * (n + 1) + 0.0015 * (n + 1) * (1 + span / 86400) + 1e-9 * abs(b)


def check(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"], stats=True)
    if not res.rows:
        return
    per_task, per_res, kp, span, avail = expected(case, res)
    dur = max(r.end - r.enable for r in res.rows)
    st_ = parse_stats(res.stats_text)
    n = len(res.rows)

    if abs(sim.secs(st_["started_at"]) - span[0]) > 0.001 or abs(sim.secs(st_["completed_at"]) - span[1]) > 0.001:
        raise Violation("simulation span [%s, %s], the log spans [%s, %s]" % (st_["started_at"], st_["completed_at"], sim.when(span[0]), sim.when(span[1])))
    # resources
    names = [d["Resource name"] for d in st_["res"]]
    if sorted(names) != sorted(per_res):
        raise Violation("statistics list resources %s, the scenario has %s" % (sorted(names), sorted(per_res)))
    pool_of = {nm: (p["id"], p["name"]) for p in case["scn"]["resource_profiles"] for e in p["resource_list"] for nm in gen.names_of(e)}
    for d in st_["res"]:
        nm = d["Resource name"]
        cnt, worked = per_res[nm]
        if int(d["Tasks Allocated"]) != cnt:
            raise Violation("%s: %s tasks allocated, log has %d" % (nm, d["Tasks Allocated"], cnt))
        if not close(float(d["Worked Time (seconds)"]), worked, 0, 0):
            raise Violation("%s: worked %s, log says %s" % (nm, d["Worked Time (seconds)"], worked))
        if not close(float(d["Available Time (seconds)"]), avail[nm], 2, span[1] - span[0]):
            raise Violation("%s: available %s s, its calendar has %s s in the simulated span %s - %s" % (
                nm, d["Available Time (seconds)"], avail[nm], sim.when(span[0]), sim.when(span[1])))
        a, u = float(d["Available Time (seconds)"]), float(d["Utilization Ratio"])
        if a > 0 and abs(u - float(d["Worked Time (seconds)"]) / a) > 1e-6 * max(1, u):
            raise Violation("%s: utilization %s is not worked/available" % (nm, u))
        if a > 60 and u > 1 + 1e-4 + (0.01 + 0.002 * (span[1] - span[0]) / 86400) / a:
            raise Violation("%s: utilization %s above 1" % (nm, u))
        if (d["Pool ID"], d["Pool name"]) != pool_of[nm]:
            raise Violation("%s is reported in pool %s" % (nm, d["Pool ID"]))
    # tasks
    tasks = set(model.tasks_of(case["tree"]))
    listed = {k for k in st_["task"] if k in tasks}
    if listed != set(per_task):
        raise Violation("statistics list tasks %s, the log has %s" % (sorted(listed), sorted(per_task)))
    for t, groups in per_task.items():
        d = st_["task"][t]
        k = len(groups["Cost"])
        if int(d["Count"]) != k:
            raise Violation("%s: count %s, log has %d" % (t, d["Count"], k))
        for g in GROUPS[1:]:
            for a, v in agg(groups[g]).items():
                if not close(float(d["%s %s" % (a, g)]), v, k if a == "Total" else 1, dur):
                    raise Violation("%s: %s %s is %s, from the log %s" % (t, a, g, d["%s %s" % (a, g)], v))
    # process
    if set(st_["kpi"]) != set(KPIS):
        raise Violation("process KPIs %s" % sorted(st_["kpi"]))
    for k in KPIS:
        d = st_["kpi"][k]
        if int(d["Trace Ocurrences"]) != case["total"]:
            raise Violation("%s over %s cases, simulated %d" % (k, d["Trace Ocurrences"], case["total"]))
        ex = agg(kp[k])
        for col, a in (("Min", "Min"), ("Max", "Max"), ("Average", "Avg"), ("Accumulated Value", "Total")):
            if not close(float(d[col]), ex[a], n, span[1] - span[0]):
                raise Violation("process %s %s is %s, from the log %s" % (col, k, d[col], ex[a]))
    multi = 0
    for i in range(case["total"]):
        rows = sorted((r.start, r.end) for r in res.rows if r.case == str(i))
        for a in range(len(rows) - 2):
            multi += rows[a + 2][0] < max(rows[a][1], rows[a + 1][1])
    if multi:
        ctx.label("three-tasks-in-parallel")
    ctx.nontrivial = any(len(g["Cost"]) > 1 for g in per_task.values()) and any(x > 1 for x in kp["idle_time"] + kp["waiting_time"])
    reload(case, res, st_)
    for t, d in st_["task"].items():
        if float(d["Min Duration"]) > float(d["Max Duration"]):
            raise Violation("the duration columns of %s are never filled: Min Duration %s, Max Duration %s" % (
                t, d["Min Duration"], d["Max Duration"]), sig="task-duration-columns")


def reload(case, res, st_):
    """The results loader reads back what was written."""
    with sim.Scratch() as d:
        p = os.path.join(d, "stats.csv")
        with open(p, "w", newline="", encoding="utf-8") as f:
            f.write(res.stats_text)
        r = sim.sut(load_diff_simulation_results, p)
    span = (st_["completed_at"] - st_["started_at"]).total_seconds()
    if abs(sim.sut(r.simulation_duration) - span) > 0.001:
        raise Violation("loaded simulation duration %s, statistics say %s" % (r.simulation_duration(), span))
    if r.started_at != st_["started_at"] or r.ended_at != st_["completed_at"]:
        raise Violation("loaded start/end %s / %s, statistics say %s / %s" % (r.started_at, r.ended_at, st_["started_at"], st_["completed_at"]))
    for d_ in st_["res"]:
        nm = d_["Resource name"]
        if abs(r.resource_utilization[nm] - float(d_["Utilization Ratio"])) > 1e-9:
            raise Violation("loaded utilization of %s: %s" % (nm, r.resource_utilization[nm]))
        if list(r.resource_info[nm][:3]) != [int(d_["Tasks Allocated"]), float(d_["Worked Time (seconds)"]), float(d_["Available Time (seconds)"])]:
            raise Violation("loaded resource info of %s: %s" % (nm, r.resource_info[nm]))
    for t, d_ in st_["task"].items():
        k = r.tasks_kpi_map[t]
        for g in GROUPS:
            o = getattr(k, g.lower().replace(" ", "_"))
            exp = [float(d_["%s %s" % (a, g)]) for a in ("Min", "Max", "Avg", "Total")]
            if [o.min, o.max, o.avg, o.total] != exp or o.count != int(d_["Count"]):
                raise Violation("loaded %s of %s: %s, file %s" % (g, t, [o.min, o.max, o.avg, o.total, o.count], exp))
    for k in KPIS:
        o = getattr(r.process_kpi_map, k)
        d_ = st_["kpi"][k]
        exp = [float(d_[c]) for c in ("Min", "Max", "Average", "Accumulated Value", "Trace Ocurrences")]
        if [o.min, o.max, o.avg, o.total, o.count] != exp:
            raise Violation("loaded process %s: %s, file %s" % (k, [o.min, o.max, o.avg, o.total, o.count], exp))


def check_memory(case, ctx):
    """The statistics returned in memory equal the ones written to the file for the same run."""
    xml = gen.xml_of(case)
    res = sim.simulate(xml, case["scn"], case["total"], case["start"], case["seed"], case["tz"], stats=True)
    if not res.rows:
        return
    st_ = parse_stats(res.stats_text)
    mem = sim.simulate(xml, case["scn"], case["total"], case["start"], case["seed"], case["tz"], log=False)
    kpis, log_info = mem.value
    proc, task, util, s, e = kpis
    if s != st_["started_at"] or e != st_["completed_at"]:
        raise Violation("in-memory span %s - %s, file %s - %s" % (s, e, st_["started_at"], st_["completed_at"]))
    for k in KPIS:
        o = getattr(proc, k)
        d_ = st_["kpi"][k]
        if [o.min, o.max, o.avg, o.total] != [float(d_[c]) for c in ("Min", "Max", "Average", "Accumulated Value")]:
            raise Violation("in-memory process %s differs from the file" % k)
    for d_ in st_["res"]:
        u = util[d_["Resource ID"]]
        if [u.task_allocated, u.worked_time, u.available_time, u.utilization] != [
                int(d_["Tasks Allocated"]), float(d_["Worked Time (seconds)"]), float(d_["Available Time (seconds)"]), float(d_["Utilization Ratio"])]:
            raise Violation("in-memory resource figures of %s differ from the file" % d_["Resource ID"])
    for t, d_ in st_["task"].items():
        k = task[t]
        for g in GROUPS:
            o = getattr(k, g.lower().replace(" ", "_"))
            if [o.min, o.max, o.avg, o.total] != [float(d_["%s %s" % (a, g)]) for a in ("Min", "Max", "Avg", "Total")]:
                raise Violation("in-memory %s of %s differs from the file" % (g, t))
    ctx.nontrivial = len(res.rows) > 3


@st.composite
def crowded(draw):
    return draw(gen.scenarios(CFG, max_cases=6, max_pools=2, max_amount=2, cal=gen.calendars(2), arrival=gen.durations(1, 20000)))


PARTS = [
    Part("parallel", gen.scenarios(CFG, max_cases=5), check, 3500),
    Part("crowded", crowded(), check, 3500),
    Part("memory", gen.scenarios(CFG, max_cases=4), check_memory, 800),
]
RULE = (
    "Random models and scenarios simulated with log and statistics; every resource, task and process figure is recomputed from the log by an independent "
    "implementation (interval unions, weekly calendars) and the statistics file is read back by the project's loader; the in-memory result equals the file. "
    "Non-trivial: some task ran at least twice and some case waited or was interrupted by a calendar."
)
if __name__ == "__main__":
    runner.main("C11", PARTS, RULE)
