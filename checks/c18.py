"""C18: replaying a log on the model counts the decisions and finds the enabling times."""
import _boot
import datetime
from collections import Counter
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
from bpdfr_discovery.log_parser import compute_kpi_times_from_csv_log, event_list_from_csv, sort_by_completion_times
from prosimos.execution_info import TaskEvent
from prosimos.simulation_properties_parser import parse_simulation_model

EPOCH = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)


def cfg(*kinds, **kw):
    kw.setdefault("max_tasks", 8)
    return model.TreeCfg(kinds=("task", "seq") + kinds, events=False, **kw)


# the same sections may not be told apart by the tasks of a trace: see walk() for what is left out as known
CFGS = [cfg("xor", "loop"), cfg("and", "xor", "loop", silent=False), cfg("or", "xor", "and", silent=False, max_tasks=9), cfg("or", "xor"),
        cfg("xor", "and", "loop"), cfg("or", "xor", "and", "loop", silent=False)]


def kids(t):
    return t.get("ch", []) + t.get("br", []) + [t[k] for k in ("body", "redo") if k in t]


def inside(t, outer, inner):
    """is there a node of the inner kinds below one of the outer kinds?"""
    def below(n):
        return n["k"] in inner or any(below(c) for c in kids(n))
    return (t["k"] in outer and any(below(c) for c in kids(t))) or any(inside(c, outer, inner) for c in kids(t))


def known_sig(t):
    if inside(t, ("and",), ("skip",)):
        return "silent-in-parallel"
    if inside(t, ("or",), ("loop",)) or inside(t, ("loop",), ("or",)):
        return "or-and-loop"
    return None


def graph_of(xml):
    with sim.Scratch() as d:
        open(d + "/m.bpmn", "w", encoding="utf-8").write(xml)
        return parse_simulation_model(d + "/m.bpmn")


# ---------------------------------------------------------------- logs of the model
@st.composite
def logs(draw):
    c = draw(gen.scenarios(CFGS[draw(st.integers(0, len(CFGS) - 1))], max_cases=8))
    for td in c["scn"]["task_resource_distribution"]:
        for r in td["resources"]:
            if draw(st.booleans()):
                lo = draw(st.integers(1, 3000))
                r.update({"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": lo + 999}, {"value": lo}, {"value": lo + 999}]})
    return c


def check_log(c, ctx):
    r = sim.simulate(gen.xml_of(c), c["scn"], c["total"], c["start"], c["seed"], c["tz"], add_events=False)
    runs = oracle.case_runs(c, r)
    sp = model.splits_of(c["tree"])
    sig = known_sig(c["tree"])
    flows = {f for x in sp.values() for f in x[1]}
    total, skipped = Counter(), False
    fr_all = {}
    with sim.Scratch() as d:
        log = d + "/l.csv"
        open(log, "w", encoding="utf-8").write(r.log_text)
        g = graph_of(gen.xml_of(c))
        waits, works, counts = Counter(), Counter(), Counter()
        for tr in event_list_from_csv(log):
            if tr.p_case not in runs:
                return
            dec, amb = runs[tr.p_case][2:]
            # as written by the simulator
            first = min(e.enabled_at for e in tr.event_list)
            started = min(e.started_at for e in tr.event_list)
            seq = sort_by_completion_times(tr)
            want = Counter(sp[gid][1][i] for gid, sel, _ in dec for i in sel)
            fr = {}
            ok, fired, pending, enabling = sim.sut(g.reply_trace, seq, fr, True, tr.event_list)
            sim.sut(g.reply_trace, seq, fr_all, True, tr.event_list)
            for e, x in zip(tr.event_list, enabling):
                w = started if e.enabled_at == first else e.enabled_at
                waits[e.task_id] += (e.started_at - w).total_seconds()
                works[e.task_id] += (e.completed_at - e.started_at).total_seconds()
                counts[e.task_id] += 1
            if amb:
                skipped = True
                ctx.label("ambiguous")
                continue
            total.update(want)
            if not ok:
                raise Violation("case %s %s is a run of the model, but the tasks %s could not be replayed" % (
                    tr.p_case, seq, [t for t, f in zip(seq, fired) if not f]), sig)
            got = {k: v for k, v in fr.items() if v and k in flows}
            if got != dict(want):
                raise Violation("case %s %s took the decisions %s, replayed as %s" % (tr.p_case, seq, dict(want), got), sig)
            for e, x in zip(tr.event_list, enabling):
                w = started if e.enabled_at == first else e.enabled_at
                if x is None or abs((x - w).total_seconds()) > 1e-3:
                    raise Violation("case %s %s: %s was enabled at %s, replayed: %s" % (tr.p_case, seq, e.task_id, w, x), sig)
            ctx.nontrivial = ctx.nontrivial or (len(want) > 0 and len(seq) > 2)
        if not skipped:
            check_probabilities(g, fr_all, total, sp, sig)
            stats = sim.sut(compute_kpi_times_from_csv_log, log, g)
            if set(stats) != set(counts):
                raise Violation("times computed for the tasks %s, executed: %s" % (sorted(stats), sorted(counts)), sig)
            for t in counts:
                w = [waits[t], works[t], counts[t]]
                if any(abs(a - b) > 0.01 for a, b in zip(stats[t], w)):
                    raise Violation("waiting time, processing time and number of executions of %s: %s, expected %s" % (t, stats[t], w), sig)
    ctx.label("known domain" if sig else "exact")


def check_probabilities(g, fr, total, sp, sig):
    p = sim.sut(g.compute_branching_probability, dict(fr))
    gws = {gid for gid, (kind, fl) in sp.items() if kind in ("xor", "or", "loop")}
    if set(p) != gws:
        raise Violation("probabilities computed for %s, the decisions are %s" % (sorted(p), sorted(gws)), sig)
    for gid in gws:
        fl = sp[gid][1]
        n = sum(total[f] for f in fl)
        want = {f: total[f] / n if n else 0 for f in fl}
        if set(p[gid]) != set(fl) or any(abs(p[gid][f] - want[f]) > 1e-9 for f in fl):
            raise Violation("%s: probabilities %s, the decisions in the log: %s" % (gid, p[gid], want), sig)


# ---------------------------------------------------------------- traces of other processes
def member(t, seq, part=False):
    """is the sequence a run of the block (or the beginning of one)? no silent branches"""
    k = t["k"]
    if part and not seq:
        return True
    if k == "task":
        return seq == [t["id"]]
    parts = [(c, set(model.tasks_of(c))) for c in kids(t)]
    if not set(seq) <= set().union(*(s for _, s in parts)):
        return False
    proj = [[x for x in seq if x in s] for _, s in parts]
    if k == "seq":
        n = max(i for i, p in enumerate(proj) if p or not part)
        return sum(proj, []) == seq and all(member(parts[i][0], proj[i], part and i == n) for i in range(n + 1))
    if k == "and":
        return all(member(c, p, part) for (c, _), p in zip(parts, proj))
    if k == "xor":
        return any(p == seq and member(c, p, part) for (c, _), p in zip(parts, proj))
    assert k == "loop", k
    tasks = set(model.tasks_of(t["body"]))
    seg = []
    for x in seq:
        if not seg or (seg[-1][0] in tasks) != (x in tasks):
            seg.append([])
        seg[-1].append(x)
    return (part or len(seg) % 2 == 1) and seg[0][0] in tasks and all(
        member(t["body" if i % 2 == 0 else "redo"], s, part and i == len(seg) - 1) for i, s in enumerate(seg))


@st.composite
def runs_of(draw, t, budget=3):
    k = t["k"]
    if k == "task":
        return [t["id"]]
    if k == "seq":
        return sum([draw(runs_of(c)) for c in t["ch"]], [])
    if k == "xor":
        return draw(runs_of(t["br"][draw(st.integers(0, len(t["br"]) - 1))]))
    if k == "loop":
        out = draw(runs_of(t["body"]))
        for _ in range(draw(st.integers(0, 2))):
            out = out + draw(runs_of(t["redo"])) + draw(runs_of(t["body"]))
        return out
    parts = [draw(runs_of(b)) for b in t["br"]]
    out = []
    while any(parts):
        i = draw(st.sampled_from([i for i, p in enumerate(parts) if p]))
        out.append(parts[i].pop(0))
    return out


@st.composite
def traces(draw):
    t = draw(model.trees(cfg("and", "xor", "loop", silent=False)))
    seq = draw(runs_of(t))
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.sampled_from(["drop", "swap", "repeat", "replace", "cut"]))
        i = draw(st.integers(0, max(0, len(seq) - 1)))
        if k == "drop":
            seq = seq[:i] + seq[i + 1:]
        elif k == "swap":
            j = draw(st.integers(0, max(0, len(seq) - 1)))
            seq = list(seq)
            if seq:
                seq[i], seq[j] = seq[j], seq[i]
        elif k == "repeat":
            seq = seq[:i + 1] + seq[i:]
        elif k == "replace":
            seq = seq[:i] + [draw(st.sampled_from(model.tasks_of(t)))] + seq[i + 1:]
        else:
            seq = seq[:i]
    return {"tree": t, "seq": seq}


def check_trace(c, ctx):
    seq = c["seq"]
    if not seq:
        ctx.discard = True
        return
    g = graph_of(gen.xml_of(c))
    evs = []
    for i, x in enumerate(seq):
        e = TaskEvent("0", x, "r")
        e.started_at = EPOCH + datetime.timedelta(minutes=2 * i)
        e.completed_at = e.started_at + datetime.timedelta(minutes=1)
        evs.append(e)
    ok, fired, pending, enabling = sim.sut(g.reply_trace, list(seq), {}, True, evs)
    want = member(c["tree"], seq, True)
    ctx.label("run" if member(c["tree"], seq) else "beginning" if want else "deviates")
    ctx.nontrivial = len(seq) > 2
    if len(fired) != len(seq) or len(enabling) != len(seq) or ok != all(fired):
        raise Violation("replay of %s: %s" % (seq, (ok, fired, enabling)))
    if ok != want:
        raise Violation("%s is %sthe beginning of a run of the model: replayed %s, pending %s" % (seq, "" if want else "not ", list(zip(seq, fired)), pending))


PARTS = [
    Part("logs", logs(), check_log, 3500),
    Part("traces", traces(), check_trace, 12000),
]
RULE = (
    "logs: simulated logs of random models (six mixes of gateways): every case must be replayed completely, with the decisions that were really taken and the enabling times "
    "the simulator wrote; shares of the flows of each gateway; waiting and processing times per task. traces: runs of random models, with none to two random changes: replayed "
    "without rest exactly when they are runs of the model. Non-trivial: more than two tasks, with decisions."
)
if __name__ == "__main__":
    runner.main("C18", PARTS, RULE)
