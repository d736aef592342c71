"""C13: the log and statistics files contain exactly what was simulated, whatever is asked for and however it is run."""
import _boot  # noqa: F401
import csv
import datetime
import io
import json
import os
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation
from bpdfr_discovery.log_parser import event_list_from_csv, parse_csv
from prosimos.file_manager import FileManager
from prosimos.simulation_engine import run_simulation
from prosimos.simulation_stats import load_diff_simulation_results

BASIC = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]
# no event-based gateways: their ties are broken by system randomness, which no seed controls
CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), events=True, max_tasks=7, max_branches=4)
CH = "abzAZ019 _-.,;:'\"|&<>/\\#()äßçñ漢"
TEXT = st.text(st.sampled_from(CH), min_size=1, max_size=8).map(str.strip).filter(bool)


def uni(lo, hi):
    return {"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": hi}, {"value": lo}, {"value": hi}]}


# ---------------------------------------------------------------- options
@st.composite
def option_cases(draw):
    c = draw(gen.scenarios(CFG, max_cases=4))
    if draw(st.booleans()):
        for td in c["scn"]["task_resource_distribution"]:
            for r in td["resources"]:
                if draw(st.booleans()):
                    lo = draw(st.integers(1, 3000))
                    r.update(uni(lo, lo + draw(st.integers(1, 5000))))
    if draw(st.booleans()):
        c["scn"]["case_attributes"] = [
            {"name": "kind", "type": "discrete", "values": [{"key": "x,y", "value": 0.5}, {"key": 'say "no"', "value": 0.5}]}]
    return c


def run(case, xml, stats, log, events):
    """-> (stats text, log text, value)"""
    with sim.Scratch() as d:
        b, j = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        open(b, "w", encoding="utf-8").write(xml)
        json.dump(case["scn"], open(j, "w", encoding="utf-8"))
        lp = os.path.join(d, "log.csv") if log else None
        sp = os.path.join(d, "stats.csv") if stats else None
        sim.seed_all(case["seed"])
        cwd = os.getcwd()
        os.chdir(d)
        try:
            v = sim.sut(run_simulation, b, j, case["total"], sp, lp, sim.iso(case["start"], case["tz"]), events)
        finally:
            os.chdir(cwd)
        files = {f for f in os.listdir(d)} - {"m.bpmn", "s.json", "simulation_warnings.txt"}
        want = ({"log.csv"} if log else set()) | ({"stats.csv"} if stats else set())
        if files != want:
            raise Violation("asked for %s, the files written are %s" % (sorted(want), sorted(files)))

        def get(p):
            if not p:
                return None
            with open(p, encoding="utf-8", newline="") as f:
                return f.read()
        return get(sp), get(lp), v


def parse(text):
    return list(csv.reader(io.StringIO(text, newline="")))


def diff(a, b, what):
    if a == b:
        return
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    raise Violation("%s differ at row %d: %s / %s (%d and %d rows)" % (what, k, a[k:k + 1], b[k:k + 1], len(a), len(b)))


def check_options(case, ctx):
    xml = gen.xml_of(case)
    ev = set(model.events_of(case["tree"]))
    s1, l1, v1 = run(case, xml, True, True, True)
    s2, l2, _ = run(case, xml, True, True, False)
    s3, _, _ = run(case, xml, True, False, True)
    _, l4, _ = run(case, xml, False, True, True)
    _, _, v5 = run(case, xml, False, False, False)
    full = parse(l1)
    if v1 is not None:
        raise Violation("run_simulation returns %r although files were asked for" % (v1,))
    diff([r for r in full if r[1] not in ev], parse(l2), "log without the rows of events, and log asked without events")
    diff(full, parse(l4), "logs with and without statistics")
    diff(parse(s1), parse(s2), "statistics with and without events in the log")
    diff(parse(s1), parse(s3), "statistics with and without log")
    # in memory
    info = v5[1]
    names = {r["id"]: r for p in case["scn"]["resource_profiles"] for r in p["resource_list"]}
    rname = {}
    for rid, r in names.items():
        n = int(r["amount"])
        for i in range(n):
            rname["%s_%d" % (rid, i) if n > 1 else rid] = "%s_%d" % (r["name"], i) if n > 1 else r["name"]
    if len(info.trace_list) != case["total"]:
        raise Violation("%d cases in memory, %d asked" % (len(info.trace_list), case["total"]))
    mem = []
    for t in info.trace_list:
        for e in t.event_list:
            mem.append((str(e.p_case), e.task_id, sim.secs(e.enabled_datetime), sim.secs(e.started_datetime),
                        sim.secs(e.completed_datetime), rname.get(e.resource_id, "No assigned resource")))
    with sim.Scratch() as d:
        p = os.path.join(d, "l.csv")
        open(p, "w", encoding="utf-8", newline="").write(l1)
        rows = [(r.case, r.act, r.enable, r.start, r.end, r.res) for r in sim.read_log(p)[1]]
    diff(sorted(mem), sorted(rows), "events of the result in memory and of the log")
    ctx.nontrivial = len(full) > 3
    if any(r[1] in ev for r in full):
        ctx.label("with-events")


# ---------------------------------------------------------------- buffered writer
def manager_cases():
    row = st.lists(st.one_of(TEXT, st.integers(-5, 5), st.floats(allow_nan=False, allow_infinity=False), st.just("")), min_size=6, max_size=9)
    ops = st.lists(st.one_of(row, row, row, st.just("flush")), max_size=40)
    return st.fixed_dictionaries({"chunk": st.integers(1, 8), "ops": ops, "cols": st.lists(TEXT | st.just("batch_id"), max_size=3),
                                  "on": st.integers(0, 5)})


def check_manager(case, ctx):
    buf = io.StringIO(newline="")
    w = csv.writer(buf) if case["on"] else None
    fm = sim.sut(FileManager, case["chunk"], w, list(case["cols"]))
    want = [BASIC + case["cols"]] if case["on"] else []
    pending = 0
    for op in case["ops"]:
        if op == "flush":
            sim.sut(fm.force_write)
            got = parse(buf.getvalue())
            if got != want:
                raise Violation("after writing out: %s, expected %s" % (got, want))
            pending = 0
        else:
            sim.sut(fm.add_csv_row, list(op))
            if case["on"]:
                want.append([str(x) for x in op])
            pending += 1
            if pending > 2 * case["chunk"]:
                ctx.label("several-chunks")
            # at any moment a prefix of the rows is in the file
            got = parse(buf.getvalue())
            if got != want[:len(got)]:
                raise Violation("the file contains %s, the rows given are %s" % (got[-2:], want[-2:]))
    sim.sut(fm.force_write)
    got = parse(buf.getvalue())
    if got != want:
        raise Violation("the file contains %s, expected %s" % (got, want))
    ctx.nontrivial = len(want) > case["chunk"]


# ---------------------------------------------------------------- logs around the size of the buffer
@st.composite
def large_cases(draw):
    target = draw(st.sampled_from([9999, 10000, 10001, 19999, 20000, 20001, 20002])) + draw(st.integers(-1, 1))
    k = draw(st.integers(1, 3))
    c = draw(gen.scenarios(model.TreeCfg(kinds=("task",), max_tasks=1, events=False), max_cases=1, cal=st.just(gen.FULL),
                           arrival_cal=st.just(gen.FULL), arrival=st.integers(20, 400), dur=st.integers(1, 300)))
    return dict(c, total=max(1, target // k), k=k)


def check_large(case, ctx):
    t = model.tasks_of(case["tree"])[0]
    k = case["k"]
    tree = {"k": "seq", "ch": [{"k": "task", "id": t + (str(i) if i else "")} for i in range(k)]}
    scn = json.loads(json.dumps(case["scn"]))
    td = [x for x in scn["task_resource_distribution"] if x["task_id"] == t][0]
    for i in range(1, k):
        scn["task_resource_distribution"].append(dict(td, task_id=t + str(i)))
        for p in scn["resource_profiles"]:
            for r in p["resource_list"]:
                if t in r["assignedTasks"]:
                    r["assignedTasks"].append(t + str(i))
    nodes, flows = model.to_graph(tree)
    res = sim.simulate(model.to_xml(nodes, flows), scn, case["total"], case["start"], case["seed"], case["tz"], stats=True)
    n = case["total"] * k
    if len(res.rows) != n:
        raise Violation("%d rows for %d cases of %d tasks" % (len(res.rows), case["total"], k))
    seen = sorted((int(r.case), r.act) for r in res.rows)
    want = sorted((i, t + (str(j) if j else "")) for i in range(case["total"]) for j in range(k))
    if seen != want:
        d = sorted(set(want) - set(seen)) or seen
        raise Violation("cases and activities of the log are not those simulated: %s" % (d[:3],))
    per = [r for r in parse(res.stats_text) if r and r[0] in {x[1] for x in want}]
    if sorted((r[0], int(r[1])) for r in per) != sorted({(a, case["total"]) for _, a in want}):
        raise Violation("counts of the statistics %s, %d cases" % ([r[:2] for r in per], case["total"]))
    ctx.nontrivial = n >= 10000


# ---------------------------------------------------------------- text
@st.composite
def text_cases(draw):
    c = draw(gen.scenarios(CFG, max_cases=3))
    el = model.tasks_of(c["tree"]) + model.events_of(c["tree"])
    ns = draw(st.lists(TEXT, min_size=len(el), max_size=len(el), unique=True))
    c["names"] = dict(zip(el, ns))
    ents = [r for p in c["scn"]["resource_profiles"] for r in p["resource_list"]]
    rn = draw(st.lists(TEXT.filter(lambda s: "_" not in s), min_size=len(ents), max_size=len(ents), unique=True))
    for e, n in zip(ents, rn):
        e["name"] = n
    cols = draw(st.lists(st.one_of(TEXT, st.sampled_from(["gender", "client_case", "Resource cost", "end_user", "start", "activity_type", "vendor"])),
                         max_size=3, unique=True).filter(lambda l: not set(l) & set(BASIC)))
    c["scn"]["case_attributes"] = [
        {"name": n, "type": "discrete",
         "values": [{"key": k, "value": p} for k, p in zip(draw(st.lists(TEXT, min_size=2, max_size=2, unique=True)), [0.5, 0.5])]} for n in cols]
    return c


def check_text(case, ctx):
    res = None
    nodes, flows = model.to_graph(case["tree"])
    xml = model.to_xml(nodes, flows, names=case["names"])
    stats, text, _ = run(case, xml, True, True, True)
    with sim.Scratch() as d:
        p = os.path.join(d, "log.csv")
        open(p, "w", encoding="utf-8", newline="").write(text)
        res = sim.Result()
        res.header, res.rows = sim.read_log(p)
        back = {n: e for e, n in case["names"].items()}
        names = {e: n for e, n in case["names"].items()}
        attrs = case["scn"]["case_attributes"]
        if sorted(res.header) != sorted(BASIC + [a["name"] for a in attrs]):
            raise Violation("columns %s, attributes %s" % (res.header, [a["name"] for a in attrs]))
        ok = {a["name"]: {v["key"] for v in a["values"]} for a in attrs}
        pernames = {n for x in gen.Info(case["scn"]).eligible.values() for n in x} | {"No assigned resource"}
        for r in res.rows:
            if r.act not in back:
                raise Violation("activity %r in the log, the model has %s" % (r.act, sorted(back)))
            if r.res not in pernames:
                raise Violation("resource %r in the log, the scenario has %s" % (r.res, sorted(pernames)))
            for k, v in r.attrs.items():
                if v not in ok[k]:
                    raise Violation("attribute %r is %r, not one of %s" % (k, v, sorted(ok[k])))
        # the project's own readers give back the same log
        rows = sorted((r.case, r.act, r.res, r.start, r.end) for r in res.rows)
        got = sorted((t.p_case, e.task_id, e.resource_id, sim.secs(e.started_at.to_pydatetime()), sim.secs(e.completed_at.to_pydatetime()))
                     for t in sim.sut(event_list_from_csv, p) for e in t.event_list)
        diff(got, rows, "log read by event_list_from_csv and log")
        off = {"+00:00": 0, "+02:00": 7200, "-05:00": -18000}[case["tz"]]
        want = sorted(x for r in res.rows for x in ((r.case, r.act, r.res, "start", r.start - off), (r.case, r.act, r.res, "complete", r.end - off)))
        tr = sim.sut(parse_csv, p)
        got = sorted((t.attributes["concept:name"], e["concept:name"], e["org:resource"], e["lifecycle:transition"],
                      sim.secs(e["time:timestamp"].to_pydatetime())) for t in tr for e in t)
        diff(got, want, "log read by parse_csv and log")
        for t in tr:
            ts = [e["time:timestamp"] for e in t]
            if ts != sorted(ts):
                raise Violation("events of case %s are not in order" % t.attributes["concept:name"])
        # statistics
        sp = os.path.join(d, "stats.csv")
        open(sp, "w", encoding="utf-8", newline="").write(stats)
        acts = {r.act for r in res.rows}
        in_stats = parse(stats)
        i = next(i for i, r in enumerate(in_stats) if r and r[0] == "Name")
        got_names = []
        for r in in_stats[i + 1:]:
            if len(r) < 2:
                break
            got_names.append(r[0])
        if not acts <= set(got_names) | {names[e] for e in model.events_of(case["tree"])}:
            raise Violation("activities of the statistics %s, of the log %s" % (got_names, sorted(acts)))
        sim.sut(load_diff_simulation_results, sp)
    ctx.nontrivial = len(res.rows) > 1
    if any(ch in n for n in case["names"].values() for ch in ',"'):
        ctx.label("quoted")


# ---------------------------------------------------------------- command line
@st.composite
def cli_cases(draw):
    c = draw(gen.scenarios(CFG, max_cases=3))
    c["stats"], c["log"] = draw(st.booleans()), draw(st.integers(0, 3)) > 0
    c["flag"] = draw(st.sampled_from([None, "True", "False", "true", "false"]))
    return c


def check_cli(case, ctx):
    from click.testing import CliRunner
    from cli.diff_res_bpsim import cli

    xml = gen.xml_of(case)
    events = case["flag"] in ("True", "true")
    want_s, want_l, _ = run(case, xml, case["stats"], case["log"], events)
    with sim.Scratch() as d:
        b, j = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        open(b, "w", encoding="utf-8").write(xml)
        json.dump(case["scn"], open(j, "w", encoding="utf-8"))
        args = ["start-simulation", "--bpmn_path", b, "--json_path", j, "--total_cases", str(case["total"]),
                "--starting_at", sim.iso(case["start"], case["tz"])]
        sp, lp = os.path.join(d, "st.csv"), os.path.join(d, "lg.csv")
        if case["stats"]:
            args += ["--stat_out_path", sp]
        if case["log"]:
            args += ["--log_out_path", lp]
        if case["flag"]:
            args += ["--is_event_added_to_log", case["flag"]]
        sim.seed_all(case["seed"])
        cwd = os.getcwd()
        os.chdir(d)
        try:
            out = CliRunner().invoke(cli, args)
        finally:
            os.chdir(cwd)
        if out.exit_code != 0:
            raise Violation("the command ends with %s: %r %s" % (out.exit_code, out.exception, out.output[-200:]))
        for path, want, what in ((sp, want_s, "statistics"), (lp, want_l, "log")):
            if os.path.exists(path) != (want is not None):
                raise Violation("%s file: %s, asked: %s" % (what, os.path.exists(path), want is not None))
            if want is not None:
                with open(path, encoding="utf-8", newline="") as f:
                    diff(parse(f.read()), parse(want), "%s of the command line (--is_event_added_to_log %s) and of run_simulation(events %s):" % (
                        what, case["flag"], events))
    ctx.nontrivial = bool(want_s or want_l)
    if case["flag"]:
        ctx.label(case["flag"])


PARTS = [
    Part("options", option_cases(), check_options, 700),
    Part("manager", manager_cases(), check_manager, 3000),
    Part("large", large_cases(), check_large, 8, 60),
    Part("text", text_cases(), check_text, 1000),
    Part("cli", cli_cases(), check_cli, 700),
]
RULE = (
    "options: one seed, the simulation run with log and statistics, without events, with only one of the files, and in memory; everything "
    "reported must agree. manager: random histories of the buffered writer against a list. large: logs with 9998 to 20003 rows. text: names "
    "and values with separators, quotes and letters of several scripts, read back directly and by the readers of the project. cli: the "
    "command line against the function it wraps. Non-trivial: several rows, or more rows than the buffer holds."
)
if __name__ == "__main__":
    runner.main("C13", PARTS, RULE)
