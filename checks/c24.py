"""C24: a terminate end event ends its case at once, and only its case."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import gen, model, runner, sim
from pbt.cal import FULL
from pbt.runner import Part, Violation

TOL = 0.002


def dist(draw):
    a = draw(st.integers(1, 5000))
    if draw(st.booleans()):
        return gen.fix(a)
    return {"distribution_name": "uniform", "distribution_params": [{"value": a}, {"value": a + draw(st.integers(1, 5000))}]}


@st.composite
def cases(draw):
    cnt = {"T": 0, "E": 0, "G": 0}

    def new(k):
        cnt[k] += 1
        return "%s%d" % (k, cnt[k])

    def steps(lo, hi):
        """a step: one of several activities or events"""
        return [[new(draw(st.sampled_from("TTTE"))) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))] for _ in range(draw(st.integers(lo, hi)))]

    def fork(depth):
        return {"g": new("G"), "kind": draw(st.sampled_from(["and", "and", "or"])),
                "br": [node(depth + 1) for _ in range(draw(st.integers(2, 3)))]}

    def node(depth):
        return {"steps": steps(1, 3), "next": fork(depth) if depth < 2 and draw(st.integers(0, 3)) == 0 else None}
    tree = {"steps": steps(0, 1), "next": fork(0)}
    ids = ["T%d" % (i + 1) for i in range(cnt["T"])]
    levels = draw(st.sampled_from([None, None, "attributes"]))
    return {"tree": tree, "durations": {t: dist(draw) for t in ids}, "events": {"E%d" % (i + 1): dist(draw) for i in range(cnt["E"])},
            "resources": {t: draw(st.integers(0, 1)) for t in ids}, "amounts": [draw(st.integers(1, 6)) for _ in range(2)],
            "levels": levels, "terminate": draw(st.integers(0, 3)) > 0, "implicit": draw(st.booleans()), "n": draw(st.integers(1, 4)), "gap": draw(st.integers(1, 4000)),
            "seed": draw(st.integers(0, 10 ** 6))}


def graph(tree, implicit):
    """all the ends of the branches lead to the end event, directly or merged by one XOR gateway"""
    nodes, flows, probs = {"Start": "startEvent", "End": "endEvent"}, {}, []
    last = "End" if implicit else "X"
    if not implicit:
        nodes["X"] = "exclusiveGateway"
        flows["X_End"] = ["X", "End"]

    def flow(a, b):
        f = "%s_%s" % (a, b)
        flows[f] = [a, b]
        return f

    def build(node, at):
        for k, alt in enumerate(node["steps"]):
            for a in alt:
                nodes[a] = "task" if a[0] == "T" else "intermediateCatchEvent"
            if len(alt) == 1:
                flow(at, alt[0])
                at = alt[0]
                continue
            s, j = "S" + alt[0], "J" + alt[0]
            nodes[s] = nodes[j] = "exclusiveGateway"
            flow(at, s)
            probs.append({"gateway_id": s, "probabilities": [{"path_id": flow(s, a), "value": str(1 / len(alt))} for a in alt]})
            for a in alt:
                flow(a, j)
            at = j
        fork = node["next"]
        if fork is None:
            flow(at, last)
            return
        nodes[fork["g"]] = "parallelGateway" if fork["kind"] == "and" else "inclusiveGateway"
        flow(at, fork["g"])
        first = []
        for b in fork["br"]:
            before = set(flows)
            build(b, fork["g"])
            first.append(next(f for f in flows if f not in before and flows[f][0] == fork["g"]))
        if fork["kind"] == "or":
            probs.append({"gateway_id": fork["g"], "probabilities": [{"path_id": f, "value": "0.6"} for f in first]})
    build(tree, "Start")
    return nodes, flows, probs


def scenario(case, probs):
    scn = {
        "resource_profiles": [{"id": "p", "name": "p", "resource_list": [{
            "id": "r%d" % i, "name": "r%d" % i, "cost_per_hour": "1", "amount": k, "calendar": "c",
            "assignedTasks": [t for t, r in case["resources"].items() if r == i]} for i, k in enumerate(case["amounts"])]}],
        "resource_calendars": [{"id": "c", "name": "c", "time_periods": FULL}],
        "arrival_time_distribution": gen.fix(case["gap"]), "arrival_time_calendar": FULL,
        "gateway_branching_probabilities": probs, "event_distribution": [dict(event_id=e, **d) for e, d in case["events"].items()],
        "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id="r%d" % case["resources"][t], **d)]} for t, d in case["durations"].items()],
    }
    if case["levels"]:
        scn["case_attributes"] = [{"name": "kind", "type": "discrete", "values": [{"key": "a", "value": 0.5}, {"key": "b", "value": 0.5}]}]
        scn["prioritisation_rules"] = [{"priority_level": 1, "rules": [[{"attribute": "kind", "comparison": "=", "value": "a"}]]}]
    return scn


def check(case, ctx):
    nodes, flows, probs = graph(case["tree"], case["implicit"])
    xml = model.to_xml(nodes, flows, event_kind={"End": "terminate"} if case["terminate"] else {})
    res = sim.simulate(xml, scenario(case, probs), case["n"], 0, case["seed"])
    per = sim.by_case(res.rows)
    if set(per) != {str(i) for i in range(case["n"])}:
        raise Violation("cases in the log: %s, expected %d" % (sorted(per), case["n"]))
    for cid, rows in per.items():
        acts = {}
        for r in rows:
            if r.act in acts:
                raise Violation("case %s executes %s twice" % (cid, r.act))
            acts[r.act] = r
        ends, open_, used = [], [], set()

        def walk(node, t, name):
            """follows one path; t: when it starts"""
            for alt in node["steps"]:
                got = [a for a in alt if a in acts]
                if len(got) > 1:
                    raise Violation("case %s takes several of the alternatives %s" % (cid, alt))
                if not got:
                    open_.append((t, alt))
                    return
                r = acts[got[0]]
                if t is not None and abs(r.enable - t) > TOL:
                    raise Violation("case %s: %r should be enabled at %s" % (cid, r, sim.when(t)))
                used.add(r.act)
                t = r.end
            fork = node["next"]
            if fork is None:
                ends.append(t)
                return
            taken = 0
            for b in fork["br"]:
                if any(a in acts for a in b["steps"][0]):
                    taken += 1
                    walk(b, t, name)
                elif fork["kind"] == "and":
                    open_.append((t, b["steps"][0]))
            if not taken and fork["kind"] == "or":
                open_.append((t, ["a branch of " + fork["g"]]))
        walk(case["tree"], min(r.enable for r in rows), "")
        if used != set(acts):
            raise Violation("case %s executes %s, which nothing enables" % (cid, sorted(set(acts) - used)))
        if not ends:
            raise Violation("case %s stops although no branch reached the end; waiting: %s" % (cid, open_))
        if not case["terminate"]:
            if open_:
                raise Violation("case %s stops before %s (the end event does not terminate)" % (cid, open_))
            continue
        over = min(ends)
        for r in rows:
            if r.enable > over + TOL:
                raise Violation("case %s was terminated at %s, but then %r was enabled" % (cid, sim.when(over), r))
        for t, alt in open_:
            if t < over - TOL:
                raise Violation("case %s: %s was enabled at %s, before the case was terminated at %s, but not executed" % (cid, alt, sim.when(t), sim.when(over)))
        if open_:
            ctx.nontrivial = True
            ctx.label("cut-off")
        if any(r.end > over + TOL for r in rows):
            ctx.label("still-running")
    ctx.label("terminate" if case["terminate"] else "plain")


PARTS = [Part("terminate", cases(), check, 3000)]
RULE = (
    "Random models whose parallel or inclusive branches (sequences of activities, events and choices, up to two levels) lead, directly or merged by an XOR gateway, to a terminate (or plain) end event: "
    "the first branch to arrive ends the case. Every row of the log is matched with the branches. Non-trivial: a branch was cut off."
)
if __name__ == "__main__":
    runner.main("C24", PARTS, RULE)
