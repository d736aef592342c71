"""C22: equivalent ways of drawing and writing a process model are simulated alike."""
import _boot  # noqa: F401
import re
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop", "evgw"), events=True, max_tasks=8, max_depth=5)
# ties at event-based gateways are broken by system randomness, which no seed controls
NOTIES = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), events=True, max_tasks=8, max_depth=5)
# models with many spots for implicit gateways
DENSE = model.TreeCfg(kinds=("seq", "xor", "and", "or", "loop"), max_tasks=7, max_depth=4)
KINDS = ["and_split", "xor_join", "mixed", "end"]


@st.composite
def implicit_cases(draw, cfg, **kw):
    c = draw(gen.scenarios(cfg, max_cases=4, **kw))
    c["which"] = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4, unique=True))
    return c


def check_implicit(case, ctx):
    nodes, flows = model.to_graph(case["tree"])
    nodes, flows, done = model.contract(nodes, flows, case["which"])
    res = sim.simulate(model.to_xml(nodes, flows), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    oracle.case_runs(case, res, ctx)
    for d in done:
        ctx.label(d)
    ctx.nontrivial = bool(done) and len(res.rows) > 1


NAME = st.text(st.sampled_from("abAB 1_-,.;:'\"<>&/()äß漢"), min_size=1, max_size=8).map(str.strip).filter(bool)
EXTRA = ('<dataObjectReference id="D1" name="T1"/><textAnnotation id="N1"><text>note, "x"</text></textAnnotation>'
         '<association id="As1" sourceRef="N1" targetRef="Start"/>')


@st.composite
def notation_cases(draw, cfg=CFG):
    c = draw(gen.scenarios(cfg, max_cases=3))
    el = model.tasks_of(c["tree"]) + model.events_of(c["tree"])
    names = {}
    for e in el:
        k = draw(st.integers(0, 3))
        if k < 2:
            n = draw(NAME)
            if n not in names.values() and n not in el:
                names[e] = n
        elif k == 2:
            names[e] = ""
    c["names"] = names
    c["perm"] = draw(st.integers(0, 2**31 - 1))
    c["prefix"] = draw(st.sampled_from([None, "bpmn", "semantic"]))
    c["extra"] = draw(st.booleans())
    c["dir"] = draw(st.booleans())
    c["which"] = draw(st.lists(st.sampled_from(KINDS), max_size=4, unique=True))
    c["kinds"] = {e: draw(st.sampled_from(["timer", "message", "signal"])) for e in model.events_of(c["tree"])}
    return c


def render(case):
    import random

    nodes, flows = model.to_graph(case["tree"])
    nodes, flows, done = model.contract(nodes, flows, case["which"])

    def order(n):
        idx = list(range(n))
        if case["perm"] is None:
            return idx
        random.Random(case["perm"]).shuffle(idx)
        return idx

    xml = model.to_xml(nodes, flows, names=case["names"], order=order, event_kind=case["kinds"])
    if case["extra"]:
        xml = xml.replace("</process>", EXTRA + "</process>")
    if case["dir"]:  # what editors write besides
        xml = xml.replace('Gateway id="', 'Gateway gatewayDirection="Unspecified" id="').replace('<task id="', '<task completionQuantity="1" id="')
    if case["prefix"]:
        p = case["prefix"]
        xml = re.sub(r"<(/?)([a-zA-Z])", r"<\1%s:\2" % p, xml).replace("xmlns=", "xmlns:%s=" % p)
    return xml


def check_notation(case, ctx):
    res = sim.simulate(render(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    back = {case["names"].get(e) or e: e for e in model.tasks_of(case["tree"]) + model.events_of(case["tree"])}
    for r in res.rows:
        if r.act not in back:
            raise Violation("activity %r in the log, the names of the model are %s" % (r.act, sorted(back)))
        r.act = back[r.act]
    oracle.case_runs(case, res, ctx)
    ctx.nontrivial = len(res.rows) > 1 and (bool(case["names"]) or bool(case["prefix"]))
    if case["prefix"]:
        ctx.label("prefix")


@st.composite
def alike_cases(draw):
    c = draw(notation_cases(NOTIES))
    c["which"], c["perm"] = [], None
    return c


def check_alike(case, ctx):
    """the same elements in the same order under other names and notation: the very same simulation"""
    plain = dict(case, names={}, prefix=None, extra=False, dir=False, kinds=None)
    a = sim.simulate(render(plain), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    b = sim.simulate(render(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    back = {case["names"].get(e) or e: e for e in model.tasks_of(case["tree"]) + model.events_of(case["tree"])}
    ra = [(r.case, r.act, r.enable, r.start, r.end, r.res) for r in a.rows]
    rb = [(r.case, back.get(r.act, r.act), r.enable, r.start, r.end, r.res) for r in b.rows]
    if ra != rb:
        k = next((i for i, (x, y) in enumerate(zip(ra, rb)) if x != y), min(len(ra), len(rb)))
        raise Violation("row %d differs: %s with plain names, %s with names %s, prefix %s" % (
            k, ra[k:k + 1], rb[k:k + 1], case["names"], case["prefix"]))
    ctx.nontrivial = len(ra) > 1 and any(case["names"].values())


PARTS = [
    Part("alike", alike_cases(), check_alike, 1500),
    Part("implicit", implicit_cases(CFG), check_implicit, 3000),
    Part("implicit-dense", implicit_cases(DENSE), check_implicit, 3000),
    Part("notation", notation_cases(), check_notation, 2500),
]
RULE = (
    "implicit: gateways of a random block-structured model are replaced by equivalent implicit forms (a task with several outgoing flows "
    "for an AND split, a task with several incoming flows for an XOR join, one gateway that joins and splits, an end event with several "
    "incoming flows); every logged case must be a complete run of the original. notation: the same model with shuffled elements, other "
    "names (special characters, none), namespace prefixes and unrelated elements. alike: with the elements left in place, "
    "the log must be the very same apart from the names. Non-trivial: something was replaced and executed."
)
if __name__ == "__main__":
    runner.main("C22", PARTS, RULE)
