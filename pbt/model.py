"""Block-structured BPMN models: generation, rendering to BPMN XML, and an independent
run-membership oracle (does a timed set of executed elements form one complete run?).

Tree nodes (plain JSON):
  {"k":"task","id":..}                         activity
  {"k":"ev","id":..}                           intermediate catch event
  {"k":"skip"}                                 nothing (a direct sequence flow)
  {"k":"seq","ch":[node,..]}
  {"k":"xor"|"and"|"or","id":..,"br":[node,..]}
  {"k":"loop","id":..,"body":node,"redo":node} xor-join, body, xor-split (exit / back via redo)
  {"k":"evgw","id":..,"br":[[event-id,node],..]} event-based gateway
"""
from . import env  # noqa: F401
from hypothesis import strategies as st

NS = "http://www.omg.org/spec/BPMN/20100524/MODEL"


# --------------------------------------------------------------------------- generation
class TreeCfg:
    def __init__(self, kinds=("task", "seq", "xor", "and", "or", "loop"), max_tasks=7, max_depth=4, events=False,
                 silent=True, max_branches=3, min_tasks=1, or_in_loop_and=True):
        self.kinds = kinds
        self.max_tasks = max_tasks
        self.max_depth = max_depth
        self.events = events
        self.silent = silent
        self.max_branches = max_branches
        self.min_tasks = min_tasks
        self.or_in_loop_and = or_in_loop_and


@st.composite
def trees(draw, cfg):
    cnt = {"task": 0, "ev": 0, "gw": 0}

    def leaf():
        if cfg.events and cnt["ev"] < 3 and draw(st.integers(0, 4)) == 0:
            cnt["ev"] += 1
            return {"k": "ev", "id": "Ev%d" % cnt["ev"]}
        cnt["task"] += 1
        return {"k": "task", "id": "T%d" % cnt["task"]}

    def gid(prefix):
        cnt["gw"] += 1
        return "%s%d" % (prefix, cnt["gw"])

    def branch(depth, may_skip, loop, and_in_loop):
        if may_skip and cfg.silent and draw(st.integers(0, 4)) == 0:
            return {"k": "skip"}
        return node(depth, loop, and_in_loop)

    def node(depth, loop=False, and_in_loop=False):
        if depth >= cfg.max_depth or cnt["task"] >= cfg.max_tasks:
            return leaf()
        kinds = list(cfg.kinds)
        if and_in_loop and not cfg.or_in_loop_and:
            kinds = [k for k in kinds if k != "or"]
        k = draw(st.sampled_from(kinds))
        if k == "task":
            return leaf()
        if k == "seq":
            n = draw(st.integers(2, 3))
            return {"k": "seq", "ch": [node(depth + 1, loop, and_in_loop) for _ in range(n)]}
        if k in ("xor", "and", "or"):
            g = gid({"xor": "X", "and": "A", "or": "O"}[k])
            n = draw(st.integers(2, cfg.max_branches))
            skipped = False
            br = []
            for _ in range(n):
                b = branch(depth + 1, not skipped, loop, and_in_loop or (loop and k in ("and", "or")))
                skipped = skipped or b["k"] == "skip"
                br.append(b)
            return {"k": k, "id": g, "br": br}
        if k == "loop":
            g = gid("L")
            # the body never is silent: it starts with a leaf
            first = leaf()
            rest = branch(depth + 1, True, True, and_in_loop)
            body = first if rest["k"] == "skip" else {"k": "seq", "ch": [first, rest]}
            redo = branch(depth + 1, True, True, and_in_loop)
            return {"k": "loop", "id": g, "body": body, "redo": redo}
        if k == "evgw":
            g = gid("V")
            n = draw(st.integers(2, cfg.max_branches))
            br = []
            for _ in range(n):
                cnt["ev"] += 1
                e = "Ev%d" % cnt["ev"]
                br.append([e, branch(depth + 1, True, loop, and_in_loop)])
            return {"k": "evgw", "id": g, "br": br}
        raise AssertionError(k)

    t = node(0)
    seqs = [t]
    while cnt["task"] < cfg.min_tasks:
        seqs.append(leaf())
    return {"k": "seq", "ch": seqs} if len(seqs) > 1 else t


def walk(node):
    yield node
    k = node["k"]
    if k == "seq":
        for c in node["ch"]:
            yield from walk(c)
    elif k in ("xor", "and", "or"):
        for c in node["br"]:
            yield from walk(c)
    elif k == "loop":
        yield from walk(node["body"])
        yield from walk(node["redo"])
    elif k == "evgw":
        for _, c in node["br"]:
            yield from walk(c)


def tasks_of(tree):
    return [n["id"] for n in walk(tree) if n["k"] == "task"]


def events_of(tree):
    out = [n["id"] for n in walk(tree) if n["k"] == "ev"]
    for n in walk(tree):
        if n["k"] == "evgw":
            out += [b[0] for b in n["br"]]
    return out


def kinds_of(tree):
    return {n["k"] for n in walk(tree)}


def splits_of(tree):
    """Decision gateways: id -> (kind, [flow ids])."""
    out = {}
    for n in walk(tree):
        if n["k"] in ("xor", "or"):
            out[n["id"] + "_s"] = (n["k"], ["%s_b%d" % (n["id"], i) for i in range(len(n["br"]))])
        elif n["k"] == "loop":
            out[n["id"] + "_s"] = ("loop", [n["id"] + "_exit", n["id"] + "_back"])
    return out


# --------------------------------------------------------------------------- rendering
def to_graph(tree, end_type=None):
    """-> (nodes: {id: (xml tag, extra)}, flows: {id: [src, dst]})"""
    nodes = {"Start": "startEvent", "End": "endEvent"}
    flows = {}
    n_flow = [0]

    def flow(src, dst, fid=None):
        if fid is None:
            n_flow[0] += 1
            fid = "f%d" % n_flow[0]
        flows[fid] = [src, dst]

    # build(node, entry) -> exit.  A "port" is (element id, flow id to use or None)
    def connect(port, target):
        flow(port[0], target, port[1])

    def build(node, port):
        k = node["k"]
        if k == "skip":
            return port
        if k == "task":
            nodes[node["id"]] = "task"
            connect(port, node["id"])
            return (node["id"], None)
        if k == "ev":
            nodes[node["id"]] = "intermediateCatchEvent"
            connect(port, node["id"])
            return (node["id"], None)
        if k == "seq":
            for c in node["ch"]:
                port = build(c, port)
            return port
        if k in ("xor", "and", "or"):
            tag = {"xor": "exclusiveGateway", "and": "parallelGateway", "or": "inclusiveGateway"}[k]
            s, j = node["id"] + "_s", node["id"] + "_j"
            nodes[s] = tag
            nodes[j] = tag
            connect(port, s)
            for i, c in enumerate(node["br"]):
                connect(build(c, (s, "%s_b%d" % (node["id"], i))), j)
            return (j, None)
        if k == "loop":
            s, j = node["id"] + "_s", node["id"] + "_j"
            nodes[j] = "exclusiveGateway"
            nodes[s] = "exclusiveGateway"
            connect(port, j)
            p = build(node["body"], (j, None))
            connect(p, s)
            connect(build(node["redo"], (s, node["id"] + "_back")), j)
            return (s, node["id"] + "_exit")
        if k == "evgw":
            s, j = node["id"] + "_s", node["id"] + "_j"
            nodes[s] = "eventBasedGateway"
            nodes[j] = "exclusiveGateway"
            connect(port, s)
            for i, (e, c) in enumerate(node["br"]):
                nodes[e] = "intermediateCatchEvent"
                flow(s, e, "%s_b%d" % (node["id"], i))
                connect(build(c, (e, None)), j)
            return (j, None)
        raise AssertionError(k)

    connect(build(tree, ("Start", None)), "End")
    return nodes, flows


def contract(nodes, flows, which):
    """Replace explicit gateways by the implicit / mixed forms that mean the same."""
    nodes, flows = dict(nodes), {k: list(v) for k, v in flows.items()}
    ins = lambda n: [f for f, (s, d) in flows.items() if d == n]
    outs = lambda n: [f for f, (s, d) in flows.items() if s == n]
    done = set()
    if "and_split" in which:  # task or event followed by an AND split -> task with several outgoing flows
        for g in [n for n, t in nodes.items() if t == "parallelGateway"]:
            i, o = ins(g), outs(g)
            if len(i) == 1 and len(o) > 1 and nodes[flows[i[0]][0]] in ("task", "intermediateCatchEvent", "startEvent"):
                t = flows[i[0]][0]
                for f in o:
                    flows[f][0] = t
                del flows[i[0]], nodes[g]
                done.add("and_split")
    if "xor_join" in which:  # XOR join followed by a task or event -> task with several incoming flows
        for g in [n for n, t in nodes.items() if t == "exclusiveGateway"]:
            i, o = ins(g), outs(g)
            if len(i) > 1 and len(o) == 1 and nodes[flows[o[0]][1]] in ("task", "intermediateCatchEvent"):
                t = flows[o[0]][1]
                for f in i:
                    flows[f][1] = t
                del flows[o[0]], nodes[g]
                done.add("xor_join")
    if "mixed" in which:  # a join directly followed by a split of the same kind -> one gateway
        for g in [n for n, t in nodes.items() if t in ("exclusiveGateway", "parallelGateway", "inclusiveGateway")]:
            if g not in nodes:
                continue
            i, o = ins(g), outs(g)
            if len(i) > 1 and len(o) == 1:
                d = flows[o[0]][1]
                if nodes[d] == nodes[g] and len(outs(d)) > 1 and len(ins(d)) == 1:
                    for f in i:
                        flows[f][1] = d
                    del flows[o[0]], nodes[g]
                    done.add("mixed")
    if "end" in which:  # join directly before the end event -> end event with several incoming flows
        i = ins("End")
        if len(i) == 1:
            g = flows[i[0]][0]
            if nodes[g] in ("exclusiveGateway", "parallelGateway", "inclusiveGateway") and len(ins(g)) > 1 and len(outs(g)) == 1:
                for f in ins(g):
                    flows[f][1] = "End"
                del flows[i[0]], nodes[g]
                done.add("end")
    return nodes, flows, done


def to_xml(nodes, flows, names=None, order=None, defaults=None, extra=None, event_kind=None):
    """order: optional function sorting the element/flow lists (metamorphic element order)."""
    from xml.sax.saxutils import quoteattr

    names = names or {}
    defaults = defaults or {}
    event_kind = event_kind or {}
    items = []
    for n, tag in nodes.items():
        attrs = 'id=%s name=%s' % (quoteattr(n), quoteattr(names.get(n, n)))
        if n in defaults:
            attrs += " default=%s" % quoteattr(defaults[n])
        inner = "".join("<incoming>%s</incoming>" % f for f, (s, d) in flows.items() if d == n)
        inner += "".join("<outgoing>%s</outgoing>" % f for f, (s, d) in flows.items() if s == n)
        if tag == "intermediateCatchEvent":
            inner += "<%sEventDefinition/>" % event_kind.get(n, "timer")
        elif tag == "endEvent" and event_kind.get(n):
            inner += "<%sEventDefinition/>" % event_kind[n]
        items.append("<%s %s>%s</%s>" % (tag, attrs, inner, tag))
    for f, (s, d) in flows.items():
        items.append('<sequenceFlow id=%s sourceRef=%s targetRef=%s/>' % (quoteattr(f), quoteattr(s), quoteattr(d)))
    if order is not None:
        items = [items[i] for i in order(len(items))]
    return (
        '<?xml version="1.0" encoding="UTF-8"?>\n<definitions xmlns="%s" id="D" targetNamespace="x">'
        '<process id="P" isExecutable="false">%s</process></definitions>' % (NS, "\n".join(items))
    )


# --------------------------------------------------------------------------- membership oracle
TOL = 0.002


class NoParse(Exception):
    pass


def parse_run(tree, t0, inst, limit=20000):
    """Is `inst` (element id -> sorted list of (enable, start, end)) exactly one complete run of
    `tree` whose control-flow token arrives at t0, where every element is enabled at the moment
    its token arrives (AND/OR joins: the last branch)?

    Returns (end_time, decisions, ambiguous).  decisions: list of (gateway, [branch indexes], time).
    Raises NoParse.  Enumerates alternatives lazily; elements are unique in the tree.
    """
    inst = {k: sorted(v) for k, v in inst.items()}
    steps = [0]

    def leaf(eid, t, used):
        steps[0] += 1
        if steps[0] > limit:
            raise OverflowError("parse limit")
        i = used.get(eid, 0)
        rows = inst.get(eid, ())
        if i < len(rows) and abs(rows[i][0] - t) <= TOL:
            u = dict(used)
            u[eid] = i + 1
            yield rows[i][2], u, ()

    def par(children, t, used, end, dec):
        """All children start at t; yields (max end, used, decisions)."""
        if not children:
            yield end, used, dec
            return
        for e, u, d in go(children[0], t, used):
            yield from par(children[1:], t, u, max(end, e), dec + d)

    def go(node, t, used):
        steps[0] += 1
        if steps[0] > limit:
            raise OverflowError("parse limit")
        k = node["k"]
        if k == "skip":
            yield t, used, ()
        elif k in ("task", "ev"):
            yield from leaf(node["id"], t, used)
        elif k == "seq":
            yield from seq(node["ch"], t, used, ())
        elif k == "xor":
            for i, c in enumerate(node["br"]):
                for e, u, d in go(c, t, used):
                    yield e, u, ((node["id"] + "_s", (i,), t),) + d
        elif k == "and":
            yield from par(node["br"], t, used, t, ())
        elif k == "or":
            n = len(node["br"])
            for mask in range((1 << n) - 1, 0, -1):
                sel = [i for i in range(n) if mask >> i & 1]
                for e, u, d in par([node["br"][i] for i in sel], t, used, t, ()):
                    yield e, u, ((node["id"] + "_s", tuple(sel), t),) + d
        elif k == "loop":
            for e, u, d in go(node["body"], t, used):
                # prefer another round
                for e2, u2, d2 in go(node["redo"], e, u):
                    for e3, u3, d3 in go(node, e2, u2):
                        yield e3, u3, d + ((node["id"] + "_s", (1,), e),) + d2 + d3
                yield e, u, d + ((node["id"] + "_s", (0,), e),)
        elif k == "evgw":
            for i, (ev, c) in enumerate(node["br"]):
                for e, u, d in leaf(ev, t, used):
                    for e2, u2, d2 in go(c, e, u):
                        yield e2, u2, ((node["id"] + "_s", (i,), t),) + d + d2
        else:
            raise AssertionError(k)

    def seq(ch, t, used, dec):
        if not ch:
            yield t, used, dec
            return
        for e, u, d in go(ch[0], t, used):
            yield from seq(ch[1:], e, u, dec + d)

    total = {k: len(v) for k, v in inst.items() if v}
    found = None
    ambiguous = False
    for e, u, d in go(tree, t0, {}):
        if u == total:
            if found is None:
                found = (e, list(d))
            elif list(d) != found[1]:
                ambiguous = True
                break
    if found is None:
        raise NoParse()
    return found[0], found[1], ambiguous
