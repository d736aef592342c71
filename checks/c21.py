"""C21: the limit of the executions of a gateway, and the warnings about what a simulation did."""
import _boot  # noqa: F401
import re
from collections import Counter
import c02
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

SEQ = model.TreeCfg(kinds=("task", "seq", "xor", "loop", "loop"), events=False, silent=False)
PAR = model.TreeCfg(kinds=("task", "seq", "xor", "loop", "and", "or", "loop"), events=False, silent=False)
ALL = [model.TreeCfg(kinds=("task", "seq", "xor", "and", "loop", "or", "evgw"), events=True),
       model.TreeCfg(kinds=("task", "seq", "xor", "or"), events=False, max_tasks=4),
       model.TreeCfg(kinds=("task", "seq", "xor", "loop", "and"), events=False)]
LOOP = re.compile(r"Infinite loop was detected in case #(\d+) on element (\S+?)\. Case has been terminated$")
USE = re.compile(r"(?:Flow (?P<flow>\S+) from )?(?P<type>\S+) '(?P<name>.*)' \(ID: (?P<id>\S+)\) is used (?P<how>less frequently, only|more frequently than expected,) in "
                 r"(?P<n>\d+) out of (?P<total>\d+) cases \((?P<pct>[\d.]+)%\)\.$")


def warnings_of(r):
    """-> ({case: [gateways]}, [usage warnings])"""
    loops, use = {}, []
    for w in r.warnings or []:
        m = LOOP.match(w)
        if m:
            loops.setdefault(m.group(1), []).append(m.group(2))
            continue
        m = USE.match(w)
        if not m:
            raise Violation("unexpected warning: %s" % w)
        use.append(m.groupdict())
    return loops, use


# ---------------------------------------------------------------- the limit
@st.composite
def limits(draw, cfg):
    c = draw(gen.scenarios(cfg, max_cases=5, cal=st.just(gen.FULL), max_pools=2,
                           probs=lambda t: gen.gateway_probs(t, loop_max=draw(st.sampled_from([60, 100, 100])))))
    lim = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12, 20, 50]))
    loops = [n for n in model.walk(c["tree"]) if n["k"] == "loop"]
    endless = len(loops) == 1 and draw(st.integers(0, 9)) == 0
    if endless:  # the default limit
        c["total"] = min(2, c["total"])
        lim = None
    else:
        c["scn"]["gateway_execution_limit"] = lim
    if draw(st.booleans()) or endless:
        for g in c["scn"]["gateway_branching_probabilities"]:
            if g["gateway_id"].startswith("L") and (endless or draw(st.booleans())):
                g["probabilities"] = [dict(p, value="1" if p["path_id"].endswith("_back") else "0") for p in g["probabilities"]]
    c["limit"] = lim
    return c


def walker(tree):
    """next(node, target): the gateways on the only way from an element to a task (or the end) without other tasks"""
    nodes, flows = model.to_graph(tree)
    outs = {}
    for f, (s, d) in flows.items():
        outs.setdefault(s, []).append(d)
    memo = {}

    def ways(src):
        if src not in memo:
            memo[src] = res = {}
            stack = [(d, ()) for d in outs.get(src, [])]
            while stack:
                n, via = stack.pop()
                if nodes[n] in ("task", "endEvent"):
                    res.setdefault(n, []).append(via)
                elif n not in via:
                    stack += [(d, via + (n,)) for d in outs[n]]
        return memo[src]

    return ways, {n for n in nodes if len(outs.get(n, [])) > 1}


def check_limit(c, ctx):
    lim = c["limit"] or 1000
    r = sim.simulate(gen.xml_of(c), c["scn"], c["total"], c["start"], c["seed"], c["tz"], add_events=False)
    loops, _ = warnings_of(r)
    per = sim.by_case(r.rows)
    ids = {str(i) for i in range(c["total"])}
    if not set(per) <= ids or not set(loops) <= ids:
        raise Violation("simulated %d cases, found %s and %s" % (c["total"], sorted(per), sorted(loops)))
    ways, splits = walker(c["tree"])
    for case in sorted(ids):
        rows = sorted(per.get(case, []), key=lambda x: (x.enable, x.end))
        ended = loops.get(case, [])
        if len(ended) > 1:
            raise Violation("case %s ended more than once: %s" % (case, ended))
        n = Counter()
        at, t = "Start", None
        for x in rows:
            w = ways(at).get(x.act, [])
            if len(w) != 1 or (t is not None and abs(x.enable - t) > 1e-3):
                raise Violation("case %s: %s cannot follow %s (%s)" % (case, x, at, rows))
            n.update(g for g in w[0] if g in splits)
            at, t = x.act, x.end
        if any(v > lim for v in n.values()):
            raise Violation("case %s: gateways executed more than %d times: %s" % (case, lim, dict(n)))
        if not ended:
            w = ways(at).get("End", [])
            if len(w) != 1:
                raise Violation("case %s stops after %s, without a warning" % (case, at))
            n.update(g for g in w[0] if g in splits)
            if any(v > lim for v in n.values()):
                raise Violation("case %s: gateways executed more than %d times, without a warning: %s" % (case, lim, dict(n)))
            continue
        ctx.label("ended")
        ctx.nontrivial = True
        g = ended[0]
        # the gateway is reached from the last task, and its executions are used up
        ok = False
        for via in [v for l in ways(at).values() for v in l]:
            if g in via:
                m = Counter(n)
                m.update(x for x in via[:via.index(g)] if x in splits)
                ok = ok or (m[g] == lim and all(v <= lim for v in m.values()))
        if not ok:
            raise Violation("case %s was ended at %s after %s: executions so far %s, the limit is %d" % (case, g, at, dict(n), lim))


def bounds(tree, lim):
    out = {}

    def go(n, m):
        k = n["k"]
        if k == "task":
            out[n["id"]] = m
        elif k == "seq":
            for x in n["ch"]:
                m = go(x, m)
        elif k == "loop":
            go(n["body"], m + lim)
            go(n["redo"], lim)
            return min(m, lim)
        elif k != "skip":
            for x in n["br"]:
                go(x, min(m, lim))
            return min(m, lim)
        return m

    go(tree, 1)
    return out


def check_parallel(c, ctx):
    lim = c["limit"] or 1000
    r = sim.simulate(gen.xml_of(c), c["scn"], c["total"], c["start"], c["seed"], c["tz"], add_events=False)
    loops, _ = warnings_of(r)
    per = sim.by_case(r.rows)
    most = bounds(c["tree"], lim)
    sp = model.splits_of(c["tree"])
    allsplits = set(sp) | {n["id"] + "_s" for n in model.walk(c["tree"]) if n["k"] == "and"}
    for i in range(c["total"]):
        rows = per.get(str(i), [])
        n = Counter(x.act for x in rows)
        bad = {t: v for t, v in n.items() if v > most.get(t, 0)}
        if bad:
            raise Violation("case %d: executed %s, but the limit of %d executions of the gateways allows %s" % (i, bad, lim, {t: most.get(t) for t in bad}))
        if str(i) in loops:
            ctx.label("ended")
            ctx.nontrivial = True
            if not set(loops[str(i)]) <= allsplits:
                raise Violation("case %d was ended at %s" % (i, loops[str(i)]))
            continue
        try:
            _, dec, amb = model.parse_run(c["tree"], min((x.enable for x in rows), default=0.0), oracle.group_instances(rows))
        except model.NoParse:
            raise Violation("case %d is not a complete run, but there is no warning: %s" % (i, sorted(rows, key=lambda x: x.enable)))
        except (OverflowError, RecursionError):
            ctx.label("parse-limit")
            continue
        g = Counter(d[0] for d in dec)
        if not amb and any(v > lim for v in g.values()):
            raise Violation("case %d: gateways executed more than %d times: %s" % (i, lim, dict(g)))
        ctx.nontrivial = ctx.nontrivial or any(v == lim for v in g.values())


# ---------------------------------------------------------------- how often everything was used
@st.composite
def uses(draw, rare):
    cfg = model.TreeCfg(kinds=("seq", "xor", "or", "xor", "and"), events=False, max_tasks=4, max_depth=2) if rare else ALL[draw(st.integers(0, len(ALL) - 1))]
    c = draw(gen.scenarios(cfg, max_cases=6, cal=st.just(gen.FULL)))
    if rare:
        c["total"] = draw(st.integers(101, 199))
        for g in c["scn"]["gateway_branching_probabilities"]:  # rare branches
            if not g["gateway_id"].startswith("L") and draw(st.integers(0, 4)):
                p = g["probabilities"]
                k = draw(st.integers(0, len(p) - 1))
                for i in range(len(p)):
                    p[i]["value"] = repr(round(0.008 if i != k else 1 - 0.008 * (len(p) - 1), 6))
    style = draw(st.sampled_from(["%s", "the %s", "%s's (x)", "is used %s"]))
    c["names"] = {e: style % e for e in ["Start", "End"] + model.tasks_of(c["tree"]) + model.events_of(c["tree"])}
    return c


def expected_uses(tree, total, dec, rows):
    """how often each element and each flow is used"""
    n = {"Start": total, "End": total}

    def go(node, m):
        k = node["k"]
        if k in ("task", "ev"):
            n[node["id"]] = m
        elif k == "seq":
            for x in node["ch"]:
                go(x, m)
        elif k == "loop":
            b = dec[node["id"] + "_back"]
            n[node["id"] + "_j"] = n[node["id"] + "_s"] = m + b
            go(node["body"], m + b)
            go(node["redo"], b)
        elif k != "skip":
            n[node["id"] + "_s"] = n[node["id"] + "_j"] = m
            for i, x in enumerate(node["br"]):
                if k == "evgw":
                    dec["%s_b%d" % (node["id"], i)] = n[x[0]] = rows[x[0]]
                    go(x[1], rows[x[0]])
                else:
                    go(x, m if k == "and" else dec["%s_b%d" % (node["id"], i)])

    go(tree, total)
    nodes, flows = model.to_graph(tree)
    choice = {f for g, (_, fl) in model.splits_of(tree).items() for f in fl} | {
        "%s_b%d" % (x["id"], i) for x in model.walk(tree) if x["k"] == "evgw" for i in range(len(x["br"]))}
    fl = {f: dec[f] if f in choice else n[s] for f, (s, d) in flows.items()}
    return n, fl, flows


def check_uses(c, ctx):
    r = sim.simulate(gen.xml_of(c, names=c["names"]), c["scn"], c["total"], c["start"], c["seed"], c["tz"], add_events=True)
    back = {v: k for k, v in c["names"].items()}
    for x in r.rows:
        x.act = back.get(x.act, x.act)
    loops, use = warnings_of(r)
    runs = oracle.case_runs(c, r)
    if len(runs) < c["total"] or any(x[3] for x in runs.values()):
        ctx.label("ambiguous")
        return
    sp = model.splits_of(c["tree"])
    dec = Counter(sp[gid][1][i] for x in runs.values() for gid, sel, _ in x[2] if gid in sp for i in sel)
    rows = Counter(x.act for x in r.rows)
    el, fl, flows = expected_uses(c["tree"], c["total"], dec, rows)
    for t in model.tasks_of(c["tree"]):
        assert el[t] == rows[t], (t, el, rows)
    if loops:
        raise Violation("no gateway was executed 1000 times, but cases were ended: %s" % loops)
    got = {}
    for w in use:
        key = ("flow", w["flow"]) if w["flow"] else ("element", w["id"])
        if key in got:
            raise Violation("two warnings about %s" % (key,))
        got[key] = (w["how"].split()[0], int(w["n"]), int(w["total"]), float(w["pct"]))
        if w["flow"] and flows.get(w["flow"], [None])[0] != w["id"]:
            raise Violation("%s does not leave %s" % (w["flow"], w["id"]))
        if w["name"] != c["names"].get(w["id"], w["id"]):
            raise Violation("%s is not the name of %s" % (w["name"], w["id"]))
    want = {}
    n = c["total"]
    for kind, d in (("element", el), ("flow", fl)):
        for k, u in d.items():
            if 100 * u < n:
                want[kind, k] = ("less", u, n)
            elif u > n:
                want[kind, k] = ("more", u, n)
    for k in sorted(set(want) | set(got)):
        w, g = want.get(k), got.get(k)
        if w and g is None and k[0] == "flow" and w[1] == 0:
            continue  # flows that were never taken are not mentioned
        if w is None or g is None or w != g[:3] or abs(g[3] - 100.0 * w[1] / n) > 0.00501:
            raise Violation("%s %s: warning %s, expected %s" % (k[0], k[1], g, w))
    ctx.nontrivial = any(w[1] for w in want.values())
    for w in want.values():
        ctx.label(w[0] if w[1] else "never")


# ---------------------------------------------------------------- conditions and probabilities
@st.composite
def conds(draw):
    c = draw(c02.cond_scen())
    style = draw(st.sampled_from(["%s", "the %s"]))
    for g in c["scn"]["gateway_branching_probabilities"]:
        if draw(st.integers(0, 3)) == 0:  # values are left out
            for p in g["probabilities"]:
                if draw(st.booleans()):
                    del p["value"]
    c["names"] = {e: style % e for e in ["Start", "End"] + model.tasks_of(c["tree"])}
    return c


AUTO = re.compile(r"Gateway (\S+) has auto-assigned probabilities for flows: (.*)$")


def check_conds(c, ctx):
    scn = c["scn"]
    r = sim.simulate(gen.xml_of(c, names=c["names"], defaults=c["defaults"]), scn, c["total"], 0, c["seed"])
    back = {v: k for k, v in c["names"].items()}
    for x in r.rows:
        x.act = back.get(x.act, x.act)
    gws = {g["gateway_id"]: g["probabilities"] for g in scn["gateway_branching_probabilities"]}
    auto, got = {}, Counter()
    for w in r.warnings:
        m = AUTO.match(w)
        if m:
            if m.group(1) in auto:
                raise Violation("two warnings about the probabilities of %s" % m.group(1))
            auto[m.group(1)] = {x.rpartition(":")[0]: float(x.rpartition(":")[2]) for x in m.group(2).split(", ")}
        elif LOOP.match(w):
            raise Violation("no gateway was executed 1000 times: %s" % w)
        elif not USE.match(w):
            got[w] += 1
    for g, probs in gws.items():
        rest = 1 - sum(float(p["value"]) for p in probs if "value" in p)
        miss = [p["path_id"] for p in probs if "value" not in p]
        want = {f: rest / len(miss) for f in miss}
        have = auto.pop(g, {})
        if set(have) != set(want) or any(abs(have[f] - want[f]) > 1e-9 for f in want):
            raise Violation("auto-assigned probabilities of %s: %s, expected %s" % (g, have, want))
        if miss:
            ctx.label("auto-assigned")
    if auto:
        raise Violation("auto-assigned probabilities of unknown gateways %s" % auto)
    want = Counter()
    for g, probs in gws.items():
        without = [p["path_id"] for p in probs if "condition_id" not in p]
        if 0 < len(without) < len(probs):
            ctx.label("missing-conditions")
            want["Gateway %s is using conditions, but some are missing. Flows without conditions: %s" % (g, ", ".join(without))] += 1
    runs = oracle.case_runs(c, r)
    if len(runs) < c["total"] or any(x[3] for x in runs.values()):
        ctx.label("ambiguous")
        return
    rules = {x["id"]: x["rules"] for x in scn["branch_rules"]}
    kinds = {g: k for g, (k, _) in model.splits_of(c["tree"]).items()}
    per = sim.by_case(r.rows)
    for cid, run in runs.items():
        vals = c02.attr_values(c, per[cid][0])
        for g, sel, t in run[2]:
            k = kinds[g]
            cond = [rules[p["condition_id"]] for p in gws[g] if "condition_id" in p]
            true = sum(any(all(c02.holds(a, vals) for a in conj) for conj in x) for x in cond)
            if not cond or true == 1 or (true and k == "or"):
                continue
            w = "[%s] %s all conditions evaluated to false" % (k.upper(), g)
            if true:
                ctx.label("scaled")
                w = "%s more than 1 XOR gateway conditions evaluated to positive result. Scaled probabilities were used." % g
            elif g in c["defaults"]:
                ctx.label("default")
                w += ". Using default path %s." % c["defaults"][g]
            else:
                ctx.label("no-default")
                w += " and no default path. Using probabilities."
            want[w] += 1
            ctx.nontrivial = True
    if got != want:
        raise Violation("warnings about decisions: too many %s, missing %s" % (dict(got - want), dict(want - got)))


PARTS = [
    Part("limit", limits(SEQ), check_limit, 1200),
    Part("parallel", limits(PAR), check_parallel, 1000),
    Part("uses", uses(False), check_uses, 700),
    Part("rare", uses(True), check_uses, 300),
    Part("conditions", conds(), check_conds, 2500),
]
RULE = (
    "limit: loops and choices with random limits (and the default one): every case is followed along the model; no gateway is executed more often than allowed, and a case stops "
    "before its end exactly when a gateway has used up its executions, with one warning. parallel: the same with parallel and inclusive blocks, by bounds. uses: the warnings about "
    "elements and flows used in less than 1% or more than 100% of the cases, recomputed from the log. conditions: the warnings about defaults, fallbacks, several true conditions, missing conditions and missing probabilities, recomputed for every decision. "
    "Non-trivial: a case that reaches a limit, a warning about something used, a decision with a warning."
)
if __name__ == "__main__":
    runner.main("C21", PARTS, RULE)
