"""C02: decision gateways follow their probabilities, conditions and default flows."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from scipy.stats import binom
from pbt import cal, gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

ALPHA = 1e-11


def pool(tasks, dur=60):
    """One big pool without queues: decisions do not interfere with resources."""
    res = [{"id": "r", "name": "R", "cost_per_hour": "1", "amount": 3, "calendar": "c", "assignedTasks": list(tasks)}]
    return {
        "resource_profiles": [{"id": "p", "name": "P", "resource_list": res}],
        "arrival_time_distribution": gen.fix(100),
        "arrival_time_calendar": [dict(p) for p in cal.FULL],
        "gateway_branching_probabilities": [],
        "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id="r", **gen.fix(dur))]} for t in tasks],
        "resource_calendars": [{"id": "c", "name": "c", "time_periods": [dict(p) for p in cal.FULL]}],
        "event_distribution": [],
    }


# ------------------------------------------------------------------ probabilities
@st.composite
def prob_scen(draw):
    kind = draw(st.sampled_from(["xor", "or", "loop"]))
    n = 2 if kind == "loop" else draw(st.integers(2, 5))
    if kind == "loop":
        tree = {"k": "loop", "id": "G", "body": {"k": "task", "id": "T0"},
                "redo": {"k": "task", "id": "T1"} if draw(st.booleans()) else {"k": "skip"}}
        b = draw(st.sampled_from([0, 5, 20, 35, 50, 65]))
        w = [100 - b, b]
        flows = ["G_exit", "G_back"]
    else:
        br = [{"k": "task", "id": "T%d" % i} for i in range(1, n + 1)]
        if draw(st.booleans()) and kind == "xor":
            br[draw(st.integers(0, n - 1))] = {"k": "skip"}
        tree = {"k": "seq", "ch": [{"k": "task", "id": "T0"}, {"k": kind, "id": "G", "br": br}]}
        w = [0] * n
        for _ in range(20):
            w[draw(st.integers(0, n - 1))] += 5
        if draw(st.integers(0, 5)) == 0:
            w = [0] * n
            w[draw(st.integers(0, n - 1))] = 100
        if kind == "or" and draw(st.booleans()):  # independent probabilities
            w = [draw(st.integers(0, 20)) * 5 for _ in range(n)]
        flows = ["G_b%d" % i for i in range(n)]
    scn = pool(model.tasks_of(tree))
    order = draw(st.permutations(range(len(flows))))
    # missing values share what the given ones leave
    miss = [draw(st.integers(0, 3)) == 0 for _ in flows] if sum(w) == 100 and draw(st.booleans()) else [False] * len(flows)
    if sum(miss):
        rest = 100 - sum(x for x, m in zip(w, miss) if not m)
        w = [rest / sum(miss) if m else x for x, m in zip(w, miss)]
        if kind == "loop" and w[1] > 70:
            miss, w = [False, False], [60, 40]
    as_text = draw(st.booleans())
    pr = []
    for i in order:
        e = {"path_id": flows[i]}
        if not miss[i]:
            e["value"] = repr(w[i] / 100) if as_text else w[i] / 100
        pr.append(e)
    scn["gateway_branching_probabilities"] = [{"gateway_id": "G_s", "probabilities": pr}]
    return {"tree": tree, "scn": scn, "total": draw(st.integers(60, 250)), "start": 0, "tz": "+00:00", "kind": kind,
            "p": {f: x / 100 for f, x in zip(flows, w)}, "flows": flows, "seed": draw(st.integers(0, 2**31 - 1)),
            "missing": sum(miss)}


def check_prob(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], 0, case["seed"])
    runs = oracle.case_runs(case, res)
    n = 0
    cnt = {f: 0 for f in case["flows"]}
    for t0, end, dec, amb in runs.values():
        for g, sel, t in dec:
            n += 1
            for i in sel:
                cnt[case["flows"][i]] += 1
    none = 1.0
    for f in case["flows"]:
        none *= 1 - case["p"][f]
    for f in case["flows"]:
        p = case["p"][f]
        if case["kind"] == "or":
            p = p + none * (p / sum(case["p"].values()) if any(case["p"].values()) else 1 / len(case["p"]))  # a draw that selects nothing falls back to exactly one flow
        if p <= 1e-12:
            if cnt[f]:
                raise Violation("flow %s has probability 0 but was taken %d times" % (f, cnt[f]))
        elif p >= 1 - 1e-12:
            if cnt[f] != n:
                raise Violation("flow %s has probability 1 but was taken %d times out of %d" % (f, cnt[f], n))
        elif min(binom.cdf(cnt[f], n, p), binom.sf(cnt[f] - 1, n, p)) < ALPHA:
            raise Violation("flow %s has probability %.4f but was taken %d times out of %d" % (f, p, cnt[f], n))
    ctx.label("kind-" + case["kind"])
    if case["missing"]:
        ctx.label("auto-assigned")
    if res.warnings is not None and not case["missing"]:
        bad = [w for w in res.warnings if "condition" in w.lower()]
        if bad:
            raise Violation("warning about conditions although the scenario has none: %s" % bad)
    ctx.nontrivial = sum(1 for f in case["flows"] if 0 < case["p"][f] < 1) >= 2


# ------------------------------------------------------------------ conditions
COND_CFG = model.TreeCfg(kinds=("seq", "xor", "or", "and", "xor", "or"), max_tasks=7, silent=False, max_depth=3)
KEYS = ["gold", "silver", "7", "12.5"]
NUMS = [-3, 0, 7, 12.5, 100, 1000]


@st.composite
def atoms(draw, attrs):
    name = draw(st.sampled_from(sorted(attrs)))
    if attrs[name] == "discrete":
        return {"attribute": name, "comparison": draw(st.sampled_from(["=", "=", "!="])), "value": draw(st.sampled_from(KEYS))}
    op = draw(st.sampled_from(["=", "!=", "<", "<=", ">", ">=", "in"]))
    v = draw(st.sampled_from(NUMS))
    if op == "in":
        hi = draw(st.sampled_from([x for x in NUMS if x >= v] + ["inf"]))
        val = [v, hi]
        if draw(st.booleans()):
            val = [str(x) for x in val]
        return {"attribute": name, "comparison": op, "value": val}
    return {"attribute": name, "comparison": op, "value": draw(st.sampled_from([v, str(v)]))}


def holds(atom, values):
    if atom["attribute"] not in values:
        return False
    x, v, op = values[atom["attribute"]], atom["value"], atom["comparison"]
    if op == "in":
        return float(v[0]) <= x <= (float("inf") if v[1] == "inf" else float(v[1]))
    try:
        a, b = float(x), float(v)
    except ValueError:
        a, b = x, v
    return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


@st.composite
def cond_scen(draw):
    tree = draw(model.trees(COND_CFG))
    scn = pool(model.tasks_of(tree))
    attrs = {}
    scn["case_attributes"] = []
    for i in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            attrs["a%d" % i] = "discrete"
            k = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
            vals = [{"key": x, "value": 1 / len(k)} for x in k]
            scn["case_attributes"].append({"name": "a%d" % i, "type": "discrete", "values": vals})
        else:
            attrs["a%d" % i] = "continuous"
            d = gen.fix(draw(st.sampled_from([x for x in NUMS if x >= 0]))) if draw(st.booleans()) else {
                "distribution_name": "uniform", "distribution_params": [{"value": 0}, {"value": draw(st.sampled_from([20, 200, 2000]))}]}
            scn["case_attributes"].append({"name": "a%d" % i, "type": "continuous", "values": d})
    rules = [{"id": "c%d" % i, "rules": draw(st.lists(st.lists(atoms(attrs), min_size=1, max_size=2), min_size=1, max_size=2))}
             for i in range(draw(st.integers(1, 5)))]
    scn["branch_rules"] = rules
    defaults = {}
    for g in draw(gen.gateway_probs(tree, zero=False)):
        cond = draw(st.integers(0, 3)) > 0
        flows = [p["path_id"] for p in g["probabilities"]]
        if cond:
            for p in g["probabilities"]:
                if draw(st.integers(0, 4)) > 0:
                    p["condition_id"] = draw(st.sampled_from(rules))["id"]
            if draw(st.booleans()):
                defaults[g["gateway_id"]] = draw(st.sampled_from(flows))
        scn["gateway_branching_probabilities"].append(g)
    return {"tree": tree, "scn": scn, "total": draw(st.integers(1, 12)), "start": 0, "tz": "+00:00", "defaults": defaults,
            "seed": draw(st.integers(0, 2**31 - 1))}


def attr_values(case, row):
    v = {}
    for a in case["scn"]["case_attributes"]:
        t = row.attrs[a["name"]]
        v[a["name"]] = float(t) if a["type"] == "continuous" else t
    return v


def check_cond(case, ctx):
    scn = case["scn"]
    res = sim.simulate(gen.xml_of(case, defaults=case["defaults"]), scn, case["total"], 0, case["seed"])
    runs = oracle.case_runs(case, res)
    per = sim.by_case(res.rows)
    rules = {r["id"]: r["rules"] for r in scn["branch_rules"]}
    gws = {g["gateway_id"]: g["probabilities"] for g in scn["gateway_branching_probabilities"]}
    splits = model.splits_of(case["tree"])
    used = 0
    for cid, (t0, end, dec, amb) in runs.items():
        vals = attr_values(case, per[cid][0])
        for r in per[cid]:
            if attr_values(case, r) != vals:
                raise Violation("attributes of case %s change: %r" % (cid, r))
        for g, sel, t in dec:
            kind, flows = splits[g]
            taken = {flows[i] for i in sel}
            conds = {p["path_id"]: rules[p["condition_id"]] for p in gws[g] if "condition_id" in p}
            if not conds:
                continue
            true = {f for f, r in conds.items() if any(all(holds(a, vals) for a in conj) for conj in r)}
            where = "case %s (%s) at %s took %s; true conditions %s, default %s" % (
                cid, vals, g, sorted(taken), sorted(true), case["defaults"].get(g))
            if true:
                used += 1
                ctx.label("%s-%s-true" % (kind, "one" if len(true) == 1 else "many"))
                if kind == "xor":
                    if len(taken) != 1 or not taken <= true:
                        raise Violation(where)
                elif taken != true:
                    raise Violation(where)
            elif g in case["defaults"]:
                used += 1
                ctx.label(kind + "-default")
                if taken != {case["defaults"][g]}:
                    raise Violation(where)
            else:
                ctx.label(kind + "-fallback-to-probabilities")
    ctx.nontrivial = used > 0


# ------------------------------------------------------------------ several true conditions: scaled probabilities
@st.composite
def scaled_scen(draw):
    n = draw(st.integers(3, 5))
    tree = {"k": "xor", "id": "G", "br": [{"k": "task", "id": "T%d" % i} for i in range(n)]}
    scn = pool(model.tasks_of(tree))
    w = [0] * n
    nz = draw(st.lists(st.integers(0, n - 1), min_size=1, unique=True)) if draw(st.booleans()) else list(range(n))
    for i in range(20):
        w[nz[i] if i < len(nz) else draw(st.sampled_from(nz))] += 5
    scn["case_attributes"] = [{"name": "a", "type": "continuous", "values": gen.fix(10)}]
    scn["branch_rules"] = [
        {"id": "yes", "rules": [[{"attribute": "a", "comparison": ">=", "value": "10"}]]},
        {"id": "no", "rules": [[{"attribute": "a", "comparison": ">", "value": "10"}]]},
    ]
    true = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    order = draw(st.permutations(range(n)))
    scn["gateway_branching_probabilities"] = [{"gateway_id": "G_s", "probabilities": [
        {"path_id": "G_b%d" % i, "value": repr(w[i] / 100), "condition_id": "yes" if true[i] else "no"} for i in order]}]
    default = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    s = sum(x for x, t in zip(w, true) if t)
    if s:
        p = [x / s if t else 0 for x, t in zip(w, true)]
    elif any(true):
        # several true conditions of probability zero: which one is taken is not specified
        p = [None if t else 0 for t in true]
    elif default is not None:
        p = [1 if i == default else 0 for i in range(n)]
    else:
        p = [x / 100 for x in w]
    return {"tree": tree, "scn": scn, "total": draw(st.integers(60, 250)), "seed": draw(st.integers(0, 2**31 - 1)), "p": p,
            "true": true, "defaults": {} if default is None else {"G_s": "G_b%d" % default}}


def check_scaled(case, ctx):
    res = sim.simulate(gen.xml_of(case, defaults=case["defaults"]), case["scn"], case["total"], 0, case["seed"])
    n = case["total"]
    for i, p in enumerate(case["p"]):
        k = sum(1 for r in res.rows if r.act == "T%d" % i)
        if p == 0 and k:
            raise Violation("flow %d was taken %d times; true conditions %s, default %s" % (i, k, case["true"], case["defaults"]))
        if p and min(binom.cdf(k, n, p), binom.sf(k - 1, n, p)) < ALPHA:
            raise Violation("flow %d was taken %d times of %d, expected probability %.3f; true conditions %s" % (i, k, n, p, case["true"]))
    if sum(1 for r in res.rows) != n:
        raise Violation("%d tasks executed in %d cases" % (len(res.rows), n))
    ctx.nontrivial = sum(case["true"]) >= 2
    ctx.label("true-%d" % sum(case["true"]))


PARTS = [
    Part("probabilities", prob_scen(), check_prob, 700),
    Part("conditions", cond_scen(), check_cond, 5000),
    Part("scaled", scaled_scen(), check_scaled, 600),
]
RULE = (
    "probabilities: one XOR/OR/loop gateway with random probabilities (some missing, 0 or 1), 60-250 cases, counts against exact binomial bounds (1e-11). "
    "conditions: random XOR/OR/AND models whose flows carry random conditions (OR of ANDs over case attributes, numbers as text, 'in', 'inf') and default flows; every "
    "decision recovered from the log is compared with an independent evaluation. scaled: several true conditions. Non-trivial: two flows with probability strictly "
    "between 0 and 1 / a decision determined by conditions or a default / at least two true conditions."
)
if __name__ == "__main__":
    runner.main("C02", PARTS, RULE, assumptions=["statistical comparisons have a false-alarm probability below 1e-6 per run"])
