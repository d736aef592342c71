"""C10: case, global and event attributes take the values their definitions prescribe, row by row, and steer the gateways."""
import _boot  # noqa: F401
import math
from hypothesis import strategies as st
from scipy.stats import binom
from pbt import gen, model, runner, sim
from pbt.runner import Part, Violation
import c02
import c07

ALPHA = 1e-11
KEYS = ["gold", "silver", "7", "bronze x"]
BIN = ["+", "-", "*", "/", "%", "//"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


# ------------------------------------------------------------------ expressions: nested lists, rendered to text, evaluated here
class Error(Exception):
    """an operation failed below the top of the expression: its documented value (0) only covers whole expressions"""


def exprs(names, depth=3):
    num = st.one_of(st.integers(0, 12), st.integers(0, 1000), st.sampled_from([0.5, 2.25, 1e3, 0.1])).map(lambda v: ["c", v])
    leaf = st.one_of(num, st.sampled_from(names).map(lambda n: ["v", n])) if names else num

    def ext(ch):
        return st.one_of(
            st.tuples(st.just("b"), st.sampled_from(BIN), ch, ch),
            st.tuples(st.just("b"), st.sampled_from(BIN), ch, ch),
            st.tuples(st.just("neg"), ch),
            st.tuples(st.just("pos"), ch),
            st.tuples(st.just("f"), st.sampled_from(["sqrt", "exp", "log", "floor", "fabs", "sin"]), ch),
            st.tuples(st.just("f2"), st.sampled_from(["hypot", "pow", "fmod"]), ch, ch),
            st.tuples(st.just("**"), ch, st.integers(0, 3).map(lambda v: ["c", v])),
        ).map(list)

    return st.recursive(leaf, ext, max_leaves=6)


def logics(names):
    a = exprs(names)
    # a chain of comparisons holds when every link does
    comp = st.one_of(
        st.tuples(a, st.sampled_from(CMP), a).map(lambda t: ["cmp"] + list(t)),
        st.tuples(a, st.sampled_from(CMP), a, st.sampled_from(CMP), a).map(lambda t: ["cmp"] + list(t)),
        st.tuples(a, st.sampled_from(CMP), a).map(lambda t: ["cmp"] + list(t)),
        st.booleans().map(lambda v: ["c", v]),
    )

    def ext(ch):
        return st.one_of(st.tuples(st.sampled_from(["and", "or"]), ch, ch), st.tuples(st.just("not"), ch)).map(list)

    return st.recursive(comp, ext, max_leaves=4)


def text(e):
    k = e[0]
    if k == "c":
        return repr(e[1])
    if k == "v":
        return e[1]
    if k == "b":
        return "(%s %s %s)" % (text(e[2]), e[1], text(e[3]))
    if k == "**":
        return "(%s ** %s)" % (text(e[1]), text(e[2]))
    if k == "neg":
        return "(-%s)" % text(e[1])
    if k == "pos":
        return "(+%s)" % text(e[1])
    if k == "f":
        return "%s(%s)" % (e[1], text(e[2]))
    if k == "f2":
        return "%s(%s, %s)" % (e[1], text(e[2]), text(e[3]))
    if k == "cmp":
        return "(%s)" % " ".join(x if isinstance(x, str) else text(x) for x in e[1:])
    if k in ("and", "or"):
        return "(%s %s %s)" % (text(e[1]), k, text(e[2]))
    return "(not %s)" % text(e[1])


def value(e, env, top=True):
    """Value of an expression; a failing whole expression is 0, a failing part raises Error."""
    try:
        return _value(e, env)
    except (ZeroDivisionError, TypeError, ValueError):
        if top and all(_fine(x, env) for x in e[1:] if isinstance(x, list)):
            return 0
        raise Error()
    except OverflowError:
        raise Error()


def _fine(e, env):
    try:
        _value(e, env)
        return True
    except (ZeroDivisionError, TypeError, ValueError, OverflowError):
        return False


def _cmp(op, a, b):
    return {"==": a == b, "!=": a != b}[op] if op in ("==", "!=") else {
        "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def _value(e, env):
    k = e[0]
    if k == "c":
        return e[1]
    if k == "v":
        return env.get(e[1])
    if k == "b":
        a, b = _value(e[2], env), _value(e[3], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b, "//": lambda: a // b}[e[1]]()
    if k == "**":
        return _value(e[1], env) ** _value(e[2], env)
    if k == "neg":
        return -_value(e[1], env)
    if k == "pos":
        return +_value(e[1], env)
    if k == "f":
        return getattr(math, e[1])(_value(e[2], env))
    if k == "f2":
        return getattr(math, e[1])(_value(e[2], env), _value(e[3], env))
    if k == "cmp":
        xs = [x if isinstance(x, str) else _value(x, env) for x in e[1:]]
        return all(_cmp(xs[i], xs[i - 1], xs[i + 1]) for i in range(1, len(xs), 2))
    if k == "and":
        a, b = _value(e[1], env), _value(e[2], env)
        return bool(a) and bool(b)
    if k == "or":
        a, b = _value(e[1], env), _value(e[2], env)
        return bool(a) or bool(b)
    return not _value(e[1], env)


def clip(v):
    """numbers are kept in the range of 32-bit floats; None: this check does not say which"""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if v != v or abs(v) > 1e38 or 0 < abs(v) < 1e-37:
        return None
    return v


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


ENV = st.fixed_dictionaries({n: st.one_of(st.integers(-20, 20), st.integers(0, 10**6), st.floats(-100, 100).map(lambda x: round(x, 3)),
                                          st.sampled_from([0, 0.0, 1, 1.5])) for n in "xyz"})


def check_expr(case, ctx):
    from prosimos.event_attributes import EventAttribute

    env, e = case["env"], case["e"]
    a = sim.sut(EventAttribute, "T", "out", "expression", text(e))
    got = sim.sut(a.get_next_value, dict(env))
    try:
        exp = clip(value(e, env))
    except Error:
        ctx.label("inner-error")
        return
    if exp is None:
        ctx.label("out-of-range")
        return
    if hasattr(got, "item"):
        got = got.item()
    if not same(got, exp):
        raise Violation("%s with %s gives %r, expected %r" % (text(e), env, got, exp))
    ctx.nontrivial = e[0] not in ("c", "v")
    ctx.label("top-" + e[0])


def check_dtree(case, ctx):
    from prosimos.event_attributes import EventAttribute

    env = case["env"]
    tree = [[True if c is True else [text(x) for x in c], text(f)] for c, f in case["rules"]]
    try:
        exp = 0
        for c, f in case["rules"]:
            if c is True or all(value(x, env) for x in c):
                exp = value(f, env)
                break
    except Error:
        ctx.label("inner-error")
        return
    got = sim.sut(sim.sut(EventAttribute, "T", "out", "dtree", tree).get_next_value, dict(env))
    if hasattr(got, "item"):
        got = got.item()
    if clip(exp) is None:
        return
    if not same(got, exp):
        raise Violation("decision tree %s with %s gives %r, expected %r" % (tree, env, got, exp))
    ctx.nontrivial = len(case["rules"]) > 1


DTREE = st.lists(st.tuples(st.one_of(st.lists(logics(list("xyz")), max_size=2), st.just(True)), exprs(list("xyz"))).map(list), min_size=1, max_size=4)


# ------------------------------------------------------------------ attributes of a scenario
def discrete(draw, keys=None):
    ks = keys or draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
    n = draw(st.sampled_from([1, 3, 7, 10]))
    w = [0] * len(ks)
    for _ in range(n):
        w[draw(st.integers(0, len(ks) - 1))] += 1
    return [{"key": k, "value": x / n if draw(st.booleans()) else repr(x / n)} for k, x in zip(ks, w)]


def continuous(draw):
    if draw(st.booleans()):
        return gen.fix(draw(st.sampled_from([0, 1, 7, 12.5, 100, 33])))
    lo = draw(st.integers(0, 50))
    return {"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": lo + draw(st.sampled_from([1, 20, 500]))}]}


def simple(draw, name, sym):
    return {"name": name, "type": "discrete" if sym else "continuous", "values": discrete(draw) if sym else continuous(draw)}


def define(draw, tasks, shared=True, counters=()):
    """-> the three sections.  Names: c* case, g* global, e* event; gc*, ge*, gx* also redefined by cases, events, both."""
    glob, case = [], []
    num, sym, ev = [], [], {}
    if shared:
        for n in draw(st.lists(st.sampled_from(["g1", "g2", "gc1", "gc2", "ge1", "ge2", "gx1"]), max_size=4, unique=True)):
            s = draw(st.integers(0, 3)) == 0
            glob.append(simple(draw, n, s))
            (sym if s else num).append(n)
            if n[1] in "cx":
                case.append(simple(draw, n, s))
            if n[1] in "ex":
                ev[n] = s
    for n in ["c1", "c2"][:draw(st.integers(0, 2))]:
        s = draw(st.integers(0, 2)) == 0
        case.append(simple(draw, n, s))
        (sym if s else num).append(n)
    for n in ["e1", "e2", "e3"][:draw(st.integers(1, 3))]:
        ev[n] = draw(st.integers(0, 3)) == 0
        if not ev[n]:
            num.append(n)
    per = {}
    for n, s in ev.items():
        for t in draw(st.lists(st.sampled_from(tasks), min_size=1, max_size=3, unique=True)):
            a = {"name": n}
            if s:
                if draw(st.booleans()):
                    a.update(type="discrete", values=discrete(draw))
                else:
                    states = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
                    a.update(type="discrete", values={k: {d["key"]: float(d["value"]) for d in discrete(draw)} for k in states})
            else:
                kind = draw(st.sampled_from(["continuous", "expression", "expression", "dtree", "count"]))
                if kind == "continuous":
                    a.update(type=kind, values=continuous(draw))
                elif kind == "count":
                    a.update(type="expression", values=["b", "+", ["v", n], ["c", draw(st.sampled_from([1, 1, 3]))]])
                elif kind == "expression":
                    a.update(type=kind, values=draw(exprs(num)))
                else:
                    a.update(type=kind, values=draw(st.lists(st.tuples(
                        st.one_of(st.lists(logics(num), min_size=1, max_size=2), st.just(True)), exprs(num)).map(list), min_size=1, max_size=3)))
            per.setdefault(t, []).append(a)
    for t, n in counters:
        per.setdefault(t, []).append({"name": n, "type": "expression", "values": ["b", "+", ["v", n], ["c", 1]]})
    evs = []
    for t, al in per.items():
        if len(al) > 1 and draw(st.integers(0, 4)) == 0:  # the attributes of one task may come in two entries
            evs.append({"event_id": t, "attributes": al[:1]})
            al = al[1:]
        evs.append({"event_id": t, "attributes": al})
    return {"global_attributes": glob, "case_attributes": case, "event_attributes": evs}, num + [n for _, n in counters], sym


def scenario_sections(sec):
    """the sections as the simulator reads them (expressions as text)"""
    def conv(a):
        if a["type"] == "expression":
            return dict(a, values=text(a["values"]))
        if a["type"] == "dtree":
            return dict(a, values=[[True if c is True else [text(x) for x in c], text(f)] for c, f in a["values"]])
        return a

    return {
        "global_attributes": sec["global_attributes"],
        "case_attributes": sec["case_attributes"],
        "event_attributes": [dict(e, attributes=[conv(a) for a in e["attributes"]]) for e in sec["event_attributes"]],
    }


def priorities(draw, sec):
    """rules over the local case attributes: cases may be served in another order than they arrive"""
    local = [a for a in sec["case_attributes"] if a["name"][0] == "c"]
    if not local or draw(st.booleans()):
        return []
    out = []
    for lvl in range(1, 1 + draw(st.integers(1, 3))):
        a = draw(st.sampled_from(local))
        if a["type"] == "discrete":
            r = {"attribute": a["name"], "comparison": "=", "value": draw(st.sampled_from(KEYS))}
        else:
            lo = draw(st.integers(0, 100))
            r = {"attribute": a["name"], "comparison": "in", "value": [str(lo), draw(st.sampled_from([str(lo + 10), "inf"]))]}
        out.append({"priority_level": lvl, "rules": [[r]]})
    return out


class Tracker:
    """Replays the rows of a log: knows, after each row, which value every attribute must have."""

    def __init__(self, sec, header):
        self.glob = {a["name"]: a for a in sec["global_attributes"]}
        self.case = {a["name"]: a for a in sec["case_attributes"]}
        self.ev = {}
        names = set(self.glob) | set(self.case)
        for e in sec["event_attributes"]:
            for a in e["attributes"]:
                self.ev.setdefault(e["event_id"], []).append(a)
                names.add(a["name"])
        cols = [h for h in header[6:] if h != "batch_id"]
        if sorted(cols) != sorted(names):
            raise Violation("attribute columns %s for the attributes %s" % (cols, sorted(names)))
        self.names = sorted(names)
        self.g = {}
        self.c = {}
        self.updates = self.determined = 0
        self.kinds = set()

    def env(self, case):
        return {**self.g, **self.c.get(case, {})}

    def row(self, r, ctx):
        g, first = self.g, r.case not in self.c
        c = self.c.setdefault(r.case, {})
        env = dict(g)
        env.update(c)
        adopt = {}  # name -> definition whose value the log decides
        if not g:
            for n, a in self.glob.items():
                adopt[n] = a
        if first:
            for n, a in self.case.items():
                adopt[n] = a
        new = {}
        again = {a["name"] for a in self.ev.get(r.act, ())}
        for n, a in list(adopt.items()):
            if n not in again:
                env[n] = self.read(r, n, a)
        for a in self.ev.get(r.act, ()):  # every definition sees the values before the event
            n = a["name"]
            if n in adopt:
                # the value drawn just before is overwritten in the same row: only what it may have been is known
                env[n] = ANY if a["type"] in ("expression", "dtree") or len(set(map(str, self.domain(adopt[n])))) > 1 else self.domain(adopt[n])[0]
                del adopt[n]
        for a in self.ev.get(r.act, ()):
            new[a["name"]] = self.evaluate(r, a, env)
            self.updates += 1
            self.kinds.add(a["type"])
        for n, a in adopt.items():
            self.member(r, n, a, env[n])
        for n, v in list(new.items()) + [(n, env[n]) for n in adopt]:
            (g if n in self.glob else c)[n] = v
        now = self.env(r.case)
        for n in self.names:
            got, exp = r.attrs[n], now.get(n)
            if exp is ANY:
                continue
            if exp is None:
                if got != "":
                    raise Violation("%r: attribute %s has the value %r before it is assigned" % (r, n, got))
                continue
            if not self.equal(got, exp):
                raise Violation("%r: attribute %s is %r, expected %r (values before: %s)" % (r, n, got, exp, env))

    @staticmethod
    def equal(got, exp):
        if isinstance(exp, (str, bool)):
            return got == str(exp)
        try:
            return same(float(got), exp)
        except ValueError:
            return False

    @staticmethod
    def domain(a):
        if a["type"] == "discrete":
            return [d["key"] for d in a["values"] if float(d["value"]) > 0]
        p = [x["value"] for x in a["values"]["distribution_params"]]
        return [p[0]] if a["values"]["distribution_name"] == "fix" else [p[0], p[1]]

    def read(self, r, n, a):
        t = r.attrs[n]
        if a["type"] == "discrete":
            return t
        try:
            return float(t)
        except ValueError:
            raise Violation("%r: the continuous attribute %s is %r" % (r, n, t))

    def member(self, r, n, a, v):
        d = self.domain(a)
        ok = v in d if a["type"] == "discrete" or len(d) == 1 else d[0] <= v <= d[1]
        if not ok:
            raise Violation("%r: attribute %s is %r, defined as %s" % (r, n, v, a["values"]))

    def evaluate(self, r, a, env):
        n, t = a["name"], a["type"]
        if t == "continuous" or (t == "discrete" and isinstance(a["values"], list)):
            v = self.read(r, n, a)
            self.member(r, n, a, v)
            return v
        if t == "discrete":
            cur = env.get(n)
            if cur is ANY:
                return r.attrs[n]
            if cur not in a["values"]:
                return cur
            nxt = r.attrs[n]
            if not a["values"][cur].get(nxt):
                raise Violation("%r: attribute %s goes from %r to %r, transitions %s" % (r, n, cur, nxt, a["values"]))
            self.determined += 1
            return nxt
        try:
            if t == "expression":
                v = clip(value(a["values"], env)) if not uses_any(a["values"], env) else None
            else:
                v = 0
                for cs, f in a["values"]:
                    if any(uses_any(x, env) for x in ([] if cs is True else cs) + [f]):
                        v = None
                        break
                    if cs is True or all(value(x, env) for x in cs):
                        v = value(f, env)
                        if v is not None:
                            v = clip(v)
                        else:
                            v = 0
                        break
            if v is not None:
                self.determined += 1
                return v
            if t == "expression" and a["values"][0] == "v" and env.get(a["values"][1]) is None:
                return None  # nothing to copy
        except Error:
            pass
        s = r.attrs[n]  # not determined by this check: take what was logged
        if s in ("True", "False"):
            return s == "True"
        try:
            f = float(s)
        except ValueError:
            raise Violation("%r: attribute %s is %r" % (r, n, s))
        return f if f == 0 or 1e-30 < abs(f) < 1e30 else ANY


class _Any:
    def __repr__(self):
        return "?"


ANY = _Any()


class Unknown(Exception):
    """the values this check knows do not determine the decision"""


def uses_any(e, env):
    if e[0] == "v":
        return env.get(e[1]) is ANY
    return any(uses_any(x, env) for x in e[1:] if isinstance(x, list))


# ------------------------------------------------------------------ every row of a log
LOG_CFG = model.TreeCfg(kinds=("seq", "seq", "xor", "and", "or", "loop"), max_tasks=6, max_depth=3)


@st.composite
def log_scen(draw):
    case = draw(gen.scenarios(LOG_CFG, max_cases=6, max_pools=2, arrival=gen.durations(1, 4000), cal=gen.calendars(4)))
    case["sec"], _, _ = define(draw, model.tasks_of(case["tree"]))
    case["scn"]["prioritisation_rules"] = priorities(draw, case["sec"])
    return case


def check_log(case, ctx):
    scn = dict(case["scn"], **scenario_sections(case["sec"]))
    res = sim.simulate(gen.xml_of(case), scn, case["total"], case["start"], case["seed"], case["tz"])
    t = Tracker(case["sec"], res.header)
    for r in res.rows:
        t.row(r, ctx)
    ctx.label(*["kind-" + k for k in t.kinds])
    ctx.count("rows", len(res.rows))
    order = list(dict.fromkeys(int(r.case) for r in res.rows))
    if order != sorted(order):
        ctx.label("cases-start-out-of-order")
    ctx.nontrivial = t.determined > 0 and len({r.case for r in res.rows}) > 1


# ------------------------------------------------------------------ decisions taken on attributes
WALK_CFG = model.TreeCfg(kinds=("task", "seq", "xor", "xor", "loop"), max_tasks=8, max_depth=4)


def first_task(node):
    return node["id"] if node["k"] == "task" else first_task(node["ch"][0])


@st.composite
def walk_scen(draw):
    case = draw(gen.scenarios(WALK_CFG, max_cases=5, max_pools=2, arrival=gen.durations(1, 4000), cal=gen.calendars(6)))
    t0 = {"k": "task", "id": "T0"}
    case["tree"] = {"k": "seq", "ch": [t0, case["tree"]]}
    scn = case["scn"]
    scn["task_resource_distribution"].append({"task_id": "T0", "resources": [dict(
        resource_id=scn["resource_profiles"][0]["resource_list"][0]["id"], **gen.fix(61))]})
    scn["resource_profiles"][0]["resource_list"][0]["assignedTasks"].append("T0")
    loops = [n for n in model.walk(case["tree"]) if n["k"] == "loop"]
    case["sec"], num, sym = define(draw, model.tasks_of(case["tree"]), counters=[(first_task(n["body"]), "k_" + n["id"]) for n in loops])
    num = num or ["none"]
    rules, gws, defaults = [], [], {}

    def rule(conj):
        i = "rule%d" % len(rules)
        rules.append({"id": i, "rules": conj})
        return i

    for n in model.walk(case["tree"]):
        if n["k"] == "loop":
            lim = draw(st.integers(0, 3))
            a = "k_" + n["id"]
            paths = [(n["id"] + "_exit", [[{"attribute": a, "comparison": ">=", "value": draw(st.sampled_from([lim, str(lim)]))}]]),
                     (n["id"] + "_back", [[{"attribute": a, "comparison": "<", "value": lim}]])]
        elif n["k"] == "xor":
            fl = ["%s_b%d" % (n["id"], i) for i in range(len(n["br"]))]
            if sym and draw(st.integers(0, 3)) == 0:
                a, v = draw(st.sampled_from(sym)), draw(st.sampled_from(KEYS))
                paths = [(fl[0], [[{"attribute": a, "comparison": "=", "value": v}]]), (fl[1], [[{"attribute": a, "comparison": "!=", "value": v}]])]
                paths += [(f, [[{"attribute": a, "comparison": "=", "value": "never"}]]) for f in fl[2:]]
            else:
                a = draw(st.sampled_from(num))
                cuts = sorted(draw(st.lists(st.one_of(st.integers(-2, 12), st.integers(0, 300)), min_size=len(fl) - 1, max_size=len(fl) - 1, unique=True)))
                paths = []
                for i, f in enumerate(fl):
                    lo = [{"attribute": a, "comparison": ">=", "value": cuts[i - 1]}] if i else []
                    hi = [{"attribute": a, "comparison": "<", "value": str(cuts[i])}] if i < len(cuts) else []
                    paths.append((f, [lo + hi]))
        else:
            continue
        g = n["id"] + "_s"
        order = draw(st.permutations(range(len(paths))))
        gws.append({"gateway_id": g, "probabilities": [{"path_id": paths[i][0], "value": 1 / len(paths), "condition_id": rule(paths[i][1])} for i in order]})
        defaults[g] = paths[0][0] if n["k"] == "loop" else draw(st.sampled_from(paths))[0]
    scn["prioritisation_rules"] = priorities(draw, case["sec"])
    scn["gateway_branching_probabilities"] = gws
    scn["branch_rules"] = rules
    case["defaults"] = defaults
    return case


def check_walk(case, ctx):
    scn = dict(case["scn"], **scenario_sections(case["sec"]))
    res = sim.simulate(gen.xml_of(case, defaults=case["defaults"]), scn, case["total"], case["start"], case["seed"], case["tz"])
    t = Tracker(case["sec"], res.header)
    rules = {r["id"]: r["rules"] for r in scn["branch_rules"]}
    conds = {g["gateway_id"]: [(p["path_id"], rules[p["condition_id"]]) for p in g["probabilities"]] for g in scn["gateway_branching_probabilities"]}
    stat = {"decisions": 0, "default": 0}

    def decide(g, cid):
        env = {k: v for k, v in t.env(cid).items() if v is not None}
        if any(env.get(a["attribute"]) is ANY for _, r in conds[g] for conj in r for a in conj):
            raise Unknown()
        true = [f for f, r in conds[g] if any(all(c02.holds(a, env) for a in conj) for conj in r)]
        stat["decisions"] += 1
        if not true:
            stat["default"] += 1
            return case["defaults"][g]
        assert len(true) == 1, (g, env, true)
        return true[0]

    def steps(n, cid):
        k = n["k"]
        if k == "task":
            yield n["id"]
        elif k == "seq":
            for x in n["ch"]:
                yield from steps(x, cid)
        elif k == "xor":
            yield from steps(n["br"][int(decide(n["id"] + "_s", cid).rsplit("_b", 1)[1])], cid)
        elif k == "loop":
            while True:
                yield from steps(n["body"], cid)
                if decide(n["id"] + "_s", cid).endswith("_exit"):
                    return
                yield from steps(n["redo"], cid)

    runs, nxt = {}, {}
    for r in res.rows:
        if r.case not in runs:
            runs[r.case] = steps(case["tree"], r.case)
            nxt[r.case] = next(runs[r.case])
        if r.act != nxt[r.case] and nxt[r.case] is not ANY:
            raise Violation("%r: the attributes %s lead to %s" % (r, t.env(r.case), nxt[r.case] or "the end of the case"))
        t.row(r, ctx)
        if nxt[r.case] is not ANY:
            try:
                nxt[r.case] = next(runs[r.case], None)
            except Unknown:
                nxt[r.case] = ANY
    for cid, n in nxt.items():
        if n is not None and n is not ANY:
            raise Violation("case %s ends before %s, attributes %s" % (cid, n, t.env(cid)))
    if len(runs) != case["total"]:
        raise Violation("%d cases in the log, %d simulated" % (len(runs), case["total"]))
    ctx.count("decisions", stat["decisions"])
    ctx.count("defaults", stat["default"])
    ctx.nontrivial = stat["decisions"] > stat["default"]


# ------------------------------------------------------------------ batched tasks
@st.composite
def batch_scen(draw):
    case = draw(c07.scen(rule=c07.size_rule(), max_pools=2, max_amount=2))
    case["sec"], _, _ = define(draw, model.tasks_of(case["tree"]), shared=False)
    return case


def check_batch(case, ctx):
    scn = dict(case["scn"], **scenario_sections(case["sec"]))
    res = sim.simulate(gen.xml_of(case), scn, case["total"], case["start"], case["seed"], case["tz"])
    t = Tracker(case["sec"], res.header)
    batched = {b["task_id"] for b in scn.get("batch_processing", [])}
    n = 0
    tasks = set(model.tasks_of(case["tree"]))
    for r in res.rows:
        if r.act not in tasks:
            continue
        t.row(r, ctx)
        n += r.act in batched and r.act in t.ev and r.attrs.get("batch_id") not in ("", "None")
    ctx.count("batched-rows-with-attributes", n)
    ctx.nontrivial = n > 0


# ------------------------------------------------------------------ frequencies of discrete values
@st.composite
def freq_scen(draw):
    n = draw(st.integers(2, 6))
    tree = {"k": "seq", "ch": [{"k": "task", "id": "T%d" % i} for i in range(n)]}
    scn = c02.pool(model.tasks_of(tree))

    def weights():
        ks = draw(st.lists(st.sampled_from(KEYS), min_size=2, max_size=4, unique=True))
        w = [1] * len(ks)
        for _ in range(10 - len(ks)):
            w[draw(st.integers(0, len(ks) - 1))] += 1
        return {k: x / 10 for k, x in zip(ks, w)}

    def listed(w):
        return [{"key": k, "value": v if draw(st.booleans()) else str(v)} for k, v in w.items()]

    first, cw, gw = weights(), weights(), weights()
    trans = {k: weights() for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))}
    sec = {
        "global_attributes": [{"name": "g", "type": "discrete", "values": listed(gw)}],
        "case_attributes": [{"name": "c", "type": "discrete", "values": listed(cw)}, {"name": "g", "type": "discrete", "values": listed(gw)}],
        "event_attributes": [{"event_id": "T0", "attributes": [{"name": "m", "type": "discrete", "values": listed(first)}]}]
        + [{"event_id": "T%d" % i, "attributes": [{"name": "m", "type": "discrete", "values": trans}]} for i in range(1, n)],
    }
    return {"tree": tree, "scn": dict(scn, **sec), "first": first, "c": cw, "g": gw, "trans": trans, "total": draw(st.integers(50, 200)),
            "seed": draw(st.integers(0, 2**31 - 1))}


def check_freq(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], 0, case["seed"])
    obs = {}

    def see(group, v):
        obs.setdefault(group, []).append(v)

    seen = set()
    for cid, rows in sim.by_case(res.rows).items():
        prev = None
        for r in rows:
            if r.act == "T0":
                see("m", r.attrs["m"])
                see("c", r.attrs["c"])
            elif prev in case["trans"]:
                see("m|" + prev, r.attrs["m"])
            elif r.attrs["m"] != prev:
                raise Violation("%r: the state changes from %s, which has no transitions" % (r, prev))
            prev = r.attrs["m"]
    for r in res.rows:
        if r.case not in seen:
            seen.add(r.case)
            see("g", r.attrs["g"])
    for group, vals in obs.items():
        w = case["trans"][group[2:]] if group.startswith("m|") else case[{"m": "first"}.get(group, group)]
        for k in set(w) | set(vals):
            p, n, x = w.get(k, 0), len(vals), vals.count(k)
            if p == 0 and x:
                raise Violation("%s: value %r has probability 0 but occurs %d times" % (group, k, x))
            if p >= 1 - 1e-9:
                if x != n:
                    raise Violation("%s: value %r has probability 1 but occurs %d times of %d" % (group, k, x, n))
            elif p and min(binom.cdf(x, n, p), binom.sf(x - 1, n, p)) < ALPHA:
                raise Violation("%s: value %r has probability %.2f but occurs %d times of %d" % (group, k, p, x, n))
    ctx.nontrivial = len(obs) >= 4


PARTS = [
    Part("expressions", st.fixed_dictionaries({"env": ENV, "e": st.one_of(exprs(list("xyz")), exprs(list("xyz")), logics(list("xyz")))}), check_expr, 12000),
    Part("decision-trees", st.fixed_dictionaries({"env": ENV, "rules": DTREE}), check_dtree, 5000),
    Part("rows", log_scen(), check_log, 4000),
    Part("routing", walk_scen(), check_walk, 3000),
    Part("batches", batch_scen(), check_batch, 1500),
    Part("frequencies", freq_scen(), check_freq, 250),
]
RULE = (
    "expressions / decision-trees: random expressions (arithmetic, functions, chained comparisons, and/or/not) against an independent evaluator. rows: random models "
    "with global, case and event attributes (all kinds, and names shared between the sections); every cell of every row is compared with a replay of the definitions in "
    "log order. routing: XOR and loop gateways whose conditions partition the values of attributes; the next activity of every case is predicted from the replayed values. "
    "batches: the same for tasks executed in batches. frequencies: discrete values and state transitions against exact binomial bounds (1e-11). Non-trivial: the expression "
    "has an operator / some cell was determined by an expression or a transition with several cases / a decision determined by a condition / a batched task with attributes."
)
if __name__ == "__main__":
    runner.main("C10", PARTS, RULE, assumptions=["statistical comparisons have a false-alarm probability below 1e-6 per run"])
