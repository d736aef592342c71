"""C12: the queues that order work and resources behave like their reference model over any history."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import runner, sim
from pbt.runner import Part, Violation
from prosimos.simulation_queues_ds import DiffResourceQueue, EventQueue, PriorityQueue

EL = ["a", "b", "c", "d", "e", "f", "g"]
PRIO = st.one_of(st.integers(0, 6), st.integers(0, 10**6), st.floats(0, 1e6, allow_nan=False))


def _fail(i, op, got, exp):
    raise Violation("step %d %r: got %r, expected %r" % (i, op, got, exp))


def check_pq(case, ctx):
    q = sim.sut(PriorityQueue)
    ref = {}  # element -> (priority, sequence)
    seq = pops = upd = 0
    for i, op in enumerate(case):
        k = op[0]
        first = min(ref.items(), key=lambda kv: kv[1]) if ref else None
        if k == "insert":
            upd += op[1] in ref
            sim.sut(q.insert, op[1], op[2])
            seq += 1
            ref[op[1]] = (op[2], seq)
        elif k == "remove":
            if op[1] in ref:
                sim.sut(q.remove_element, op[1])
                del ref[op[1]]
                upd += 1
        elif k in ("pop", "peek"):
            got = sim.sut(q.pop_min if k == "pop" else q.peek)
            exp = (first[0], first[1][0]) if first else (None, None)
            if tuple(got) != exp:
                _fail(i, op, got, exp)
            if k == "pop" and first:
                del ref[first[0]]
                pops += 1
        if sim.sut(q.size) != len(ref) or sim.sut(q.is_empty) != (not ref):
            _fail(i, op, (q.size(), q.is_empty()), len(ref))
        for e in EL:
            if sim.sut(q.contains, e) != (e in ref):
                _fail(i, op, q.contains(e), e in ref)
            if sim.sut(q.get_priority, e) != (ref[e][0] if e in ref else None):
                _fail(i, op, q.get_priority(e), ref.get(e))
    ctx.nontrivial = pops >= 2 and upd >= 1


PQ_OP = st.one_of(
    st.tuples(st.just("insert"), st.sampled_from(EL), PRIO),
    st.tuples(st.just("insert"), st.sampled_from(EL), PRIO),
    st.tuples(st.just("remove"), st.sampled_from(EL)),
    st.tuples(st.just("pop")),
    st.tuples(st.just("peek")),
).map(list)


class Item:
    def __init__(self, enabled_at):
        self.enabled_at = enabled_at


def check_eq(case, ctx):
    q = sim.sut(EventQueue)
    ref = []
    seq = pops = 0
    for i, op in enumerate(case):
        if op[0] in ("arrival", "enabled"):
            it = Item(op[2])
            sim.sut(q.append_arrival_event if op[0] == "arrival" else q.append_enabled_event, it, op[1])
            seq += 1
            ref.append((op[1], op[2], seq, it))
            ref.sort(key=lambda x: x[:3])
        else:
            got = sim.sut(q.pop_next_event if op[0] == "pop" else q.peek)
            exp = ref[0][3] if ref else None
            if got is not exp:
                _fail(i, op, got and got.enabled_at, exp and exp.enabled_at)
            if op[0] == "pop" and ref:
                ref.pop(0)
                pops += 1
    ctx.nontrivial = pops >= 2 and seq >= 3


EQ_OP = st.one_of(
    st.tuples(st.sampled_from(["arrival", "enabled"]), st.integers(0, 3), st.integers(0, 20)),
    st.tuples(st.sampled_from(["arrival", "enabled"]), st.integers(0, 3), st.floats(0, 1e6, allow_nan=False)),
    st.tuples(st.just("pop")),
    st.tuples(st.just("peek")),
).map(list)


@st.composite
def rq(draw):
    res = ["r%d" % i for i in range(draw(st.integers(1, 5)))]
    tasks = ["t%d" % i for i in range(draw(st.integers(1, 5)))]
    m = {t: sorted(draw(st.sets(st.sampled_from(res), min_size=1))) for t in tasks}
    init = {r: draw(PRIO) for r in res}
    used = sorted({r for v in m.values() for r in v})
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("pop"), st.sampled_from(tasks)),
        st.tuples(st.just("peek"), st.sampled_from(tasks)),
        st.tuples(st.just("update"), st.sampled_from(used), PRIO),
        st.tuples(st.just("serve"), st.sampled_from(tasks), PRIO),
    ).map(list), max_size=40))
    return {"map": m, "init": init, "ops": ops}


def check_rq(case, ctx):
    q = sim.sut(DiffResourceQueue, {t: {r: 1 for r in rs} for t, rs in case["map"].items()}, case["init"])
    queues = {frozenset(rs): {r: case["init"][r] for r in rs} for rs in case["map"].values()}
    n = 0
    for i, op in enumerate(case["ops"]):
        if op[0] == "update":
            sim.sut(q.update_resource_availability, op[1], op[2])
            for k, d in queues.items():
                if op[1] in k:
                    d[op[1]] = op[2]
            continue
        d = queues[frozenset(case["map"][op[1]])]
        r, at = sim.sut(q.peek_resource_for if op[0] == "peek" else q.pop_resource_for, op[1])
        if not d:
            if r is not None or at is not None:
                _fail(i, op, (r, at), None)
            continue
        if r not in d or at != d[r] or at != min(d.values()):
            _fail(i, op, (r, at), d)
        if op[0] == "pop":
            del d[r]
        elif op[0] == "serve":  # what a task does: take the first free resource, release it later
            n += 1
            sim.sut(q.update_resource_availability, r, at + op[2])
            for k, dd in queues.items():
                if r in k:
                    dd[r] = at + op[2]
    ctx.nontrivial = n >= 2 and len(queues) >= 2


PARTS = [
    Part("priority-queue", st.lists(PQ_OP, max_size=50), check_pq, 6000),
    Part("event-queue", st.lists(EQ_OP, max_size=50), check_eq, 4000),
    Part("resource-queue", rq(), check_rq, 6000),
]
RULE = (
    "Random operation sequences (up to 50 operations) on the priority queue, the event queue and the queue of shared resources, "
    "each compared step by step with a plain-dictionary reference model. Non-trivial: several pops after an update or removal / "
    "two services over at least two different resource sets."
)
if __name__ == "__main__":
    runner.main("C12", PARTS, RULE)
