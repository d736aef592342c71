"""C03: a resource never works on two tasks at once."""
import _boot  # noqa: F401
from hypothesis import strategies as st
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop"), events=True, max_tasks=7)


def check(case, ctx):
    res = sim.simulate(gen.xml_of(case), case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    tasks = set(model.tasks_of(case["tree"]))
    rows = [r for r in res.rows if r.act in tasks]
    multi = oracle.exclusivity(rows)
    waited = sum(1 for r in rows if r.start > r.enable + 0.01)
    ctx.count("rows", len(rows))
    ctx.count("rows-that-waited", waited)
    shared = {}
    for r in rows:
        shared.setdefault(r.res, set()).add(r.act)
    if any(len(v) > 1 for v in shared.values()):
        ctx.label("resource-shared-by-tasks")
    ctx.nontrivial = multi > 0 and waited > 0


@st.composite
def congested(draw):
    c = draw(gen.scenarios(CFG, max_cases=10, max_pools=2, max_amount=2, arrival=gen.durations(1, 1800)))
    return c


@st.composite
def random_durations(draw):
    c = draw(gen.scenarios(CFG, max_cases=8, max_pools=2, max_amount=2, arrival=gen.durations(1, 1800)))
    for td in c["scn"]["task_resource_distribution"]:
        for r in td["resources"]:
            lo = draw(st.integers(0, 3000))
            hi = lo + draw(st.integers(1, 6000))
            if draw(st.booleans()):
                r["distribution_name"] = "uniform"
                r["distribution_params"] = [{"value": lo}, {"value": hi}]
            else:
                r["distribution_name"] = "norm"
                r["distribution_params"] = [{"value": (lo + hi) / 2}, {"value": (hi - lo) / 2 + 1}, {"value": lo}, {"value": hi}]
    return c


PARTS = [
    Part("congested", congested(), check, 6000),
    Part("random-durations", random_durations(), check, 1500),
]
RULE = (
    "Random models and scenarios with few resources shared by many tasks; all pairs of log rows of the same resource must "
    "not overlap. Non-trivial: some resource executed at least two tasks and some task had to wait."
)
if __name__ == "__main__":
    runner.main("C03", PARTS, RULE)
