"""C01: every simulated case is one complete run of the model; no case lost or duplicated."""
import _boot  # noqa: F401
from pbt import gen, model, oracle, runner, sim
from pbt.runner import Part, Violation

FULL_CFG = model.TreeCfg(kinds=("task", "seq", "xor", "and", "or", "loop", "evgw"), events=True, max_tasks=9, max_depth=5)
DEEP_CFG = model.TreeCfg(kinds=("seq", "and", "or", "xor", "loop"), max_tasks=12, max_depth=6)


def run(case, ctx, xml):
    res = sim.simulate(xml, case["scn"], case["total"], case["start"], case["seed"], case["tz"])
    runs = oracle.case_runs(case, res, ctx)
    for k in model.kinds_of(case["tree"]):
        ctx.label("has-" + k)
    if any(len(d[1]) > 1 for r in runs.values() for d in r[2]):
        ctx.label("or-multi")
    if any(d[0].startswith("L") and d[1] == (1,) for r in runs.values() for d in r[2]):
        ctx.label("loop-taken")
    ctx.nontrivial = len(res.rows) >= 2 and bool(model.kinds_of(case["tree"]) & {"xor", "and", "or", "loop", "evgw"})
    return res


def check(case, ctx):
    run(case, ctx, gen.xml_of(case))


PARTS = [
    Part("structured", gen.scenarios(), check, 5000),
    Part("events", gen.scenarios(FULL_CFG, max_cases=4), check, 4000),
    Part("deep", gen.scenarios(DEEP_CFG, max_cases=2), check, 2500),
]
RULE = (
    "A case is a random block-structured BPMN model (sequence, XOR, AND, OR, loops, event-based gateways, timers, "
    "silent branches) with a random scenario, simulated for 1-6 cases; every case of the log is parsed by an independent "
    "recursive run-membership oracle. Non-trivial: at least two log rows and at least one gateway."
)
if __name__ == "__main__":
    runner.main("C01", PARTS, RULE)
