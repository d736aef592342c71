"""Oracles shared by several checks."""
from . import env  # noqa: F401
from . import model
from .cal import Cal, task_timing_error
from .runner import Violation
from .sim import by_case, when


def group_instances(rows):
    inst = {}
    for r in rows:
        inst.setdefault(r.act, []).append((r.enable, r.start, r.end))
    return inst


def case_runs(case, res, ctx=None, arrivals=None):
    """Every case of the log is exactly one complete run of the model.  Returns per-case
    (arrival, end, decisions, ambiguous).  The arrival of a case is when its first element is
    enabled; cases that may execute nothing (silent runs) are accepted."""
    per = by_case(res.rows)
    exp = {str(i) for i in range(case["total"])}
    extra = set(per) - exp
    if extra:
        raise Violation("the log has unexpected cases %s (simulated %d)" % (sorted(extra), case["total"]))
    out = {}
    for cid in sorted(exp, key=int):
        rows = per.get(cid, [])
        t0 = min((r.enable for r in rows), default=0.0)
        if arrivals is not None and cid in arrivals:
            t0 = arrivals[cid]
        try:
            end, dec, amb = model.parse_run(case["tree"], t0, group_instances(rows))
        except model.NoParse:
            raise Violation(
                "case %s is not a complete run of the model: %s" % (cid, sorted(rows, key=lambda r: (r.enable, r.start)) or "nothing was executed"),
            )
        except (OverflowError, RecursionError):
            if ctx is not None:
                ctx.label("parse-limit")
            continue
        out[cid] = (t0, end, dec, amb)
    return out


def basic_rows(case, res, info):
    """enable <= start <= end, known activity, known resource."""
    for r in res.rows:
        if not (r.enable <= r.start + 1e-6 and r.start <= r.end + 1e-6):
            raise Violation("times out of order: %r" % r)


def exclusivity(rows, batch=False):
    """No resource works on two tasks at once.  rows: task rows only."""
    per = {}
    for r in rows:
        per.setdefault(r.res, []).append(r)
    multi = 0
    for name, rs in per.items():
        rs.sort(key=lambda r: (r.start, r.end))
        multi += len(rs) > 1
        for a, b in zip(rs, rs[1:]):
            if b.start < a.end - 1e-3:
                if batch and a.attrs.get("batch_id") and a.attrs.get("batch_id") == b.attrs.get("batch_id"):
                    continue
                raise Violation("%s works on two tasks at once: %r and %r" % (name, a, b))
    return multi
