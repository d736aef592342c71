"""C23: the distances between two logs."""
import _boot  # noqa: F401
import csv
import datetime
import math
from fractions import Fraction
import pandas as pd
from hypothesis import strategies as st
from pbt import gen, model, runner, sim
from pbt.runner import Part, Violation
from bpdfr_discovery.emd_metric import (
    absolute_hour_emd,
    discretize_to_day,
    discretize_to_hour,
    discretize_to_minutes,
    read_and_preprocess_log,
    trace_duration_emd,
)

H = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]
BINS = {"minute": (discretize_to_minutes, 60), "hour": (discretize_to_hour, 3600), "day": (discretize_to_day, 86400)}


@st.composite
def log(draw, lo=1, hi=10):
    """rows [case, activity, start, end, resource], times in milliseconds"""
    n = draw(st.integers(lo, hi))
    span = draw(st.sampled_from([3600, 86400, 20 * 86400]))
    out = []
    for _ in range(n):
        s = draw(st.integers(0, span)) * 1000 + draw(st.sampled_from([0, 0, 0, 1, 500, 999]))
        if draw(st.integers(0, 2)) == 0:
            s -= s % draw(st.sampled_from([60, 3600, 86400])) * 1000  # on the edges of the bins
        e = s + draw(st.one_of(st.integers(0, 7200), st.integers(0, span))) * 1000 + draw(st.sampled_from([0, 0, 1, 250]))
        out.append([draw(st.integers(0, 4)), draw(st.sampled_from("ABC")), s, e, draw(st.sampled_from(["r1", "r2", "a,b"]))])
    return out


@st.composite
def pairs(draw):
    a, b = draw(log()), draw(log())
    if draw(st.integers(0, 3)) == 0:  # a log and a small change of it
        b = [list(r) for r in a]
        for _ in range(draw(st.integers(0, 2))):
            i = draw(st.integers(0, len(b) - 1))
            d = draw(st.sampled_from([1, 1000, 60000, 3600000, 86400000]))
            b[i][3] += d
            b[i][2] += d * draw(st.integers(0, 1))
    return {"a": a, "b": b, "bin": draw(st.sampled_from([60, 1000, 3600, 7200, 86400])), "shift": draw(st.integers(1, 500)),
            "perm": draw(st.integers(0, 10**6)), "zone": draw(st.sampled_from(["+00:00", "+02:00", "-05:00", "+05:30"]))}


def iso(ms, zone="+00:00"):
    tz = datetime.datetime.fromisoformat("2024-01-01T00:00:00" + zone).tzinfo
    return (datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=ms)).astimezone(tz).isoformat(sep=" ", timespec="microseconds")


def frame(rows, zone="+00:00", order=None):
    with sim.Scratch() as d:
        with open(d + "/l.csv", "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f)
            w.writerow(H)
            rs = [[r[0], r[1], iso(r[2], zone), iso(r[2], zone), iso(r[3], zone), r[4]] for r in rows]
            w.writerows(rs if order is None else [rs[i] for i in order])
        return sim.sut(read_and_preprocess_log, d + "/l.csv")


def emd(xs, ys):
    """earth mover's distance of two lists of integers: area between the cumulative shares"""
    pts = sorted(set(xs) | set(ys))
    t = Fraction(0)
    for p, q in zip(pts, pts[1:]):
        fx = Fraction(sum(x <= p for x in xs), len(xs))
        fy = Fraction(sum(y <= p for y in ys), len(ys))
        t += abs(fx - fy) * (q - p)
    return float(t)


def same(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(b))


def durations(rows):
    per = {}
    for r in rows:
        x = per.setdefault(r[0], [r[2], r[3]])
        x[0], x[1] = min(x[0], r[2]), max(x[1], r[3])
    return [b - a for a, b in per.values()]


def check_pair(c, ctx):
    import random
    a, b = c["a"], c["b"]
    fa, fb = frame(a), frame(b)
    for f, rows in ((fa, a), (fb, b)):
        got = sorted(zip(f["case_id"], f["activity"], f["start_time"], f["end_time"], f["resource"]))
        want = sorted((r[0], r[1], pd.Timestamp(iso(r[2])), pd.Timestamp(iso(r[3])), r[4]) for r in rows)
        if got != want:
            raise Violation("read %s, written %s" % (got, want))
        if list(f.index) != list(range(len(rows))) or list(zip(f["end_time"], f["start_time"])) != sorted(zip(f["end_time"], f["start_time"])):
            raise Violation("the log read is not ordered by the times")
    base = min(r[2] for r in a + b) // 3600000 * 3600000
    bs = datetime.timedelta(seconds=c["bin"])

    def td(x, y):
        return sim.sut(trace_duration_emd, x, y, bs)

    for name, (fn, size) in BINS.items():
        def ah(x, y):
            return sim.sut(absolute_hour_emd, x, y, fn)

        want = emd([(t - base) // (1000 * size) for r in a for t in (r[2], r[3])], [(t - base) // (1000 * size) for r in b for t in (r[2], r[3])])
        got = ah(fa, fb)
        if not same(got, want):
            raise Violation("distance of the events by %s: %s, expected %s" % (name, got, want))
        if not same(ah(fb, fa), got):
            raise Violation("distance by %s is not symmetric: %s and %s" % (name, got, ah(fb, fa)))
        if ah(fa, fa) != 0:
            raise Violation("distance by %s of a log to itself: %s" % (name, ah(fa, fa)))
    if not same(sim.sut(absolute_hour_emd, fa, fb), sim.sut(absolute_hour_emd, fa, fb, discretize_to_hour)):
        raise Violation("hours are not the default")
    da, db = durations(a), durations(b)
    lo = min(da + db)
    want = emd([(d - lo) // (1000 * c["bin"]) for d in da], [(d - lo) // (1000 * c["bin"]) for d in db])
    got = td(fa, fb)
    if not same(got, want):
        raise Violation("distance of the cycle times (bins of %d s): %s, expected %s (%s / %s ms)" % (c["bin"], got, want, da, db))
    if not same(td(fb, fa), got) or td(fa, fa) != 0:
        raise Violation("distance of the cycle times: %s and %s, to itself %s" % (got, td(fb, fa), td(fa, fa)))
    # the order of the rows, the offset of the times and shifts by whole hours of both logs do not matter
    order = list(range(len(b)))
    random.Random(c["perm"]).shuffle(order)
    s = c["shift"] * 3600000
    fb2 = frame(b, c["zone"], order)
    fa3, fb3 = (frame([[r[0], r[1], r[2] + s, r[3] + s, r[4]] for r in x]) for x in (a, b))
    h, d = sim.sut(absolute_hour_emd, fa, fb), got
    for what, x, y in (("another order and offset", fa, fb2), ("a shift of both logs", fa3, fb3)):
        if not same(sim.sut(absolute_hour_emd, x, y), h) or not same(td(x, y), d):
            raise Violation("%s: distances %s and %s instead of %s and %s" % (what, sim.sut(absolute_hour_emd, x, y), td(x, y), h, d))
    # a later copy of a log is as far away as it was moved
    fs = frame([[r[0], r[1], r[2] + s, r[3] + s, r[4]] for r in a])
    if not same(sim.sut(absolute_hour_emd, fa, fs), c["shift"]) or td(fa, fs) != 0:
        raise Violation("moved by %d hours: distances %s and %s" % (c["shift"], sim.sut(absolute_hour_emd, fa, fs), td(fa, fs)))
    ctx.nontrivial = len(a) > 1 and len(b) > 1 and h > 0


@st.composite
def sims(draw):
    c = draw(gen.scenarios(model.TreeCfg(kinds=("task", "seq", "xor", "and"), events=False, silent=False, max_tasks=4)))
    c["seed2"] = draw(st.integers(0, 1000))
    return c


def check_sim(c, ctx):
    """the logs written by the simulator can be read and compared"""
    fs = []
    with sim.Scratch() as d:
        for k, s in enumerate((c["seed"], c["seed2"])):
            r = sim.simulate(gen.xml_of(c), c["scn"], c["total"], c["start"], s, c["tz"], add_events=False)
            open(d + "/l.csv", "w", encoding="utf-8", newline="").write(r.log_text)
            f = sim.sut(read_and_preprocess_log, d + "/l.csv")
            if len(f) != len(r.rows):
                raise Violation("%d rows in the log, %d read" % (len(r.rows), len(f)))
            fs.append((f, [[x.case, x.act, round(x.start * 1000), round(x.end * 1000), x.res] for x in r.rows]))
    (fa, a), (fb, b) = fs
    # the hour bins start at full hours of UTC
    off = {"+00:00": 0, "+02:00": 2, "-05:00": -5}[c["tz"]] * 3600000
    base = (min(x[2] for x in a + b) - off) // 3600000 * 3600000 + off
    vals = [t - base for r in a + b for t in (r[2], r[3])]
    if any(min(v % 3600000, -v % 3600000) < 3 and v for v in vals):
        ctx.label("edge")
        return
    got = sim.sut(absolute_hour_emd, fa, fb)
    want = emd([(t - base) // 3600000 for r in a for t in (r[2], r[3])], [(t - base) // 3600000 for r in b for t in (r[2], r[3])])
    if not same(got, want):
        raise Violation("distance of two simulations: %s, expected %s" % (got, want))
    if sim.sut(trace_duration_emd, fa, fa, datetime.timedelta(hours=1)) != 0:
        raise Violation("distance of the cycle times to itself is not zero")
    ctx.nontrivial = got > 0


PARTS = [Part("pairs", pairs(), check_pair, 1500), Part("simulated", sims(), check_sim, 500)]
RULE = (
    "pairs: two random logs (or a log and a small change of it), events on and off the edges of the bins: distances of the events (minutes, hours, days) and of the cycle times "
    "against an exact computation; symmetry, identity, order of rows, offsets, shifts. simulated: logs written by the simulator. Non-trivial: distance above zero."
)
if __name__ == "__main__":
    runner.main("C23", PARTS, RULE)
