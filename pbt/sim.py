"""Runs a generated scenario through the real simulator (in process) and reads the results."""
from . import env  # noqa: F401
import contextlib
import csv
import datetime
import io
import json
import os
import random
import shutil
import tempfile
import traceback

import numpy as np

from .runner import Violation

BASE = datetime.datetime(2024, 1, 1)  # a Monday
SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="pbt_", dir=SCRATCH)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (2**32))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def secs(dt):
    """datetime (tz ignored: local wall clock of the log) -> seconds since BASE."""
    d = dt.replace(tzinfo=None) - BASE
    return d.days * 86400 + d.seconds + d.microseconds / 1e6


def when(seconds):
    return BASE + datetime.timedelta(seconds=seconds)


def iso(seconds, tz="+00:00"):
    return when(seconds).isoformat() + tz


class Row:
    __slots__ = ("case", "act", "enable", "start", "end", "res", "attrs", "raw", "idx")

    def __repr__(self):
        return "<case %s %s en=%s st=%s end=%s by %s%s>" % (
            self.case, self.act, when(self.enable), when(self.start), when(self.end), self.res,
            (" " + str(self.attrs)) if self.attrs else "")


def read_log(path):
    rows = []
    with open(path, newline="", encoding="utf-8") as f:
        rd = csv.reader(f)
        header = next(rd, None)
        for i, r in enumerate(rd):
            if header is None or len(r) != len(header):
                raise Violation("log line %d has %d fields, header %s" % (i, len(r), header))
            d = dict(zip(header, r))
            o = Row()
            o.idx = i
            o.case = d["case_id"]
            o.act = d["activity"]
            o.res = d["resource"]
            try:
                o.enable = secs(datetime.datetime.fromisoformat(d["enable_time"]))
                o.start = secs(datetime.datetime.fromisoformat(d["start_time"]))
                o.end = secs(datetime.datetime.fromisoformat(d["end_time"]))
            except ValueError as e:
                raise Violation("log line %d: unreadable timestamp: %s" % (i, e))
            o.attrs = {k: v for k, v in d.items() if k not in
                       ("case_id", "activity", "enable_time", "start_time", "end_time", "resource")}
            o.raw = r
            rows.append(o)
    return header, rows


class Result:
    pass


def sut(fn, *a, **kw):
    """Call the code under test on a valid input: an exception is a violation."""
    try:
        with quiet():
            return fn(*a, **kw)
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if "/prosimos/" in t.filename or "/bpdfr_discovery/" in t.filename]
        loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "?"
        raise Violation("crash on a valid input: %s: %s (in %s)" % (type(e).__name__, e, loc))


def simulate(xml, scn, total, start, seed, tz="+00:00", add_events=True, stats=False, log=True, fixed=None,
             want_info=False, allow=()):
    """-> Result(header, rows, stats_text, warnings).  Exceptions of types in `allow` propagate."""
    from prosimos.simulation_engine import run_simulation

    r = Result()
    with Scratch() as d:
        b, j = os.path.join(d, "m.bpmn"), os.path.join(d, "s.json")
        with open(b, "w", encoding="utf-8") as f:
            f.write(xml)
        with open(j, "w", encoding="utf-8") as f:
            json.dump(scn.get("__as__", scn), f)  # the scenario as written, where the oracle reads an equivalent one
        lp = os.path.join(d, "log.csv") if log else None
        sp = os.path.join(d, "stats.csv") if stats else None
        seed_all(seed)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            kw = {}
            if fixed is not None:
                kw["fixed_arrival_times"] = list(fixed)
            if allow:
                with quiet():
                    r.value = run_simulation(b, j, total, sp, lp, iso(start, tz), add_events, **kw)
            else:
                r.value = sut(run_simulation, b, j, total, sp, lp, iso(start, tz), add_events, **kw)
        finally:
            os.chdir(cwd)
        if log:
            if not os.path.exists(lp):
                raise Violation("no log file was written")
            r.header, r.rows = read_log(lp)
            with open(lp, encoding="utf-8", newline="") as f:
                r.log_text = f.read()
        if stats:
            with open(sp, encoding="utf-8", newline="") as f:
                r.stats_text = f.read()
        w = os.path.join(d, "simulation_warnings.txt")
        r.warnings = open(w, encoding="utf-8").read().splitlines() if os.path.exists(w) else None
    return r


def by_case(rows):
    out = {}
    for r in rows:
        out.setdefault(r.case, []).append(r)
    return out
