"""Independent weekly calendar model (seconds of the week, half-open periods)."""
from . import env  # noqa: F401

DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
WEEK = 7 * 86400.0
DAY = 86400.0


def hms(s):
    p = s.split(":")
    return int(p[0]) * 3600 + int(p[1]) * 60 + (float(p[2]) if len(p) > 2 else 0.0)


class Cal:
    def __init__(self, periods):
        iv = []
        for p in periods:
            a, b = DAYS.index(p["from"]), DAYS.index(p["to"])
            d = a
            while True:
                iv.append((d * DAY + hms(p["beginTime"]), d * DAY + hms(p["endTime"])))
                if d == b:
                    break
                d = (d + 1) % 7
        iv.sort()
        m = []
        for s, e in iv:
            if m and s <= m[-1][1]:
                m[-1][1] = max(m[-1][1], e)
            else:
                m.append([s, e])
        self.iv = [tuple(x) for x in m]
        self.weekly = sum(e - s for s, e in self.iv)

    def is_open(self, t, tol=0.002):
        w = t % WEEK
        return any(s - tol <= w <= e + tol for s, e in self.iv) or any(s <= tol for s, e in self.iv[:1]) and WEEK - w <= tol

    def next_open(self, t):
        """Earliest instant >= t inside a half-open period."""
        base = t - t % WEEK
        w = t % WEEK
        for s, e in self.iv:
            if w < e - 1e-5:
                return base + max(w, s)
        return base + WEEK + self.iv[0][0]

    def work(self, a, b):
        """Working seconds in [a, b]."""
        if b <= a:
            return 0.0
        tot = 0.0
        k = int(a // WEEK)
        last = int(b // WEEK)
        if last - k > 2:
            tot += (last - k - 1) * self.weekly
            return tot + self.work(a, (k + 1) * WEEK) + self.work(last * WEEK, b)
        while k <= last:
            for s, e in self.iv:
                lo, hi = max(a, k * WEEK + s), min(b, k * WEEK + e)
                if hi > lo:
                    tot += hi - lo
            k += 1
        return tot

    def finish(self, start, duration):
        """Earliest instant at which `duration` working seconds have elapsed since start."""
        t = start
        left = duration
        if left > self.weekly * 2:
            n = int(left // self.weekly) - 1
            t += n * WEEK
            left -= n * self.weekly
        while True:
            t = self.next_open(t)
            base = t - t % WEEK
            w = t % WEEK
            e = next(e for s, e in self.iv if w < e - 1e-5)
            if left <= e - w + 1e-9:
                return t + left
            left -= e - w
            t = base + e


FULL = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59.999"}]


def whole_weeks(cal, ideal):
    """an exact multiple of the working time of a week (handled wrongly by pix_framework: a known finding of C04)"""
    week = cal.work(0, 7 * DAY)
    return ideal > week - 1 and min(ideal % week, -ideal % week) < 0.02 * (ideal / week)


def task_timing_error(cal, start, end, ideal, strict=False):
    """None if [start, end] is a legal execution of `ideal` working seconds, else a message."""
    tol = 0.003 + 0.0012 * (2 + max(0, end - start) / DAY)
    if not cal.is_open(start):
        return "starts outside the working time of its resource"
    if not strict and whole_weeks(cal, ideal):
        return None
    w = cal.work(start, end)
    if abs(w - ideal) > tol:
        return "works %.3f s inside the calendar, expected %.3f" % (w, ideal)
    if ideal > 1 and end > start:
        # it must not keep the resource longer than needed; a task that uses a period up to its
        # very last instant may be recorded as ending before the next period opens.
        f = cal.finish(start, max(0.0, ideal - tol))
        if end - f > tol * 2:
            nxt = cal.next_open(f + 2 * tol)
            if end > nxt + tol or cal.work(f, end) > 2 * tol:
                return "ends at a point later than its work needs"
    return None
