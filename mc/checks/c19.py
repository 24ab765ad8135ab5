"""C19: period and bin averages use every sample in its own period or bin, once."""

import calendar
import datetime as dt

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("1-3 samples (thorough 4) at every combination of instants on and around the borders of periods - first and last "
         "microsecond, leap days, ends of years - in every order, for hours, days, months and years; bins: 1-4 samples at every "
         "combination of positions on and between the edges of 1-4 bins, with given and own range")
ASSUMPTIONS = ["bin edges are exactly representable", "values are finite"]
D = dt.datetime
U = dt.timedelta(microseconds=1)
INSTANTS = {
    "hour": [D(2016, 2, 29, 23), D(2016, 2, 29, 23) + U, D(2016, 3, 1) - U, D(2016, 3, 1), D(2016, 3, 1, 1, 30),
             D(2016, 3, 1, 2), D(2016, 3, 1, 5, 59, 59)],
    "day": [D(2016, 2, 27, 12), D(2016, 2, 28), D(2016, 2, 29) - U, D(2016, 2, 29), D(2016, 3, 1), D(2016, 3, 1) - U,
            D(2016, 3, 3, 23, 59, 59)],
    "month": [D(2015, 12, 1), D(2015, 12, 31, 23, 59, 59), D(2016, 1, 1), D(2016, 1, 1) + U, D(2016, 2, 29, 12),
              D(2016, 3, 1) - U, D(2016, 3, 31), D(2016, 5, 1)],
    "year": [D(2011, 1, 1), D(2011, 12, 31, 23), D(2012, 1, 1) - U, D(2012, 1, 1), D(2012, 2, 29), D(2013, 1, 1),
             D(2015, 7, 7)]}
VAL = [1., -4., 16., 2.5]


def setup(ctx):
    global stats
    from harmonisation.core.utils import stats


def times(ns):
    def g(ch):
        p = ch.pick(sorted(INSTANTS), "period")
        n = ch.pick(ns, "samples")
        return {"what": "time", "period": p, "at": [ch.idx(len(INSTANTS[p]), "instant") for _ in range(n)]}
    return g


def bins(ns):
    def g(ch):
        n = ch.pick(ns, "samples")
        nb = ch.pick([1, 2, 3, 4], "bins")
        lo, width = ch.pick([(0., 1.), (-3., 0.5), (1024., 8.)], "range")
        own = ch.flag("own range")
        at = [ch.idx(2 * nb + 1 if own else 2 * nb + 3, "position") for _ in range(n)]
        return {"what": "bin", "n": nb, "lo": lo, "width": width, "own": own, "at": at}
    return g


def spaces(tier):
    t = tier == "thorough"
    return [("period averages", times([1, 2, 3, 4] if t else [1, 2, 3]), None),
            ("bin averages", bins([1, 2, 3, 4] if t else [1, 2, 3]), None)]


def start(p, t):
    k = {"hour": 4, "day": 3, "month": 2, "year": 1}[p]
    v = [t.year, t.month, t.day, t.hour][:k]
    return D(*(v + [1] * (3 - k))) if k < 3 else D(*v)


def following(p, t):
    if p == "hour":
        return t + dt.timedelta(hours=1)
    if p == "day":
        return t + dt.timedelta(days=1)
    if p == "month":
        return t + dt.timedelta(days=calendar.monthrange(t.year, t.month)[1])
    return D(t.year + 1, 1, 1)


def run(spec, rec):
    n = len(spec["at"])
    v = np.array(VAL[:n])
    if spec["what"] == "time":
        p = spec["period"]
        ts = [INSTANTS[p][i] for i in spec["at"]]
        arr = np.array(ts)
        av, at = stats.time_average(v, arr, time_period=p)
        want, when = [], start(p, min(ts))
        periods = []
        while when <= max(ts):
            nxt = following(p, when)
            x = [a for a, t in zip(v, ts) if when <= t < nxt]
            want.append(sum(x) / len(x) if x else np.nan)
            periods.append(when)
            when = nxt
            rec.step()
        rec.state((p, sorted(spec["at"])))
        rec.check(list(at) == periods, "periods", "%s periods %r, not %r" % (p, list(at), periods))
        rec.check(S.near(av, want), "average", "%s averages %r, not %r, of %r" % (p, list(av), want, ts))
        rec.check(S.eq(v, VAL[:n]) and list(arr) == ts, "changed", "an argument was changed")
        rec.outcome((p, [None if x != x else x for x in want]))
        return
    nb, lo, width = spec["n"], spec["lo"], spec["width"]
    shift = 0 if spec["own"] else -1
    x = np.array([lo + width * (i + shift) / 2. for i in spec["at"]])
    if spec["own"]:
        lo, hi = x.min(), x.max()
        if hi == lo or ((hi - lo) / nb * 2 ** 10) % 1:
            return           # edges that cannot be computed exactly
        width = (hi - lo) / nb
        av, sd, mid = stats.bin(v, x, bins=nb)
    else:
        hi = lo + nb * width
        av, sd, mid = stats.bin(v, x, bins=nb, X_range=[lo, hi])
    want, wsd = [], []
    for b in range(nb):
        y = [a for a, c in zip(v, x) if lo + b * width <= c and (c < lo + (b + 1) * width or (b == nb - 1 and c == hi))]
        want.append(np.mean(y) if y else np.nan)
        wsd.append(np.std(y) if y else np.nan)
        rec.step()
    rec.state((nb, lo, width, tuple(x)))
    rec.check(S.near(av, want), "bin", "bin averages %r, not %r, of %r" % (list(av), want, list(x)))
    rec.check(S.near(sd, wsd), "bin", "bin deviations %r, not %r" % (list(sd), wsd))
    rec.check(S.near(mid, [lo + (b + 0.5) * width for b in range(nb)]), "centres", "bin centres %r" % list(mid))
    rec.outcome((nb, [None if a != a else a for a in want]))
