"""C25: the Fortran demo turns every instant into the right calendar date and time of day."""

import datetime

import fort

NEEDS = {"py", "fortran"}
SCOPE = ("every day of 1890-2149 (thorough: 1601-2500) at eight instants, among them the first and the last of the day and instants "
         "within a microsecond of midnight; every second of selected days")
ASSUMPTIONS = []
EPOCH = datetime.datetime(1970, 1, 1)
TIMES = [0., 1., 59.75, 3599., 43200., 86399., 86399.9999990, 0.0000005]


def setup(ctx):
    global EXE
    EXE = fort.build_driver(ctx)


def days(first, last):
    def gen(ch):
        return {"kind": "year", "year": ch.pick(list(range(first, last + 1)), "year")}
    return gen


def seconds(ch):
    d = ch.pick([(1970, 1, 1), (2000, 2, 29), (2038, 1, 19), (1969, 12, 31), (1900, 2, 28), (2016, 12, 31), (2100, 2, 28)], "day")
    return {"kind": "seconds", "day": d, "hour": ch.pick(list(range(24)), "hour")}


def spaces(tier):
    y = (1890, 2149) if tier == "quick" else (1601, 2500)
    return [("every day", days(*y), None), ("every second of a day", seconds, None)]


def run(spec, rec):
    if spec["kind"] == "year":
        d0 = datetime.datetime(spec["year"], 1, 1)
        n = (datetime.datetime(spec["year"] + 1, 1, 1) - d0).days
        base = (d0 - EPOCH).days
        inst = [(base + k) * 86400. + t for k in range(n) for t in TIMES]
        want = [d0 + datetime.timedelta(days=k, seconds=int(t)) for k in range(n) for t in TIMES]
    else:
        d0 = datetime.datetime(*spec["day"]) + datetime.timedelta(hours=spec["hour"])
        base = int((d0 - EPOCH).total_seconds())
        inst = [base + k + f for k in range(3600) for f in (0., 0.999)]
        want = [d0 + datetime.timedelta(seconds=k) for k in range(3600) for f in (0., 0.999)]
    # the instant the program is given is the double nearest to what is meant; near a whole second that can be the next second
    keep = [i for i in range(len(inst)) if int(inst[i] // 1) == int((want[i] - EPOCH).total_seconds())]
    rec.step(len(keep))
    rc, rows = fort.run(EXE, "time %d %s\n" % (len(keep), fort.num(inst[i] for i in keep)), rec.scratch)
    got = [fort.text(t) for n, t in rows if n == "t"]
    if not rec.check(rc == 0 and len(got) == len(keep), "no-answer", "status %d, %d of %d instants" % (rc, len(got), len(keep))):
        return
    for i, g in zip(keep, got):
        w = want[i].strftime("%Y%m%dT%H%M%SZ")
        if g != w:
            rec.fail("date" if g[:8] != w[:8] else "time-of-day", "%r s since 1970 is %s; the program says %s" % (inst[i], w, g))
            break
    rec.state((spec["year"] if spec["kind"] == "year" else tuple(spec["day"]), len(keep)))
    rec.outcome((got[0], got[-1]))
    rec.count("instants", len(keep))


def vacuous(total):
    return None if total.counts.get("instants", 0) > 500000 else "too few instants"
