"""C26: the demo's lists of sensors and of match-up datasets keep what was added, in order, within their capacity."""

import fort

NEEDS = {"py", "fortran"}
SCOPE = ("every history of up to 4 (thorough: 5) operations out of 15 on lists of capacity 2; every 5 (6) additions of match-ups to lists of 3, 5 and 10; every setter on every match-up followed by "
         "a comparison of everything stored; every accessor at every index")
ASSUMPTIONS = ["setters are given arrays of the right length"]

# name: (n, r, o, prior_x or None, prior_u or None)
SENSORS = {"ref": (0, 1, 0, None, None), "full": (3, 4, 6, [1.5, -2.25, 0.125], [0.5, 0.25, 2.]), "some u": (2, 2, 0, None, [0.5, 0.]),
           "some x": (1, 3, 0, [7.75], None)}
PAIRS = [(1, 2, 3, 2, 1), (2, 3, 2, 1, 1), (1, 3, 1, 1, 2), (2, 1, 2, 1, 1), (1, 1, 2, 1, 1), (0, 1, 2, 1, 1)]
OPS = (["S " + k for k in SENSORS] + ["M %d" % k for k in range(len(PAIRS))] + ["X 1", "X 2", "U 1", "I 3", "F"])
INTS = ["pi", "pj", "ui", "uj", "ic", "jc", "iv", "jv", "iw", "jw", "iz", "jz"]
SETTERS = ["ti", "tj", "hi", "hj", "vhi", "vhj", "qi", "qj"] + INTS


def setup(ctx):
    global EXE
    EXE = fort.build_driver(ctx)


def histories(depth):
    def gen(ch):
        # the last operation is enumerated within the execution
        return {"kind": "history", "ops": [ch.pick(OPS, "operation") for _ in range(depth - 1)]}
    return gen


def pairs(depth):
    def gen(ch):
        return {"kind": "pairs", "cap": ch.pick([5, 3, 10], "capacity"), "ops": ["M %d" % ch.idx(4, "match-up") for _ in range(depth - 1)]}
    return gen


def setters(ch):
    return {"kind": "setters", "set": [[ch.pick(SETTERS, "setter"), ch.pick([1, 2, 3], "match-up")] for _ in range(2)]}


def getters(ch):
    return {"kind": "get", "what": ch.pick(["i", "j", "m", "ri", "rj", "name", "sname", "sid", "sn", "sr"], "accessor"),
            "index": ch.pick([-1, 0, 1, 2, 3, 4], "index"), "count": ch.pick([0, 1, 2, 3], "count")}


def spaces(tier):
    return [("histories", histories(4 if tier == "quick" else 5), None), ("additions", pairs(5 if tier == "quick" else 6), None),
            ("setters", setters, None), ("accessors", getters, None)]


class Stop(Exception):
    pass


def run(spec, rec):
    import os
    with open(os.path.join(rec.scratch, "job.nml"), "w") as f:
        f.write("$job\n" + "".join(" config_job_sensor_configurations(%d,:) = %s\n" % (k, ", ".join(repr(v + k) for v in CONF)) for k in range(1, 5)) +
                "/\n")
    if spec["kind"] in ("history", "pairs"):
        cap = spec.get("cap", 2)
        together, bad = [], set()
        for n in range(len(spec["ops"])):
            # the shorter histories are the beginnings of these, compared at each operation's answer
            if history(spec["ops"][:n + 1], rec, cap)[2]:
                bad.add(n)
        if bad:
            execute([history(spec["ops"][:min(bad) + 1], rec, cap)], rec)
            return
        for last in OPS:
            h = history(spec["ops"] + [last], rec, cap)
            if h[2]:
                execute([h], rec)
            else:
                together.append(h)
        execute(together, rec)
    else:
        execute([other(spec, rec)], rec)


CONF = [0.25 * k - 1. for k in range(6)]


class Script(object):
    def __init__(self, cap):
        self.md, self.lines, self.want, self.count = fort.Lists(cap), ["config", "init 1 %d %d" % (cap, cap)], [("config", "0"), ("init", "0")], 0

    def sensor(self, key):
        md = self.md
        self.count += 1
        n, r, o, px, pu = SENSORS[key]
        name = "%s %d" % (key, self.count)
        self.lines.append("sensor '%s' %d %d %d %d %d %d %s" % (name, 100 + self.count, n, r, o, px is not None, pu is not None,
                                                                fort.num((px or [0.] * n) + (pu or [0.] * n))))
        k = 0
        if len(md.sensors) < md.cap:
            k = len(md.sensors) + 1
            y = [v + k for v in CONF] if o else [0., 1.] * n
            md.sensors.append([name, 100 + self.count, n, r, o or 2 * n, y, list(px or [0.] * n), list(pu or [0.] * n)])
        self.want.append(("index", str(k)))

    def matchup(self, k):
        i, j, m, ri, rj = PAIRS[k]
        self.count += 1
        name, uuid = "pair %d" % self.count, "" if self.count % 2 else ("uuid-%032d" % self.count)[:36]
        self.lines.append("matchup '%s' %d %d %d %d %d %s" % (name, i, j, m, ri, rj, uuid or "-"))
        self.want.append(("index", str(self.md.matchup(i, j, m, ri, rj, name, uuid))))

    def done(self, stop):
        if not stop:
            self.lines += ["dumps", "dumpm"]
            self.want += self.md.dump()
        return self.lines, self.want, stop


def history(ops, rec, cap):
    s = Script(cap)
    for op in ops:
        kind, _, arg = op.partition(" ")
        rec.step()
        if kind == "S":
            s.sensor(arg)
        elif kind == "M":
            s.matchup(int(arg))
        elif kind in "XU":
            i = int(arg)
            ok = i <= len(s.md.sensors)
            n = s.md.sensors[i - 1][2] if ok else 1
            v = [0.5 * (k + 1) - (kind == "U") * 1. for k in range(n)]
            s.lines.append("prior %s %d %d %s" % (kind.lower(), i, n, fort.num(v)))
            if not ok:
                return s.done(True)
            s.md.sensors[i - 1][6 if kind == "X" else 7] = v
            s.want.append(("prior", fort.hex_d(v) if kind == "X" else
                           fort.hex_d((v[a] ** 2 if v[a] > 0 else 0.) if a == b else 0. for b in range(n) for a in range(n))))
        elif kind == "I":
            s.lines.append("init 1 3 3")
            s.want.append(("init", "0"))
            s.md = fort.Lists(3)
        else:
            s.lines.append("fin")
            s.want.append(("fin", "0"))
            s.md = fort.Lists(0)
    return s.done(False)


def other(spec, rec):
    s = Script(3)
    if spec["kind"] == "setters":
        for k in (0, 1, 2):
            s.matchup(k)
        for step, (what, k) in enumerate(spec["set"]):
            q = s.md.matchups[k - 1]
            rec.step()
            n = 1 if what in ("iz", "jz") else len(q[what])
            v = [step * 100 + k * 10 + a + (0.5 if what not in INTS else 0) for a in range(n)]
            s.lines.append("set %s %d %d %s" % (what, k, n, fort.num(v)))
            q[what] = v[0] if what in ("iz", "jz") else v
            if what in ("ti", "tj"):
                s.want.append(("got", fort.hex_d(v)))
            s.want.append(("set", "0"))
        return s.done(False)
    for k in range(spec["count"]):
        s.matchup(k)
        s.sensor(list(SENSORS)[k])
    rec.step()
    k, what = spec["index"], spec["what"]
    s.lines.append("get %s %d" % (what, k))
    lst = s.md.sensors if what in ("sname", "sid", "sn", "sr") else s.md.matchups
    if not 1 <= k <= len(lst):
        return s.done(True)
    q = lst[k - 1]
    if what == "name":
        s.want.append(("got", q["name"] + "|"))
    elif isinstance(q, dict):
        s.want.append(("got", str(q[what])))
    else:
        s.want.append(("got", {"sname": q[0] + "|", "sid": str(q[1]), "sn": str(q[2]), "sr": str(q[3])}[what]))
    return s.done(False)


def execute(scripts, rec):
    """Histories that are to be refused are run alone, the others one after the other in the same process."""
    lines = [x for s in scripts for x in s[0]]
    want = [x for s in scripts for x in s[1]] + ([] if scripts[-1][2] else [("end", "")])
    stop = scripts[-1][2]
    rc, rows = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    for s in scripts:
        rec.state((s[2], s[1][-60:]))
        rec.count("histories")
    rec.outcome((rc, len(rows)))
    rec.check((rc != 0) == stop, "not-refused" if stop else "refused", "exit status %d after %r" % (rc, lines))
    rec.check(not fort.run.crashed, "crashed", fort.run.stderr[-200:])
    if rows != want:
        for g, w in zip(rows + [None] * len(want), want):
            if g != w:
                rec.fail("list:" + w[0], "expected %r, got %r" % (w, g))
                break
        else:
            rec.fail("list:more", "unexpected %r" % (rows[len(want)],))
