"""C27: the demo's matrix lists hold the variances and the banded form of every weighting matrix it is given."""

import itertools

import fort

NEEDS = {"py", "fortran"}
SCOPE = ("every sparse pattern of up to 3 rows (thorough: 4) and 4 columns with ascending or descending column indices, 0- and 1-based "
         "indices, steps 1-4; sets of up to 3 matrices; every history of up to 4 additions and removals on lists of capacity 2 (thorough: 5)")
ASSUMPTIONS = ["the column indices of a row are sorted, upwards or downwards"]
COLS = 4
ROWS = [()] + [c for n in range(1, COLS + 1) for c in itertools.combinations(range(COLS), n)]
ROWS += [r[::-1] for r in ROWS if len(r) > 1]


def setup(ctx):
    global EXE
    EXE = fort.build_driver(ctx)


def patterns(m):
    def gen(ch):
        # the last two rows are enumerated within the execution
        return {"kind": "pattern", "m": m, "rows": [ch.pick(ROWS, "row") for _ in range(m - 2)], "base": ch.pick([0, 1], "base"),
                "step": ch.pick([1, 2, 3, 4], "step"), "call": ch.pick(["ws", "w"], "call")}
    return gen


SET_ROWS = [(0,), (1, 2), (), (3, 2, 0)]


def sets(ch):
    n = ch.pick([1, 2, 3], "matrices")
    base = [ch.pick([0, 1], "base") for _ in range(n)]
    # the rows of the last matrix, and of unmixed sets the second row of the others, are enumerated within the execution
    mixed = len(set(base)) > 1
    return {"kind": "set", "m": 2, "rows": [ch.pick(SET_ROWS, "row") for _ in range(n - 1)], "base": base,
            "step": ch.pick([1] if mixed else [1, 2], "step"), "capacity": ch.pick([3, 2], "capacity")}


OPS = ["b", "d", "v", "vs 1", "vs 2", "vs 3", "w", "sw", "ws 2", "z", "rm b", "rm d", "rm v", "rm w", "rm z", "init 3", "fin"]


def histories(depth):
    def gen(ch):
        return {"kind": "history", "ops": [ch.pick(OPS, "operation") for _ in range(depth - 2)]}
    return gen


def spaces(tier):
    out = [("patterns of 2 rows", patterns(2), None), ("patterns of 3 rows", patterns(3), None)]
    if tier != "quick":
        out.append(("patterns of 4 rows", patterns(4), None))
    return out + [("sets of matrices", sets, None), ("histories", histories(4 if tier == "quick" else 5), None)]


def ws_line(mats, step, call, base=None):
    """mats: [(rows, ia, ja, a)]"""
    m = len(mats[0][0])
    if call == "w":
        _, ia, ja, a = mats[0]
        return "w %d %d %d %s %s %s" % (m, step, len(a), fort.ints(ia), fort.ints(ja), fort.num(a))
    nnz = [len(x[3]) for x in mats]
    return "ws %d %d %d %s %d %s %s %s" % (len(mats), m, step, fort.ints(nnz), sum(nnz), " ".join(fort.ints(x[1]) for x in mats),
                                           " ".join(fort.ints(x[2]) for x in mats if x[2]), " ".join(fort.num(x[3]) for x in mats if x[3]))


def run(spec, rec):
    {"pattern": run_pattern, "set": run_set, "history": run_history}[spec["kind"]](spec, rec)


def run_pattern(spec, rec):
    lines, want, n = ["init 400 1 1"], [("init", "0")], 0
    for tail in itertools.product(ROWS, repeat=2):
        rows = [tuple(r) for r in spec["rows"]] + list(tail)
        if spec["call"] == "w" and spec["base"] == 0:
            continue  # the single form takes 1-based indices only
        ia, ja, a = fort.crs(rows, spec["base"])
        lines.append(ws_line([(rows, ia, ja, a)], spec["step"], spec["call"]))
        n += 1
        want.append(("index", "1"))
        lines.append("dumpx")
        want += [("counts", "400 0 0 0 1 0")] + [("has", "0 0 0 %d 0" % (i == 1)) for i in range(32)]
        want += fort.w_rows(fort.banded(rows, a, spec["step"]))
        lines.append("rm w")
        want.append(("rm", "0"))
        rec.step()
        rec.state((rows, spec["base"], spec["step"]))
    rc, got = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    rec.check(rc == 0, "refused", "exit status %d: %s" % (rc, fort.run.stderr[-200:]))
    fort.compare(rec, got, want + [("end", "")], "pattern")
    rec.outcome(n)
    rec.count("matrices", n)


def run_set(spec, rec):
    base, cap, step = spec["base"], spec["capacity"], spec["step"]
    # a set of matrices has to agree on where its indices start
    mixed = len(set(base)) > 1
    lines, want = [], []
    for tail in ([((0,), (1, 2))] if mixed else itertools.product(SET_ROWS, repeat=2)):
        for second in ([[(1,)] * 2] if mixed else itertools.product(SET_ROWS, repeat=len(base) - 1)):
            mats, v0 = [], 1.
            for rows, s in zip([[tuple(r), x] for r, x in zip(spec["rows"], second)] + [list(tail)], base):
                mats.append((rows,) + fort.crs(rows, s, v0))
                v0 += len(mats[-1][3])
            rec.step()
            rec.state((tail, second))
            lines += ["init %d 1 1" % cap, ws_line(mats, step, "ws"), "dumpx"]
            want.append(("init", "0"))
            kept = min(cap, len(mats))
            want.append(("index", fort.ints(k + 1 if k < cap else 0 for k in range(len(mats)))))
            want += [("counts", "%d 0 0 0 %d 0" % (cap, kept))] + [("has", "0 0 0 %d 0" % (1 <= i <= kept)) for i in range(cap + 2)]
            for rows, ia, ja, a in mats[:kept]:
                want += fort.w_rows(fort.banded(rows, a, step))
            rec.count("sets")
    rc, got = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    rec.outcome((rc, mixed))
    if mixed:
        rec.check(rc != 0, "mixed-accepted", "indices that start at %r" % (base,))
        rec.check(not fort.run.crashed, "mixed-crashed", fort.run.stderr[-200:])
        return
    rec.check(rc == 0, "refused", "exit status %d: %s" % (rc, fort.run.stderr[-200:]))
    fort.compare(rec, got, want + [("end", "")], "set")


class Lists(object):
    def __init__(self):
        self.cap, self.k = 2, 0
        self.m = {x: [] for x in "bdvwz"}
        self.lines, self.want = ["init 2 1 1"], [("init", "0")]

    def add(self, kind, rows):
        if len(self.m[kind]) < self.cap:
            self.m[kind].append(rows)
            return len(self.m[kind])
        return 0

    def value(self, n):
        self.k += 1
        return [0.25 * (self.k + 10 * i) * (-1) ** i for i in range(n)]

    def op(self, op):
        kind, _, arg = op.partition(" ")
        L, W = self.lines, self.want
        sq = lambda v: fort.hex_s(x * x for x in v)  # the squares are exact in single precision
        idx = None
        if kind == "b":
            d, u = self.value(3), self.value(3)
            L.append("b 3 %s %s" % (fort.num(d), fort.num(u)))
            idx = [self.add("b", [("b", "3"), ("a", sq(d)), ("u", fort.hex_s(u))])]
        elif kind in ("d", "v"):
            d = self.value(2)
            L.append("%s 2 %s" % (kind, fort.num(d)))
            idx = [self.add(kind, [(kind, "2"), ("a", sq(d))])]
        elif kind == "vs":
            n = [2, 1, 3][:int(arg)]
            v = [self.value(x) for x in n]
            L.append("vs %d %s %s" % (len(n), fort.ints(n), " ".join(fort.num(x) for x in v)))
            idx = [self.add("v", [("v", str(len(x))), ("a", sq(x))]) for x in v]
        elif kind in ("w", "sw"):
            self.k += 1
            rows = [(0, 2), (), (3, 1)]
            ia, ja, a = fort.crs(rows, 1, self.k)
            if kind == "w":
                L.append(ws_line([(rows, ia, ja, a)], 2, "w"))
                idx = [self.add("w", fort.w_rows(fort.banded(rows, a, 2)))]
            else:
                L.append("sw 3 6 %d %s %s %s" % (len(a), fort.ints(ia), fort.ints(ja), fort.num(a)))
                idx = [self.add("w", fort.w_rows(fort.banded(rows, a, 1, 6)))]
        elif kind == "ws":
            mats = []
            for rows in ([(1,), (2, 3)], [(0, 1), (2,)]):
                self.k += 1
                mats.append((rows,) + fort.crs(rows, 0, self.k))
            L.append(ws_line(mats, 1, "ws"))
            idx = [self.add("w", fort.w_rows(fort.banded(x[0], x[3], 1))) for x in mats]
        elif kind == "z":
            v = self.value(6)
            L.append("z 3 2 " + fort.num(v))
            idx = [self.add("z", [("zm", "3 2"), ("a", fort.hex_s(v))])]
        elif kind == "rm":
            L.append(op)
            W.append(("rm", "0"))
            self.m[arg] = []
        elif kind == "init":
            L.append("init 3 1 1")
            W.append(("init", "0"))
            self.cap, self.m = 3, {x: [] for x in "bdvwz"}
        else:
            L.append("fin")
            W.append(("fin", "0"))
            self.cap, self.m = 0, {x: [] for x in "bdvwz"}
        if idx is not None:
            W.append(("index", fort.ints(idx)))
        L.append("dumpx")
        W.append(("counts", fort.ints([self.cap] + [len(self.m[x]) for x in "bdvwz"])))
        for i in range(self.cap + 2):
            W.append(("has", fort.ints(int(1 <= i <= len(self.m[x])) for x in "bdvwz")))
        for x in "bdvwz":
            for m in self.m[x]:
                W.extend(m)


def run_history(spec, rec):
    lines, want = [], []
    for tail in itertools.product(OPS, repeat=2):
        s = Lists()
        for op in list(spec["ops"]) + list(tail):
            s.op(op)
            rec.step()
        lines += s.lines
        want += s.want
        rec.state((s.want[-30:]))
        rec.count("histories")
    rc, got = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    rec.check(rc == 0, "refused", "exit status %d: %s" % (rc, fort.run.stderr[-200:]))
    rec.outcome(len(got))
    fort.compare(rec, got, want + [("end", "")], "history")


def vacuous(total):
    return None if total.counts.get("matrices", 0) > 40000 else "too few matrices"
