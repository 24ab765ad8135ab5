"""C28: the demo reads match-up files completely, with the errors of the columns that are used, thinned by the sampling step."""

import itertools
import multiprocessing
import os

import numpy as np
from netCDF4 import Dataset

import fort
from core import Pruned

NEEDS = {"py", "fortran"}
SCOPE = ("up to 4 match-ups, 3 columns per sensor, steps 1-4 (thorough: 5); every error type of every column with every selection of columns in "
         "use, with and without common errors; every optional variable absent; single and double precision; every order of up to 3 of 5 "
         "files for one to three sensor pairs")
ASSUMPTIONS = ["structured columns name a weighting matrix and an uncertainty vector that exist", "netCDF library"]
OPTIONAL = ["Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2", "K", "Kr", "Ks", "across_track_index1",
            "across_track_index2", "uuid"]
UUID = "0f0e0d0c-1111-2222-3333-%012d"
PATTERNS = [[(0,), (1, 2), (), (0, 3)], [(0, 1), (1, 2), (2, 3), (3, 4)], [(2,), (), (0,), (1,)], [(), (1,), (3, 5), (5,)]]


def setup(ctx):
    global EXE, FILES
    EXE, FILES = fort.build_driver(ctx), os.path.join(ctx.scratch, "files")
    os.mkdir(FILES)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        pool.map(store, SEQUENCE + [typed(t1, t2, u) for t1 in TYPES for t2 in TYPES for u in range(4)], 50)


# ------------------------------------------------------------------------------------------------------------- the files

def make(n, m, m1, m2, types=None, use=None, absent=(), xtype="f8", utype="f4", nu=1, nw=1, base=0):
    """File number n: every number in it is different, and such that its square is exact in single precision."""
    def arr(code, *shape):
        return (np.arange(int(np.prod(shape))).reshape(shape) + 40. * code + 400. * n + 1.) / 8.
    d = {"n": n, "m": m, "m1": m1, "m2": m2, "absent": list(absent), "xtype": xtype, "utype": utype, "v": {}}
    v = d["v"]
    # numbers which single precision has to round
    v["X1"], v["X2"] = arr(0, m, m1) / 3., arr(1, m, m2) / 7.
    v["Ur1"], v["Ur2"], v["Us1"], v["Us2"] = arr(2, m, m1), arr(3, m, m2), arr(4, m, m1), arr(5, m, m2)
    v["K"], v["Kr"], v["Ks"] = arr(6, m) - 100., arr(7, m), arr(8, m)
    t = 86400. * (4000 + 9 * n) + 777.125 * np.arange(m)
    v["time1"], v["time2"] = t, t + 60.5
    v["across_track_index1"], v["across_track_index2"] = 10 * np.arange(m) + n + 1, 100 - 3 * np.arange(m) + n
    types = types or [[1] * m1, [1] * m2]
    v["uncertainty_type1"], v["uncertainty_type2"] = types
    d["uuid"] = UUID % n
    if use:
        d["W"] = []
        v0 = 1. + n
        for k in range(nw):
            rows = PATTERNS[(k + n) % len(PATTERNS)][:m]
            d["W"].append((rows,) + fort.crs(rows, base, v0))
            v0 += 10.
        d["U"] = [arr(9, 6 + k) + k for k in range(nu)]
        v["u_matrix_use1"], v["u_matrix_use2"], v["w_matrix_use1"], v["w_matrix_use2"] = use
    return d


def write(d, path):
    with Dataset(path, "w", format=d.get("format", "NETCDF4")) as ds:
        if "uuid" not in d["absent"]:
            ds.matchup_dataset_uuid = d["uuid"]
        for k, n in (("M", d["m"]), ("m1", d["m1"]), ("m2", d["m2"])):
            ds.createDimension(k, n)
        dims = {"X": 2, "U": 2, "u": 1, "w": 1}

        def put(name, values, dim, dtype):
            if name not in d["absent"]:
                ds.createVariable(name, dtype, dim)[:] = values
        for name, values in d["v"].items():
            col = "m" + name[-1]
            if name[0] in "XU":
                put(name, values, ("M", col), d["xtype"] if name[0] == "X" else d["utype"])
            elif name[0] in "uw":
                put(name, values, (col,), "i4")
            else:
                put(name, values, ("M",), "f8" if name[0] == "t" else "i4" if name[0] == "a" else d["utype"])
        if "W" in d:
            nnz = [len(w[3]) for w in d["W"]]
            for k, n in (("w_matrix_count", len(nnz)), ("w_matrix_row_count", d["m"] + 1), ("w_matrix_nnz_sum", sum(nnz)),
                         ("u_matrix_count", len(d["U"])), ("u_matrix_row_count_sum", sum(len(u) for u in d["U"]))):
                ds.createDimension(k, n)
            put("w_matrix_nnz", nnz, ("w_matrix_count",), "i4")
            put("w_matrix_row", [w[1] for w in d["W"]], ("w_matrix_count", "w_matrix_row_count"), "i4")
            put("w_matrix_col", [c for w in d["W"] for c in w[2]], ("w_matrix_nnz_sum",), "i4")
            put("w_matrix_val", [c for w in d["W"] for c in w[3]], ("w_matrix_nnz_sum",), d["utype"])
            put("u_matrix_row_count", [len(u) for u in d["U"]], ("u_matrix_count",), "i4")
            put("u_matrix_val", np.concatenate(d["U"]), ("u_matrix_row_count_sum",), d["utype"])


def store(d):
    path = os.path.join(FILES, d["name"] + ".nc")
    if not os.path.exists(path):
        write(d, path)
    return path


TYPES = [list(t) for t in itertools.product([1, 2, 3, 4, 0], repeat=2)]
USES = [([1, 1], [1, 1], [1, 1], [1, 1]), ([1, 2], [2, 1], [2, 1], [1, 2]), ([2, 2], [1, 1], [1, 2], [2, 2]), ([2, 1], [2, 2], [2, 2], [1, 1])]


def typed(t1, t2, use):
    two = 2 if use else 1
    n = TYPES.index(t2)
    d = make(n, 4, 2, 2, types=[t1, t2], use=USES[use], nu=two, nw=two, base=n % 2)
    d["format"] = "NETCDF3_CLASSIC"
    d["name"] = "t%d%d-%d%d-%d" % (tuple(t1) + tuple(t2) + (use,))
    return d


SEQUENCE = [make(0, 3, 2, 2, types=[[1, 3], [2, 1]], use=USES[0]), make(1, 4, 2, 3, types=[[2, 2], [1, 1, 1]]),
            make(2, 2, 2, 2, types=[[3, 4], [3, 1]], use=USES[1], nu=2, nw=2, base=1), make(3, 1, 3, 2, types=[[0, 1, 1], [0, 2]]),
            make(4, 4, 2, 2, types=[[4, 1], [1, 3]], use=USES[2], nu=2, nw=2)]
for _k, _d in enumerate(SEQUENCE):
    _d["name"] = "s%d" % _k


# ------------------------------------------------------------------------------------------------------------- the model

class Model(object):
    """What the lists have to hold after reading files."""

    def __init__(self, cap, matrices, sensors, common, columns):
        self.lists, self.cap, self.common, self.columns = fort.Lists(cap), matrices, common, columns
        self.r = [r for _, r in sensors]
        self.b, self.d, self.v, self.w = [], [], [], []

    def add(self, which, row):
        if len(which) >= self.cap:
            raise Refused()
        which.append(row)
        return len(which)

    def read(self, d, i, j, s):
        m, v = d["m"], d["v"]
        keep = slice(0, m, s)
        got = lambda name, default: default if name in d["absent"] else np.asarray(v[name])
        ri, rj = self.r[i - 1], self.r[j - 1]
        k = self.lists.matchup(i, j, -(-m // s), ri, rj, "pair", "" if "uuid" in d["absent"] else d["uuid"])
        if k == 0:
            raise Refused()
        q = self.lists.matchups[-1]
        vs, ws = [], []
        if "W" in d:
            for u in d["U"]:
                vs.append(self.add(self.v, [("v", str(len(u))), ("a", fort.hex_s(u * u))]))
            for rows, ia, ja, a in d["W"]:
                ws.append(self.add(self.w, fort.w_rows(fort.banded(rows, a, s))))
        for side, n, r, sensor, keys in (("1", d["m1"], ri, i, ("qi", "ui", "ic", "iv", "iw")), ("2", d["m2"], rj, j, ("qj", "uj", "jc", "jv", "jw"))):
            x, ur, us = np.asarray(v["X" + side]), got("Ur" + side, np.zeros((m, n))), got("Us" + side, np.zeros((m, n)))
            types = got("uncertainty_type" + side, [1] * n)
            columns = (self.columns.get(sensor) or range(1, r + 1))[:r]
            qs = []
            for l, c in enumerate(columns):
                if c > n:
                    # the common uncertainty of a column serves as data
                    qs.append(us[keep, c - 1 - n])
                    continue
                qs.append(x[keep, c - 1])
                t = int(types[c - 1])
                if t == 2 and self.common:
                    q[keys[2]][l] = self.add(self.b, [("b", str(q["m"])), ("a", fort.hex_s(ur[keep, c - 1] ** 2)), ("u", fort.hex_s(us[keep, c - 1]))])
                elif t in (1, 2):
                    t = 1
                    q[keys[2]][l] = self.add(self.d, [("d", str(q["m"])), ("a", fort.hex_s(ur[keep, c - 1] ** 2))])
                elif t in (3, 4):
                    t = 3
                    q[keys[3]][l] = vs[v["u_matrix_use" + side][c - 1] - 1]
                    q[keys[4]][l] = ws[v["w_matrix_use" + side][c - 1] - 1]
                q[keys[1]][l] = t
            q[keys[0]] = np.concatenate(qs)
        kr, ks = got("Kr", np.ones(m)), got("Ks", np.zeros(m))
        q["hj"], q["vhj"] = got("K", np.zeros(m))[keep], (kr * kr + ks * ks)[keep]
        q["ti"], q["tj"] = v["time1"][keep], v["time2"][keep]
        q["pi"], q["pj"] = got("across_track_index1", np.zeros(m, int))[keep], got("across_track_index2", np.zeros(m, int))[keep]

    def dump(self):
        out = self.lists.dump()[1:]
        out += [("counts", fort.ints([self.cap, len(self.b), len(self.d), len(self.v), len(self.w), 0]))]
        out += [("has", fort.ints(1 <= i <= len(x) for x in (self.b, self.d, self.v, self.w, []))) for i in range(min(self.cap + 2, 32))]
        return out + [row for x in (self.b, self.d, self.v, self.w) for m in x for row in m]


class Refused(Exception):
    pass


# ----------------------------------------------------------------------------------------------------------- the choices

def shapes(ch):
    return {"kind": "shapes", "m1": ch.pick([1, 2, 3], "m1"), "m2": ch.pick([1, 2, 3], "m2"), "r": [ch.pick([1, 2, 3], "columns in use") for _ in range(2)],
            "common": ch.flag("common"), "xtype": ch.pick(["f8", "f4"], "type"), "m": ch.pick([4, 1, 2, 3], "match-ups")}


def optional(ch):
    return {"kind": "optional", "common": ch.flag("common"), "utype": ch.pick(["f4", "f8"], "type"), "s": ch.pick([1, 2], "step"),
            "first": ch.pick([None] + OPTIONAL, "absent")}


SELECT = [None, [2, 1], [1, 3], [4, 2], [3, 4], [2, 2], [1]]


def types(deep):
    def gen(ch):
        return {"kind": "types", "t1": [ch.pick([1, 2, 3, 4, 0], "type") for _ in range(2)], "select": [ch.pick(SELECT, "columns") for _ in range(2)],
                "common": ch.flag("common"), "s": ch.pick([1, 2, 3] if deep else [2], "step"), "use": ch.pick([0, 1, 2, 3], "matrices")}
    return gen


def sequences(deep):
    def gen(ch):
        n = ch.pick([0, 1, 2, 3] if deep else [0, 1, 2], "files before the last")
        reads = [[ch.pick([0, 1, 2, 3, 4], "file"), ch.pick(PAIRS, "pair")] for _ in range(n)]
        if len(set(tuple(p) for _, p in reads)) < n:
            raise Pruned()
        return {"kind": "sequence", "reads": reads, "s": ch.pick([2, 1], "step"), "capacity": ch.pick([40, 5, 3], "capacity")}
    return gen


def spaces(tier):
    deep = tier != "quick"
    return [("shapes", shapes, None), ("optional variables", optional, None), ("error types", types(deep), None if deep else 4),
            ("sequences of files", sequences(deep), None)]


def job(common, columns, r):
    t = ["$job", "config_job_enable_covariance_common = %s" % ("T" if common else "F")]
    for k, c in columns.items():
        if c:
            t += ["config_job_sensor_columns(%d,:) = %s" % (k, ", ".join(map(str, c))), "config_job_sensor_columns_select(%d) = T" % k]
    return "\n".join(t) + "\n/\n"


def execute(rec, groups, r, common, columns, matrices, key):
    """Each group is a list of (file, i, j, step) to be read into empty lists."""
    with open(os.path.join(rec.scratch, "job.nml"), "w") as f:
        f.write(job(common, columns, r))
    lines, want, stop, written = ["config"], [("config", "0")], False, []
    for group in groups:
        lines.append("init %d %d %d" % (matrices, len(r), 4))
        want.append(("init", "0"))
        for k in range(len(r)):
            lines.append("sensor 'S%d' %d 0 %d 0 0 0" % (k + 1, k, r[k]))
            want.append(("index", str(k + 1)))
        md = Model(4, matrices, [(0, x) for x in r], common, columns)
        for d, i, j, s in group:
            if "name" in d:
                path = store(d)
            else:
                path = os.path.join(rec.scratch, "f%d.nc" % d["n"])
                if not any(d is x for x in written):
                    write(d, path)
                    written.append(d)
            lines.append("read '%s' 'pair' %d %d %d" % (path, i, j, s))
            lines += ["dumpm", "dumpx"]
            rec.step()
            try:
                if r[i - 1] > d["m1"] * (1 if common else 2) or r[j - 1] > d["m2"] * (1 if common else 2):
                    raise Refused()
                md.read(d, i, j, s)
            except Refused:
                stop = True
                break
            want.append(("read", "0"))
            want += md.dump()
            rec.state((want[-12:],))
        if stop:
            break
    rc, rows = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    rec.outcome((rc, len(rows)))
    rec.count("reads", len(want))
    if stop:
        rec.check(rc != 0, key + ":accepted", "what does not fit was read without complaint")
        rec.check(not fort.run.crashed, key + ":crashed", fort.run.stderr[-200:])
        fort.compare(rec, rows, want, key)
        return
    rec.check(rc == 0, key + ":refused", "exit status %d: %s" % (rc, fort.run.stderr[-300:]))
    fort.compare(rec, rows, want + [("end", "")], key)


def run(spec, rec):
    {"shapes": run_shapes, "optional": run_optional, "types": run_types, "sequence": run_sequence}[spec["kind"]](spec, rec)


def run_shapes(spec, rec):
    m1, m2, r = spec["m1"], spec["m2"], spec["r"]
    d = make(0, spec["m"], m1, m2, xtype=spec["xtype"])
    execute(rec, [[(d, 1, 2, s)] for s in (1, 2, 3, 4, 5)], r, spec["common"], {}, 40, "shapes")


def run_optional(spec, rec):
    first = [spec["first"]] if spec["first"] else []
    groups = []
    more = [[]] + [[k] for k in OPTIONAL] + [list(OPTIONAL)] if first else [[]]
    for n, extra in enumerate(more):
        absent = sorted(set(first + extra))
        d = make(n, 3, 2, 2, types=[[1, 2], [2, 0]], absent=absent, utype=spec["utype"])
        groups.append([(d, 1, 2, spec["s"])])
    execute(rec, groups, [2, 2], spec["common"], {}, 40, "optional")


def run_types(spec, rec):
    cols = {1: spec["select"][0], 2: spec["select"][1]}
    if spec["common"] and any(c and max(c) > 2 for c in cols.values()):
        return
    r = [len(c) if c else 2 for c in (cols[1], cols[2])]
    execute(rec, [[(typed(spec["t1"], t2, spec["use"]), 1, 2, spec["s"])] for t2 in TYPES], r, spec["common"], cols, 40, "types")


PAIRS = [[1, 2], [2, 3], [1, 3]]


def run_sequence(spec, rec):
    # the last file is enumerated within the execution
    reads = [(SEQUENCE[k], i, j, spec["s"]) for k, (i, j) in spec["reads"]]
    together = []
    for k in range(len(SEQUENCE)):
        for i, j in PAIRS:
            group = reads + [(SEQUENCE[k], i, j, spec["s"])]
            md = Model(4, spec["capacity"], [(0, 2)] * 3, True, {})
            try:
                for x in group:
                    md.read(*x)
                together.append(group)
            except Refused:
                if spec["s"] == 2:
                    execute(rec, [group], [2, 2, 2], True, {}, spec["capacity"], "sequence")
    if together:
        execute(rec, together, [2, 2, 2], True, {}, spec["capacity"], "sequence")


def vacuous(total):
    return None if total.counts.get("reads", 0) > 20000 else "too few files were read"
