"""C29: the demo refuses match-up files with values that cannot be used, whatever the value, its array and its place, and no others."""

import itertools
import math
import os

import numpy as np

import fort
from checks import c28

NEEDS = {"py", "fortran"}
SCOPE = ("every unusable value (not a number, infinite, huge, zero or negative where not allowed) in every cell of every array of a file of "
         "3 match-ups, 2 and 2 columns, whether all of them are used or every other match-up, or the first columns, only; the largest values allowed; every required dimension or "
         "variable absent or of the wrong size; every "
         "array of up to 2 (thorough: 3) out of 10 values for every test of values, in both precisions, ranks and log levels")
ASSUMPTIONS = ["netCDF library"]
CELLS = {"X1": 6, "X2": 6, "Ur1": 6, "Ur2": 6, "Us1": 6, "Us2": 6, "K": 3, "Kr": 3, "Ks": 3, "time1": 3, "time2": 3, "U": 6, "W": 4}
BAD = ["nan", "inf", "-inf", "huge", "-huge", "zero", "negative", "-0", "limit", "-limit", "small"]
# what comes after the last of the values that single and double precision can square
LIMIT = {"sp": (1.8446742e19, 1.8446746e19), "dp": (1.3407807929942596e154, 1.3407807929942599e154)}
NAMES = {"U": "u_matrix_val", "W": "w_matrix_val"}
REQUIRED = ["M", "m1", "m2", "X1", "X2", "time1", "time2", "u_matrix_use1", "w_matrix_use2", "u_matrix_val", "w_matrix_val",
            "w_matrix_row", "w_matrix_col", "w_matrix_nnz", "u_matrix_row_count", "file"]
SIZES = ["X1", "X2", "Ur1", "Us2", "K", "Kr", "time1", "time2", "across_track_index1", "uncertainty_type1", "u_matrix_use1", "w_matrix_use2"]
VALUES = ["0.0", "-0.0", "1.0", "-1.0", "tiny", "limit", "-limit", "above", "-above", "inf", "-inf", "nan"]


def setup(ctx):
    global EXE
    EXE = c28.EXE = fort.build_driver(ctx)


def values(ch):
    name = ch.pick(list(CELLS), "array")
    return {"kind": "value", "array": name, "cell": ch.idx(CELLS[name], "cell"), "value": ch.pick(BAD, "value"), "level": ch.pick([4, 7], "log level"),
            "common": ch.flag("common"), "step": ch.pick([1, 2], "step"), "used": ch.pick([2, 1], "columns in use")}


def missing(ch):
    return {"kind": "missing", "name": ch.pick(REQUIRED, "absent"), "common": ch.flag("common")}


def sizes(ch):
    return {"kind": "size", "name": ch.pick(SIZES, "array"), "by": ch.pick([-1, 1], "by"), "common": ch.flag("common")}


def arrays(n):
    def gen(ch):
        # the last value is enumerated within the execution
        return {"kind": "array", "test": ch.pick(["nan", "infinite", "huge", "zero", "positive"], "test"), "type": ch.pick(["sp", "dp"], "precision"),
                "rank": ch.pick(["vector", "row", "column"], "rank"), "level": ch.pick([4, 7], "log level"),
                "first": [ch.pick(VALUES, "value") for _ in range(n - 1)]}
    return gen


def spaces(tier):
    out = [("values in files", values, None), ("absent parts", missing, None), ("wrong sizes", sizes, None), ("arrays of 1", arrays(1), None),
           ("arrays of 2", arrays(2), None)]
    return out + ([("arrays of 3", arrays(3), None)] if tier != "quick" else [])


def run(spec, rec):
    {"value": run_value, "missing": run_missing, "size": run_size, "array": run_array}[spec["kind"]](spec, rec)


def read(rec, d, common, level, write=True, step=1, used=2):
    path = os.path.join(rec.scratch, "f.nc")
    if write:
        c28.write(d, path)
    with open(os.path.join(rec.scratch, "job.nml"), "w") as f:
        f.write(c28.job(common, {}, None))
    rec.step()
    text = "config\nloglevel %d\ninit 40 2 2\nsensor 'A' 1 0 %d 0 0 0\nsensor 'B' 2 0 %d 0 0 0\nread '%s' 'pair' 1 2 %d\n" % (
        level, used, used, path, step)
    rc, rows = fort.run(EXE, text, rec.scratch)
    rec.outcome((rc, len(rows)))
    return rc, ("read", "0") in rows


def good():
    return c28.make(0, 3, 2, 2, types=[[1, 3], [2, 1]], use=c28.USES[0])


CODES = {"huge": [10], "inf": [11], "nan": [11, 12]}


def run_value(spec, rec):
    d, name, c, val = good(), spec["array"], spec["cell"], spec["value"]
    limit = LIMIT["sp"] if not name.startswith("time") else LIMIT["dp"]
    x = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "huge": limit[1], "-huge": -limit[1], "zero": 0., "negative": -2.5, "-0": -0.,
         "limit": limit[0], "-limit": -limit[0], "small": 1e-30}[val]
    if name == "U":
        d["U"][0][c] = x
    elif name == "W":
        rows, ia, ja, a = d["W"][0]
        if c >= len(a):
            return
        a[c] = x
    else:
        v = np.array(d["v"][name], float)
        v.flat[c] = x
        d["v"][name] = v
    kind = val.lstrip("-") if val not in ("-0", "-limit") else val
    bad = kind in ("nan", "inf") or kind == "huge" and not name.startswith("time")
    bad = bad or kind in ("zero", "-0") and name in ("Kr", "U", "W") or val in ("negative", "-limit") and name == "W"
    rc, done = read(rec, d, spec["common"], spec["level"], step=spec["step"], used=spec["used"])
    rec.state((name, c, val))
    if not bad:
        rec.check(done and rc == 0, "refused:" + name, "%s in %s at %d: exit status %d, %s" % (val, name, c, rc, fort.run.stdout[-200:]))
        return
    rec.count("refused")
    rec.check(rc != 0 and not done, "accepted:%s:%s" % (name, kind), "%s in %s at %d was accepted" % (val, name, c))
    # double precision values beyond the range of single precision are refused by the netCDF library
    if rc and not (rc == 1 and kind == "inf" and name[0] == "X"):
        rec.check(rc in CODES.get(kind, [14]), "status:%s:%s" % (name, kind), "exit status %d" % rc)
        rec.check("'%s'" % NAMES.get(name, name) in fort.run.stdout, "named:" + name, "the message does not name it: %s" % fort.run.stdout[-200:])


def run_missing(spec, rec):
    from netCDF4 import Dataset
    d, name = good(), spec["name"]
    path = os.path.join(rec.scratch, "f.nc")
    rec.state(name)
    if name == "file":
        if os.path.exists(path):
            os.remove(path)
    else:
        c28.write(d, path + ".0")
        with Dataset(path + ".0") as a, Dataset(path, "w") as b:
            for k, v in a.dimensions.items():
                b.createDimension(k + ("x" if k == name else ""), len(v))
            for k, v in a.variables.items():
                if k != name:
                    b.createVariable(k, v.dtype, [x + ("x" if x == name else "") for x in v.dimensions])[:] = v[:]
    rc, done = read(rec, d, spec["common"], 4, write=False)
    rec.check(rc != 0 and not done, "missing:" + name, "a file without %s was accepted" % name)
    rec.check(not fort.run.crashed, "missing-crashed:" + name, fort.run.stderr[-200:])
    rec.count("refused")


def run_size(spec, rec):
    from netCDF4 import Dataset
    d, name = good(), spec["name"]
    path = os.path.join(rec.scratch, "f.nc")
    c28.write(d, path + ".0")
    rec.state((name, spec["by"]))
    with Dataset(path + ".0") as a, Dataset(path, "w") as b:
        for k, v in a.dimensions.items():
            b.createDimension(k, len(v))
        for k, v in a.variables.items():
            if k != name:
                b.createVariable(k, v.dtype, v.dimensions)[:] = v[:]
            else:
                # the first dimension is longer or shorter than it has to be
                n = v.shape[0] + spec["by"]
                b.createDimension("other", n)
                b.createVariable(k, v.dtype, ("other",) + v.dimensions[1:])[:] = v[np.arange(n) % v.shape[0]]
    rc, done = read(rec, d, spec["common"], 4, write=False)
    rec.check(rc != 0 and not done, "size:" + name, "%s of another size was accepted" % name)
    rec.check(not fort.run.crashed, "size-crashed:" + name, fort.run.stderr[-200:])
    rec.count("refused")


def run_array(spec, rec):
    lo, hi = LIMIT[spec["type"]]
    num = {"tiny": 1e-38, "limit": lo, "-limit": -lo, "above": hi, "-above": -hi}
    fine, level = [], "loglevel %d\n" % spec["level"]
    for last in VALUES:
        v = [num.get(x, None) if x in num else float(x) for x in spec["first"] + [last]]
        n, m = {"vector": (len(v), 0), "row": (1, len(v)), "column": (len(v), 1)}[spec["rank"]]
        bad = any({"nan": math.isnan(x), "infinite": not math.isfinite(x), "huge": abs(x) >= hi, "zero": x == 0, "positive": x <= 0}[spec["test"]] for x in v)
        line = "assert %s %s %d %d %s\n" % (spec["test"], spec["type"], n, m, fort.num(v))
        rec.step()
        rec.state((v, spec["test"], spec["type"]))
        if not bad:
            fine.append(line)
            continue
        rc, rows = fort.run(EXE, level + line, rec.scratch)
        rec.outcome((rc, len(rows)))
        rec.count("refused")
        want = {"nan": 12, "infinite": 11, "huge": 10, "zero": 14, "positive": 14}[spec["test"]]
        rec.check(rc == want and not rows, "array-accepted:" + spec["test"], "%s: exit status %d instead of %d" % (line.strip(), rc, want))
    rc, rows = fort.run(EXE, level + "".join(fine), rec.scratch)
    rec.check(rc == 0 and len(rows) == len(fine) + 1, "array-refused:" + spec["test"], "exit status %d for one of %r" % (rc, fine))


def vacuous(total):
    return None if total.counts.get("refused", 0) > 1000 else "too few values were refused"
