"""C16: results of harmonisations that are saved and opened again, in every order, together with their residuals."""

import itertools
import os
import shutil

import numpy as np
from netCDF4 import Dataset, chartostring

import support as S
from checks import c01

NEEDS = {"py"}
SCOPE = ("results of 1-3 and 12 series with every pairing of up to 4 sensors (also twice the same pair), 1-3 covariates, with and without data "
         "residuals, cost statistics, additional variables and attributes; histories of up to 3 (thorough 4) operations that save to two "
         "files, open them by file or directory, or change the result; names of results and of other files, and all listing orders")
ASSUMPTIONS = ["residual files that an earlier save left behind under the same name are not removed by one that writes none",
               "a result without an index of residuals is saved without residuals"]
ORDER = [None]


def setup(ctx):
    real = os.listdir

    def listdir(path="."):
        names = sorted(real(path))
        if ORDER[0] is not None:
            perms = list(itertools.permutations(names))
            return list(perms[ORDER[0] % len(perms)])
        return names
    os.listdir = listdir
    global HR
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult as HR


NAMES = ["m02", "m02_b", "m0", "02"]
STEMS = [["harm_FO_1.nc", "harm_FO_1_b.nc"], ["harm.nc", "harmres.nc"], ["harm_lowres_3.nc", "harm_3_res.nc"]]


def topology(ch, n, maxm):
    files = c01.topology(ch, n, maxm)
    for k, f in enumerate(files):
        f["M"] = [2, 3, 1][k]
        f["s"] = [NAMES[S.NAMES.index(x)] for x in f["s"]]
    return files


def shapes(ch):
    """One round trip of everything."""
    n = ch.pick([1, 2, 3], "series")
    files = topology(ch, n, 3 if n < 3 else 2)
    return {"files": files, "res": True, "stats": True, "ops": [["save", 0, True], ["alter"], ["open", ch.pick(["dir", 0], "how"), True]]}


def many(ch):
    files = S.many(ch, ch.pick([12, 3], "series"), (2, 3, 1))
    return {"files": files, "res": ch.flag("data residuals"), "stats": True, "stem": ch.idx(3, "names"),
            "ops": [["save", 0, True], ["alter"], ["open", ch.pick(["dir", 0], "how"), True]]}


def contents(ch):
    files = [{"s": ["m02", "7"], "m": [1, 2], "M": 2}, {"s": ["7", "aatsr"], "m": [2, 1], "M": 3}]
    return {"files": files, "res": ch.flag("data residuals"), "stats": ch.flag("statistics"), "vars": ch.idx(8, "additional variables"),
            "attrs": ch.idx(6, "attributes"), "stem": ch.idx(3, "names"), "n": ch.pick([3, 1], "parameters"),
            "labels": ch.idx(3, "names of the sensors of parameters"), "more": ch.pick([None, "parameter_start", "empty"], "another variable"),
            "ops": [["save", 0, True], ["alter"], ["open", ch.pick([0, "dir"], "how"), True], ["save", 1, True], ["alter"],
                    ["open", ch.pick([1, "dir"], "how"), True]]}


def history(depth):
    def gen(ch):
        files = [{"s": ["m02", "7"], "m": [2, 1], "M": 2}, {"s": ["7", "aatsr"], "m": [1, 1], "M": 1}]
        spec = {"files": files, "res": True, "stats": True, "vars": ch.pick([3, 0], "additional variables"), "ops": []}
        for _ in range(depth):
            spec["ops"].append(ch.pick([["save", s, r] for s in (0, 1) for r in (True, False)] +
                                       [["open", h, r] for h in (0, 1, "dir") for r in (True, False)] + [["alter"]], "operation"))
        return spec
    return gen


def naming(ch):
    files = [{"s": ["m02", "7"], "m": [1, 2], "M": 2}, {"s": ["7", "aatsr"], "m": [2, 1], "M": 3}]
    others = ["harm_notes.txt", "harm_x.nc.part", "harmful", "res_harm_1.nc.txt", "data.nc"]
    mask = ch.idx(1 << len(others), "other files")
    spec = {"files": files, "res": True, "stats": True, "stem": ch.idx(3, "names"),
            "other": [o for i, o in enumerate(others) if mask >> i & 1],
            "ops": [["save", 0, True], ["open", ch.pick(["dir", 0], "how"), True]]}
    if bin(mask).count("1") <= 1:
        # the two residual files and the result, and the other file
        spec["listing"] = ch.idx(24 if mask else 6, "listing order")
    return spec


def spaces(tier):
    return [("12 series", many, None), ("shapes", shapes, None), ("contents", contents, 3 if tier == "quick" else None), ("names", naming, None),
            ("histories", history(4 if tier == "thorough" else 3), None)]


LABELS = [["7", "aatsr", "m02"], ["met op a", "m  02", "a b c"], ["n" * 80, "n" * 79 + "m", "MetOp-A_AVHRR_3_channel_4"]]


def model(spec):
    """The content of a result: by name, and residuals by series (pair of sensors, occurrence), side and covariate."""
    n = spec.get("n", 3)
    r = {"parameter": np.arange(n) * 1.5 - 1 / 3., "sensors": LABELS[spec.get("labels", 0)][:n],
         "cov": np.arange(n * n, dtype=float).reshape(n, n) / 7 + np.eye(n)}
    r["stats"] = (12.125, 31, 0.1) if spec["stats"] else (None, None, None)
    mask = spec.get("vars", 0)
    r["vars"] = {}
    if mask & 1:
        r["vars"]["systematic_errors"] = {"data": np.array([0.5, -0.25, 8.]), "dim": "s", "dtype": "f4", "Description": "Fitted"}
    if mask & 2:
        r["vars"]["systematic_error_sensors"] = {"data": ["m02", "7", "a longer name"], "dim": "s", "dtype": "S1"}
    if mask & 4:
        r["vars"]["table"] = {"data": np.arange(8.).reshape(2, 4) / 3, "dim": ("row", "column"), "dtype": "f8", "Description": "T"}
    if spec.get("more") == "parameter_start":
        r["vars"]["parameter_start"] = {"data": np.arange(n) / 7., "dim": "n", "dtype": "f8", "Description": "Start"}
    if spec.get("more") == "empty":
        r["vars"]["table_of_none"] = {"data": np.zeros((0, 2)), "dim": ("none", "pair"), "dtype": "f8"}
    r["attrs"] = [{}, {"software": "FO", "software_version": "3.1"}, {"factor": 0.25, "job": "01"}, {"a_cost": 3},
                  {"cost_function": "least squares", "cost_dof_of_prior": 4}, {"costs": 0.5, "p_value": "x", "dof": 2}][spec.get("attrs", 1)]
    series, count = [], {}
    for k, f in enumerate(spec["files"]):
        key = tuple(f["s"])
        count[key] = count.get(key, 0) + 1
        base = 100. * (k + 1)
        series.append({"key": key + (count[key],), "m": f["m"], "M": f["M"],
                       "X": [[base + 20 * side + 5 * c + np.arange(f["M"]) + 1 / 3. for c in range(f["m"][side])] for side in (0, 1)],
                       "k": -base - np.arange(f["M"]) / 3.})
    r["series"], r["X"] = series, spec["res"]
    return r


def to_result(r, spec):
    h = HR()
    idx, blocks = S.layout(spec["files"])
    h.parameter, h.parameter_sensors, h.parameter_covariance_matrix = r["parameter"].copy(), list(r["sensors"]), r["cov"].copy()
    h.cost, h.cost_dof, h.cost_p_value = r["stats"]
    h.idx = idx
    if r["X"]:
        h.values_res = np.zeros(idx["idx"][-1])
        for b, (s, k, cov, side) in enumerate(blocks):
            h.values_res[idx["idx"][b]:idx["idx"][b + 1]] = r["series"][k - 1]["X"][side][cov - 1]
    h.ks_res = np.concatenate([x["k"] for x in r["series"]])
    h.additional_attributes = dict(r["attrs"])
    h.additional_variables = {v: {k: (x.copy() if hasattr(x, "copy") else x) for k, x in d.items()} for v, d in r["vars"].items()}
    return h


def compare(h, r, rec, when):
    """The result in memory against the model (only through its documented attributes)."""
    def chk(c, key, msg):
        return rec.check(c, key, "%s: %s" % (when, msg))
    chk(S.eq(h.parameter, r["parameter"]), "parameter", "parameters %r, not %r" % (h.parameter, r["parameter"]))
    chk([str(x) for x in h.parameter_sensors] == r["sensors"], "sensors", "sensors %r, not %r" % (h.parameter_sensors, r["sensors"]))
    chk(S.eq(h.parameter_covariance_matrix, r["cov"]), "covariance", "covariance %r" % (h.parameter_covariance_matrix,))
    got = (h.cost, h.cost_dof, h.cost_p_value)
    chk(all((a is None) == (b is None) and (a is None or a == b) for a, b in zip(got, r["stats"])), "statistics",
        "cost, degrees of freedom, probability %r, not %r" % (got, r["stats"]))
    chk({k: (str(v) if isinstance(v, str) else float(v)) for k, v in h.additional_attributes.items()} == r["attrs"], "attributes",
        "attributes %r, not %r" % (h.additional_attributes, r["attrs"]))
    chk(sorted(h.additional_variables) == sorted(r["vars"]), "variables", "variables %r" % (sorted(h.additional_variables),))
    for v, d in r["vars"].items():
        g = h.additional_variables.get(v)
        if g is None:
            continue
        if d["dtype"] == "S1":
            chk([str(x) for x in g["data"]] == d["data"], "variables", "%s is %r" % (v, g["data"]))
        else:
            chk(S.eq(g["data"], d["data"]), "variables", "%s is %r, not %r" % (v, g["data"], d["data"]))
        chk(g.get("Description") == d.get("Description"), "variables", "description of %s is %r" % (v, g.get("Description")))
    if r["series"] is None:
        chk(h.values_res is None and h.ks_res is None, "residuals", "residuals though none were opened")
        return
    if not chk(h.ks_res is not None and h.idx is not None, "residuals", "no residuals"):
        return
    names = [str(s) for s in h.idx["sensors"]]
    want = {x["key"]: x for x in r["series"]}
    count, place = {}, {}
    for k, pair in enumerate(h.idx["Im"]):
        key = tuple(names[s] for s in pair)
        count[key] = count.get(key, 0) + 1
        place[k] = key + (count[key],)
    if not chk(sorted(place.values()) == sorted(want), "series", "series %r, not %r" % (sorted(place.values()), sorted(want))):
        return
    chk(sorted(names) == sorted({s for k in want for s in k[:2]}), "series", "sensors of the series %r" % (names,))
    for k, key in place.items():
        x = want[key]
        chk(h.idx["Nm"][k] == x["M"] and h.idx["cNm"][k + 1] - h.idx["cNm"][k] == x["M"], "series", "size of series %r" % (key,))
        g = h.ks_res[h.idx["cNm"][k]:h.idx["cNm"][k + 1]]
        chk(S.eq(g, x["k"]), "k_res", "residuals of the adjustment factors of %r are %r, not %r" % (key, g, x["k"]))
        rec.step()
    chk(len(h.ks_res) == h.idx["cNm"][-1], "k_res", "%d residuals of adjustment factors" % len(h.ks_res))
    if not r["X"]:
        chk(h.values_res is None, "values_res", "data residuals though there are none")
        return
    if not chk(h.values_res is not None, "values_res", "no data residuals"):
        return
    seen = []
    for b, (s, k, cov) in enumerate(zip(h.idx["n_sensor"], h.idx["n_mu"], h.idx["n_cov"])):
        key = place[k - 1]
        side = list(h.idx["Im"][k - 1]).index(s)
        seen.append((key, side, cov))
        g = h.values_res[h.idx["idx"][b]:h.idx["idx"][b + 1]]
        if cov <= want[key]["m"][side]:
            w = want[key]["X"][side][cov - 1]
            chk(S.eq(g, w), "values_res", "residuals of covariate %d of sensor %s in %r are %r, not %r" % (cov, names[s], key, g, w))
        rec.step()
    exp = sorted((x["key"], side, c) for x in r["series"] for side in (0, 1) for c in range(1, x["m"][side] + 1))
    chk(sorted(seen) == exp, "values_res", "blocks %r, not %r" % (sorted(seen), exp))
    chk(len(h.values_res) == h.idx["idx"][-1], "values_res", "%d data residuals" % len(h.values_res))


def on_disk(d, stem, r, residuals, rec):
    """The files that a save wrote, read by an independent reader."""
    with Dataset(os.path.join(d, stem)) as f:
        rec.check(S.eq(f["parameter"][:], r["parameter"]) and S.eq(f["parameter_covariance_matrix"][:], r["cov"]), "file",
                  "parameters in %s" % stem)
        rec.check([s.strip() for s in chartostring(f["parameter_sensors"][:])] == r["sensors"], "file", "sensors in %s" % stem)
        for a, v in zip(("cost", "cost_dof", "cost_p_value"), r["stats"]):
            rec.check(getattr(f, a, None) == v, "file", "%s in %s is %r" % (a, stem, getattr(f, a, None)))
        for a, v in r["attrs"].items():
            rec.check(getattr(f, a, None) == v, "file", "attribute %s in %s" % (a, stem))
    if not residuals:
        return
    found = []
    for name in sorted(os.listdir(d)):
        if name.startswith(stem[:-3] + "_res_") and name.endswith(".nc"):
            with Dataset(os.path.join(d, name)) as f:
                k = f["k_res"][:].tolist()
                X = [np.asarray(f["X%d_res" % i][:]).T.tolist() for i in (1, 2)] if "X1_res" in f.variables else None
                found.append(repr((f.sensor_1_name, f.sensor_2_name, k, X)))
    want = [repr((x["key"][0], x["key"][1], x["k"].tolist(), [[c.tolist() for c in y] for y in x["X"]] if r["X"] else None))
            for x in r["series"]]
    rec.check(sorted(found) == sorted(want), "file", "residual files of %s hold %r, not %r" % (stem, sorted(found), sorted(want)))


def run(spec, rec):
    d = os.path.join(rec.scratch, "r")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for o in spec.get("other", []):
        with open(os.path.join(d, o), "w") as f:
            f.write("x")
    stems = STEMS[spec.get("stem", 0)]
    if "other" in spec:
        stems = stems[::-1][:1] * 2
    ORDER[0] = None
    cur = model(spec)
    h = to_result(cur, spec)
    disk, res = {}, {}
    version = 0
    for op in spec["ops"]:
        rec.step()
        if op[0] == "alter":
            version += 1
            cur = dict(cur, parameter=cur["parameter"] + 1)
            h.parameter = h.parameter + 1
            if cur["series"] is not None:
                cur["series"] = [dict(x, k=x["k"] + 1) for x in cur["series"]]
                h.ks_res = h.ks_res + 1
        elif op[0] == "save":
            if op[2] and cur["series"] is None:
                continue
            h.save(os.path.join(d, stems[op[1]]), save_residuals=op[2])
            disk[op[1]] = cur
            if op[2]:
                res[op[1]] = (cur["series"], cur["X"])
            on_disk(d, stems[op[1]], cur, op[2], rec)
            compare(h, cur, rec, "after saving")
        else:
            which, ok = op[1], True
            if which == "dir":
                ok = len(disk) == 1
                which = list(disk)[0] if ok else None
            else:
                ok = which in disk
            ORDER[0] = spec.get("listing")
            try:
                new = HR(d if op[1] == "dir" else os.path.join(d, stems[which]), open_residuals=op[2])
            except (IOError, OSError, RuntimeError) as e:
                if not ok:
                    rec.count("refused")
                    continue
                raise
            finally:
                ORDER[0] = None
            if not rec.check(ok, "ambiguous", "a result was opened in a directory that holds %d" % len(disk)):
                continue
            h = new
            cur = dict(disk[which], series=None, X=False)
            if op[2] and which in res:
                cur["series"], cur["X"] = res[which]
            compare(h, cur, rec, "after opening")
        rec.state((sorted((k, v["parameter"][0]) for k, v in disk.items()), sorted(res), cur["series"] is not None, cur["parameter"][0]))
    rec.state((spec["files"], spec.get("vars"), spec.get("other"), spec.get("listing"), spec["ops"]))
    rec.outcome((sorted(disk), sorted(res), cur["parameter"].tolist(), h.values_res is None))
