"""C30: the demo's parameter and residuals datasets hold what they were given, under the configured names and units."""

import glob
import os

import numpy as np
from netCDF4 import Dataset

import fort

NEEDS = {"py", "fortran"}
SCOPE = ("every size of up to 4 parameters, 3 sensors, 3 match-up datasets, 3 configuration constants and 4 residuals; with and without unit, "
         "dates, texts of full length and configured names; 2 datasets written one after the other to one or two files")
ASSUMPTIONS = ["netCDF library", "the covariance and correlation matrices are symmetric"]
UUID = "02b650e8-d476-48fc-881b-71ad0ea8c025"
OTHER = "9cab83ea-4f89-45d1-91ad-d9a17f225583"
NAMES = {"dim_n": "n", "dim_l_name": "l_name", "dim_l_uuid": "l_uuid", "dim_c": "n_config", "dim_m": "M"}


def setup(ctx):
    global EXE
    EXE = fort.build_driver(ctx)


def common(ch):
    return {"unit": ch.pick(["", "mW m-2 sr-1 cm"], "unit"), "dates": ch.pick([["20100101", "20101231"], ["", ""]], "dates"),
            "names": ch.flag("configured names"), "long": ch.flag("long texts"), "two": ch.pick(["", "same", "other"], "second dataset")}


def parameters(ch):
    return dict(common(ch), kind="parameters", n=ch.pick([1, 2, 3, 4], "parameters"), p=ch.pick([1, 2, 3], "pairs"), s=ch.pick([1, 2, 3], "sensors"),
                c=ch.pick([0, 1, 3], "constants"))


def residuals(ch):
    return dict(common(ch), kind="residuals", m=ch.pick([1, 2, 3, 4], "match-ups"))


def spaces(tier):
    return [("parameter datasets", parameters, 3 if tier == "quick" else None), ("residuals datasets", residuals, None)]


# the configured name of everything is the default one with this before it
def configured(spec):
    return "my_" if spec["names"] else ""


ATTS = {"cost": "cost", "cost_reduced": "cost_reduced", "cost_p_value": "cost_p_value", "cost_matchup": "cost_matchup", "cost_sensors": "cost_sensors",
        "job": "job", "job_id": "job_id", "uuid": "uuid", "k_res_mean": "K_res_mean", "k_res_sdev": "K_res_sdev",
        "matchup_dataset_id": "matchup_dataset", "matchup_dataset_begin": "matchup_dataset_begin", "matchup_dataset_end": "matchup_dataset_end",
        "matchup_dataset_uuid": "matchup_dataset_uuid", "number_of_matchups": "number_of_matchups", "sensor_i": "sensor_1_name",
        "sensor_j": "sensor_2_name", "software": "software", "software_version": "software_version", "software_tag": "software_tag"}
VARS = {"cost": "cost", "cost_reduced": "cost_reduced", "time": "t", "x": "parameter", "x_add_offset": "parameter_add_offset",
        "x_scale_factor": "parameter_scale_factor", "x_cor": "parameter_correlation_matrix", "x_cov": "parameter_covariance_matrix",
        "x_names": "parameter_name", "x_unc": "parameter_uncertainty", "k_res": "K_res", "k_res_unc": "K_res_uncertainty",
        "k_res_weights": "K_res_weights", "k_res_mean": "K_res_mean", "k_res_sdev": "K_res_sdev", "matchup_sensor_names": "matchup_sensor_names",
        "matchup_dataset_uuids": "matchup_dataset_uuid", "number_of_matchups": "number_of_matchups", "sensor_equation_id": "sensor_equation_id",
        "sensor_equation_x_count": "sensor_equation_parameter_count", "sensor_equation_y": "sensor_equation_config",
        "sensor_equation_y_count": "sensor_equation_config_count", "sensor_names": "sensor_name"}


def write_config(spec, folder):
    with open(os.path.join(folder, "run.nml"), "w") as f:
        f.write("$run\n config_value_att_software = 'MC'\n")
        if spec["names"]:
            for table, part in ((ATTS, "att"), (VARS, "var")):
                for k, v in table.items():
                    f.write(" config_name_%s_%s = 'my_%s'\n" % (part, k, v))
            for k in VARS:
                f.write(" config_desc_var_%s = 'my description of %s'\n" % (k, k))
            for k, v in NAMES.items():
                f.write(" config_name_%s = 'my_%s'\n" % (k, v))
            f.write(" config_unit_var_time = 'seconds since 1970-01-01'\n")
        f.write("/\n")
    with open(os.path.join(folder, "job.nml"), "w") as f:
        f.write("$job\n config_job_id = 'J_7'\n config_job_enable_unit = '%s'\n config_job_matchup_dataset_id = 'MD_3'\n/\n" % spec["unit"])


def names(n, prefix, long):
    return [(prefix + str(k) + ("x" * 80 if long else ""))[:80] for k in range(n)]


def values(n, seed):
    return [(-1) ** k * (0.1 + k + 10 * seed) / 3. * 10. ** (3 * (k % 3) - 3) for k in range(n)]


def run(spec, rec):
    for f in glob.glob(os.path.join(rec.scratch, "*.nc")):
        os.remove(f)
    write_config(spec, rec.scratch)
    lines, want = ["config"], []
    for k in range(2 if spec["two"] else 1):
        t, w = (parameter_set if spec["kind"] == "parameters" else residual_set)(spec, k)
        lines += t
        want.append(w)
        rec.step()
    if spec["two"] == "same":
        want = want[1:]
    rc, rows = fort.run(EXE, "\n".join(lines) + "\n", rec.scratch)
    rec.check(rc == 0, "failed", "exit status %d: %s" % (rc, fort.run.stderr[-300:]))
    files = glob.glob(os.path.join(rec.scratch, "*.nc"))
    rec.check(len(files) == len(want), "files", "%d files instead of %d: %r" % (len(files), len(want), files))
    for w in want:
        at = [f for f in files if w["file"] in os.path.basename(f)]
        if rec.check(len(at) == 1, "file", "no file for %s" % w["file"]):
            compare(rec, spec, at[0], w)
    rec.count("datasets", len(want))
    rec.state(tuple(sorted((k, str(v)) for k, v in spec.items())))
    rec.outcome(len(lines))


def dates(spec, k):
    # a second dataset of another period is another file
    d = list(spec["dates"])
    if k and spec["two"] == "other":
        d[1] = "2011123%d" % k
    return d


def parameter_set(spec, k):
    n, p, s, c = spec["n"], spec["p"], spec["s"], spec["c"]
    d = dates(spec, k)
    e = 40 * k
    x, xu, xo, xs = (np.array(values(n, e + i)) for i in range(4))
    xc, xr = np.outer(xu, xu) + np.eye(n), np.outer(x, x) / 7. + np.eye(n)
    ids, en, eo = [101 + e + i for i in range(s)], [3 + e + i for i in range(s)], [7 + e + 2 * i for i in range(s)]
    y = values(c, e + 5)
    st = [30000 + k] + values(7, e + 6)
    ms = [[100 * (i + 1) + k] + values(4, e + 7 + i) for i in range(p)]
    pair, sn, xn = names(p, "pair ", spec["long"]), names(s, "sensor ", spec["long"]), names(n, "par/", spec["long"])
    uu = [(OTHER[:-1] + str(i)) for i in range(p)]
    g = lambda v: fort.num(np.ravel(v))
    lines = ["writep %d %d %d %d '%s' '%s' '%s'" % (n, p, s, c, d[0], d[1], UUID), " ".join(g(v) for v in (x, xu, xc, xr, xo, xs)),
             fort.ints(ids + en + eo), "%d %s" % (st[0], g(st[1:]))]
    lines += ["%d %s" % (m[0], g(m[1:])) for m in ms]
    for i in range(p):
        lines += [pair[i], uu[i]]
    lines += sn + xn + ([g(y)] if c else [])
    atts = dict(zip(("number_of_matchups", "cost", "cost_reduced", "cost_p_value", "cost_matchup", "cost_sensors", "k_res_mean", "k_res_sdev"), st))
    var = {"x": x, "x_unc": xu, "x_cov": xc, "x_cor": xr, "x_add_offset": xo, "x_scale_factor": xs, "x_names": xn, "sensor_equation_id": ids,
           "sensor_equation_x_count": en, "sensor_names": sn, "matchup_sensor_names": pair, "matchup_dataset_uuids": uu}
    for i, name in enumerate(("number_of_matchups", "cost", "cost_reduced", "k_res_mean", "k_res_sdev")):
        var[name] = [m[i] for m in ms]
    if c:
        var["sensor_equation_y_count"], var["sensor_equation_y"] = eo, y
    return lines, {"atts": atts, "vars": var, "dates": d, "file": "MD_3_%s_%s.nc" % tuple(d), "double": set(var)}


MEASURANDS = ["measurand1", "measurand2", "measurand1_uncertainty_tel", "measurand2_uncertainty_tel", "measurand1_uncertainty_cal",
              "measurand2_uncertainty_cal"]


def residual_set(spec, k):
    m, d = spec["m"], dates(spec, k)
    e = 40 * k
    # one second apart, at the end of the 32 bit integers
    t = [2147483640. + 7 * i + 0.5 + k for i in range(m)]
    v = [values(m, e + i) for i in range(11)]
    si, sj = ("x" * 60 + "1", "y" * 60 + "2") if spec["long"] else ("m02", "n19")
    lines = ["writer %d '%s' '%s' '%s' '%s'" % (m, d[0], d[1], UUID, OTHER), " ".join(fort.num(a) for a in [t] + v), si, sj]
    var = {"time": t, "k_res": v[0], "k_res_unc": v[1], "k_res_weights": v[2]}
    # the total uncertainties of the measurands are not part of the dataset
    for name, i in zip(MEASURANDS, (3, 4, 7, 8, 9, 10)):
        var[name] = v[i]
    return lines, {"atts": {"matchup_dataset_uuid": OTHER, "sensor_i": si, "sensor_j": sj}, "vars": var, "dates": d, "file": "MD_3_%s_%s_res_" % tuple(d), "double": {"time"}}


def text(v):
    return str(v).rstrip()


def compare(rec, spec, path, w):
    pre = configured(spec)
    with Dataset(path) as ds:
        atts = dict(w["atts"], uuid=UUID, matchup_dataset_id="MD_3", matchup_dataset_begin=w["dates"][0], matchup_dataset_end=w["dates"][1],
                    software="MC", job="job.nml", job_id="J_7")
        for k, v in atts.items():
            name = pre + ATTS[k]
            if not rec.check(name in ds.ncattrs(), "attribute:" + k, "no attribute %s" % name):
                continue
            got = ds.getncattr(name)
            rec.check(text(got) == v if isinstance(v, str) else got == v, "attribute:" + k, "%s is %r instead of %r" % (name, got, v))
        seen = set()
        for k, v in w["vars"].items():
            name = k if k in MEASURANDS else pre + VARS[k]
            seen.add(name)
            if not rec.check(name in ds.variables, "variable:" + k, "no variable %s" % name):
                continue
            var = ds.variables[name]
            var.set_auto_maskandscale(False)
            a = var[:]
            if isinstance(v[0], str):
                got = [b"".join(row).decode().rstrip() for row in a]
                rec.check(got == list(v), "variable:" + k, "%s is %r instead of %r" % (name, got, v))
            else:
                want = np.array(v) if k in w["double"] else np.array(v, "f4")
                rec.check(a.shape == want.shape and np.array_equal(a, want), "variable:" + k, "%s is %r instead of %r" % (name, a, want))
            if spec["names"] and k not in MEASURANDS:
                rec.check(text(getattr(var, "description", "")) == "my description of " + k, "description:" + k, "description of %s" % name)
            unit = spec["unit"]
            if k in ("k_res", "k_res_unc", "k_res_mean", "k_res_sdev") or k in MEASURANDS:
                want = unit
            elif k == "k_res_weights":
                want = "1 / " + unit if unit else ""
            elif k == "time":
                want = "seconds since 1970-01-01" if spec["names"] else "seconds since 1970-1-1 0:0:0"
            else:
                want = ""
            got = text(getattr(var, "units", ""))
            rec.check(got == want, "units:" + k, "the units of %s are %r instead of %r" % (name, got, want))
        rec.check(set(ds.variables) == seen, "variables", "unexpected variables %r" % sorted(set(ds.variables) - seen))


def vacuous(total):
    return None if total.counts.get("datasets", 0) > 500 else "too few datasets"
