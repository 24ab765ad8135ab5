"""C31: the demo takes every setting from the last of its configuration files that gives it, and names its result files by them."""

import itertools
import os
import re

import fort

NEEDS = {"py", "fortran"}
SCOPE = ("every combination of preferences, run configuration and job configuration (in the default place, named by either file, or from standard "
         "input) giving each of 6 run settings or not; every one and two (thorough: three) of 21 job settings; every shipped job "
         "configuration and template; 7 kinds of faulty configurations; every combination of names and dates of result files")
ASSUMPTIONS = ["configuration files are Fortran namelists"]
RUN = {"config_value_att_software": ["'PR'", "'RN'"], "config_solver_accuracy_goal": ["0.5", "0.0"], "config_solver_max_iteration": ["0", "9"],
       "config_enable_log_level": ["2", "6"], "config_name_var_x": ["'px'", "'rx'"], "config_desc_var_x": ["'p desc'", "'r desc'"]}
DEFAULT = {"job": "job.nml", "job_id": "01", "flags": "0 0 0 1 0 0", "unit": "", "prior": "prior.dat", "start": "start.dat", "sensor_count": "0",
           "software": "FO", "goal": 1e-4, "max_iteration": "100", "log_level": "4", "var_x": "parameter", "desc_x": "The harmonisation parameters",
           "matchup_count": "0", "dataset_id": "", "dataset_path": "./"}
# setting: (text, what it changes)
JOB = {
    "id": ("config_job_id = 'EIV_7'", {"job_id": "EIV_7"}), "matrix": ("config_job_enable_covariance_matrix = T", {"flag": (0, 1)}),
    "update": ("config_job_enable_covariance_update = .true.", {"flag": (1, 1)}), "common": ("config_job_enable_covariance_common = T", {"flag": (2, 1)}),
    "cost": ("config_job_enable_cost_sensors = F", {"flag": (3, 0)}), "prior": ("config_job_enable_prior_data = T", {"flag": (4, 1)}),
    "start": ("config_job_enable_start_data = T", {"flag": (5, 1)}), "unit": ("config_job_enable_unit = 'mW m-2'", {"unit": "mW m-2"}),
    "prior path": ("config_job_path_prior_data = 'a/p.dat'", {"prior": "a/p.dat"}), "start path": ("config_job_path_start_data = 'a/s.dat'", {"start": "a/s.dat"}),
    "count": ("config_job_sensor_count = 4", {"sensor_count": "4"}), "sensors": ("config_job_sensors(2) = 101\nconfig_job_sensors(25) = 20", {"sensors": {2: 101, 25: 20}}),
    "names": ("config_job_sensor_names(1) = 'm02'\nconfig_job_sensor_names(25) = 'n 19'", {"names": {1: "m02", 25: "n 19"}}),
    "columns": ("config_job_sensor_columns(2,:) = 1, 2, 3, 8\nconfig_job_sensor_columns(25,:) = 4", {"columns": {2: [1, 2, 3, 8], 25: [4]}}),
    "select": ("config_job_sensor_columns_select(2) = T", {"select": {2: 1}}),
    "constants": ("config_job_sensor_configurations(3,:) = 0.0, 1.0, 0.5, 1.0E-02", {"conf": {3: [0., 1., .5, 1e-2]}}),
    "matchups": ("config_job_matchup_count = 2\nconfig_job_matchup(1,:) = 1, 2\nconfig_job_matchup(12,:) = 3, 4", {"matchup_count": "2", "pairs": {1: [1, 2], 12: [3, 4]}}),
    "datasets": ("config_job_matchup_datasets(2) = 'm02_n19.nc'", {"datasets": {2: "m02_n19.nc"}}),
    "matchup names": ("config_job_matchup_names(2) = 'm02 n19'", {"matchup_names": {2: "m02 n19"}}),
    "samplings": ("config_job_matchup_samplings(3) = 5", {"samplings": {3: 5}}),
    "dataset": ("config_job_matchup_dataset_id = 'AVHRR_X'\nconfig_job_matchup_dataset_path = '/data/x/'", {"dataset_id": "AVHRR_X", "dataset_path": "/data/x/"}),
}
FAULTY = ["config_job_unknown = 1", "config_job_sensor_count = many", "config_job_enable_prior_data = 7x", "config_job_sensors(26) = 1",
          "config_job_sensor_columns(1,33) = 1", "no end", "other group"]
SHIPPED = ["jobs/job_ph____v1_EIV_101_01.nml", "jobs/job_ph____v1_EIV_111_01.nml", "jobs/job_ph____v1_ODR_101_01.nml",
           "jobs/job_ph____v1_ODR_111_01.nml", "templates/template_job.nml"]


def setup(ctx):
    global EXE, VERSION, RESOURCES
    EXE = fort.build_driver(ctx)
    RESOURCES = os.path.join(ctx.tree, "harmonisation_meiv_demo", "src", "main", "resources-filtered")
    empty = os.path.join(ctx.scratch, "empty")
    os.mkdir(empty)
    with open(os.path.join(empty, "job.nml"), "w") as f:
        f.write("$job\n/\n")
    rows = fort.run(EXE, "config\npname .nc 20100101 20101231\n", empty)[1]
    name = dict(rows).get("file", "")
    m = re.match(r"harm_FO_(\d[^_]*_[^_]+)_01__20100101_20101231\.nc\|$", name)
    VERSION = m.group(1) if m else "unknown"


def precedence(ch):
    names = list(RUN)
    return {"kind": "precedence", "where": {k: ch.pick(["", "p", "r", "pr"], "given in") for k in names},
            "job": ch.pick(["default", "stdin", "by run", "by preferences", "by both"], "job"),
            "files": ch.pick(["pr", "p", "r", ""], "files that exist")}


def job_settings(k):
    def gen(ch):
        names = list(JOB)
        first = ch.idx(len(names), "setting")
        out = [names[first]]
        for _ in range(k - 1):
            first += ch.idx(len(names) - first, "next setting")
            out.append(names[first])
        return {"kind": "job", "given": out, "stdin": ch.flag("standard input")}
    return gen


def faulty(ch):
    return {"kind": "faulty", "what": ch.pick(FAULTY, "fault"), "stdin": ch.flag("standard input")}


def shipped(ch):
    return {"kind": "shipped", "file": ch.pick(SHIPPED, "file"), "run": ch.flag("with the run template")}


def names(ch):
    return {"kind": "names", "software": ch.pick(["", "ABC", "A" * 20], "software"), "id": ch.pick(["", "J_7", "B" * 20], "job"),
            "dataset": ch.pick(["", "AVHRR_X", "C" * 80], "dataset"), "dates": ch.pick([["20100101", "20101231"], ["", ""]], "dates"),
            "sensors": ch.pick([["m02", "n19"], ["x" * 40, "y"]], "sensors"), "ext": ch.pick([".nc", "", ".txt"], "extension"),
            "parameter": ch.pick(["", "par", "out/par"], "configured"), "residuals": ch.pick(["", "res", "out/res"], "configured")}


def spaces(tier):
    deep = tier != "quick"
    return [("precedence", precedence, None if deep else 4), ("job settings", job_settings(3 if deep else 2), None), ("faulty", faulty, None),
            ("shipped", shipped, None), ("names of files", names, None)]


def dump(run, log_level, job):
    d = dict(DEFAULT)
    d.update(run)
    flags = d["flags"].split()
    t = {k: {} for k in ("sensors", "names", "columns", "select", "conf", "pairs", "datasets", "matchup_names", "samplings")}
    for eff in job:
        for k, v in eff.items():
            if k == "flag":
                flags[v[0]] = str(v[1])
            elif isinstance(v, dict):
                t[k].update(v)
            else:
                d[k] = v
    pad = lambda v, n, x=0: (list(v) + [x] * n)[:n]
    out = [("job", d["job"] + "|"), ("job_id", d["job_id"] + "|"), ("flags", " ".join(flags)), ("unit", d["unit"] + "|"), ("prior", d["prior"] + "|"),
           ("start", d["start"] + "|"), ("sensor_count", d["sensor_count"]), ("sensors", fort.ints(t["sensors"].get(i, 0) for i in range(1, 26)))]
    for i in range(1, 26):
        out += [("sensor_name", t["names"].get(i, "") + "|"), ("columns", fort.ints(pad(t["columns"].get(i, []), 32))),
                ("configuration", fort.hex_d(pad(t["conf"].get(i, []), 40)))]
    out += [("select", fort.ints(t["select"].get(i, 0) for i in range(1, 26))), ("matchup_count", d["matchup_count"])]
    for i in range(1, 13):
        out += [("matchup", fort.ints(t["pairs"].get(i, [0, 0]))), ("dataset", t["datasets"].get(i, "") + "|"),
                ("matchup_name", t["matchup_names"].get(i, "") + "|")]
    return out + [("samplings", fort.ints(t["samplings"].get(i, 1) for i in range(1, 13))), ("dataset_id", d["dataset_id"] + "|"),
                  ("dataset_path", d["dataset_path"] + "|"), ("goal", fort.hex_d([d["goal"]])), ("max_iteration", d["max_iteration"]),
                  ("log_level", "%s %s" % (log_level, log_level)), ("software", d["software"] + "|"), ("var_x", d["var_x"] + "|"),
                  ("desc_x", d["desc_x"] + "|")]


def put(rec, name, group, lines):
    with open(os.path.join(rec.scratch, name), "w") as f:
        f.write("$%s\n %s\n/\n" % (group, "\n ".join(lines)))


def run(spec, rec):
    for f in ("preferences.nml", "run.nml", "job.nml", "r.nml", "p.nml"):
        if os.path.exists(os.path.join(rec.scratch, f)):
            os.remove(os.path.join(rec.scratch, f))
    {"precedence": run_precedence, "job": run_job, "faulty": run_faulty, "shipped": run_shipped, "names": run_names}[spec["kind"]](spec, rec)


def execute(rec, text, want, key):
    rec.step()
    rc, rows = fort.run(EXE, text, rec.scratch)
    rec.outcome((rc, len(rows)))
    rec.count("runs")
    if rec.check(rc == 0, key + ":refused", "exit status %d: %s%s" % (rc, fort.run.stdout[-300:], fort.run.stderr[-200:])):
        fort.compare(rec, rows, want + [("end", "")], key)


def run_precedence(spec, rec):
    files = {"p": [], "r": []}
    eff = {}
    keys = dict(zip(RUN, ("software", "goal", "max_iteration", "log_level", "var_x", "desc_x")))
    for k, where in spec["where"].items():
        for n, f in enumerate("pr"):
            if f in where:
                files[f].append("%s = %s" % (k, RUN[k][n]))
                if f in spec["files"]:
                    eff[keys[k]] = float(RUN[k][n]) if keys[k] == "goal" else RUN[k][n].strip("'")
    job = "job.nml"
    for f, name in (("p", "by preferences"), ("r", "by run")):
        if spec["job"] in (name, "by both"):
            files[f].append("config_job = '%s.nml'" % f)
            put(rec, f + ".nml", "job", ["config_job_id = '%s'" % f])
            if f in spec["files"]:
                job = f + ".nml"
    if spec["job"] != "stdin":
        put(rec, "job.nml", "job", ["config_job_id = 'd'"])
    for f, name in (("p", "preferences.nml"), ("r", "run.nml")):
        if f in spec["files"]:
            put(rec, name, "run", files[f])
    jid = {"job.nml": "d", "r.nml": "r", "p.nml": "p"}[job] if spec["job"] != "stdin" else "s"
    level = eff.pop("log_level", "4")
    eff["job"] = job
    rec.state((sorted(eff.items()), level))
    execute(rec, "config\n%scfg\n" % ("$job\n config_job_id = 's'\n/\n" if spec["job"] == "stdin" else ""),
            [("config", "0")] + dump(eff, level, [{"job_id": jid}]), "precedence")


def run_job(spec, rec):
    lines = [x for k in spec["given"] for x in JOB[k][0].split("\n")]
    rec.state(spec["given"])
    if not spec["stdin"]:
        put(rec, "job.nml", "job", lines)
    execute(rec, "config\n%scfg\n" % ("$job\n %s\n/\n" % "\n ".join(lines) if spec["stdin"] else ""),
            [("config", "0")] + dump({}, "4", [JOB[k][1] for k in spec["given"]]), "job")


def run_faulty(spec, rec):
    what = spec["what"]
    text = {"no end": "$job\n config_job_id = 'x'\n", "other group": "$run\n config_job = 'x'\n/\n"}.get(what, "$job\n %s\n/\n" % what)
    if not spec["stdin"]:
        with open(os.path.join(rec.scratch, "job.nml"), "w") as f:
            f.write(text)
    rec.step()
    rec.state(what)
    rc, rows = fort.run(EXE, "config\n" + (text if spec["stdin"] else ""), rec.scratch)
    rec.outcome(rc)
    rec.check(rc != 0 and not rows, "faulty", "accepted: %s" % what)


def parse(path):
    """The namelists that are shipped use one entry per line."""
    out = []
    for line in open(path):
        m = re.match(r"\s*(config_\w+?)\s*(?:\((\d+)(?:,:)?\))?\s*=\s*(.*?)\s*$", line)
        if m:
            out.append((m.group(1), int(m.group(2) or 0), m.group(3)))
    return out


def run_shipped(spec, rec):
    import shutil
    path = os.path.join(RESOURCES, spec["file"])
    shutil.copy(path, os.path.join(rec.scratch, "job.nml"))
    run, level = {}, "4"
    if spec["run"]:
        src = os.path.join(RESOURCES, "templates", "template_run.nml")
        shutil.copy(src, os.path.join(rec.scratch, "run.nml"))
        given = {k: v for k, _, v in parse(src)}
        run = {"goal": float(given["config_solver_accuracy_goal"]), "max_iteration": given["config_solver_max_iteration"]}
        level = given["config_enable_log_level"]
    flags = ["config_job_enable_" + x for x in ("covariance_matrix", "covariance_update", "covariance_common", "cost_sensors", "prior_data", "start_data")]
    texts = {"config_job_id": "job_id", "config_job_path_prior_data": "prior", "config_job_path_start_data": "start",
             "config_job_sensor_count": "sensor_count", "config_job_matchup_count": "matchup_count", "config_job_matchup_dataset_id": "dataset_id",
             "config_job_matchup_dataset_path": "dataset_path", "config_job_enable_unit": "unit"}
    tables = {"config_job_sensors": ("sensors", int), "config_job_sensor_names": ("names", lambda x: x.strip('"')),
              "config_job_matchup_datasets": ("datasets", lambda x: x.strip('"')), "config_job_matchup": ("pairs", lambda x: [int(v) for v in x.split(",")]),
              "config_job_sensor_configurations": ("conf", lambda x: [float(v) for v in x.split(",")]), "config_job_matchup_samplings": ("samplings", int),
              "config_job_sensor_columns": ("columns", lambda x: [int(v) for v in x.split(",")]),
              "config_job_sensor_columns_select": ("select", lambda x: int("T" in x))}
    eff = []
    for k, i, v in parse(path):
        if k in flags:
            eff.append({"flag": (flags.index(k), int("T" in v.upper()))})
        elif k in texts:
            eff.append({texts[k]: v.strip('"')})
        elif k in tables:
            eff.append({tables[k][0]: {i: tables[k][1](v)}})
    rec.state((spec["file"], len(eff)))
    execute(rec, "config\ncfg\n", [("config", "0")] + dump(run, level, eff), "shipped")


def run_names(spec, rec):
    lines = ["config_value_att_software = '%s'" % (spec["software"] or "FO")]
    for k in ("parameter", "residuals"):
        if spec[k]:
            lines.append("config_name_%s_dataset = '%s'" % (k, spec[k]))
    put(rec, "run.nml", "run", lines)
    put(rec, "job.nml", "job", ["config_job_id = '%s'" % (spec["id"] or "01"), "config_job_matchup_dataset_id = '%s'" % spec["dataset"]])
    (b, e), (si, sj), ext = spec["dates"], spec["sensors"], spec["ext"]
    stem = "_".join(["harm", spec["software"] or "FO", VERSION, spec["id"] or "01", spec["dataset"], b, e])
    par = spec["parameter"] + ext if spec["parameter"] else stem + ext
    res = "_".join([spec["residuals"] or stem + "_res", si, sj]) + ext
    rec.state((par, res))
    q = lambda *a: " ".join("'%s'" % x for x in a)
    execute(rec, "config\npname %s\nrname %s\n" % (q(ext, b, e), q(ext, b, e, si, sj)), [("config", "0"), ("file", par + "|"), ("file", res + "|")], "names")


def vacuous(total):
    return None if total.counts.get("runs", 0) > 1000 else "too few runs"
