"""C34: the demo program reads the datasets of its job, writes its result only if all are fit for use, and logs what it does."""

import itertools
import math
import os
import re
import shutil
import subprocess
import time

import numpy as np
from netCDF4 import Dataset

import fort
from checks import c28

NEEDS = {"py", "fortran"}
SCOPE = ("jobs of up to 3 datasets, in every order and of every sampling step 1-3; one of 11 defects in any of them; every log level 0-8; with and "
         "without weighting matrices and common errors; job from a file or standard input; a result of a run before; 3 time zones; every "
         "kind of message at every level with values of every size")
ASSUMPTIONS = ["netCDF library", "the clock does not jump"]
LEVELS = {"error": 1, "warning": 2, "info": 4, "fine": 6, "debug": 7}
PAIRS = [(1, 2), (2, 3), (3, 4)]
DEFECTS = ["file", "not a file", "X1", "X2 nan", "Us2 inf", "Ur2 huge", "Kr zero", "W negative", "U zero", "time2 nan", "columns"]
NAMED = {"X2 nan": "X2", "Us2 inf": "Us2", "Ur2 huge": "Ur2", "Kr zero": "Kr", "W negative": "w_matrix_val", "U zero": "u_matrix_val",
         "time2 nan": "time2"}
LINE = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}[+-]\d\d:\d\d) \[(\w+)\] (\w*)\s*::\s*(.*)$")
ZONES = {"UTC": "+00:00", "XXX-05:45": "+05:45", "YYY+03:30": "-03:30"}


def setup(ctx):
    global DEMO, DRIVER, FILES
    DRIVER = fort.build_driver(ctx)
    DEMO = os.path.join(fort.build_demo(ctx), "harmonisation-demo")
    FILES = os.path.join(ctx.scratch, "datasets")
    os.mkdir(FILES)
    for k in range(3):
        for defect in [None] + DEFECTS:
            if defect != "file":
                store(k, defect)


def name(k, defect):
    return "%d_%d%s.nc" % (k, k + 1, "-" + defect.replace(" ", "-") if defect else "")


def store(k, defect):
    d = c28.make(k, 4 + k, 1 if k == 0 else 4, 4, types=[[1] if k == 0 else [1, 3, 1, 1], [3, 1, 1, 1]],
                 use=([1] * (1 if k == 0 else 4), [1] * 4, [1] * (1 if k == 0 else 4), [1] * 4))
    p = c28.PATTERNS[1]
    rows = (p + [(4, 5), (5, 6)])[:d["m"]]
    d["W"] = [(rows,) + fort.crs(rows, 0)]
    d["U"] = [np.arange(7.) + 1.]
    path = os.path.join(FILES, name(k, defect))
    if defect == "not a file":
        with open(path, "w") as f:
            f.write("CDF, but not really")
        return
    if defect == "X1":
        d["absent"].append("X1")
    elif defect == "columns":
        # fewer columns than the sensor has
        for v in ("X2", "Ur2", "Us2"):
            d["v"][v] = d["v"][v][:, :1]
        for v in ("uncertainty_type2", "u_matrix_use2", "w_matrix_use2"):
            d["v"][v] = d["v"][v][:1]
        d["m2"] = 1
    elif defect and defect[0] == "W":
        d["W"][0][3][-1] = -1.
    elif defect and defect[:2] == "U ":
        d["U"][0][-1] = 0.
    elif defect:
        v, what = defect.split()
        d["v"][v] = np.array(d["v"][v], float)
        d["v"][v].flat[-1] = {"nan": math.nan, "inf": math.inf, "huge": 1e30, "zero": 0.}[what]
    c28.write(d, path)


def jobs(ch):
    n = ch.pick([0, 1, 2, 3], "datasets")
    order = list(ch.pick(list(itertools.permutations(range(3), n)), "order"))
    return {"kind": "run", "order": order, "steps": [ch.pick([1, 2, 3], "step") for _ in range(n)], "level": ch.pick([4, 7], "log level"),
            "defect": None, "common": False, "matrices": ch.flag("matrices"), "stdin": False, "before": False, "zone": "UTC"}


def defects(ch):
    n = ch.pick([1, 2, 3], "datasets")
    at = ch.idx(n, "defective")
    return {"kind": "run", "order": list(range(n)), "steps": [1 + (n + at) % 2] * n, "level": ch.pick(list(range(9)), "log level"),
            "defect": [at, ch.pick(DEFECTS + ["same pair"], "defect")], "common": ch.flag("common"), "matrices": True, "stdin": False,
            "before": ch.flag("result before"), "zone": "UTC"}


def options(ch):
    n = ch.pick([0, 1, 3], "datasets")
    return {"kind": "run", "order": list(range(n)), "steps": [1] * n, "level": ch.pick(list(range(9)), "log level"), "defect": None,
            "common": ch.flag("common"), "matrices": ch.flag("matrices"), "stdin": ch.flag("standard input"), "before": ch.flag("result before"),
            "zone": ch.pick(list(ZONES), "time zone"), "parameter": ch.pick(["", "par", "missing/par"], "name of the result")}


def messages(ch):
    level = ch.pick(list(LEVELS), "level")
    kinds = ["text", "none"] if level == "warning" else ["int", "sp", "dp", "text", "none"] + (["long"] if level == "debug" else [])
    kind = ch.pick(kinds, "kind")
    return {"kind": "message", "level": level, "type": kind, "at": ch.pick(list(range(9)), "log level")}


VALUES = {"int": ["0", "-7", "2147483647", "-2147483648"], "long": ["0", "3", "-9", "9000"], "text": ["'a'", "'two words'", "''"], "none": ["0"],
          "sp": ["0.0", "-0.5", "0.0625", "12345.5", "1.0e10", "-3.75"], "dp": ["0.0", "-0.5", "0.0625", "123456789.25", "1.0e15", "1.0e-9"]}


def spaces(tier):
    out = [("orders and steps", jobs, None), ("defects", defects, None), ("messages", messages, None)]
    return out + [("options", options, None if tier != "quick" else 4)]


def run(spec, rec):
    (run_message if spec["kind"] == "message" else run_demo)(spec, rec)


def run_message(spec, rec):
    for v in VALUES[spec["type"]]:
        rec.step()
        rec.state((spec["level"], spec["type"], spec["at"], v))
        rc, rows = fort.run(DRIVER, "loglevel %d\nlog %s %s %s\n" % (spec["at"], spec["level"], spec["type"], v), rec.scratch)
        lines = [l for l in fort.run.stdout.split("\n") if l and l[0] != "@"]
        what = "%s %s %s at level %d: %r" % (spec["level"], spec["type"], v, spec["at"], lines)
        if not rec.check(rc == 0 and rows[:1] == [("log", str(spec["at"]))], "message:failed", what):
            continue
        shown = spec["at"] >= LEVELS[spec["level"]]
        rec.outcome((shown, spec["level"], spec["type"]))
        rec.count("shown" if shown else "hidden")
        if not rec.check(len(lines) == int(shown), "message:level", what) or not shown:
            continue
        m = LINE.match(lines[0])
        if not rec.check(bool(m), "message:form", what):
            continue
        _, level, module, rest = m.groups()
        rec.check(level == spec["level"] and module == "driver" and rest.startswith("m"), "message:form", what)
        got = rest[1:].strip()
        if spec["type"] in ("sp", "dp"):
            want = float(v) if spec["type"] == "dp" else float(np.float32(v))
            rec.check(re.match(r"-?\d*\.\d{4}$", got) and abs(float(got) - want) <= 0.5001e-4, "message:value", what)
        else:
            want = {"text": v.strip("'"), "none": "", "int": v}.get(spec["type"]) if spec["type"] != "long" else str(int(v) * 10 ** 9)
            rec.check(got == want, "message:value", what)


def run_demo(spec, rec):
    W = os.path.join(rec.scratch, "run")
    shutil.rmtree(W, ignore_errors=True)
    os.mkdir(W)
    n, bad = len(spec["order"]), spec["defect"] or [None, None]
    job = ["config_job_id = 'J'", "config_job_sensor_count = 4", "config_job_matchup_count = %d" % n, "config_job_matchup_dataset_id = 'D'",
           "config_job_matchup_dataset_path = '%s/'" % FILES, "config_job_enable_covariance_common = %s" % "FT"[spec["common"]],
           "config_job_enable_covariance_matrix = %s" % "FT"[spec["matrices"]]]
    job += ["config_job_sensor_names(%d) = '%s'" % (k + 1, x) for k, x in enumerate("ABCD")]
    files = []
    for k, o in enumerate(spec["order"]):
        pair = PAIRS[o]
        f = name(o, bad[1] if k == bad[0] and bad[1] != "same pair" else None)
        if k == bad[0] and bad[1] == "same pair":
            pair = PAIRS[spec["order"][k - 1]] if k else (1, 1)
        files.append(f)
        job += ["config_job_matchup(%d,:) = %d, %d" % ((k + 1,) + pair), "config_job_matchup_datasets(%d) = '%s'" % (k + 1, f),
                "config_job_matchup_names(%d) = 'n%d'" % (k + 1, k), "config_job_matchup_samplings(%d) = %d" % (k + 1, spec["steps"][k])]
    jobtext = "$job\n %s\n/\n" % "\n ".join(job)
    par = spec.get("parameter", "")
    with open(os.path.join(W, "run.nml"), "w") as f:
        f.write("$run\n config_job = 'j.nml'\n config_enable_log_level = %d\n%s/\n" %
                (spec["level"], " config_name_parameter_dataset = '%s'\n" % par if par else ""))
    if not spec["stdin"]:
        with open(os.path.join(W, "j.nml"), "w") as f:
            f.write(jobtext)
    env = dict(fort.ENV, TZ=spec["zone"])

    def go():
        t0 = time.time()
        r = subprocess.run([DEMO], input=jobtext if spec["stdin"] else "", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=W,
                           timeout=60, env=env, errors="replace")
        rec.step()
        return r, t0, time.time()

    def result():
        return sorted(x for x in os.listdir(W) if x not in ("run.nml", "j.nml"))
    rec.state((spec["order"], spec["steps"], spec["defect"], spec["level"], spec["common"], spec["matrices"], spec["stdin"], spec["before"], spec["zone"], par))
    what = "%r" % spec
    old = None
    lost = par.startswith("missing")
    if spec["before"] and not lost:
        stem = par + ".nc" if par else None
        if stem is None:
            with open(os.path.join(W, "first.nml"), "w") as f:
                f.write("$job\n config_job_id = 'J'\n config_job_matchup_dataset_id = 'D'\n/\n")
            with open(os.path.join(W, "run.nml")) as f:
                runtext = f.read()
            with open(os.path.join(W, "run.nml"), "w") as f:
                f.write(runtext.replace("j.nml", "first.nml"))
            r, _, _ = go()
            with open(os.path.join(W, "run.nml"), "w") as f:
                f.write(runtext)
            os.remove(os.path.join(W, "first.nml"))
            if not rec.check(r.returncode == 0 and len(result()) == 1, "first", "%s: %s" % (what, r.stdout + r.stderr)):
                return
            stem = result()[0]
        old = b"what was there before"
        with open(os.path.join(W, stem), "wb") as f:
            f.write(old)
    r, t0, t1 = go()
    lines = [l for l in r.stdout.split("\n") if l]
    msgs = []
    for l in lines:
        m = LINE.match(l)
        if rec.check(bool(m), "line", "%s: %r is no message" % (what, l)):
            msgs.append(m.groups())
    for stamp, level, _, text in msgs:
        rec.check(LEVELS.get(level, 99) <= spec["level"], "level", "%s: %s message %r" % (what, level, text))
        rec.check(stamp[-6:] == ZONES[spec["zone"]], "zone", "%s: %s" % (what, stamp))
        off = int(stamp[-6] + "1") * (int(stamp[-5:-3]) * 3600 + int(stamp[-2:]) * 60)
        tm = time.strptime(stamp[:19], "%Y-%m-%dT%H:%M:%S")
        import calendar
        t = calendar.timegm(tm) + float(stamp[19:23]) - off
        rec.check(t0 - 0.01 <= t <= t1 + 0.01, "time", "%s: %s is not between %r and %r" % (what, stamp, t0, t1))
    ok = spec["defect"] is None
    rec.outcome((r.returncode, len(msgs), ok))
    rec.count("done" if ok else "refused")
    rec.check((r.returncode == 0) == (ok and not lost), "status", "%s: exit status %d: %s" % (what, r.returncode, r.stdout[-300:] + r.stderr[-200:]))
    # what was read and written, in order
    paths = [os.path.join(FILES, f) for f in files]
    info = [x[3] for x in msgs if x[1] == "info"]
    debug = [x[3] for x in msgs if x[1] == "debug"]
    seen = [p for x in info for p in paths if x.endswith(p)]
    if spec["level"] >= 4:
        rec.check(seen == (paths if ok else paths[:bad[0] + 1]), "datasets", "%s: logged %r" % (what, info))
        rec.check(any("writing" in x for x in info) == ok, "written", "%s: logged %r" % (what, info))
    else:
        rec.check(not info, "datasets", "%s: logged %r" % (what, info))
    if spec["level"] >= 7:
        sizes = [-(-(4 + o) // s) for o, s in zip(spec["order"], spec["steps"])]
        got = [int(x.split()[-1]) for x in debug if re.search(r"adding matchup dataset:?\s+\d+$", x)]
        early = bad[1] in ("file", "not a file", "columns")
        rec.check(got == (sizes if ok else sizes[:bad[0] + (not early)]), "sizes", "%s: sizes %r" % (what, got))
    if not ok and bad[1] in NAMED:
        errors = [x[3] for x in msgs if x[1] == "error"]
        rec.check(len(errors) == int(spec["level"] >= 1) and all("'%s'" % NAMED[bad[1]] in e for e in errors), "named", "%s: %r" % (what, errors))
    # the result
    if lost:
        rec.check(not result(), "result", "%s: files %r" % (what, result()))
        return
    want = 1 if ok or old is not None else 0
    left = result()
    if not rec.check(len(left) == want and (not par or left == [par + ".nc"]), "result", "%s: files %r" % (what, left)):
        return
    if not ok:
        if old is not None:
            with open(os.path.join(W, left[0]), "rb") as f:
                rec.check(f.read() == old, "overwritten", "%s: the result from before was changed" % what)
        return
    with Dataset(os.path.join(W, left[0])) as ds:
        ds.set_auto_mask(False)
        x = ds["parameter"][:]
        c, u, corr = ds["parameter_covariance_matrix"][:], ds["parameter_uncertainty"][:], ds["parameter_correlation_matrix"][:]
        e = np.where(np.eye(9), 0.5, 0.1)
        rec.check(x.shape == (9,) and not x.any() and np.allclose(c, e, 1e-12) and np.allclose(u, np.sqrt(0.5), 1e-12) and
                  np.allclose(corr, e / 0.5, 1e-12), "parameters", "%s: %r %r %r %r" % (what, x, c, u, corr))
