"""C17: what the command line and the job file ask for is what is run, and its result is written."""

import contextlib
import copy
import importlib
import inspect
import io
import itertools
import logging
import os
import shutil
import sys

import numpy as np

import gn
import support as S
from checks import c13

NEEDS = {"py", "cython"}
SCOPE = ("every subset of the options of the solver (and of the tools without solver options), short and long, in two orders, 4 verbosities, "
         "4 sensor names and an unknown one; job files in 5 notations with every subset of their entries; complete runs of the solver with "
         "every combination of the options that change what is written or where it starts, with existing and missing output directories and log files, once and again")
ASSUMPTIONS = ["abbreviated options and --mode are not covered", "the sample for the preconditioner is drawn as in C13"]
TIMEOUT = 100
PKG = "harmonisation.tools."
ARGS = [("input_directory", "-i"), ("sensor", "-s"), ("output_directory", "-o")]
SOLVER = ["pc_input", "save_pc", "gn_input", "save_gn"]


class Factory(object):
    """Gives sensor data by name; a stand-in for the one of the project in complete runs."""

    def get_names(self):
        return ["small"]

    def get_sensor_data(self, name):
        return {"small": sensor_data()}[name]


@contextlib.contextmanager
def factory(stand_in):
    """The factory of sensor data gives those of another one."""
    cls = importlib.import_module("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory
    kept = {n: cls.__dict__[n] for n in ("get_names", "get_sensor_data")}
    for n in kept:
        setattr(cls, n, stand_in.__dict__[n])
    try:
        yield
    finally:
        for n in kept:
            setattr(cls, n, kept[n])


def setup(ctx):
    global common, names
    names = S.inject()
    c13.setup(ctx)
    common = importlib.import_module(PKG + "common")
    importlib.import_module(PKG + "HarmonisationOp")


def lines(ch):
    spec = {"kind": "line", "job": ch.flag("job"), "given": [ch.flag(a) for a, _ in ARGS], "solver": [ch.flag(a) for a in SOLVER],
            "nocov": ch.flag("no_covariance"), "loud": ch.idx(4, "verbosity"), "long": ch.flag("long forms"), "back": ch.flag("reversed"),
            "sensor": "test_sim", "tool": False}
    return spec


def tools(ch):
    return {"kind": "line", "job": ch.flag("job"), "given": [ch.flag(a) for a, _ in ARGS], "solver": [False] * 4, "nocov": False,
            "loud": ch.idx(4, "verbosity"), "long": ch.flag("long forms"), "back": ch.flag("reversed"),
            "sensor": ch.pick(["test_sim", "AVHRR_SIM_3", "no such sensor", None], "sensor"), "tool": True}


def jobs(ch):
    return {"kind": "job", "entries": ch.pick([[0, 1, 2], [0, 1], [0, 2], [1, 2]] + [[2, 1, 0], [1, 0, 2]], "entries"), "style": ch.idx(5, "notation"),
            "path": ch.pick(["absolute", "relative", "dots", "percent", "space", "capitals"], "paths"), "tool": ch.flag("tool"), "loud": ch.idx(3, "verbosity"),
            "nocov": ch.flag("no_covariance"), "sensor": ch.pick(["test_sim", "no such sensor", None], "sensor"), "sub": ch.flag("job file in a directory")}


def runs(ch):
    return {"kind": "run", "how": ch.pick(["options", "job"], "how"), "out": ch.pick(["there", "missing", "missing below missing"], "output directory"),
            "nocov": ch.flag("no_covariance"), "loud": ch.idx(3, "verbosity"), "log": ch.pick([False, "new", "there"], "log"),
            "given": ch.idx(4, "given"), "again": ch.flag("run before"),
            "data": ch.pick(["structured", "random", "all"], "data"), "save": ch.idx(4, "saved")}


def listing(ch):
    return {"kind": "list", "where": ch.pick(["alone", "first", "last"], "where")}


def spaces(tier):
    return [("command lines", lines, 5 if tier == "quick" else None), ("tools", tools, None), ("job files", jobs, 3 if tier == "quick" else None),
            ("complete runs", runs, 2 if tier == "quick" else None), ("list of sensors", listing, None)]


@contextlib.contextmanager
def argv(args):
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["full_eiv_solver"] + args
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        for lg in (logging.getLogger(PKG + "common"), logging.getLogger("common")):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()


class Recorder(object):
    """Takes the place of the operator and keeps what it is asked for."""
    asked = None

    def __init__(self, *a, **k):
        pass

    def run(self, *a, **k):
        sig = inspect.signature(importlib.import_module(PKG + "HarmonisationOp").HarmonisationOp.run)
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        Recorder.asked = dict(b.arguments)


def solver(args, recorded=True):
    """Runs the command; gives what was asked of the operator or None if the command line was refused."""
    sys.modules.pop(PKG + "full_eiv_solver", None)
    Recorder.asked = None
    with argv(args):
        try:
            mod = importlib.import_module(PKG + "full_eiv_solver")
            if recorded:
                mod.HarmonisationOp = Recorder
            mod.main()
        except SystemExit as e:
            if e.code in (0, None):
                raise
            return None
    return Recorder.asked if recorded else True


def tool(args):
    with argv(args):
        try:
            parsed = common.parse_cmdline(description="d", solver_options=False)
        except SystemExit as e:
            if e.code in (0, None):
                raise
            return None
        ds, sd, out, show = common.read_parsed_cmdline(parsed, solver_options=False)
    return {"dataset_dir": ds, "sensor_data": sd, "output_dir": out, "show": show}


def project_data(name):
    return importlib.import_module("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory().sensors_data[name].get_sensor_data()


def known_sensors():
    return list(importlib.import_module("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory().sensors_data)


def pick_sensor(s):
    return known_sensors()[0] if s is None else (s if s in known_sensors() or s[:2] == "no" else known_sensors()[5])


LOUD = [[], ["--quiet"], ["--verbose"], ["--quiet", "--verbose"]]
SHOW = [1, 0, 2]


def write_job(path, entries, style):
    items = ["%s %s %s" % (k, ":" if style == 1 else "=", v) if style != 2 else "%s=%s" % (k, v) for k, v in entries]
    head = {0: "[harmonisation]\n", 1: "# a job\n[harmonisation]\n", 2: "[other]\nsensor = nothing\n[harmonisation]\n",
            3: "[DEFAULT]\nmatchup_dataset = a_b\nsensor = overridden\n\n[harmonisation]\njob_id = 07\n", 4: ""}[style]
    if style == 4:     # one entry is inherited from the defaults
        text = "[DEFAULT]\n%s\n[harmonisation]\n%s\n" % (items[0], "\n".join(items[1:]))
    else:
        text = head + "\n".join(items) + "\n"
    with open(path, "w") as f:
        f.write(text)


def compare(asked, want, rec, what):
    if not rec.check((asked is None) == (want is None), "refused", "%s %s" % (what, "was refused" if asked is None else "was not refused")):
        return
    rec.count("refused" if want is None else "accepted")
    for k in want or {}:
        if k == "sensor_data":
            rec.check(asked[k] is want[k] or list(asked[k]) == list(want[k]), k, "%s: sensor data for %r" % (what, list(asked[k])[:3]))
        else:
            rec.check(asked[k] == want[k], k, "%s: %s is %r, not %r" % (what, k, asked[k], want[k]))


def run(spec, rec):
    d = os.path.join(rec.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)
    try:
        {"line": run_line, "job": run_job, "run": run_run, "list": run_list}[spec["kind"]](spec, rec, d)
    finally:
        os.chdir(rec.scratch)
    rec.state(spec)


def run_line(spec, rec, d):
    job = os.path.join(d, "a.cfg")
    write_job(job, [("dataset_dir", "/data/in"), ("sensor", "test_sim"), ("output_dir", "/data/out")], 0)
    sensor = pick_sensor(spec["sensor"])
    vals = ["/data/m u", sensor, "results/x"]
    toks = []
    if spec["job"]:
        toks.append(["--job_file" if spec["long"] else "-j", job])
    for (long, short), v, g in zip(ARGS, vals, spec["given"]):
        if g:
            toks.append(["--%s=%s" % (long, v)] if spec["long"] else [short, v])
    for a, g in zip(SOLVER, spec["solver"]):
        if g:
            toks.append(["--" + a, "/state/" + a])
    if spec["nocov"]:
        toks.append(["--no_covariance"])
    toks += [[x] for x in LOUD[spec["loud"]]]
    args = [x for t in (toks[::-1] if spec["back"] else toks) for x in t]
    bad = spec["loud"] == 3 or (spec["job"] and (any(spec["given"]) or any(spec["solver"]))) or (not spec["job"] and not all(spec["given"]))
    want = None
    unknown = not bad and not spec["job"] and sensor not in known_sensors()
    if not bad and not unknown:
        if spec["job"]:
            want = {"dataset_dir": "/data/in", "sensor_data": project_data("test_sim"), "output_dir": "/data/out"}
        else:
            want = {"dataset_dir": vals[0], "sensor_data": project_data(sensor), "output_dir": vals[2]}
        want["show"] = SHOW[spec["loud"]]
        if not spec["tool"]:
            for a, g in zip(SOLVER, spec["solver"]):
                want[a] = "/state/" + a if g else None
            want["return_covariance"] = not spec["nocov"]
    try:
        asked = tool(args) if spec["tool"] else solver(args)
    except KeyError:
        if not unknown:
            raise
        asked = None
    rec.step()
    compare(asked, want, rec, " ".join(args))
    rec.outcome(repr({k: v for k, v in (asked or {}).items() if k in ("show", "return_covariance") or k in SOLVER}))


def run_job(spec, rec, d):
    base = {"absolute": "/data/", "relative": "data/", "dots": "../x/./data/", "percent": "/da%(t)s%ta/", "space": "/my data/", "capitals": "/Data/MY.Data/"}[spec["path"]]
    sensor = pick_sensor(spec["sensor"])
    entries = [("dataset_dir", base + "in"), ("sensor", sensor), ("output_dir", base + "out")]
    name = "jobs/job.cfg" if spec.get("sub") else "job.cfg"       # paths are relative to where the command is run
    os.mkdir("jobs")
    job = os.path.join(d, name)
    write_job(job, [entries[i] for i in spec["entries"]], spec["style"])
    args = ["-j", name] + LOUD[spec["loud"]] + (["--no_covariance"] if spec["nocov"] and not spec["tool"] else [])
    missing = len(spec["entries"]) < 3 and not (spec["style"] == 3 and 1 not in spec["entries"])
    if len(spec["entries"]) < 3 and not missing:
        missing = True      # the sensor of the defaults is unknown
    want = None
    if not missing and sensor in known_sensors():
        want = {"dataset_dir": os.path.abspath(base + "in"), "sensor_data": project_data(sensor), "output_dir": os.path.abspath(base + "out"),
                "show": SHOW[spec["loud"]]}
        if not spec["tool"]:
            want.update(dict.fromkeys(SOLVER), return_covariance=not spec["nocov"])
    try:
        asked = tool(args) if spec["tool"] else solver(args)
    except Exception:
        if want is not None:
            raise
        asked = None
    rec.step()
    compare(asked, want, rec, "job file with %r" % [entries[i] for i in spec["entries"]])
    rec.outcome(repr({k: v for k, v in (asked or {}).items() if k in ("show", "dataset_dir", "output_dir")}))


class NoPixels(gn.SensorModel):
    def __call__(self, X, a, c, xt, at, t):
        z = np.zeros(len(X))
        return gn.SensorModel.__call__(self, X, a, c, z, z, z)


def sensor_data():
    out = {}
    for i, s in enumerate(S.NAMES[:3]):
        m = [1, 2, 1][i]
        out[s] = {"sensor_model": gn.Reference() if i == 0 else NoPixels(i, m, i), "sensor_model_parameter": [0.5 + 0.25 * j for j in range(i)],
                  "sensor_model_constant": [], "sensor_model_variables_num": m, "sensor_model_variable_names": ["x%d" % j for j in range(m)],
                  "sensor_model_variable_labels": ["x%d" % j for j in range(m)], "nominal_measurand_label": "R"}
    return out


def run_run(spec, rec, d):
    files = [dict(f) for f in gn.fill(c13.files(spec["data"]), 0.25)]
    src = os.path.join(d, "in")
    os.mkdir(src)
    for k, f in enumerate(files):
        S.write_file(os.path.join(src, "f%d.nc" % k), dict(f, time1=np.arange(f["M"]) * 60., time2=np.arange(f["M"]) * 60.))
    out = os.path.join(d, "out", *{"there": [], "missing": ["a"], "missing below missing": ["a", "b"]}[spec["out"]])
    os.mkdir(os.path.join(d, "out"))
    extra = []
    if spec["how"] == "job":
        write_job(os.path.join(d, "job.cfg"), [("dataset_dir", "in"), ("sensor", "small"), ("output_dir", out)], 0)
        args = ["-j", "job.cfg"]
    else:
        args = ["-i", src, "-s", "small", "-o", out]
        if spec["save"] & 1:
            extra += ["--save_pc", os.path.join(d, "pc.nc")]
        if spec["save"] & 2:
            extra += ["--save_gn", os.path.join(d, "state")]
        mu = names["open_matchup"](src) if "open_matchup" in names else importlib.import_module("harmonisation").open_matchup(src)
        mu.setSensorData(sensor_data())
        if spec.get("given", 0) & 1:
            with contextlib.redirect_stdout(io.StringIO()):
                names["HarmonisationEIV"]().run(copy.deepcopy(mu), show=0, save_pc=os.path.join(d, "pc_in.nc"), return_covariance=False)
            extra += ["--pc_input", os.path.join(d, "pc_in.nc")]
        if spec.get("given", 0) & 2:
            c13.GNA.GNAlgo(c13.c11.T().run(mu)).save(os.path.join(d, "state_in"))
            extra += ["--gn_input", os.path.join(d, "state_in")]
    if spec["log"] == "there":
        with open("log.txt", "w") as f:
            f.write("before\n")
    args += extra + LOUD[spec["loud"]] + (["--no_covariance"] if spec["nocov"] else []) + (["--log", os.path.join(d, "log.txt")] if spec["log"] else [])
    c13.DRAW[0] = "first"
    with factory(Factory):
        ok = solver(args, recorded=False)
        if ok and spec.get("again"):        # what an earlier run wrote is written again
            ok = solver(args, recorded=False)
    rec.step()
    rec.check(ok, "refused", "%r was refused" % args)
    if not ok:
        return
    h = names["HarmonisationResult"](out)
    from harmonisation import open_matchup
    mu = open_matchup(src)
    mu.setSensorData(sensor_data())
    with contextlib.redirect_stdout(io.StringIO()):
        want = names["HarmonisationEIV"]().run(mu, show=0)
    sig = np.sqrt(np.diag(want.parameter_covariance_matrix))
    a = np.asarray(h.parameter)
    rec.check(a.shape == want.parameter.shape and np.max(np.abs(a - want.parameter) / sig) < 0.02, "parameters",
              "parameters %r, not %r" % (a, want.parameter))
    rec.check([str(s) for s in h.parameter_sensors] == [str(s) for s in want.parameter_sensors], "sensors", "sensors %r" % (h.parameter_sensors,))
    C = h.parameter_covariance_matrix
    if spec["nocov"]:
        rec.check(C is None or not np.any(np.asarray(C)), "covariance", "a covariance though it was not asked for: %r" % (C,))
    else:
        rec.check(np.max(np.abs(np.asarray(C) - want.parameter_covariance_matrix) / np.outer(sig, sig)) < 0.01, "covariance", "covariance %r" % (C,))
    rec.check(abs(h.cost - want.cost) < 2e-3 * (1 + want.cost), "cost", "cost %r, not %r" % (h.cost, want.cost))
    rec.check(h.cost_dof == want.cost_dof and abs(h.cost_p_value - want.cost_p_value) < 0.01, "cost", "statistics %r" % ((h.cost_dof, h.cost_p_value),))
    rec.check(str(h.additional_attributes.get("software")) == "EV", "attributes", "attributes %r" % (h.additional_attributes,))
    rec.check(h.ks_res is not None and len(h.ks_res) == sum(f["M"] for f in files), "residuals", "residuals of the adjustment factors")
    def by_series(x):       # a result is opened with its series in the order of their files' names
        return {tuple(str(x.idx["sensors"][i]) for i in p): np.asarray(x.ks_res)[x.idx["cNm"][k]:x.idx["cNm"][k + 1]]
                for k, p in enumerate(x.idx["Im"])}
    got, res = by_series(h), by_series(want)
    rec.check(set(got) == set(res) and all(S.near(got[p], res[p], 0, 0.02) for p in res), "residuals",
              "residuals of the adjustment factors %r, not %r" % (got, res))
    idx, blocks = S.layout(files)

    def by_block(v, idx, n_sensor, n_mu, n_cov, Im):
        return {(tuple(str(idx["sensors"][i]) for i in Im[k - 1]), list(Im[k - 1]).index(s), cov): np.asarray(v)[idx["idx"][b]:idx["idx"][b + 1]]
                for b, (s, k, cov) in enumerate(zip(n_sensor, n_mu, n_cov))}
    rec.check(h.values_res is not None and len(h.values_res) == idx["idx"][-1], "residuals", "residuals of the data")
    if h.values_res is not None and len(h.values_res) == idx["idx"][-1]:
        got = by_block(h.values_res, h.idx, h.idx["n_sensor"], h.idx["n_mu"], h.idx["n_cov"], h.idx["Im"])
        res = by_block(want.values_res, idx, *zip(*[b[:3] for b in blocks]), idx["Im"])
        for b in res:
            u = np.std(files[[tuple(f["s"]) for f in files].index(b[0])]["X%d" % (b[1] + 1)][:, b[2] - 1])
            rec.check(b in got and S.near(got[b], res[b], 0.02, 1e-3 * (1 + u)), "residuals", "residuals of the data of %r are %r, not %r" % (b, got.get(b), res[b]))
    n = len([f for f in os.listdir(out) if f.endswith(".nc")])
    rec.check(n == 1 + len(files), "files", "%d files for %d series" % (n, len(files)))
    for x in extra[1::2]:
        rec.check(os.path.exists(x), "saved", "%s was not saved" % x)
    rec.check(os.path.exists("log.txt") == bool(spec["log"]), "log", "log file")
    if spec["log"] == "there":
        with open("log.txt") as f:
            rec.check(f.read(7) == "before\n", "log", "what was in the log file is gone")
    rec.outcome((spec["nocov"], spec["data"], n, len(extra)))


def run_list(spec, rec, d):
    args = {"alone": [], "first": ["-i", "x"], "last": ["-i", "x", "-s", "y"]}[spec["where"]]
    args = ["--list_sensors"] + args if spec["where"] == "first" else args + ["--list_sensors"]
    buf = io.StringIO()
    with argv(args):
        sys.stdout = buf
        code = None
        try:
            common.parse_cmdline(description="d")
        except SystemExit as e:
            code = e.code
    rec.step()
    rec.check(code in (0, None), "list", "exit %r" % (code,))
    rec.check(buf.getvalue().split("\n")[:-1] == known_sensors(), "list", "listed %r" % buf.getvalue())
    for s in known_sensors():
        rec.check(len(project_data(s)) > 0, "list", "no data for %s" % s)
    rec.outcome(code)
