"""C33: the commands for plots draw the result of the output directory for the dataset asked for."""

import calendar
import contextlib
import copy
import hashlib
import importlib
import io
import logging
import os
import shutil
import sys

import numpy as np

import mplstub
import support as S
from checks import c08, c17, c32

NEEDS = {"py", "cython"}
SCOPE = ("every history of 2 (thorough 3) runs of harm_plot and harm_comp_plot on 5 datasets, by options or job file, with 3 verbosities and log files, results in "
         "both orders of the parameters or with those of one more sensor, with residual and other files around, tables of more sensors than the dataset has; all figures compared")
ASSUMPTIONS = c32.ASSUMPTIONS 
PKG = "harmonisation.tools."
DATASETS = c32.DATASETS + [[{"s": S.names(["A", "B"]), "m": [1, 2], "M": 3}, {"s": S.names(["A", "C"]), "m": [1, 2], "M": 4}, {"s": S.names(["B", "C"]), "m": [2, 2], "M": 2}]]
TABLE = [None]


class Factory(object):
    def get_names(self):
        return ["small", "other"]

    def get_sensor_data(self, name):
        return {"small": TABLE[0]}[name]


def setup(ctx):
    global common
    c32.setup(ctx)
    S.inject()
    import harmonisation as h
    h.HarmonisationVis = c32.HarmonisationVis
    h.MatchUpVis = c32.MV.MatchUpVis
    common = importlib.import_module(PKG + "common")


def gen(depth, full):
    def g(ch):
        files = copy.deepcopy(ch.pick(DATASETS, "dataset"))
        for f in files:
            f["t"] = [[1] * m for m in f["m"]]
        runs = []
        for _ in range(depth):
            runs.append([ch.pick(["harm_plot", "harm_comp_plot", None] if runs else ["harm_plot", "harm_comp_plot"], "command"),
                         ch.pick(["options", "job"], "how"), ch.idx(3, "verbosity")])
        return {"files": files, "runs": [r for r in runs if r[0]], "order": ch.pick([1, -1], "order of the parameters"), "wide": ch.flag("more sensors in the result"),
                "names": ch.flag("names of variables"), "more": ch.flag("more sensors in the table"), "residuals": ch.flag("residual files"),
                "others": ch.flag("other files"), "log": ch.flag("log file"), "plots": ch.flag("directory of plots exists"),
                "stem": ch.pick(["harm_EV_1.nc", "harm_residuals.nc"], "name of the result")}
    return g


def spaces(tier):
    return [("commands", gen(2, False), 3)] if tier == "quick" else [("commands", gen(3, True), 4)]


class Fixed(object):
    """A sensor function that looks at covariates, parameters and constants only (also when it is copied)."""

    def __init__(self, tag):
        self.tag = tag

    def __call__(self, X, a, c, xt, at, t):
        return c08.model(self.tag)(X, a, c, None, None, None)


class Slope(object):
    def __init__(self, i):
        self.i = i

    def __call__(self, L):
        return L * (self.i + 2) + 1, np.ones(len(L)) * (self.i + 2)


def table(m, spec):
    out = {}
    order = list(m.sensors)
    if spec["more"]:
        out["Z"] = {"sensor_model": Fixed(-5.), "sensor_model_parameter": [9., 9.], "sensor_model_constant": [3.], "sensor_model_variables_num": 2}
    for i, s in enumerate(order):
        out[s] = {"sensor_model": Fixed(10. * (i + 1)), "sensor_model_parameter": list(m.a0[s]), "sensor_model_constant": list(m.con[s]),
                  "sensor_model_variables_num": m.idx["sensor_ms"][i], "sensor_adjustment_model": Slope(i), "nominal_measurand_label": "L"}
        if spec["names"]:
            out[s]["sensor_model_variable_names"] = m.names[:m.idx["sensor_ms"][i]]
            out[s]["sensor_model_variable_labels"] = m.labels[:m.idx["sensor_ms"][i]]
    return out


def digest(d):
    out = {}
    for top, _, names in os.walk(d):
        for n in names:
            p = os.path.join(top, n)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def command(name, args):
    """True if it ran, None if it was refused."""
    for mod in (name, {"harm_plot": "HarmonisationPlottingOp", "harm_comp_plot": "HarmonisationCompPlottingOp"}[name]):
        sys.modules.pop(PKG + mod, None)
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = [name] + args, io.StringIO(), io.StringIO()
    try:
        with c17.factory(Factory):
            importlib.import_module(PKG + name).main()
        return True
    except SystemExit as e:
        return None if e.code not in (0, None) else True
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        lg = logging.getLogger(PKG + "common")
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()


def run(spec, rec):
    d = os.path.join(rec.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "in"))
    os.makedirs(os.path.join(d, "out"))
    os.chdir(d)
    try:
        _run(spec, rec, d)
    finally:
        os.chdir(rec.scratch)


def _run(spec, rec, d):
    m = c32.Model(spec)
    for k, f in enumerate(m.files):
        g = dict(f, add={"nominal_measurand1": f["L"][0], "nominal_measurand2": f["L"][1], "angle": f["angle"]})
        g["time2"] = np.array([calendar.timegm(t.timetuple()) for t in m.t2[k]], float)
        g["time1"] = g["time2"] - 4e7
        S.write_file(os.path.join(d, "in", "f%d.nc" % k), g)
    TABLE[0] = table(m, spec)
    order = m.sensors[::spec["order"]]
    values = dict(m.a1)
    if spec["wide"]:
        order = order[:1] + ["Y"] + order[1:]
        values["Y"] = [7., 5.]
    r = c32.Result()
    labels = [s for s in order for _ in values[s]]
    r.parameter = np.array([a for s in order for a in values[s]])
    r.parameter_sensors = list(labels)
    n = len(labels)
    V = np.diag(np.arange(1., n + 1)) + 0.125 * np.add.outer(np.arange(n), np.arange(n))
    r.parameter_covariance_matrix = V.copy()
    r.idx = m.idx
    r.ks_res = np.zeros(m.idx["cNm"][-1])
    r.values_res = np.zeros(m.idx["idx"][-1])
    r.additional_variables = {}
    if not any(len(m.a1[s]) for s in m.sensors):
        rec.count("no parameters")
        return
    r.save(os.path.join(d, "out", spec["stem"]), save_residuals=spec["residuals"])
    if spec["plots"]:
        os.makedirs(os.path.join(d, "out", "plots", "overview"))
    if spec["others"]:
        for name in ("notes.txt", "harm.txt"):
            open(os.path.join(d, "out", name), "w").write("x")
    before = digest(d)
    for i, (cmd, how, loud) in enumerate(spec["runs"]):
        if how == "job":
            c17.write_job(os.path.join(d, "job.cfg"), [("dataset_dir", "in"), ("sensor", "small"), ("output_dir", "out")], 0)
            args = ["-j", "job.cfg"]
        else:
            args = ["-i", "in", "-s", "small", "-o", os.path.join(d, "out")]
        args += c17.LOUD[loud] + (["--log", os.path.join(d, "log.txt")] if spec["log"] else [])
        mplstub.take()
        ok = command(cmd, args)
        rec.step()
        if not rec.check(ok, "refused", "%s %r was refused" % (cmd, args)):
            return
        saved = mplstub.take()
        if cmd == "harm_plot":
            plotted(rec, m, d, saved)
        else:
            compared(rec, m, d, saved, labels, V)
        rec.state((spec["files"], spec["runs"][:i + 1], spec["order"], spec["more"]))
    after = digest(d)
    for name in ("job.cfg", "log.txt"):
        after.pop(name, None)
    rec.check(after == before, "changed", "files changed: %r" % sorted(set(after.items()) ^ set(before.items())))
    rec.outcome((spec["files"], spec["runs"]))


def plotted(rec, m, d, saved):
    want = {}
    for fig in c32.FIGURES:
        where = {"X": "sensor_state_variables", "a": "additional_variables"}.get("X" if "_X_" in fig else "a" if "additional" in fig else "")
        where = os.path.join("diagnostics", "kres_harmonised" if "harm_harm" in fig else "kres_nom_harm", where) if where else "overview"
        for name, w in c32.expected(m, fig).items():
            want[os.path.join(d, "out", "plots", where, name)] = w
    got = {os.path.abspath(s["path"]): s for s in saved}
    rec.check(all(os.path.isdir(os.path.dirname(p)) for p in got), "directory", "figures are written to directories that do not exist")
    if not rec.check(sorted(got) == sorted(want), "files", "figures: %r too many, %r missing" % (sorted(set(got) - set(want)), sorted(set(want) - set(got)))):
        return
    for p in want:
        c32.same_figure(rec, os.path.relpath(p, d), got[p], want[p], None)


def compared(rec, m, d, saved, labels, V):
    names = {os.path.join(d, "out", "plots", "compare_calibration.%s.pdf" % s): s for s in m.sensors}
    got = {os.path.abspath(s["path"]) for s in saved}
    if not rec.check(got == set(names), "files", "%r, not %r" % (sorted(got), sorted(names))):
        return
    for fig in saved:
        s = names[os.path.abspath(fig["path"])]
        i = m.sensors.index(s)
        ax = fig["axes"][0]
        if not rec.check(len(ax["series"]) == 1, "figure", "%s: %d series" % (s, len(ax["series"]))):
            continue
        g = ax["series"][0]
        cand = []
        for f in m.files:
            for side in (0, 1):
                if f["s"][side] != s:
                    continue
                X = np.float32([np.linspace(min(c), max(c), 20) for c in np.float32(f["X%d" % (side + 1)]).T]).T
                r0, _ = c08.model(10. * (i + 1))(X, np.float32(m.a0[s]), m.con[s], None, None, None)
                r1, J = c08.model(10. * (i + 1))(X, np.float32(m.a1[s]), m.con[s], None, None, None)
                loc = [j for j, l in enumerate(labels) if l == s]
                Ja = J[:, f["m"][side]:]
                u = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Ja, V[np.ix_(loc, loc)], Ja), 0)) if loc else np.zeros(20)
                cand.append((r0, r0 - r1, 2 * u))
        near = lambda a, b: S.near(a, b, 1e-4, 1e-3)
        data = [c for c in cand if near(g["x"], c[0]) and near(g["y"], c[1])]
        rec.step()
        if rec.check(data, "figure", "the comparison for %s shows %r, %r, not one of %r" % (s, g["x"][:3], g["y"][:3], [(c[0][:3], c[1][:3]) for c in cand])):
            rec.check(g["yerr"] is not None and any(near(g["yerr"], c[2]) for c in data), "errors", "uncertainties for %s are %r, not one of %r" % (
                s, g["yerr"], [c[2] for c in data]))
        rec.check(str(ax.get("title", "")).endswith(" " + s), "labels", "title %r for %s" % (ax.get("title"), s))
