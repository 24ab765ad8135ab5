"""C32: the quantities and figures of a plot object are those of its dataset and result, whatever is asked for first."""

import calendar
import copy
import datetime
import importlib
import os

import numpy as np

import mplstub
import support as S
from checks import c01, c08

NEEDS = {"py"}
SCOPE = ("every sequence of 2 (thorough 3) of 26 queries on 4 datasets; all figures for every pairing of up to 4 sensors in 1-3 series, 1-3 covariates, "
         "1-4 match-ups, selections of series, limits, missing values, names of variables and orders of the parameters; samples of more match-ups than are "
         "drawn, with every outcome of the draws; direct calls of the drawing functions with every pattern of missing values; "
         "a sensor or adjustment model failing at each of its calls; averages of every 1-2 (thorough 4) values over hours, days, months, years and bins; 12 series in four patterns")
ASSUMPTIONS = ["matplotlib is not installed: a stand-in records what is drawn (and refuses coordinates of different lengths)"]
B = "harmonisation.core.matchup."
MAX = 10000
DRAWS = [[0.0], 0]


def setup(ctx):
    global stats, HV, MV, HarmonisationVis, MatchUp, Uncertainty, Result, plots
    mplstub.install()
    real = np.random.rand

    def rand(*n):
        if DRAWS[0] is None:
            return real(*n)
        out = []
        for _ in range(int(np.prod(n)) if n else 1):
            out.append(DRAWS[0][DRAWS[1] % len(DRAWS[0])])
            DRAWS[1] += 1
        return np.array(out).reshape(n) if n else out[0]
    np.random.rand = rand
    HV = importlib.import_module(B + "matchupToolbox.harmonisation.harmonisationVis.HarmonisationVis")
    MV = importlib.import_module(B + "matchupVis.MatchUpVis")
    plots = importlib.import_module("harmonisation.core.utils.plots")
    stats = importlib.import_module("harmonisation.core.utils.stats")
    HarmonisationVis = HV.HarmonisationVis
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    Result = importlib.import_module(B + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult").HarmonisationResult


QUERIES = (["L1_nom", "L2_nom", "kres_nom_nom", "times", "L1_harm", "L2_harm", "kres_harm_harm", "kres_nom_harm"] +
           [q + "_musamples" for q in ("L1_nom", "L2_nom", "kres_nom_nom", "times", "L1_harm", "L2_harm", "kres_harm_harm", "kres_nom_harm")] +
           [q + "_monthlymean" for q in ("kres_nom_nom", "kres_harm_harm", "kres_nom_harm")] +
           ["Xmax", "Xmin", "musamples_total", "mu_total", "mu_labels", "mu_fname_suffix", "MatchUpSim"])
DATASETS = [
    [{"s": ["A", "B"], "m": [2, 2], "M": 3}],
    [{"s": ["A", "B"], "m": [1, 3], "M": 2}, {"s": ["B", "C"], "m": [3, 3], "M": 4}],
    [{"s": ["B", "A"], "m": [3, 1], "M": 3}, {"s": ["B", "C"], "m": [3, 2], "M": 1}],
    [{"s": ["A", "B"], "m": [2, 2], "M": 2}, {"s": ["A", "B"], "m": [2, 2], "M": 3}, {"s": ["B", "A"], "m": [2, 2], "M": 1}]]
DATASETS = [[dict(f, s=S.names(f["s"])) for f in d] for d in DATASETS]


def queries(n):
    def gen(ch):
        files = copy.deepcopy(ch.pick(DATASETS, "dataset"))
        for f in files:
            f["t"] = [[1] * m for m in f["m"]]
        return {"kind": "queries", "files": files, "order": ch.pick([1, -1], "order of the parameters"),
                "ask": [ch.pick(QUERIES, "query") for _ in range(n)]}
    return gen


# Calls of sensor models and adjustment models are numbered; the one of this number fails.
FAULT = [None, 0]


class Failure(Exception):
    pass


def faulty(f):
    def model(*a):
        FAULT[1] += 1
        if FAULT[0] is not None and FAULT[1] - 1 == FAULT[0]:
            raise Failure("model fails")
        return f(*a)
    return model


def faults(n, depth):
    def gen(ch):
        files = copy.deepcopy(ch.pick(DATASETS, "dataset"))
        for f in files:
            f["t"] = [[1] * m for m in f["m"]]
        ask = [ch.pick([q for q in QUERIES if "_harm" in q or q == "L1_nom"], "query") for _ in range(n)]
        return {"kind": "faults", "files": files, "order": 1, "ask": ask, "fail": ch.idx(depth, "call that fails")}
    return gen


FIGURES = ["plot_kres_nom_nom_scatter", "plot_kres_nom_nom_scatter_monthlymean", "plot_kres_harm_harm_scatter", "plot_kres_harm_harm_scatter_monthlymean",
           "plot_kres_nom_harm_scatter", "plot_kres_nom_harm_scatter_monthlymean", "plot_L1_nom_v_L2_nom_scatter", "plot_L1_harm_v_L2_harm_scatter",
           "plot_kres_harm_harm_X_binned_line", "plot_kres_nom_harm_X_binned_line", "plot_kres_harm_harm_additional_variables_binned_line",
           "plot_kres_nom_harm_additional_variables_binned_line"]
DENSITY = ["plot_kres_nom_nom_density", "plot_kres_harm_harm_density", "plot_kres_nom_harm_density", "plot_L1_nom_v_L2_nom_density",
           "plot_L1_harm_v_L2_harm_density"]


def figures(n, maxm, Ms):
    def gen(ch):
        files = c01.topology(ch, ch.pick(n, "series"), maxm)
        c01.base(files, [ch.pick(Ms, "M") for _ in files])
        mus = [None, [len(files)], list(range(len(files), 0, -1)), [1]]
        return {"kind": "figures", "files": files, "order": ch.pick([1, -1], "order of the parameters"), "ylim": ch.pick([None, [-2., 3.]], "ylim"),
                "mus": ch.pick(mus, "series drawn"), "nan": ch.pick([None, 0, -1], "missing value"), "lost": ch.pick([None, 0, -1, "all"], "series without the variable"), "names": ch.flag("names of variables"),
                "turn": ch.idx(2, "order of the figures")}
    return gen


def many(ch):
    files = S.many(ch, types=[1], Ms=(2, 3, 1, 4))
    for f in files:
        f["m"] = [min(m, 3) for m in f["m"]]
        f["t"] = [[1] * m for m in f["m"]]
    return {"kind": "figures", "files": files, "order": ch.pick([1, -1], "order of the parameters"), "ylim": None, "turn": 0, "names": False,
            "mus": ch.pick([None, [12], [11, 2, 1, 12]], "series drawn"), "nan": ch.pick([None, -1], "missing value"), "lost": ch.pick([None, 10], "series without the variable")}


def density(ch):
    files = [{"s": ["A", "B"], "m": [1, 2], "M": 4}, {"s": ["B", "C"], "m": [2, 1], "M": 5}]
    for f in files:
        f["s"] = S.names(f["s"])
        f["t"] = [[1] * m for m in f["m"]]
    return {"kind": "figures", "files": files, "order": ch.pick([1, -1], "order"), "ylim": None, "mus": None, "nan": ch.pick([None, 0, -1], "missing value"),
            "names": False, "turn": 0, "figs": [ch.pick(DENSITY, "figure")]}


def samples(ch):
    files = copy.deepcopy(ch.pick(DATASETS[1:], "dataset"))
    for f in files:
        f["t"] = [[1] * m for m in f["m"]]
    lim = ch.pick([3, 5, 2, 1], "drawn")
    return {"kind": "samples", "files": files, "order": 1, "max": lim, "draws": [ch.pick([0., 0.26, 0.51, 0.999], "draw") for _ in range(3)],
            "first": ch.pick(["kres_nom_nom", "times", "L2_harm", "kres_harm_harm"], "first")}


def direct(ch):
    n = ch.pick([1, 2, 3], "points")
    return {"kind": "scatter", "many": ch.pick([0, 1, 2, 10], "series"), "x": [ch.flag("x missing") for _ in range(n)],
            "y": [ch.flag("y missing") for _ in range(n)], "xerr": ch.flag("xerr"), "yerr": ch.flag("yerr"),
            "legend": ch.pick([None, "outside", "top_right"], "legend"), "dates": ch.flag("dates"), "lines": ch.flag("lines")}


PERIODS = {"hour": (datetime.timedelta(hours=1), datetime.datetime(2003, 12, 31, 22)), "day": (datetime.timedelta(days=1), datetime.datetime(2004, 2, 28)),
           "month": (None, datetime.datetime(2003, 11, 1)), "year": (None, datetime.datetime(1999, 1, 1))}


def period(name, i):
    """Start of the i-th period."""
    d, t = PERIODS[name]
    if d:
        return t + i * d
    if name == "year":
        return t.replace(year=t.year + i)
    return t.replace(year=t.year + (t.month - 1 + i) // 12, month=(t.month - 1 + i) % 12 + 1)


def averages(n):
    def gen(ch):
        return {"kind": "average", "period": ch.pick(sorted(PERIODS), "period"),
                "t": [[ch.pick([0, 1, 3], "period"), ch.idx(3, "instant")] for _ in range(ch.pick(range(1, n + 1), "points"))], "nan": ch.flag("first is missing")}
    return gen


def bins(n):
    def gen(ch):
        return {"kind": "bin", "bins": ch.pick([1, 2, 4], "bins"), "range": ch.pick([[0, 4], None, [1, 3], [2, 2]], "range"),
                "x": [ch.pick([0., 1., 1.5, 2., 3., 4., -1., None], "x") for _ in range(ch.pick(range(1, n + 1), "points"))], "nan": ch.flag("first is missing")}
    return gen


def hist(ch):
    n = ch.pick([2, 3, 4], "points")
    return {"kind": "hist", "x": [ch.flag("x missing") for _ in range(n)], "y": [ch.flag("y missing") for _ in range(n)], "dates": ch.flag("dates"),
            "bins": ch.pick([4, 1], "bins"), "lines": ch.flag("lines"), "txt": ch.flag("text")}


def spaces(tier):
    q = tier == "quick"
    return [("queries", queries(2 if q else 3), None), ("failing models", faults(1 if q else 2, 13), None), ("figures of 1-2 series", figures([1, 2], 2 if q else 3, [2, 3, 1]), 3 if q else 5),
            ("figures of 3 series", figures([3], 2, [2, 1, 4]), 2 if q else 4), ("figures of 12 series", many, 1 if q else 3), ("densities", density, None), ("samples", samples, None),
            ("drawing", direct, 4 if q else None), ("two-dimensional histograms", hist, None),
            ("averages of periods", averages(2 if q else 4), None), ("bins", bins(2 if q else 4), None)]


# ------------------------------------------------------------------------------------------------------------- model

def months_of(files):
    """Times of the second sensor: months with several match-ups, with one and with none."""
    out = []
    for k, f in enumerate(files):
        out.append([datetime.datetime(2004 + k, 11, 28, 3, k) + datetime.timedelta(days=[0, 1, 70, 71][i % 4], hours=i) for i in range(f["M"])])
    return out


class Model(object):
    """Everything that the plots show, series by series, from the specification alone."""

    def __init__(self, spec):
        self.files = files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
        self.idx, self.blocks = S.layout(files)
        self.sensors = self.idx["sensors"]
        nan = spec.get("nan")
        for k, f in enumerate(files):
            for side in (1, 2):
                v = f["X%d" % side]
                M, m = v.shape
                # uneven, of both signs, no value on the edge of a bin but the first and the last
                f["X%d" % side] = np.array([[(-1) ** c * (i * i * 0.7310585 + i * 0.2113 + 1.37 * k + side + 0.31 * c) for c in range(m)] for i in range(M)])
            f["L"] = [np.arange(f["M"]) * 1.25 + 3 * k + 0.5, np.arange(f["M"]) ** 2 * 0.75 - k + 2.25]
            if nan is not None:
                f["L"][0 if nan == 0 else 1][nan] = np.nan
            if spec.get("lost") == "all" or spec.get("lost") is not None and f is files[spec["lost"]]:
                f["lost"] = True
            f["K"] = np.arange(f["M"]) * 0.3 - 0.7 * k + 0.1
            f["angle"] = np.array([10.3, -4.1, 7.7, 20.9, 1.6][:f["M"]]) + 2 * k + (np.nan if f.get("lost") else 0)
        self.t2 = months_of(files)
        self.npar = {s: (i + 1) % 3 for i, s in enumerate(self.sensors)}
        self.a0 = {s: [0.5 + i + 0.25 * j for j in range(self.npar[s])] for i, s in enumerate(self.sensors)}
        self.a1 = {s: [3.0 - 2.0 * i + 1.75 * j for j in range(self.npar[s])] for i, s in enumerate(self.sensors)}
        self.con = {s: [10. * i + j for j in range((i + 1) % 3)] for i, s in enumerate(self.sensors)}
        self.names = ["C_S", "C_E", "L_T"] if spec.get("names") else ["X1", "X2", "X3"]
        self.labels = ["C_{S}", "C_{E}", "L_{T}"] if spec.get("names") else ["X1", "X2", "X3"]

    def adjusted(self, k, side, par, adjust=True):
        f = self.files[k]
        i = self.sensors.index(f["s"][side])
        r = c08.model(10. * (i + 1))(np.float32(f["X%d" % (side + 1)]), np.float32(par[f["s"][side]]), self.con[f["s"][side]], None, None, None)
        return r[0] * (i + 2.) + 1 if adjust else r

    def q(self, name, k):
        """Quantity `name` of series k (from 0)."""
        f = self.files[k]
        if name in ("L1_nom", "L2_nom"):
            return f["L"][int(name[1]) - 1]
        if name in ("L1_harm", "L2_harm"):
            return self.adjusted(k, int(name[1]) - 1, self.a1)
        if name == "times":
            return np.array(self.t2[k])
        a, b = name.split("_")[1:]
        # k_res_<second><first>: nominal or harmonised measurand of the second and first sensor
        return self.q("L2_" + a, k) - self.q("L1_" + b, k) - f["K"]

    def monthly(self, name, k):
        v, t = self.q(name, k), self.t2[k]
        y, m = min(t).year, min(t).month
        X, Y = [], []
        while (y, m) <= (max(t).year, max(t).month):
            here = [v[i] for i in range(len(t)) if (t[i].year, t[i].month) == (y, m)]
            if here and not np.isnan(np.sum(here)):
                X.append(datetime.datetime(y, m, 1))
                Y.append(np.mean(here))
            y, m = (y, m + 1) if m < 12 else (y + 1, 1)
        return X, Y

    def binned(self, x, y, lo, hi, n=50):
        X, Y, E = [], [], []
        for i in range(n):
            a, b = lo + i * (hi - lo) / n, lo + (i + 1) * (hi - lo) / n
            last = i == n - 1
            here = [v for u, v in zip(x, y) if (a <= u <= hi if last else a <= u < b)]
            if here and not np.isnan(np.sum(here)):
                X.append((a + b) / 2)
                Y.append(np.mean(here))
                E.append(np.std(here))
        return X, Y, E

    def label(self, k):
        return " - ".join(self.files[k]["s"])

    def build(self, spec):
        mu, idx, _ = S.mem_matchup(MatchUp, Uncertainty, self.files)
        mu.additional_values = np.array([[f["L"][0][i], f["L"][1][i], f["angle"][i]] for f in self.files for i in range(f["M"])])
        mu.idx["additional_values_name"] = ["nominal_measurand1", "nominal_measurand2", "angle"]
        mu.time2 = np.array([t for ts in self.t2 for t in ts])
        mu.time1 = np.array([t - datetime.timedelta(days=400) for t in mu.time2])
        s = self.sensors
        mu.a = np.array([a for n in s for a in self.a0[n]], dtype=np.float32)
        mu.idx["parameter_sensor"] = [n for n in s for _ in self.a0[n]]
        mu.sensor_model_constant = [c for n in s for c in self.con[n]]
        mu.idx["sensor_model_constant_sensor"] = [n for n in s for _ in self.con[n]]
        mu.sensor_model = [timeless(10. * (i + 1)) for i in range(len(s))]
        mu.adjustment_model = [(lambda i: lambda L: (L * (i + 2) + 1, np.ones(len(L)) * (i + 2)))(i) for i in range(len(s))]
        mu.sensor_data = {n: {} for n in s}
        if spec.get("names"):
            for n, m in zip(s, idx["sensor_ms"]):
                mu.sensor_data[n] = {"sensor_model_variable_names": self.names[:m], "sensor_model_variable_labels": self.labels[:m]}
        mu._original_idx = copy.deepcopy(mu.idx)
        r = Result()
        order = s[::spec["order"]]
        r.parameter = np.array([a for n in order for a in self.a1[n]])
        r.parameter_sensors = [n for n in order for _ in self.a1[n]]
        r.parameter_covariance_matrix = np.eye(len(r.parameter))
        return mu, r


def timeless(tag):
    f = c08.model(tag)
    return lambda X, a, c, xt, at, t: f(X, a, c, None, None, None)


def eq_time(a, b):
    return list(a) == list(b)


def near(a, b):
    return S.near(a, b, 2e-6, 2e-4)


# ------------------------------------------------------------------------------------------------------------- queries

def answer(m, vis, name):
    """(what the object answers, whether it is right)"""
    n = len(m.files)
    if name in ("Xmax", "Xmin"):
        ok, got = True, []
        for c in range(1, max(m.idx["sensor_ms"]) + 1):
            x = [v for f in m.files for v in (f["X2"][:, c - 1] if c <= f["m"][1] else [])]
            if x:
                got.append(getattr(vis, "get_" + name)(c))
                ok = ok and abs(got[-1] - (max(x) if name == "Xmax" else min(x))) < 1e-6
        return got, ok
    got = getattr(vis, "get_" + name)()
    if name == "mu_total":
        return got, got == sum(f["M"] for f in m.files)
    if name == "musamples_total":
        return got, got is None or got == sum(f["M"] for f in m.files)
    if name == "mu_labels":
        return got, got == [m.label(k) for k in range(n)]
    if name == "mu_fname_suffix":
        return got, got == ["_".join(f["s"]) for f in m.files]
    if name == "MatchUpSim":
        return got, got.idx["Nm"] == [20] * n and len(got.values) == 20 * len(m.blocks)
    if name.endswith("_monthlymean"):
        y, x = got
        want = [m.monthly(name[:-12], k) for k in range(n)]
        return got, len(x) == len(y) == n and all(eq_time(x[k], want[k][0]) and near(y[k], want[k][1]) for k in range(n))
    if name.endswith("_musamples"):
        want = [m.q(name[:-10], k) for k in range(n)]
        return got, len(got) == n and all(eq_time(g, w) if name[:5] == "times" else near(g, w) for g, w in zip(got, want))
    want = np.concatenate([m.q(name, k) for k in range(n)])
    return got, eq_time(got, want) if name == "times" else near(got, want)


def source(mu, r):
    return (mu.values.tolist(), mu.ks.tolist(), repr(mu.additional_values.tolist()), mu.time2.tolist(), np.asarray(mu.a).tolist(), copy.deepcopy(mu.idx),
            r.parameter.tolist(), list(r.parameter_sensors), len(mu.sensor_model))


def run(spec, rec):
    {"queries": run_queries, "faults": run_faults, "figures": run_figures, "samples": run_samples, "scatter": run_scatter, "hist": run_hist, "average": run_average, "bin": run_bin}[spec["kind"]](spec, rec)


def run_faults(spec, rec):
    """A model fails while a quantity is evaluated: the error is reported, nothing else changes, and the next request is answered."""
    m = Model(spec)
    mu, r = m.build(spec)
    mu.sensor_model = [faulty(f) for f in mu.sensor_model]
    mu.adjustment_model = [faulty(f) for f in mu.adjustment_model]
    before = source(mu, r)
    vis = HarmonisationVis(mu, r)
    FAULT[:] = [spec["fail"], 0]
    failed = []
    try:
        for name in spec["ask"] + spec["ask"] + ["L1_nom", "L1_harm", "L2_harm", "kres_nom_harm", "kres_harm_harm"]:
            n = FAULT[1]
            rec.step()
            try:
                got, ok = answer(m, vis, name)
            except Exception as e:
                rec.check(n <= spec["fail"] < FAULT[1], "fault", "%s: %r, though no model failed (%r asked, call %d fails)" % (name, e, spec["ask"], spec["fail"]))
                failed.append(name)
            else:
                rec.check(not isinstance(got, Exception), "fault", "%s is the exception %r" % (name, got))
                rec.check(ok, "fault", "%s is %r (%r asked, call %d fails)" % (name, got, spec["ask"], spec["fail"]))
            rec.check(source(mu, r) == before, "fault", "the dataset is another after %s (%r asked, call %d fails)" % (name, spec["ask"], spec["fail"]))
    finally:
        FAULT[:] = [None, 0]
    rec.state((spec["files"], spec["ask"], spec["fail"]))
    rec.outcome(failed)


def run_queries(spec, rec):
    m = Model(spec)
    mu, r = m.build(spec)
    before = source(mu, r)
    vis = HarmonisationVis(mu, r)
    for name in spec["ask"]:
        got, ok = answer(m, vis, name)
        rec.step()
        rec.check(ok, name, "%s is %s after %r" % (name, "another" if name == "MatchUpSim" else repr(got), spec["ask"]))
        rec.check(source(mu, r) == before, "changed", "asking for %s changed the dataset or the result" % name)
    rec.state((spec["files"], spec["order"], sorted(k for k, v in vars(vis).items() if v is not None)))
    rec.outcome((spec["files"], spec["ask"][-1]))


def run_samples(spec, rec):
    m = Model(spec)
    mu, r = m.build(spec)
    vis = HarmonisationVis(mu, r)
    DRAWS[0], DRAWS[1] = spec["draws"], 0
    MV.MAX_SCATTER_SAMPLES = spec["max"]
    try:
        first = getattr(vis, "get_%s_musamples" % spec["first"])()
        got = {q: getattr(vis, "get_%s_musamples" % q)() for q in ("times", "kres_nom_nom", "L1_nom", "L2_nom", "L1_harm", "L2_harm", "kres_harm_harm", "kres_nom_harm")}
        total = vis.get_musamples_total()
    finally:
        MV.MAX_SCATTER_SAMPLES = MAX
        DRAWS[0] = None
    rec.step(9)
    N = sum(f["M"] for f in m.files)
    rec.check(first is got[spec["first"]] or all(eq_time(a, b) for a, b in zip(first, got[spec["first"]])), "sample", "a second sample was taken")
    drawn = 0
    for k, f in enumerate(m.files):
        t = list(got["times"][k])
        drawn += len(t)
        rec.check(all(x in m.t2[k] for x in t) and t == sorted(t), "sample", "times %r are not of series %d, in their order" % (t, k + 1))
        i = [m.t2[k].index(x) for x in t if x in m.t2[k]]
        if N > spec["max"]:
            rec.check(abs(len(t) - f["M"] * spec["max"] / float(N)) <= 1, "sample", "%d of %d match-ups of a series, %d of %d in all" % (len(t), f["M"], spec["max"], N))
        else:
            rec.check(len(t) == f["M"], "sample", "%d of %d match-ups, though there are few enough" % (len(t), f["M"]))
        for q in got:
            if q != "times":
                rec.check(near(got[q][k], np.asarray(m.q(q, k))[i]), "sample", "%s of series %d, %r, is not of the same match-ups as the times" % (q, k + 1, got[q][k]))
    rec.check(drawn <= max(spec["max"], 1) or N <= spec["max"], "sample", "%d match-ups drawn, at most %d" % (drawn, spec["max"]))
    rec.check(total == drawn, "sample", "%r samples said to be drawn, %d are" % (total, drawn))
    rec.state((spec["files"], spec["max"], spec["draws"], spec["first"]))
    rec.outcome([len(t) for t in got["times"]])


# ------------------------------------------------------------------------------------------------------------- figures

TITLE = {"kres_nom_nom": ("Nominal K Residual", "k_res_nominal"), "kres_harm_harm": ("Harmonised K Residual", "k_res_harmonised"),
         "kres_nom_harm": ("K = K - (nominal-harmonised)", "k_res_nom_harm")}
LONG = {"kres_harm_harm": "Harmonised K Residual", "kres_nom_harm": "K Residual = K - (Nominal - Harmonised)"}


def expected(m, fig, mus=None):
    """{file name: {"series": [(x, y, yerr, label)], "xlabel":, "ylabel":}}"""
    n = len(m.files)
    N = sum(f["M"] for f in m.files)
    ser = range(n)
    mus = list(range(1, n + 1)) if mus is None else mus
    what = fig[5:].split("_scatter")[0].split("_X_")[0].split("_additional")[0].split("_density")[0]
    if fig.endswith("_v_L2_nom_scatter") or fig.endswith("_v_L2_harm_scatter"):
        h = "harm" in fig
        name = "L1_vs_L2_%s_scatter.pdf" % ("harmonised" if h else "nominal")
        a, b = ("L1_harm", "L2_harm") if h else ("L1_nom", "L2_nom")
        lab = "Harmonised/Reference" if h else "Nominal"
        return {name: {"series": [(m.q(b, k), m.q(a, k), None, m.label(k)) for k in ser], "xlabel": "%s Sensor 2 Measurand" % ("Harmonised" if h else "Nominal"),
                       "ylabel": "%s Sensor 1 Measurand (%d Samples)" % (lab, N)}}
    if fig.endswith("_scatter"):
        t, f = TITLE[what]
        return {f + "_scatter.pdf": {"series": [(m.t2[k], m.q(what, k), None, m.label(k)) for k in ser], "xlabel": "Time",
                                     "ylabel": "%s (%d Samples)" % (t, N)}}
    if fig.endswith("_scatter_monthlymean"):
        t, f = TITLE[what]
        out = []
        for k in ser:
            x, y = m.monthly(what, k)
            out.append((x, y, None, m.label(k)))
        return {f + "_monthlymean.pdf": {"series": out, "xlabel": "Time", "ylabel": "%s (Monthly Mean)" % t}}
    t, f = LONG[what], TITLE[what][1]
    out = {}
    if fig.endswith("_X_binned_line"):
        vs = [(c, m.names[c - 1], "$%s$ (Binned)" % m.labels[c - 1]) for c in range(1, max(m.idx["sensor_ms"]) + 1)]
    else:
        vs = [(v, v, v) for v in ("nominal_measurand1", "nominal_measurand2", "angle")]
    for v, name, label in vs:
        def x_of(k):
            g = m.files[k]
            if isinstance(v, int):
                return g["X2"][:, v - 1] if v <= g["m"][1] else []
            x = g["angle"] if v == "angle" else g["L"][int(v[-1]) - 1]
            return x if not np.isnan(x).all() else []
        every = [u for k in ser for u in x_of(k) if u == u]
        if not len(every):
            continue
        together = []
        for mu in mus:
            k = mu - 1
            x = x_of(k)
            if not len(x):
                continue
            y = m.q(what, k)
            s2 = m.files[k]["s"][1]
            bx, by, be = m.binned(x, y, np.nanmin(x), np.nanmax(x))
            out["%s.%s_%s_binned.%s.pdf" % (f, name, s2, "_".join(m.files[k]["s"]))] = {
                "series": [(bx, by, be, None)], "xlabel": "%s - %s" % (label, s2), "ylabel": "%s (%s)" % (t, m.label(k))}
            bx, by, be = m.binned(x, y, min(every), max(every))
            together.append((bx, by, be, m.label(k)))
        if together:
            out["%s.%s_sensor_2_binned.pdf" % (f, name)] = {"series": together, "xlabel": label + " - Sensor 2", "ylabel": t}
    return out


def gone(x, y, e):
    """Without the points that have no place."""
    keep = [i for i in range(len(x)) if not (isinstance(x[i], float) and x[i] != x[i]) and not y[i] != y[i]]
    return [x[i] for i in keep], [y[i] for i in keep], None if e is None else [e[i] for i in keep]


def same_figure(rec, name, got, want, ylim):
    ax = got["axes"][-1]
    key = "figure"
    rec.check(len(got["axes"]) == 1, key, "%s has %d axes" % (name, len(got["axes"])))
    rec.check(ax.get("xlabel") == want["xlabel"], "labels", "%s: abscissa %r, not %r" % (name, ax.get("xlabel"), want["xlabel"]))
    rec.check(ax.get("ylabel") == want["ylabel"], "labels", "%s: ordinate %r, not %r" % (name, ax.get("ylabel"), want["ylabel"]))
    rec.check((list(ax["ylim"]) if ax.get("ylim") is not None else None) == ylim, key, "%s: limits %r, not %r" % (name, ax.get("ylim"), ylim))
    rec.check(0 in ax["hlines"], key, "%s: no line at zero" % name)
    if not rec.check(len(ax["series"]) == len(want["series"]), key, "%s shows %d series, not %d" % (name, len(ax["series"]), len(want["series"]))):
        return
    for g, w in zip(ax["series"], want["series"]):
        rec.step()
        gx, gy, ge = gone([float(v) if isinstance(v, (np.floating, float)) else v for v in g["x"]], g["y"], g["yerr"])
        wx, wy, we = gone([float(v) if isinstance(v, (np.floating, float)) else v for v in w[0]], w[1], w[2])
        label = g["label"] if g["label"] and not str(g["label"]).startswith("_") else None
        rec.check(label == w[3], "labels", "%s: a series is labelled %r, not %r" % (name, label, w[3]))
        times = len(wx) and isinstance(wx[0], datetime.datetime)
        ok = len(gx) == len(wx) and (list(gx) == list(wx) if times else near(gx, wx)) and near(gy, wy)
        rec.check(ok, key, "%s, %r: (%r, %r) is drawn, not (%r, %r)" % (name, w[3], gx, gy, wx, wy))
        if ok and we is not None:
            rec.check(ge is not None and S.near(ge, we, 1e-4, 2e-4), "errors", "%s, %r: errors %r, not %r" % (name, w[3], ge, we))


def run_figures(spec, rec):
    m = Model(spec)
    mu, r = m.build(spec)
    before = source(mu, r)
    vis = HarmonisationVis(mu, r)
    d = os.path.join("some", "directory")
    figs = spec.get("figs") or (FIGURES[::-1] if spec["turn"] else FIGURES)
    mplstub.take()
    for fig in figs:
        kw = {}
        if "_v_" not in fig:
            kw["ylim"] = spec["ylim"]
        if "binned" in fig:
            kw["mus"] = spec["mus"]
        getattr(vis, fig)(d, **kw)
        rec.step()
        saved = mplstub.take()
        got = {os.path.basename(g["path"]): g for g in saved}
        rec.check(all(os.path.dirname(g["path"]) == d for g in saved) and len(got) == len(saved) or len(m.files) > 2 or
                  len({tuple(f["s"]) for f in m.files}) < len(m.files), "figure", "%s: figures %r" % (fig, [g["path"] for g in saved]))
        if fig in DENSITY:
            check_density(rec, m, fig, saved)
            continue
        want = expected(m, fig, kw.get("mus"))
        if not rec.check(sorted(got) == sorted(want), "files", "%s writes %r, not %r" % (fig, sorted(got), sorted(want))):
            continue
        for name in want:
            same_figure(rec, name, got[name], want[name], kw.get("ylim"))
    rec.check(source(mu, r) == before, "changed", "drawing changed the dataset or the result")
    rec.state((spec["files"], spec["order"], spec["mus"], spec["nan"], spec.get("lost"), spec["names"], spec["turn"]))
    rec.outcome((spec["files"], spec["mus"]))


def check_density(rec, m, fig, saved):
    from scipy.stats import gaussian_kde
    n = range(len(m.files))
    cat = lambda q: np.concatenate([np.asarray(m.q(q, k)) for k in n])
    if "_v_" in fig:
        h = "harm" if "harm" in fig else "nom"
        y, x, name = cat("L1_" + h), cat("L2_" + h), "L1_vs_L2_%s_density.pdf" % ("harmonised" if h == "harm" else "nominal")
    else:
        q = fig[5:-8]
        y, name = cat(q), TITLE[q][1] + "_density.pdf"
        x = np.array([(t - datetime.datetime(1970, 1, 1)).total_seconds() for k in n for t in m.t2[k]])
    keep = ~(np.isnan(x) | np.isnan(y))
    x, y = x[keep].astype(float), y[keep].astype(float)
    if not rec.check(len(saved) == 1 and os.path.basename(saved[0]["path"]) == name, "files", "%s writes %r" % (fig, [s["path"] for s in saved])):
        return
    ax = saved[0]["axes"][0]
    if not rec.check(len(ax["mesh"]) == 1, "density", "%s: %d densities" % (fig, len(ax["mesh"]))):
        return
    gx, gy, gz = ax["mesh"][0]
    rec.check(S.near([gx.min(), gx.max(), gy.min(), gy.max()], [x.min(), x.max(), y.min(), y.max()], 1e-6, 1e-3), "density", "%s: range" % fig)
    w = gaussian_kde([x, y])(np.vstack([gx.flatten(), gy.flatten()])).reshape(gx.shape)
    rec.check(np.allclose(gz, w, rtol=1e-3, atol=1e-3 * w.max()), "density", "%s: not the density of the data" % fig)


# ------------------------------------------------------------------------------------------------------------- drawing

def run_scatter(spec, rec):
    n, many = len(spec["x"]), spec["many"]

    def data(code, missing, shift):
        v = np.arange(n) * 1.5 + code + shift
        v[np.array(missing)] = np.nan
        return v
    X, Y, xe, ye = [], [], [], []
    for s in range(max(many, 1)):
        # further series have their missing values elsewhere
        mx, my = (spec["x"], spec["y"]) if s == 0 else (spec["x"][::-1], spec["y"][::-1])
        X.append(np.array([datetime.datetime(2001 + s, 1 + i, 3) for i in range(n)]) if spec["dates"] else data(0, mx, 10 * s))
        Y.append(data(100, my, 10 * s))
        xe.append(np.arange(1., n + 1) / 8 + s)
        ye.append(np.arange(1., n + 1) / 4 + s)
    kw = {"xlbl": "x", "ylbl": "y", "title": "t"}
    if spec["xerr"] and not spec["dates"]:
        kw["xerr"] = xe if many else xe[0]
    if spec["yerr"]:
        kw["yerr"] = ye if many else ye[0]
    labels = ["series %d" % s for s in range(max(many, 1))]
    if spec["legend"]:
        kw["legend"] = labels
        kw["legend_loc"] = spec["legend"]
    if spec["lines"]:
        kw.update(solid_ylines=[0, 1], dash_ylines=[2], solid_xlines=[3], dash_xlines=[4], ylim=[0, 9], xlim=[-1, 5], txt=["a ", "b "])
    empty = [s for s in range(max(many, 1)) if not len(gone([float(i) if spec["dates"] else v for i, v in enumerate(X[s])] if not spec["dates"] else list(X[s]),
                                                           list(Y[s]), None)[0])]
    if empty:
        rec.count("nothing to draw")
        return
    keep = [[v.copy() for v in vs] for vs in (X, Y, xe, ye)]
    mplstub.take()
    plots.plot_scatter("p.pdf", Y if many else Y[0], X if many else X[0], **kw)
    saved = mplstub.take()
    rec.step()
    rec.check(all(S.eq(a, b) for vs, ws in zip((X, Y, xe, ye), keep) for a, b in zip(vs, ws)), "changed", "drawing changed its data")
    if not rec.check(len(saved) == 1 and saved[0]["path"] == "p.pdf", "files", "%r" % ([s["path"] for s in saved],)):
        return
    ax = saved[0]["axes"][0]
    if rec.check(len(ax["series"]) == max(many, 1), "figure", "%d series, not %d" % (len(ax["series"]), max(many, 1))):
        for s, g in enumerate(ax["series"]):
            pts = [i for i in range(n) if (spec["dates"] or X[s][i] == X[s][i]) and Y[s][i] == Y[s][i]]
            got = [i for i in range(len(g["x"])) if not (isinstance(g["x"][i], float) and g["x"][i] != g["x"][i]) and g["y"][i] == g["y"][i]]
            rec.check([g["x"][i] for i in got] == [X[s][i] for i in pts] and [g["y"][i] for i in got] == [Y[s][i] for i in pts], "figure",
                      "series %d: %r, %r drawn" % (s, g["x"], g["y"]))
            for k, e in (("xerr", xe), ("yerr", ye)):
                if k in kw:
                    rec.check(g[k] is not None and [g[k][i] for i in got] == [e[s][i] for i in pts], "errors", "series %d: %s %r, not %r of %r" %
                              (s, k, g[k], pts, e[s]))
            if spec["legend"]:
                rec.check(g["label"] == labels[s], "labels", "series %d is labelled %r" % (s, g["label"]))
    rec.check(ax["legend"] == bool(spec["legend"]), "labels", "legend: %r" % ax["legend"])
    rec.check((ax.get("xlabel"), ax.get("ylabel"), ax.get("title")) == ("x", "y", "t"), "labels", "labels of the axes")
    if spec["lines"]:
        rec.check(sorted(ax["hlines"]) == [0, 1, 2] and sorted(ax["vlines"]) == [3, 4], "figure", "lines %r %r" % (ax["hlines"], ax["vlines"]))
        rec.check(list(ax["ylim"]) == [0, 9] and list(ax["xlim"]) == [-1, 5], "figure", "limits")
        rec.check(len(ax["text"]) == 1 and ax["text"][0].split() == ["a", "b"], "figure", "text %r" % (ax["text"],))
    rec.state(spec)
    rec.outcome((many, n, spec["legend"], [len(g["x"]) for g in ax["series"]]))


def run_hist(spec, rec):
    n = len(spec["x"])
    X = np.arange(n) * 2.0 + 1
    Y = np.arange(n) ** 2 * 1.0 - 3
    if not spec["dates"]:
        X[np.array(spec["x"])] = np.nan
    Y[np.array(spec["y"])] = np.nan
    D = np.array([datetime.datetime(1999 + i, 1 + i, 2) for i in range(n)])
    sec = np.array([calendar.timegm(t.timetuple()) for t in D]) * 1.0
    keep = [i for i in range(n) if X[i] == X[i] and Y[i] == Y[i]]
    if len(keep) < 1:
        rec.count("nothing to draw")
        return
    kw = {}
    if spec["lines"]:
        kw = dict(solid_ylines=[0, 1], dash_ylines=[2], solid_xlines=[3], dash_xlines=[4])
    if spec["txt"]:
        kw["txt"] = ["a ", "b "]
    before = (X.copy(), Y.copy(), D.copy())
    mplstub.take()
    plots.plot_2dhist("h.pdf", Y, D if spec["dates"] else X, spec["bins"], "x", "y", "t", **kw)
    saved = mplstub.take()
    rec.step()
    rec.check(S.eq(X, before[0]) and S.eq(Y, before[1]) and list(D) == list(before[2]), "changed", "drawing changed its data")
    if not rec.check(len(saved) == 1 and saved[0]["path"] == "h.pdf", "files", "%r" % ([s["path"] for s in saved],)):
        return
    ax = saved[0]["axes"][0]
    want = ([(sec if spec["dates"] else X)[i] for i in keep], [Y[i] for i in keep], spec["bins"])
    rec.check(len(ax["hist"]) == 1 and ax["hist"][0] == want, "histogram", "%r, not %r" % (ax["hist"], want))
    rec.check((ax.get("xlabel"), ax.get("ylabel"), ax.get("title")) == ("x", "y", "t"), "labels", "labels of the axes")
    if spec["lines"]:
        rec.check(sorted(ax["hlines"]) == [0, 1, 2] and sorted(ax["vlines"]) == [3, 4], "figure", "lines %r %r" % (ax["hlines"], ax["vlines"]))
    if spec["dates"]:
        ticks, names = ax.get("xticks"), ax.get("xticklabels")
        names = names[0] if isinstance(names, list) and len(names) and isinstance(names[0], (list, np.ndarray)) else names
        rec.check([calendar.timegm((int(y), 1, 1, 0, 0, 0)) for y in names] == [int(t) for t in ticks] and
                  int(min(names)) == D[0].year and int(max(names)) == D[-1].year, "labels", "years %r at %r" % (names, ticks))
    rec.state(spec)
    rec.outcome(want[:2])


def same(a, b):
    return len(a) == len(b) and all(u != u and v != v or abs(u - v) < 1e-9 for u, v in zip(a, b))


def mean(v):
    return sum(v) / len(v) if v else float("nan")


def run_average(spec, rec):
    name = spec["period"]
    t = []
    for i, k in spec["t"]:
        a, b = period(name, i), period(name, i + 1)
        t.append([a, a + (b - a) / 3, b - datetime.timedelta(microseconds=1)][k])
    v = [2. ** i for i in range(len(t))]
    if spec["nan"]:
        v[0] = float("nan")
    X, T = np.array(v), np.array(t)
    y, x = stats.time_average(X, T, name)
    rec.step()
    of = [i for i, _ in spec["t"]]
    every = range(min(of), max(of) + 1)
    rec.check(list(x) == [period(name, i) for i in every], "average", "times of the %ss: %r" % (name, x))
    rec.check(same(list(y), [mean([u for u, i in zip(v, of) if i == j]) for j in every]), "average", "averages of the %ss: %r of %r" % (name, y, list(zip(t, v))))
    rec.check(same(list(X), v) and list(T) == t, "changed", "averaging changed its data")
    rec.state(spec)
    rec.outcome((name, len(y)))


def run_bin(spec, rec):
    n = spec["bins"]
    x = [float("nan") if u is None else u for u in spec["x"]]
    v = [2. ** i for i in range(len(x))]
    if spec["nan"]:
        v[0] = float("nan")
    if spec["range"] is None and any(u != u for u in x):
        rec.count("no range")
        return
    lo, hi = spec["range"] or (min(x), max(x))
    X, V = np.array(x), np.array(v)
    y, e, c = stats.bin(V, X, n, *([] if spec["range"] is None else [[lo, hi]]))
    rec.step()
    edge = [lo + i * (hi - lo) / float(n) for i in range(n + 1)]
    here = [[w for u, w in zip(x, v) if edge[i] <= u and (u < edge[i + 1] or i == n - 1 and u <= hi)] for i in range(n)]
    rec.check(same(list(c), [(edge[i] + edge[i + 1]) / 2 for i in range(n)]), "bin", "middles %r" % (c,))
    rec.check(same(list(y), [mean(h) for h in here]), "bin", "averages %r of %r at %r" % (y, v, x))
    sd = [mean([(w - mean(h)) ** 2 for w in h]) ** 0.5 for h in here]
    rec.check(same(list(e), sd), "bin", "standard deviations %r of %r at %r" % (e, v, x))
    rec.check(same(list(X), x) and same(list(V), v), "changed", "binning changed its data")
    rec.state(spec)
    rec.outcome((n, len(set(map(str, y)))))
