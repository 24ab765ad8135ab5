"""C09: the sensor models of the sensor data tables against the measurement equations, on complete grids."""

import itertools
import os

import numpy as np

import support as S

NEEDS = {"py", "compiled models"}
SCOPE = ("every table of sensor data and every sensor in it; complete grids of 3 levels per covariate (MW: 2) and 3 levels per "
         "parameter; all rows at once and each row on its own; double and single precision; every across-track index; the compiled AVHRR models likewise, on every subset of rows in single precision")
ASSUMPTIONS = ["derivatives of the reference equations are complex-step derivatives", "single precision is compared to 1e-3"]

H, C, KB, TCMB = 6.626070040e-34, 299792458, 1.38064852e-23, 2.72548
NAMES = (["AVHRR_%s_rescaled" % n for n in ("11um_3", "12um_3", "37um_2", "11um_4", "12um_4", "37um_3")] +
         ["AVHRR_%s" % n for n in ("11um_3", "12um_3", "37um_2", "11um_4", "12um_4", "37um_3", "sim_3", "sim_4")] +
         ["HIRS__Ch%02d_3" % i for i in range(1, 20)] + ["MW____Ch03_3", "test_sim"])
REFS = {"AVHRR": ["aatsr", "atsr2", "atsr1"], "HIRS": ["iasi"], "MW": ["18"], "test": ["0"]}


def setup(ctx):
    global FACTORY, COEF, COMPILED
    from harmonisation.sensor_data.AVHRR import AVHRR_sensor_models_cython as COMPILED
    from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
    FACTORY = SensorDataFactory()
    COEF = os.path.join(ctx.tree, "harmonisation_eiv", "harmonisation", "sensor_data", "HIRS", "coeffs", "coef_ch%d.dat")


def kind(name):
    """(family, number of covariates, parameters, covariate/parameter form)"""
    if name.startswith("AVHRR") or name == "test_sim":
        form = "3" if name == "test_sim" else name[6:].replace("11um_", "").replace("12um_", "").replace("sim_", "")
        scaled = form.endswith("_rescaled")
        form = form.replace("_rescaled", "")
        n_cov = {"3": 4, "4": 5, "37um_2": 4, "37um_3": 5}[form]
        n_par = {"3": 3, "4": 4, "37um_2": 2, "37um_3": 3}[form]
        return "AVHRR", n_cov, n_par, (form, scaled)
    if name.startswith("HIRS"):
        return "HIRS", 5, 3, None
    return "MW", 9, 3, None


def avhrr(x, a, form):
    form, scaled = form
    Cs, Ci, Ce, L = x[0], x[1], x[2], x[3]
    s = 1e-3 if scaled else 1.
    R = a[0] + (0.98514 + a[1] * s) * L * (Cs - Ce) / (Cs - Ci)
    if form in ("3", "4"):
        R = R + a[2] * s * s * (Ci - Ce) * (Cs - Ce)
    if form in ("4", "37um_3"):
        R = R + a[-1] * s * (x[4] - (285. if scaled else 0.))
    return R


def planck(v, T):
    return 2. * H * v ** 3 / C ** 2 / (np.exp(v * H / (KB * T)) - 1)


def hirs(x, a, c):
    Cs, Ci, Ce, T, Rs = x
    L = planck(c[0], c[1] + c[2] * T)
    return a[0] + (0.98 + a[1]) * L * (Ce - Cs) / (Ci - Cs) + a[2] * (Ce - Ci) * (Ce - Cs) - Rs


def mw(x, a, c, pix, wrong=False):
    """The MW measurement equation; with `wrong`, the derivatives as the known finding has them."""
    CS, CI, CE = x[0], x[1], x[7]
    w, (v, ca, cb, dTw) = c[-9:-4], c[-4:]
    g = np.array([c[i] for i in pix])
    T = sum(wi * Ti for wi, Ti in zip(w, x[2:7])) / sum(w)
    LI, LS, L0 = planck(v, ca + cb * (T + dTw)), planck(v, ca + cb * (TCMB + a[2])), planck(v, ca + cb * TCMB)
    Lp = LI + (LI - LS) / (CI - CS) * (CE - CI) + a[0] * (LI - L0) ** 2 / (CI - CS) ** 2 * (CE - CI) * (CE - CS)
    cosa = np.cos(2 * np.pi * 1.111 * (np.array(pix) - 45.5) / 180.) - np.cos(2 * np.pi * 73.6 / 180.)
    rj = C ** 2 / (2. * v ** 2 * KB)
    if not wrong:
        return rj / g * (Lp + 0.5 * a[1] * cosa * (LI - Lp) - (1 - g) * L0)
    a1, a2 = a[0], a[1]
    J = np.zeros((12, len(CS)))
    r = (LI - LS)
    J[0] = (CE - CI) * r / (CI - CS) ** 2 * (1 + a1 * (2 * CE - CI - CS) / (CI - CS))
    J[1] = (CE - CS) * r / (CI - CS) ** 2 * (1 + a1 * r * (2 * CE - CI - CS) / (CI - CS))
    th = ca + cb * (T + dTw)
    e = np.exp(H * v / (KB * th))
    dT = (1 + (CE - CI) / (CI - CS) + 2 * a1 * (CE - CS) * (CE - CI) * r / (CI - CS) ** 2) * LI * (2 * H * v * KB * cb) / (KB * th) ** 2 * e / (e - 1)
    for i in range(5):
        J[2 + i] = dT * w[i] / sum(w)
    J[7] = (r / (CI - CS) + a1 * r ** 2 / (CI - CS) ** 2) * (2 * CE - CI - CS)
    J[9] = (CE - CS) * (CE - CI) * r ** 2 / (CI - CS) ** 2
    J[10] = 0.5 * (LI - Lp) * cosa
    J[11] = -(CE - CI) / (CI - CS) * (1 + 2 * a1 * (CE - CS) * r / (CI - CS)) * (1 - a2 / (2 * g) * cosa)
    return rj * J / g


LEVELS = {"AVHRR": [(990., 980.5, 1005.), (700., 750.5, 820.25), (400., 600.25, 930.), (80., 95.5, 60.25), (283., 285., 290.25)],
          "HIRS": [(-21., 40., -300.5), (-989., -1200.5, -700.), (-442., -800.25, -100.), (283.38, 290., 275.5), (-1.8e-14, 0., 3e-14)],
          "MW": [(10787., 11500.), (48380., 47000.)] + [(283.28, 285.5)] * 5 + [(41701., 20000.), (331.5, 300.)]}
PARS = {"AVHRR": [(0., -2.45, 1.5), (0., 0.0392, -0.014), (0., 7.8e-6, -2.2e-5), (0., 0.03, -0.012)],
        "HIRS": [(0., 1e-15, -2e-15), (0., 0.045, -0.01), (0., 2e-18, -1e-18)],
        "MW": [(0., -15.5, 1e4), (0., 0.001, -0.02), (0., 0.71, -0.3)]}


def levels(name):
    fam, n_cov, n_par, form = kind(name)
    p = list(PARS[fam])
    if fam == "AVHRR":
        f, scaled = form
        p = {"3": p[:3], "4": p, "37um_2": p[:2], "37um_3": p[:2] + p[3:]}[f]
        if scaled:
            q = {"3": (1, 1e3, 1e6), "4": (1, 1e3, 1e6, 1e3), "37um_2": (1, 1e3), "37um_3": (1, 1e3, 1e3)}[f]
            p = [tuple(v * s for v in l) for l, s in zip(p, q)]
    return LEVELS[fam][:n_cov], p


SENSORS = {"AVHRR": ["m02", "n19", "n18", "n17", "n16", "n15", "n14", "n12", "n11", "n10", "n09", "n08", "n07"],
           "HIRS": ["ma", "mb", "n19", "n18", "n17", "n16", "n15", "n14", "n12", "n11", "n10", "n09", "n08", "n07", "n06", "tn"],
           "MW": ["A", "B", "19", "17", "16", "15"], "test": ["1", "2", "3"]}


def tables(ch):
    name = ch.pick(NAMES, "table")
    return {"name": name, "what": "table"}


def models(all_sensors):
    def g(ch):
        name = ch.pick(NAMES, "table")
        fam = kind(name)[0]
        sensors = SENSORS["test" if name == "test_sim" else fam]
        if not all_sensors and fam == "AVHRR":
            sensors = sensors[::12]
        if not all_sensors and fam == "MW":
            sensors = [sensors[0], sensors[3]]
        par = [ch.idx(3, "a") for _ in levels(name)[1]]
        if name.startswith("AVHRR_sim"):
            sensors = ["*"]      # the simulation tables have their own sensors
        spec = {"name": name, "what": "model", "sensor": ch.pick(sensors, "sensor"), "par": par, "rows": not any(par)}
        if fam == "MW":
            spec["constants"] = ch.pick(["of the table", "all different"], "constants")
        return spec
    return g


def refs(ch):
    fam = ch.pick(sorted(REFS), "family")
    return {"what": "reference", "name": ch.pick([n for n in NAMES if n.startswith(fam)], "table"), "rows": ch.pick([1, 2, 3, 4], "rows"),
            "float32": ch.flag("float32")}


FORMS = [("3", False), ("4", False), ("3", True), ("4", True)]


def compiled(ch):
    form, scaled = ch.pick(FORMS, "model")
    name = "AVHRR_11um_%s%s" % (form, "_rescaled" if scaled else "")
    return {"what": "compiled", "form": form, "scaled": scaled, "par": [ch.idx(3, "a") for _ in levels(name)[1]], "order": ch.pick(["C", "F", "columns"], "memory")}


def spaces(tier):
    return [("compiled models", compiled, None), ("tables", tables, None), ("references", refs, None), ("models", models(tier != "quick"), None)]


def table(spec, rec):
    name = spec["name"]
    fam, n_cov, n_par, form = kind(name)
    if not rec.check(name in list(FACTORY.get_names()), "missing", name):
        return
    t = FACTORY.get_sensor_data(name)
    n_ref = 0
    for s, d in t.items():
        rec.step()
        isref = d["sensor_model_variables_num"] == 1
        n_ref += isref
        rec.check(d["sensor_model_variables_num"] in (1, n_cov), "table", "%s %s: %r covariates" % (name, s, d["sensor_model_variables_num"]))
        for k in ("sensor_model_variable_labels", "sensor_model_variable_names"):
            rec.check(len(d[k]) == d["sensor_model_variables_num"], "table", "%s %s: %s %r" % (name, s, k, d[k]))
        rec.check(len(d["sensor_model_parameter"]) == (0 if isref else n_par), "table", "%s %s: parameters %r" % (name, s, d["sensor_model_parameter"]))
        if isref:
            rec.check(list(d["sensor_model_constant"]) == [], "table", "%s %s: constants" % (name, s))
    want = REFS[name.split("_")[0]] if "AVHRR_sim" not in name else None
    if want:
        sensors = SENSORS["test" if name == "test_sim" else fam]
        rec.check(list(t) == want + sensors, "table", "%s: sensors %r" % (name, list(t)))
    rec.check(n_ref == (len(want) if want else 1), "table", "%s: %d references" % (name, n_ref))
    if fam == "HIRS":
        with open(COEF % int(name[8:10]), encoding="utf-8") as f:
            rows = [l.split() for l in f][1:]
        for r in rows:
            if r[0] in t:
                rec.check(list(t[r[0]]["sensor_model_constant"]) == [float(x) for x in r[1:4]], "constants", "%s %s: %r" % (name, r[0], t[r[0]]["sensor_model_constant"]))
                rec.step()
    rec.state([name, list(t)])
    rec.outcome([name, [d["sensor_model_parameter"] for d in t.values()]])


def reference(spec, rec):
    t = FACTORY.get_sensor_data(spec["name"])
    m = spec["rows"]
    X = (np.arange(m) * 7 % 5 + 100.25).reshape(m, 1)
    if spec["float32"]:
        X = X.astype(np.float32)
    rec.state([spec["name"], m, spec["float32"]])
    for s, d in t.items():
        if d["sensor_model_variables_num"] == 1:
            R, J = d["sensor_model"](X.copy(), [], [], np.arange(m), np.arange(m), np.arange(m))
            rec.step()
            rec.check(S.eq(R, X[:, 0]) and J is None, "reference", "%s %s: %r" % (spec["name"], s, R))
            rec.outcome(np.asarray(R).tolist())


def jac(f, x, a):
    """Complex-step derivatives of f by covariates and parameters."""
    out = []
    for which, n in ((0, len(x)), (1, len(a))):
        for i in range(n):
            v = [[np.asarray(y, complex) for y in x], [complex(y) for y in a]]
            h = 1e-25 * (1 if which == 0 else 1)
            v[which][i] = v[which][i] + 1j * h
            out.append(np.imag(f(*v) * np.ones(len(x[0]))) / h)
    return np.array(out).T


def close(got, want, rtol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    scale = np.max(np.abs(want), axis=0)
    return bool(np.all(np.abs(got - want) <= rtol * np.maximum(scale, 1e-300)))


def model(spec, rec):
    name = spec["name"]
    fam, n_cov, n_par, form = kind(name)
    t = FACTORY.get_sensor_data(name)
    lv, pl = levels(name)
    a = [l[i] for l, i in zip(pl, spec["par"])]
    X = np.array(list(itertools.product(*lv)))
    m = len(X)
    pix = [i % 90 for i in range(m)]
    sensors = [s for s in t if t[s]["sensor_model_variables_num"] > 1] if spec["sensor"] == "*" else [spec["sensor"]]
    for s in sensors:
        d = t[s]
        c = list(d["sensor_model_constant"])
        if spec.get("constants") == "all different":
            c = [1. - 0.001 * i for i in range(len(c) - 9)] + [2., 1., 3., 0.5, 1.5, 1.8331e11, -0.0167, 1.0045, -0.16]
        f = {"AVHRR": lambda x, p: avhrr(x, p, form), "HIRS": lambda x, p: hirs(x, p, c), "MW": lambda x, p: mw(x, p, c, pix)}[fam]
        rec.state([name, s, spec["par"]])
        x = list(X.T)
        R0, J0 = f(x, a), jac(f, x, a)
        for dtype, tol in ((np.float64, 2e-6), (np.float32, 1e-3)):
            X1, a1 = X.astype(dtype), np.array(a)
            if dtype == np.float32:
                x = list(X1.astype(float).T)
                R0, J0 = f(x, a), jac(f, x, a)
            R, J = d["sensor_model"](X1, a1, c, np.array(pix), np.array(pix), np.arange(m))
            rec.step()
            rec.check(X1.shape == X.shape and S.eq(X1, X.astype(dtype)) and S.eq(a1, a), "changed", "%s %s changes its input" % (name, s))
            rec.check(close(R, R0, tol), "measurand", "%s %s: measurand off by %r with parameters %r" % (name, s, np.max(np.abs(R - R0)) if np.shape(R) == R0.shape else np.shape(R), a))
            if np.shape(J) != J0.shape:
                rec.fail("shape", "%s %s: derivatives of shape %r, not %r" % (name, s, np.shape(J), J0.shape))
                continue
            asis = mw(x, a, c, pix, True).T if fam == "MW" else None
            for j in range(J0.shape[1]):
                if fam == "MW" and dtype == np.float32 and 2 <= j <= 6:
                    continue   # the known finding, where squares of 1e-21 underflow besides
                if fam == "MW" and j == 8:
                    rec.check(np.all(np.asarray(J[:, j]) == 0), "derivative", "%s %s: derivative %d" % (name, s, j))
                elif not close(J[:, j], J0[:, j], tol):
                    if asis is not None and j != 10 and close(J[:, j], asis[:, j], tol):
                        rec.fail("MW-derivative-%d" % j, "%s %s: derivative %d is not that of the measurand" % (name, s, j))
                    else:
                        rec.fail("derivative", "%s %s: derivative %d is off with parameters %r" % (name, s, j, a))
            if spec["rows"] and dtype == np.float64:
                # every row on its own
                for i in range(0, m, 1 if m < 300 else 5):
                    ri, ji = d["sensor_model"](X1[i:i + 1], a1, c, np.array(pix[i:i + 1]), np.array(pix[i:i + 1]), np.arange(1))
                    rec.step()
                    if not rec.check(S.near(ri, R[i:i + 1], 1e-9, 0) and S.near(ji, J[i:i + 1], 1e-5, 1e-300), "rows", "%s %s: match-up %d on its own" % (name, s, i)):
                        break
        rec.outcome([float(np.sum(R0))])


def compiled_model(spec, rec):
    form, scaled = spec["form"], spec["scaled"]
    lv, pl = levels("AVHRR_11um_%s%s" % (form, "_rescaled" if scaled else ""))
    a = np.float32([l[i] for l, i in zip(pl, spec["par"])])
    X = np.float32(list(itertools.product(*lv)))
    m = len(X)
    if spec["order"] == "columns":      # some columns of a wider table
        X = np.repeat(X, 2, axis=1)[:, ::2]
    elif spec["order"] == "F":
        X = np.asfortranarray(X)
    what = "sensor_model_" + form + ("_scaled" if scaled else "")
    fun = getattr(COMPILED, what)
    i4 = np.arange(m, dtype=np.int32)
    x = list(X.astype(float).T)

    def f(x, p):    # the compiled models take the temperature as it is
        if scaled:
            p = [v * s for v, s in zip(p, (1., 1e-3, 1e-6, 1e-3))]
        return avhrr(x, p, (form, False))
    R0, J0 = f(x, a.astype(float)), jac(f, x, a.astype(float))
    R, J = fun(X, a, np.zeros(0), i4, i4, np.arange(m))
    rec.step()
    rec.state([form, scaled, spec["par"], spec["order"]])
    rec.check(S.eq(X.astype(float), np.array(x).T), "changed", "%s changes its input" % what)
    rec.check(close(R, R0, 1e-3), "measurand", "compiled %s: measurand off with parameters %r" % (what, a))
    if rec.check(np.shape(J) == J0.shape, "shape", "compiled %s: derivatives of shape %r" % (what, np.shape(J))):
        for j in range(J0.shape[1]):
            rec.check(close(J[:, j], J0[:, j], 1e-3), "derivative", "compiled %s: derivative %d is off with parameters %r" % (what, j, a))
    for i in range(0, m, 7):
        ri, ji = fun(X[i:i + 1], a, np.zeros(0), i4[:1], i4[:1], np.arange(1))
        rec.step()
        if not rec.check(S.near(ri, R[i:i + 1], 1e-5, 1e-5) and S.near(ji, J[i:i + 1], 1e-4, 1e-6 * np.max(np.abs(J))), "rows", "compiled %s: match-up %d on its own" % (what, i)):
            break
    ref, none = COMPILED.sensor_model_ref(X, None, None, None, None, None)
    rec.check(S.eq(np.asarray(ref), X[:, 0]) and none is None, "reference", "compiled reference: %r" % (ref,))
    rec.outcome([what, float(np.sum(R0))])


def run(spec, rec):
    {"compiled": compiled_model, "table": table, "reference": reference, "model": model}[spec["what"]](spec, rec)
