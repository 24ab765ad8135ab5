"""C21: AVHRR match-up files are converted to the format of the solver without mixing match-ups, sensors or channels."""

import contextlib
import importlib
import io
import itertools
import os
import shutil
import sys

import numpy as np
from netCDF4 import Dataset

import support as S
from avhrr_bands import BANDS

NEEDS = {"py"}
SCOPE = ("1-4 match-ups (thorough 5) in every order on scanlines with gaps; every subset of the match-ups with an incomplete "
         "average in every one of the four kernels, or too cold; each of the three channels; reference and non-reference first "
         "sensors; every presence of the other variables; conversion between temperature and radiance for 16 instruments")
ASSUMPTIONS = ["at least one match-up is good", "kernels of three scanlines", "inputs are exact in single precision",
               "five defective steps (known findings) are repaired by the harness, except where they are looked at one by one"]
NAMES = {-12: "aatsr", -11: "atsr2", -10: "atsr1", -1: "m02", 19: "n19", 18: "n18", 17: "n17", 16: "n16", 15: "n15", 14: "n14",
         12: "n12", 11: "n11", 10: "n10", 9: "n09", 8: "n08", 7: "n07"}
KERN = ["ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur"]
OTHER = ["latitude", "longitude", "satza", "solza", "ref_latitude", "ref_longitude", "ref_satza", "ref_solza"]
STEPS = ["sensor-names", "temperature-limit", "nominal-measurand", "channel", "channel-directories"]
NEW = ["lat2", "lon2", "vza2", "sza2", "lat1", "lon1", "vza1", "sza1"]


def setup(ctx):
    global A, BT, checker
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    A = importlib.import_module("AVHRR_to_updated_spec")
    BT = importlib.import_module("convert_bt_to_radiance")
    checker = importlib.import_module("harmonisation_input_checker").main


def bad(ch):
    n = ch.pick([1, 2, 3], "match-ups")
    spec = {"n": n, "ref": ch.flag("reference"), "band": 11, "lim": ch.pick([None, 250.], "limit"), "line": [0, 1, 3, 4][:n]}
    spec["bad"] = []
    for i in range(n):
        b = ch.pick([None, 0, 1, 2, 3, "all", "cold"], "bad match-up")
        if b is not None:
            spec["bad"].append((i, b, ch.idx(3, "element") if b not in ("all", "cold") and n < 3 else 1))
    return spec


def orders(nmax):
    def g(ch):
        n = ch.pick(range(1, nmax + 1), "match-ups")
        lines = [ch.pick([0, 1, 2, 5, 9][:3 if n > 3 else 5], "scanline") for _ in range(n)]
        return {"n": n, "ref": ch.flag("reference"), "band": 11, "lim": None, "line": lines, "bad": [],
                "line2": ch.pick(["same", "reversed", "apart"], "second sensor")}
    return g


def channels(ch):
    pair = ch.pick([(-12, 19), (-11, 17), (-10, 12), (-1, 18), (19, 18), (16, 15), (14, 12), (11, 9), (9, 7), (12, 11)], "sensors")
    band = ch.pick([37, 11, 12], "channel")
    return {"n": 2, "ref": pair[0] <= -10, "band": band, "lim": ch.pick([None, 250.], "limit"), "line": [0, 2],
            "bad": [(0, "cold", 0)] if ch.flag("cold") else [], "pair": pair,
            "other": ch.pick([[], list(range(8)), [0, 5], [1, 2, 3, 4, 6, 7]], "other variables")}


def bare(ch):
    """Runs without the repair of one of the steps that are known to be defective."""
    return {"n": 2, "ref": ch.flag("reference"), "band": ch.pick([37, 11, 12], "channel"), "lim": ch.pick([None, 250.], "limit"),
            "line": [0, 2], "bad": [(0, "cold", 0)] if ch.flag("cold") else [], "other": ch.pick([[], [0, 5]], "other variables"),
            "bare": ch.pick(STEPS, "step")}


def radiance(ch):
    return {"what": "bt", "name": ch.pick(sorted(NAMES.values()) + ["n06", "tn"], "instrument"), "chan": ch.pick([1, 2, 3], "channel"),
            "shape": ch.pick([(), (6,), (2, 3), (1, 2, 3)], "shape")}


def spaces(tier):
    t = tier == "thorough"
    return [("bad match-ups", bad, None if t else 3), ("order of match-ups", orders(5 if t else 3), None if t else 3),
            ("channels and other variables", channels, None), ("radiances", radiance, None), ("known defects", bare, None)]


class Band(int):
    """The number of a channel that equals the name of the channel, too."""
    __hash__ = int.__hash__

    def __eq__(self, other):
        return int(self) == other or str(int(self)) == other

    def __ne__(self, other):
        return not self == other


class Renamed(dict):
    """Variables of which temperatures are found by the name that they had in the source, too."""

    def __missing__(self, key):
        if key[:2] == "BT":
            return self["BT"]
        raise KeyError(key)


class Conv(object):
    def __init__(self, conv, chan):
        self.conv, self.chan = conv, chan

    def __getattr__(self, name):
        return getattr(self.conv, name)

    def temp2rad(self, T, chan):
        return self.conv.temp2rad(T, self.chan)


@contextlib.contextmanager
def repaired(band, pair, bare):
    """Five steps of the conversion are defective (see known-findings.txt), so much that hardly a file is converted.  They are
    repaired here from outside, all but `bare`; each repair leaves a step alone that works."""
    real = {k: getattr(A, k) for k in ("read_matchup_data", "prepare_directories", "return_additional_variables", "convertBT")}

    def read(*a, **k):
        out = list(real["read_matchup_data"](*a, **k))
        if bare != "sensor-names":
            out[6:8] = [int(x) for x in out[6:8]]
        if bare != "temperature-limit":
            out[-1] = Renamed(out[-1])
        return tuple(out)

    def directories(directory, path, band):
        return real["prepare_directories"](directory, path, band if bare == "channel-directories" else Band(band))

    def additional(variables, valid):
        if bare != "nominal-measurand":
            variables = dict(variables)
            for bt, nominal in (("BT", "nominal_measurand2"), ("ref_BT", "nominal_measurand1")):
                if nominal in variables:
                    variables[bt] = variables[nominal]
        return real["return_additional_variables"](variables, valid)

    def conversion(name):
        conv = real["convertBT"](name)
        return conv if bare == "channel" or band == 11 else Conv(conv, {37: 1, 12: 3}[band])

    new = {"read_matchup_data": read, "prepare_directories": directories, "return_additional_variables": additional,
           "convertBT": conversion}
    try:
        for k in new:
            setattr(A, k, new[k])
        yield
    finally:
        for k in real:
            setattr(A, k, real[k])


def planck(name, T, chan):
    nuc, a, b = BANDS[name][chan - 1::3]
    return 1.191062E-5 * nuc ** 3 / (np.exp(1.4387863 * nuc / (a + b * T)) - 1.)


def run_bt(spec, rec):
    conv = BT.convertBT(spec["name"])
    T = np.array([60., 95., 250., 280., 330., 700.])
    rec.step(2)
    rec.state((spec["name"], spec["chan"], spec["shape"]))
    if BANDS[spec["name"]][spec["chan"] - 1] < 0:
        for f in (conv.temp2rad, conv.rad2temp):
            try:
                f(T, spec["chan"])
            except Exception:
                continue
            rec.fail("no channel", "%s: a radiance of a channel that it does not have" % spec["name"])
        return
    T = T.reshape(spec["shape"]) if spec["shape"] else 251.
    want = planck(spec["name"], T, spec["chan"])
    R = conv.temp2rad(T, spec["chan"])
    rec.check(S.near(R, want, 1e-9, 0), "radiance", "%r, not %r" % (R, want))
    back = conv.rad2temp(R, spec["chan"])
    rec.check(S.near(back, T, 1e-9), "temperature", "%r, not %r" % (back, T))
    if spec["shape"]:
        for x in (np.nan, -1., 0., np.inf):
            Tb = T.copy()
            Tb.flat[2] = x
            Rb = conv.temp2rad(Tb, spec["chan"])
            want2 = want.copy()
            want2.flat[2] = np.nan
            rec.check(S.near(Rb, want2, 1e-9, 0), "bad temperature", "%r of %r" % (Rb, Tb))
            Rc = want.copy()
            Rc.flat[2] = x
            Tc = T.copy()
            Tc.flat[2] = np.nan
            rec.check(S.near(conv.rad2temp(Rc, spec["chan"]), Tc, 1e-9), "bad radiance", "of %r" % Rc)
    rec.outcome(np.round(np.atleast_1d(want).ravel()[0], 6))


def kernels(times, u):
    pos = [int(round((t - times[0]) / 0.5)) for t in times]
    pos = [p - min(pos) for p in pos]
    k = u.shape[1]
    W = np.zeros((len(pos), max(pos) + k))
    U = np.zeros(W.shape[1])
    for i, p in enumerate(pos):
        W[i, p:p + k] += 1. / k
        U[p:p + k] = np.maximum(U[p:p + k], u[i])
    used = np.abs(W).sum(0) > 0
    return W[:, used], U[used]


def dense(d, i):
    nnz = [int(x) for x in d["w_matrix_nnz"][:]]
    p = sum(nnz[:i])
    col, val = d["w_matrix_col"][p:p + nnz[i]], d["w_matrix_val"][p:p + nnz[i]]
    ptr = d["w_matrix_row"][i, :]
    W = np.zeros((len(ptr) - 1, int(max(col)) + 1))
    for r in range(len(ptr) - 1):
        for q in range(int(ptr[r]), int(ptr[r + 1])):
            W[r, int(col[q])] += val[q]
    return W


def vector(d, i):
    n = [int(x) for x in d["u_matrix_row_count"][:]]
    return np.asarray(d["u_matrix_val"][sum(n[:i]):sum(n[:i + 1])])


def run(spec, rec):
    if spec.get("what") == "bt":
        return run_bt(spec, rec)
    n, band, ref = spec["n"], spec["band"], spec["ref"]
    pair = tuple(spec.get("pair") or ((-12, 18) if ref else (19, 18)))
    other = spec.get("other", [0, 5])
    work = os.path.join(rec.scratch, "a")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    src = os.path.join(work, "in.nc")

    def arr(code, shape):
        return 100. * code + np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 0.25

    t1 = 1.0e9 + 0.5 * np.array(spec["line"])
    l2 = spec.get("line2", "reversed")
    t2 = 2.0e9 + 0.5 * (np.array(spec["line"]) if l2 == "same" else np.array(spec["line"][::-1]) if l2 == "reversed" else
                        4 * np.arange(n))
    H, Us, Ur = arr(1, (n, 10)), arr(2, (n, 10)) / 64, arr(3, (n, 10)) / 64
    Us[:, [0, 1, 2, 5, 6, 7] if not ref else [5, 6, 7]] = 0      # counts have no systematic errors
    if ref:
        H[:, 1:5] = Us[:, 1:5] = Ur[:, 1:5] = np.nan
    K, Kr, Ks = arr(4, n), arr(5, n) / 32, arr(6, n) / 32
    kern = []
    for j, t in enumerate((t1, t1, t2, t2)):    # one uncertainty per scanline
        pos = np.round((t - t.min()) / 0.5).astype(int)
        kern.append(np.array([[0.25 * (j + 1) + (p + q) / 64. for q in range(3)] for p in pos]))
    bt, rbt = 280. + np.arange(n), 290. + np.arange(n)
    good = np.ones(n, bool)
    for i, b, e in spec["bad"]:
        if b == "cold":
            bt[i] = 249.
            good[i] &= spec["lim"] is None
        else:
            good[i] = False
            for j in range(4) if b == "all" else [b]:
                kern[j][i, e] = np.nan
    if not good.any():
        return
    d = Dataset(src, "w")
    for name, size in (("M", n), ("m", 10), ("k", 3), ("l", 3), ("one", 1)):
        d.createDimension(name, size)
    for name, a, dims in ([("H", H, ("M", "m")), ("Us", Us, ("M", "m")), ("Ur", Ur, ("M", "m")), ("K", K, ("M",)), ("Kr", Kr, ("M",)),
                           ("Ks", Ks, ("M",)), ("ref_time_matchup", t1, ("M",)), ("time_matchup", t2, ("M",)),
                           ("BT%d" % band, bt, ("M",)), ("ref_BT%d" % band, rbt, ("M",))] +
                          [(k, a, ("M", "k")) for k, a in zip(KERN, kern)] +
                          [(OTHER[o], arr(10 + o, n), ("M",)) for o in other]):
        d.createVariable(name, "f8" if "time" in name else "f4", dims)[:] = a
    d.createVariable("lm", "i4", ("one", "l"))[:] = [[pair[0], pair[1], n]]
    d.close()
    out = os.path.join(work, "out")
    without = spec.get("bare")
    rec.step(6)
    with contextlib.redirect_stdout(io.StringIO()), repaired(band, pair, without):
        if without == "sensor-names":
            try:
                got = [A.get_new_name(x) for x in A.read_matchup_data(src)[6:8]]
            except TypeError:
                rec.fail("sensor-names", "no name is found for the sensor numbers of the file, which are read as arrays")
                got = [int(x) for x in A.read_matchup_data(src)[6:8]]
                rec.check(got == list(pair), "sensor numbers", "%r, not %r" % (got, pair))
                return
            rec.check(got == [NAMES[p] for p in pair], "sensors", "%r" % got)
        try:
            A.main(src, out, *([] if spec["lim"] is None else [spec["lim"]]))
        except KeyError as e:
            if without == "temperature-limit" and spec["lim"] is not None and e.args == ("BT11",):
                rec.fail("temperature-limit", "a conversion with a temperature limit looks for BT11, which has been renamed")
                return
            raise
    rec.state((n, ref, band, pair, spec["lim"], tuple(spec["line"]), l2, tuple(map(tuple, spec["bad"])), tuple(other)))
    g = np.where(good)[0]
    W1, US1 = kernels(t1[g], kern[0][g])
    _, UI1 = kernels(t1[g], kern[1][g])
    W2, US2 = kernels(t2[g], kern[2][g])
    _, UI2 = kernels(t2[g], kern[3][g])
    base = 105 if band == 37 else 101
    if without == "channel-directories" and band == 37 and os.path.exists(os.path.join(out, "AVHRR_REAL_101_RSW_")):
        rec.fail("channel-directories", "match-ups of the 3.7um channel are written to the directories of the 11um channel")
        base = 101
    want_dirs = sorted("AVHRR_REAL_%d_%s" % (base + c, e) for c in (0, 1) for e in ("RSW_", "R_W_", "R___"))
    rec.check(sorted(os.listdir(out)) == want_dirs, "directories", "%r, not %r" % (sorted(os.listdir(out)), want_dirs))
    chan = {37: 1, 11: 2, 12: 3}[band]
    for c, ncov in ((0, 4), (1, 5)):
        for effects in ("RSW_", "R_W_", "R___"):
            p = os.path.join(out, "AVHRR_REAL_%d_%s" % (base + c, effects), "in.nc")
            if not rec.check(os.path.exists(p), "file", "no file " + p):
                continue
            with contextlib.redirect_stdout(io.StringIO()) as text:
                refused = checker(p)
            rec.check(not refused, "format", "%s does not meet the format: %s" % (p[-30:], text.getvalue()))
            d = Dataset(p)
            tag = "%s, %d covariates: " % (effects, ncov)
            m = [1 if ref else ncov, ncov]

            def same(name, want, tol=1e-6):
                got = np.ma.filled(d[name][:], np.nan) if name in d.variables else None
                rec.check(got is not None and got.shape == np.shape(want) and S.near(got, want, tol), name,
                          tag + "%s is %r, not %r" % (name, got, want))

            rec.check((d.sensor_1_name, d.sensor_2_name) == (NAMES[pair[0]], NAMES[pair[1]]), "sensors",
                      tag + "sensors %r" % ((d.sensor_1_name, d.sensor_2_name),))
            WU = {}
            for s in (1, 2):
                o = 0 if s == 1 else 5
                isref = ref and s == 1
                same("X%d" % s, H[g][:, o:o + m[s - 1]])
                ur, us = Ur[g][:, o:o + m[s - 1]].copy(), Us[g][:, o:o + m[s - 1]].copy()
                WS = (W1, US1, UI1) if s == 1 else (W2, US2, UI2)
                if isref:
                    us[:] = 0
                    types = [1]
                else:
                    ur[:, :2] = 0
                    types = [3, 3, 1, 2, 2]
                    if effects == "R___":
                        ur[:, 0], ur[:, 1] = WS[0].dot(WS[1]), WS[0].dot(WS[2])
                        types = [1, 1, 1, 1, 1]
                    elif effects == "R_W_":
                        types = [3, 3, 1, 1, 1]
                    if effects != "RSW_":
                        us[:] = 0
                same("Ur%d" % s, ur)
                same("Us%d" % s, us)
                same("uncertainty_type%d" % s, types[:m[s - 1]])
                same("time%d" % s, (t1 if s == 1 else t2)[g], 1e-15)
                nominal = planck(NAMES[pair[s - 1]], (rbt if s == 1 else bt)[g], chan)
                if without in ("nominal-measurand", "channel"):
                    wrong = (rbt if s == 1 else bt)[g]
                    if without == "channel":
                        wrong = planck(NAMES[pair[s - 1]], wrong, 2)
                    got = np.ma.filled(d["nominal_measurand%d" % s][:], np.nan)
                    if not S.near(wrong, nominal, 1e-5) and S.near(got, wrong, 1e-5):
                        rec.fail(without, "nominal measurands are %s" % ("temperatures, not radiances" if without != "channel" else
                                                                         "radiances of the 11um channel for any channel"))
                        nominal = wrong
                same("nominal_measurand%d" % s, nominal, 1e-5)
                rec.check(("To%d" % s in d.variables) == (ncov == 4 and not isref), "To", tag + "To%d" % s)
                if ncov == 4 and not isref:
                    same("To%d" % s, H[g][:, o + 4])
                if effects != "R___":
                    wu, uu = d["w_matrix_use%d" % s][:], d["u_matrix_use%d" % s][:]
                    for j in range(m[s - 1]):
                        if isref or j > 1:
                            rec.check(wu[j] == 0 and uu[j] == 0, "use", tag + "covariate %d has a weighting matrix" % j)
                            continue
                        if not rec.check(wu[j] > 0 and uu[j] > 0, "use", tag + "covariate %d has no weighting matrix" % j):
                            continue
                        rec.check(S.near(dense(d, int(wu[j]) - 1), WS[0], 1e-6), "W", tag + "sensor %d: W is\n%r, not\n%r" % (
                            s, dense(d, int(wu[j]) - 1), WS[0]))
                        rec.check(S.near(vector(d, int(uu[j]) - 1), WS[1 + j], 1e-6), "U", tag + "sensor %d covariate %d: u %r, not "
                                  "%r" % (s, j, vector(d, int(uu[j]) - 1), WS[1 + j]))
                else:
                    rec.check("w_matrix_use%d" % s not in d.variables, "use", tag + "has weighting matrices")
            for k, a in (("K", K), ("Kr", Kr), ("Ks", Ks)):
                same(k, a[g])
            same("original_indices", g)
            for o, name in enumerate(NEW):
                rec.check((name in d.variables) == (o in other), "other", tag + name)
                if o in other:
                    same(name, arr(10 + o, n)[g])
            d.close()
    rec.outcome((tuple(g), ref, band))
