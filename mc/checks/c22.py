"""C22: microwave match-up files get the weighting matrices of their own sensors, channels of error and times."""

import contextlib
import importlib
import io
import os
import shutil
import sys

import numpy as np
from netCDF4 import Dataset

import support as S
from checks import c21

NEEDS = {"py"}
SCOPE = ("every pair of the 7 microwave sensors in the roles they can have; 1-3 match-ups (thorough 4) in every order on scanlines "
         "with and without gaps, independently for both sensors; gaps of up to 2500 scanlines; directories of 1, 2, 11, 17 files")
ASSUMPTIONS = ["uncertainties of a covariate are constant in a file (the converter takes those of the first match-up)"]
AMSUB, MHS, REF = ["15", "16", "17"], ["19", "ma", "mb"], ["18"]
WEIGHTS = [0.0625, 0.125, 0.1875, 0.25, 0.1875, 0.125, 0.0625]
DT = 8. / 3.


def setup(ctx):
    global MW, checker
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    MW = importlib.import_module("MW_add_W_matrices")
    checker = importlib.import_module("harmonisation_input_checker").main


def pairs(ch):
    s2 = ch.pick(AMSUB + MHS, "second sensor")
    s1 = ch.pick([x for x in REF + AMSUB + MHS if x != s2], "first sensor")
    return {"files": [{"s": [s1, s2], "line": ch.pick([[[0, 1, 8], [0, 2, 3]], [[0, 40, 3], [5, 5, 5]], [[0, 1999, 3], [2500, 5, 5]]],
                                                             "scanlines")}]}


def lines(ns, opts):
    def g(ch):
        pair = ch.pick([("18", "15"), ("19", "17"), ("16", "ma")], "sensors")
        n = ch.pick(ns, "match-ups")
        return {"files": [{"s": list(pair), "line": [[ch.pick(opts, "scanline") for _ in range(n)] for _ in range(2)]}]}
    return g


def several(ch):
    fs = []
    for k in range(2):
        pair = ch.pick([("18", "15"), ("19", "17"), ("16", "ma"), ("18", "mb")], "sensors")
        fs.append({"s": list(pair), "line": ch.pick([[[0, 3], [9, 1]], [[0], [0]], [[4, 4, 0], [1, 0, 2]]], "scanlines")})
    return {"files": fs, "exists": ch.flag("output directory exists")}


def many(ch):
    n = ch.pick([11, 17], "files")
    return {"files": [{"s": ["18", "15"] if k % 2 else ["19", "17"], "line": [[0, k], [2, 0]]} for k in range(n)]}


def spaces(tier):
    t = tier == "thorough"
    return [("pairs of sensors", pairs, None), ("scanlines", lines([1, 2, 3] if not t else [1, 2, 3, 4], [0, 1, 5, 12][:4 if t else 3]),
                                                4 if not t else 7), ("several files", several, None), ("many files", many, None)]


def run(spec, rec):
    work = os.path.join(rec.scratch, "m")
    shutil.rmtree(work, ignore_errors=True)
    src, dst = os.path.join(work, "in"), os.path.join(work, "out")
    os.makedirs(src)
    if spec.get("exists"):
        os.makedirs(dst)
    files = []
    for k, fs in enumerate(spec["files"]):
        kind = ["ref" if s in REF else "AMSUB" if s in AMSUB else "MHS" for s in fs["s"]]
        m = [{"ref": 1, "AMSUB": 11, "MHS": 9}[x] for x in kind]
        n = len(fs["line"][0])
        f = S.fill({"s": fs["s"], "m": m, "M": n, "t": [[1] * m[0], [1] * m[1]]}, k)
        f["kind"] = kind
        for s in (0, 1):
            f["time%d" % (s + 1)] = 1e9 * (s + 1) + DT * np.array(fs["line"][s])
            nW = {"ref": 0, "AMSUB": 9, "MHS": 7}[kind[s]]
            ur, us = f["Ur%d" % (s + 1)], f["Us%d" % (s + 1)]
            for c in range(m[s]):
                # the temperatures of the calibration target have one uncertainty
                v = 1 + s + 0.25 * min(c, 2) if c < nW else 7. + c
                ur[:, c] = v
                us[:, c] = 0 if kind[s] == "ref" or c in (0, 1, m[s] - 2) else 0.5 + c
        files.append(f)
        S.write_file(os.path.join(src, "f%d.nc" % k), f)
    kept = []
    for k in range(len(files)):
        with open(os.path.join(src, "f%d.nc" % k), "rb") as fh:
            kept.append(fh.read())
    with contextlib.redirect_stdout(io.StringIO()):
        MW.main(src, dst)
    rec.step(len(files))
    rec.state(spec["files"])
    rec.check(sorted(os.listdir(dst)) == sorted("f%d.nc" % k for k in range(len(files))), "files", "%r" % os.listdir(dst))
    for k, f in enumerate(files):
        with open(os.path.join(src, "f%d.nc" % k), "rb") as fh:
            rec.check(fh.read() == kept[k], "changed", "the source file changed")
        p = os.path.join(dst, "f%d.nc" % k)
        with contextlib.redirect_stdout(io.StringIO()) as text:
            refused = checker(p)
        rec.check(not refused, "format", "%r does not meet the format: %s" % (f["s"], text.getvalue()))
        d = Dataset(p)
        for name in ("X1", "X2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2"):
            rec.check(S.near(d[name][:], f[name], 1e-12), "data", name + " changed")
        rec.check((d.sensor_1_name, d.sensor_2_name) == tuple(f["s"]), "data", "sensor names changed")
        for s in (0, 1):
            kind = f["kind"][s]
            nW = {"ref": 0, "AMSUB": 9, "MHS": 7}[kind]
            types = {"ref": [1], "AMSUB": [3, 3, 4, 4, 4, 4, 4, 4, 4, 1, 2], "MHS": [3, 3, 4, 4, 4, 4, 4, 1, 2]}[kind]
            rec.check(list(d["uncertainty_type%d" % (s + 1)][:]) == types, "types", "%s: %r" % (kind, d["uncertainty_type%d" % (s + 1)][:]))
            ur = f["Ur%d" % (s + 1)].copy()
            u0 = ur[0].copy()
            ur[:, :nW] = 0
            rec.check(S.near(d["Ur%d" % (s + 1)][:], ur, 1e-12), "Ur", "sensor %d: Ur is %r, not %r" % (s + 1, d["Ur%d" % (s + 1)][:], ur))
            wu, uu = d["w_matrix_use%d" % (s + 1)][:], d["u_matrix_use%d" % (s + 1)][:]
            pos = np.array(spec["files"][k]["line"][s])
            pos = pos - pos.min()
            W = np.zeros((len(pos), pos.max() + 7))
            for i, q in enumerate(pos):
                W[i, q:q + 7] += WEIGHTS
            W = W[:, np.abs(W).sum(0) > 0]
            for c in range(f["m"][s]):
                what = "%r, sensor %d, covariate %d: " % (f["s"], s + 1, c)
                rec.step()
                if c >= nW:
                    rec.check(wu[c] == 0 and uu[c] == 0, "use", what + "has a weighting matrix")
                    continue
                if not rec.check(wu[c] > 0 and uu[c] > 0, "use", what + "has no weighting matrix"):
                    continue
                got = c21.dense(d, int(wu[c]) - 1)
                rec.check(S.near(got, W, 1e-12), "W", what + "W is\n%r, not\n%r" % (got, W))
                u = c21.vector(d, int(uu[c]) - 1)
                rec.check(S.near(u, [u0[c]] * W.shape[1], 1e-12), "U", what + "u is %r, not %r" % (u, u0[c]))
        d.close()
    rec.outcome([f["kind"] for f in files])
