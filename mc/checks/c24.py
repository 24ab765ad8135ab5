"""C24: simulated datasets in text form are converted to match-up files of the same pairs, values and errors."""

import importlib
import os
import shutil
import subprocess
import sys

import numpy as np
from netCDF4 import Dataset

import support as S
from checks import c21

NEEDS = {"py"}
SCOPE = ("1-3 pairs out of a reference and three sensors, every combination of lengths 1-4; 1-3 covariates with every combination "
         "of the three kinds of error; missing input files; the command itself for a subset")
ASSUMPTIONS = ["all averaged covariates have the same kernel and uncertainty (others are refused, which is checked)"]
PAIRS = [[["0", "1"]], [["0", "1"], ["1", "2"]], [["0", "1"], ["0", "2"], ["1", "2"]], [["1", "2"], ["0", "3"]]]


def setup(ctx):
    global P, TOOL
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    TOOL = os.path.join(ctx.tree, "tools", "pmh2fiduceo.py")
    argv, sys.argv = sys.argv, ["pmh2fiduceo.py", "--quiet"]
    try:
        P = importlib.import_module("pmh2fiduceo")
    finally:
        sys.argv = argv


def errors(ch):
    n = ch.pick([1, 2, 3], "covariates")
    return {"pairs": PAIRS[1], "Nm": [3, 3], "err": [ch.pick(["R", "RS", "MA"], "error") for _ in range(n)], "kernel": ch.pick([3, 1, 2], "k"),
            "alike": not ch.flag("different averages")}


def lengths(ch):
    pairs = ch.pick(PAIRS, "pairs")
    return {"pairs": pairs, "Nm": [ch.pick([2, 1, 3, 4], "length") for _ in pairs], "err": ch.pick([["MA", "R"], ["RS"], ["MA", "MA", "RS"]], "errors"),
            "kernel": 3, "alike": True}


def command(ch):
    spec = {"pairs": PAIRS[2], "Nm": [2, 3, 2], "err": ["MA", "RS"], "kernel": 2, "alike": True, "cmd": True,
            "missing": ch.pick([None, "data_pams.txt", "data_vals.txt", "data_uncs.txt", "directory"], "missing"),
            "out": ch.pick(["new", "old", "nested"], "output directory"), "flag": ch.pick([[], ["--quiet"], ["--verbose"]], "flag")}
    return spec


def spaces(tier):
    return [("kinds of errors", errors, None), ("pairs and lengths", lengths, None), ("command", command, None)]


def run(spec, rec):
    work = os.path.join(rec.scratch, "p")
    shutil.rmtree(work, ignore_errors=True)
    src = os.path.join(work, "in")
    dst = os.path.join(work, "out", "deep") if spec.get("out") == "nested" else os.path.join(work, "out")
    os.makedirs(src)
    if spec.get("out") == "old":
        os.makedirs(dst)
    nX, N = len(spec["err"]), sum(spec["Nm"])
    H = 1000. + np.arange(N * (2 * nX + 1), dtype=float).reshape(N, 2 * nX + 1) + 0.25
    H = H / 3
    uR = [0.5 + (0.25 * j if e != "MA" or not spec["alike"] else 0.) for j, e in enumerate(spec["err"])]
    uS = [0.125 * (j + 1) if e == "RS" else 0. for j, e in enumerate(spec["err"])]
    sensors = sorted({s for p in spec["pairs"] for s in p if s != "0"})
    atrue = (10. * np.arange(1, 2 * len(sensors) + 1) / 7 * np.array([1, -1e-7] * len(sensors))).reshape(len(sensors), 2)
    np.savetxt(os.path.join(src, "data_vals.txt"), H)
    with open(os.path.join(src, "data_pams.txt"), "w") as f:
        f.write("Im:\n" + "".join("%s %s\n" % tuple(p) for p in spec["pairs"]) + "Nm:\n" + "".join("%d\n" % n for n in spec["Nm"]) +
                "atrue:\n" + "".join("%r %r\n" % tuple(map(float, a)) for a in atrue))
    with open(os.path.join(src, "data_uncs.txt"), "w") as f:
        f.write("Reference (R):\n0.375\n")
        for j, e in enumerate(spec["err"]):
            f.write("X %d %s:\n" % (j + 1, e))
            f.write({"R": "%r\n" % uR[j], "RS": "%r %r\n" % (uR[j], uS[j]), "MA": "%r %d\n" % (uR[j], spec["kernel"])}[e])
        f.write("K (R):\n0.0625\n")
    rec.step()
    rec.state(tuple(sorted((k, str(v)) for k, v in spec.items())))
    avs = [u for u, e in zip(uR, spec["err"]) if e == "MA"]
    if spec.get("cmd"):
        if spec["missing"] == "directory":
            src = os.path.join(work, "nowhere")
        elif spec["missing"]:
            os.remove(os.path.join(src, spec["missing"]))
        p = subprocess.run([sys.executable, TOOL, "-i", src, "-o", dst] + spec["flag"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, cwd=work)
        if spec["missing"]:
            rec.check(p.returncode != 0 and not (os.path.isdir(dst) and os.listdir(dst)), "missing",
                      "%s is missing: exit %d" % (spec["missing"], p.returncode))
            rec.outcome(("missing", spec["missing"]))
            return
        if not rec.check(p.returncode == 0, "command", "the command failed: " + p.stdout[-500:]):
            return
    else:
        try:
            P.prepare_directories(src, dst)
            P.run_conversion(src, dst)
        except ValueError:
            rec.check(len(set(avs)) > 1, "refused", "averages that are all alike are refused")
            rec.outcome("refused")
            return
        if not rec.check(len(set(avs)) < 2, "not refused", "averages of different uncertainties are all given the first one"):
            return
    rec.check(sorted(os.listdir(dst)) == sorted(["atrue.txt"] + ["_".join(p) + ".nc" for p in spec["pairs"]]), "files",
              "%r" % sorted(os.listdir(dst)))
    rec.check(S.near(np.loadtxt(os.path.join(dst, "atrue.txt")).reshape(atrue.shape), atrue), "atrue", "true parameters")
    i0 = 0
    types = [{"R": 1, "RS": 2, "MA": 3}[e] for e in spec["err"]]
    for p, n in zip(spec["pairs"], spec["Nm"]):
        h = H[i0:i0 + n]
        i0 += n
        d = Dataset(os.path.join(dst, "_".join(p) + ".nc"))
        what = "pair %r of %r (lengths %r): " % (p, spec["pairs"], spec["Nm"])
        rec.check((d.sensor_1_name, d.sensor_2_name) == tuple(p), "sensors", what + "sensors")
        for s in (0, 1):
            ref = p[s] == "0"
            rec.step()
            X = h[:, :1] if ref else h[:, s * nX:(s + 1) * nX]
            ur = [0.375] if ref else [0. if e == "MA" else u for e, u in zip(spec["err"], uR)]
            us = [0.] if ref else uS
            one = np.ones((n, 1))
            for name, want in (("X", X), ("Ur", one * ur), ("Us", one * us)):
                got = d["%s%d" % (name, s + 1)][:]
                rec.check(S.near(got, want, 1e-12), name, what + "%s%d is %r, not %r" % (name, s + 1, got, want))
            rec.check(list(d["uncertainty_type%d" % (s + 1)][:]) == ([1] if ref else types), "types", what + "types")
            if not avs:
                rec.check("w_matrix_nnz" not in d.variables, "W", what + "has a W matrix")
                continue
            if not rec.check("w_matrix_nnz" in d.variables, "W", what + "has no W matrix"):
                continue
            wu, uu = d["w_matrix_use%d" % (s + 1)][:], d["u_matrix_use%d" % (s + 1)][:]
            rec.check([x > 0 for x in wu] == [not ref and x == 3 for x in types[:len(wu)]] and [x > 0 for x in uu] == [x > 0 for x in wu],
                      "use", what + "W matrices of the covariates %r, %r" % (wu, uu))
            k = spec["kernel"]
            W = np.zeros((n, n + k - 1))
            for i in range(n):
                W[i, i:i + k] = 1. / k
            for c, x in enumerate(wu):
                if x:
                    rec.check(S.near(c21.dense(d, int(x) - 1), W, 1e-6), "W", what + "W is\n%r" % c21.dense(d, int(x) - 1))
                    rec.check(S.near(c21.vector(d, int(uu[c]) - 1), [avs[0]] * W.shape[1], 1e-6), "U", what + "u")
        rec.check(S.near(d["K"][:], h[:, -1], 1e-12), "K", what + "K")
        rec.check(S.near(d["Kr"][:], [0.0625] * n, 1e-12) and S.near(d["Ks"][:], [0.] * n), "Kr", what + "Kr %r" % d["Kr"][:])
        rec.check(len(d["time1"][:]) == n and S.near(d["time1"][:] - d["time1"][0], np.arange(n)) and S.near(d["time1"][:], d["time2"][:]),
                  "time", what + "times")
        d.close()
    rec.outcome((types, spec["Nm"]))
