"""C20: the input checker accepts a match-up file if and only if it meets the format, and names what is wrong."""

import contextlib
import importlib
import io
import os
import sys

import numpy as np
from netCDF4 import Dataset

import support as S

NEEDS = {"py"}
SCOPE = ("all files of 1-2 covariates per sensor with every combination of the four types of error correlation; on 8 base files, "
         "every single fault and every pair of faults out of a catalogue that covers every variable, attribute, dimension and rule "
         "of the format, at the first, last and a middle element")
ASSUMPTIONS = ["files can be opened", "an exception counts as a refusal where the arrays have the wrong shape"]

F8, I4 = "f8", "i4"
REQ = {"X1": ("M", "m1"), "X2": ("M", "m2"), "Ur1": ("M", "m1"), "Ur2": ("M", "m2"), "Us1": ("M", "m1"), "Us2": ("M", "m2"),
       "K": ("M",), "Kr": ("M",), "Ks": ("M",), "time1": ("M",), "time2": ("M",), "uncertainty_type1": ("m1",),
       "uncertainty_type2": ("m2",)}
WVAR = {"w_matrix_nnz": ("w_matrix_count",), "w_matrix_row": ("w_matrix_count", "w_matrix_row_count"),
        "w_matrix_col": ("w_matrix_nnz_sum",), "w_matrix_val": ("w_matrix_nnz_sum",), "w_matrix_use1": ("m1",),
        "w_matrix_use2": ("m2",), "u_matrix_row_count": ("u_matrix_count",), "u_matrix_val": ("u_matrix_row_count_sum",),
        "u_matrix_use1": ("m1",), "u_matrix_use2": ("m2",)}
DIMS = dict(REQ, **WVAR)
INT = {"uncertainty_type1", "uncertainty_type2"} | set(WVAR) - {"w_matrix_val", "u_matrix_val"}
BASES = [([1], [1]), ([1], [2, 1]), ([1], [3]), ([3, 1], [1]), ([1], [4, 3]), ([2], [3, 3]), ([4, 3], [3, 1]), ([3], [4])]


def setup(ctx):
    global main
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    main = importlib.import_module("harmonisation_input_checker").main


def base(t):
    """A file that meets the format: {"dims", "vars": name -> [dims, dtype, values], "attrs"}."""
    M = 3
    f = {"M": M, "m": [len(t[0]), len(t[1])], "t": t, "s": ["A", "B"]}
    f = S.fill(f, 0)
    v = {}
    nW, W, U, w, u = 0, [], [], [[], []], [[], []]
    for side in range(2):
        first = 0
        for c, ty in enumerate(t[side]):
            ur, us = f["Ur%d" % (side + 1)], f["Us%d" % (side + 1)]
            if ty in (3, 4):
                if not first:
                    W.append(S.w_dense("shared", M))
                    first = len(W)
                U.append(np.arange(1, M + 2) / 8. + len(U))
                w[side].append(first)
                u[side].append(len(U))
                ur[:, c] = 0
            else:
                w[side].append(0)
                u[side].append(0)
            if ty in (1, 3):
                us[:, c] = 0
    for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2"):
        v[k] = [REQ[k], F8, f[k]]
    for side in range(2):
        v["uncertainty_type%d" % (side + 1)] = [REQ["uncertainty_type%d" % (side + 1)], I4, np.array(t[side])]
    dims = {"M": M, "m1": len(t[0]), "m2": len(t[1])}
    if W:
        nnz, rows, cols, vals, uc, uv = S.w_variables(W, U)
        dims.update(w_matrix_count=len(nnz), w_matrix_row_count=M + 1, w_matrix_nnz_sum=len(vals), u_matrix_count=len(uc),
                    u_matrix_row_count_sum=len(uv))
        for k, a in (("w_matrix_nnz", nnz), ("w_matrix_row", rows), ("w_matrix_col", cols), ("w_matrix_val", vals),
                     ("w_matrix_use1", w[0]), ("w_matrix_use2", w[1]), ("u_matrix_row_count", uc), ("u_matrix_val", uv),
                     ("u_matrix_use1", u[0]), ("u_matrix_use2", u[1])):
            v[k] = [WVAR[k], I4 if k in INT else F8, np.array(a)]
    return {"dims": dims, "vars": v, "attrs": {"sensor_1_name": "A", "sensor_2_name": "B"}}


def faults(f, small=False):
    """Every fault of the catalogue, as a JSON-able tuple, that can be made in this file (small: one of each kind)."""
    out = []
    for k in sorted(f["vars"]):
        d, ty, a = f["vars"][k]
        out.append(("drop", k))
        out.append(("dtype", k, "i8" if ty == I4 else I4))
        if not small:
            out.append(("dtype", k, "f4"))
        if len(d) == 2:
            out.append(("dims", k, [d[0]]))
            out.append(("dims", k, [d[1], d[0]]))
        else:
            out.append(("dims", k, ["other"]))
            if d[0] in ("M", "m1"):
                out.append(("dims", k, ["m2" if d[0] == "m1" else "m1"]))
        n = a.size
        for i in sorted({0, n // 2, n - 1}) if not small else [n - 1]:
            if k in INT:
                for x in (-1, 0, 1, 2, 3, 4, 5) if not small else (0, 2):
                    out.append(("set", k, i, x))
            else:
                out.append(("set", k, i, -1.))
                out.append(("set", k, i, 0.))
                out.append(("set", k, i, 3.))
                if k[:2] in ("Ur", "Us", "Kr", "Ks", "u_") and not small:
                    out.append(("set", k, i, float("nan")))
        if k[:2] in ("Ur", "Us"):
            for c in range(a.shape[1]):
                out += [("col", k, c, 0.), ("col", k, c, 2.)]
        if k in WVAR and not small:
            out.append(("only", k))
        if "_use" in k and (a == 0).any() and a.any():
            out.append(("roll", k))
    out.append(("zero K",))
    for k in f["attrs"]:
        out.append(("noattr", k))
    out.append(("same",))
    out.append(("extra",))
    for dname in sorted(set(f["dims"]) - {"M", "m1", "m2"}):
        out += [("longer", dname), ("shorter", dname)]
    return out


def apply(f, fault):
    kind = fault[0]
    v = f["vars"]
    if kind in ("drop", "dtype", "dims", "set", "col", "only", "roll") and fault[1] not in v:
        return False
    if kind == "drop":
        del v[fault[1]]
    elif kind == "dtype":
        v[fault[1]][1] = fault[2]
    elif kind == "dims":
        f["dims"].setdefault("other", 3)
        new = tuple(fault[2])
        shape = tuple(f["dims"][d] for d in new)
        v[fault[1]] = [new, v[fault[1]][1], np.resize(v[fault[1]][2], shape)]
    elif kind == "set":
        a = v[fault[1]][2] = v[fault[1]][2].copy()
        if fault[2] >= a.size:
            return False
        a.flat[fault[2]] = fault[3]
    elif kind == "col":
        a = v[fault[1]][2] = v[fault[1]][2].copy()
        if a.ndim != 2 or a.shape[1] <= fault[2]:
            return False
        a[:, fault[2]] = fault[3]
    elif kind == "only":
        for k in WVAR:
            if k != fault[1]:
                v.pop(k, None)
    elif kind == "roll":
        v[fault[1]][2] = np.roll(v[fault[1]][2], 1)
    elif kind == "zero K":
        for k in ("Kr", "Ks"):
            if k in v:
                v[k][2] = v[k][2].copy()
                v[k][2].flat[-1] = 0.
    elif kind == "noattr":
        f["attrs"].pop(fault[1], None)
    elif kind == "same":
        if len(f["attrs"]) < 2:
            return False
        f["attrs"]["sensor_2_name"] = f["attrs"]["sensor_1_name"]
    elif kind == "extra":
        v["lunar_angle"] = [("M",), F8, np.arange(float(f["dims"]["M"]))]
    elif kind in ("longer", "shorter"):
        n = f["dims"][fault[1]] + (1 if kind == "longer" else -1)
        if n < 1:
            return False
        f["dims"][fault[1]] = n
        for k in v:
            if fault[1] in v[k][0]:
                v[k][2] = np.resize(v[k][2], tuple(f["dims"][d] for d in v[k][0]))
    return True


def verdict(f):
    """The names that errors must be reported for, and whether arrays have the wrong shape."""
    v, bad, shape = f["vars"], [], False
    bad += [k for k in REQ if k not in v]
    haveW = [k for k in WVAR if k in v]
    if haveW and len(haveW) < len(WVAR):
        bad += [k for k in WVAR if k not in v]
    for k, (d, ty, a) in v.items():
        if k not in DIMS:
            continue
        if tuple(d) != DIMS[k]:
            bad.append(k)
            shape = True
        if ty not in (("i4",) if k in INT else ("f4", "f8")):
            bad.append(k)
    at = f["attrs"]
    bad += [k for k in ("sensor_1_name", "sensor_2_name") if k not in at]
    if len(at) == 2 and at["sensor_1_name"] == at["sensor_2_name"]:
        bad.append("sensor_1_name")
    if shape or any((v[k][1] == "i4") != (k in INT) for k in v if k in DIMS and v[k][1] != "i8"):
        return bad, True
    val = {k: v[k][2] for k in v}
    if "Kr" in v and "Ks" in v:
        bad += [k for k in ("Kr", "Ks") if not (val[k] >= 0).all()]
        if not all(r != 0 or s != 0 for r, s in zip(val["Kr"], val["Ks"])):
            bad.append("Kr")
    if all(k in v for k in ("Ur1", "Ur2", "Us1", "Us2")):
        bad += [k for k in ("Ur1", "Ur2", "Us1", "Us2") if not (val[k] >= 0).all()]
    allW = len(haveW) == len(WVAR)
    if allW:
        d = f["dims"]
        uses = {}
        for x in "wu":
            use = uses[x] = list(val[x + "_matrix_use1"]) + list(val[x + "_matrix_use2"])
            if max(use) != d[x + "_matrix_count"]:
                bad.append(x + "_matrix_count")
            if {i for i in use if i} != set(range(1, max(use) + 1)):
                bad.append(x + "_matrix_use")
        if d["w_matrix_row_count"] != d["M"] + 1:
            bad.append("w_matrix_row_count")
        if d["w_matrix_nnz_sum"] != sum(val["w_matrix_nnz"]):
            bad.append("w_matrix_nnz_sum")
        if d["u_matrix_row_count_sum"] != sum(val["u_matrix_row_count"]):
            bad.append("u_matrix_row_count_sum")
        if [i != 0 for i in uses["w"]] != [i != 0 for i in uses["u"]]:
            bad.append("w_matrix_use")
        p, wild = 0, False
        for i, n in enumerate(val["w_matrix_nnz"]):
            cols = val["w_matrix_col"][p:p + n] if n > 0 else []
            p += n
            if n <= 0 or not len(cols):
                wild = True
                continue
            for wi, ui in zip(uses["w"], uses["u"]):
                if wi == i + 1 and not 1 <= ui <= len(val["u_matrix_row_count"]):
                    wild = True
                elif wi == i + 1 and val["u_matrix_row_count"][ui - 1] != max(cols) + 1:
                    bad.append("w matrix")
        if wild:
            shape = True
        if not (val["u_matrix_val"] > 0).all():
            bad.append("u_matrix")
        bad += [k for k in ("w_matrix_nnz", "w_matrix_row", "w_matrix_col", "u_matrix_row_count") if (val[k] < 0).any()]
        if wild and not bad:
            bad.append("")
    if all(k in v for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2")):
        for s in "12":
            for c, t in enumerate(val["uncertainty_type" + s]):
                R, Sy = val["Ur" + s][:, c], val["Us" + s][:, c]
                W = val["w_matrix_use" + s][c] > 0 if "w_matrix_use" + s in v else False
                forms = [n for n, ok in ((1, (R > 0).all() and (Sy == 0).all()), (2, (R > 0).all() and (Sy > 0).all()),
                                         (3, W and (Sy == 0).all()), (4, W and (Sy > 0).all())) if ok]
                if forms != [t]:
                    bad.append("X%s[:, %d]" % (s, c))
    return bad, shape


def types(ch):
    t = [[ch.pick([1, 2, 3, 4], "type") for _ in range(ch.pick([1, 2], "covariates"))] for _ in range(2)]
    spec = {"t": t, "faults": []}
    if ch.flag("other type asserted"):
        side = ch.idx(2, "side")
        spec["faults"] = [("set", "uncertainty_type%d" % (side + 1), ch.idx(len(t[side]), "column"),
                           ch.pick([1, 2, 3, 4, 5, 0], "asserted"))]
    return spec


def single(bases):
    def g(ch):
        t = ch.pick(bases, "base")
        return {"t": t, "faults": [ch.pick(faults(base(t)), "fault")]}
    return g


def pair(bases, small=False):
    def g(ch):
        t = ch.pick(bases, "base")
        fs = faults(base(t), small)
        i = ch.idx(len(fs) - 1, "fault")
        j = ch.idx(len(fs) - 1 - i, "fault")
        return {"t": t, "faults": [fs[i], fs[i + 1 + j]]}
    return g


def spaces(tier):
    sp = [("combinations of types", types, None), ("single faults", single(BASES), None)]
    if tier == "thorough":
        sp += [("pairs of faults", pair([BASES[1], BASES[4]]), None)]
    else:
        sp += [("pairs of faults, one of each kind", pair(BASES[1:2], True), None)]
    return sp


def run(spec, rec):
    f = base(spec["t"])
    for fault in spec["faults"]:
        if not apply(f, fault):
            return
    path = os.path.join(rec.scratch, "x.nc")
    d = Dataset(path, "w")
    for k, n in f["dims"].items():
        d.createDimension(k, n)
    for k, (dims, ty, a) in f["vars"].items():
        d.createVariable(k, ty, dims)[:] = a.astype(ty)
    for k, a in f["attrs"].items():
        setattr(d, k, a)
    d.close()
    with open(path, "rb") as fh:
        before = fh.read()
    bad, shape = verdict(f)
    out = io.StringIO()
    crash = None
    try:
        with contextlib.redirect_stdout(out):
            res = main(path)
    except (Exception, SystemExit) as e:
        crash, res = e, True
    rec.step()
    text = out.getvalue()
    rec.state((spec["t"], tuple(map(tuple, spec["faults"]))))
    what = "faults %r in %r" % (spec["faults"], spec["t"])
    if crash and not shape:
        rec.fail("crash", "%s: %s: %s" % (what, type(crash).__name__, crash))
    if not bad:
        rec.check(not res and not crash, "refused", "a file that meets the format is refused: %s: %s" % (what, text))
    else:
        rec.check(bool(res), "accepted", "%s: accepted, but wrong: %r" % (what, sorted(set(bad))))
        if not crash and not shape:
            for name in set(bad):
                rec.check(name in text.split("\n", 1)[1], "named", "%s: %r is not named in %s" % (what, name, text))
    with open(path, "rb") as fh:
        rec.check(fh.read() == before, "changed", "the file was changed")
    rec.outcome(tuple(sorted(set(bad))))
    rec.count("refused" if bad else "accepted")
    os.remove(path)
