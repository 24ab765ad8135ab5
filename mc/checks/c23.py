"""C23: what is written as a match-up file is read back as the same dataset, by all four writers."""

import importlib
import os
import sys

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import csr_matrix

import support as S

NEEDS = {"py"}
SCOPE = ("all four writers of match-up files; every combination of the four types of error correlation on 1-2 covariates a side; "
         "1-3 W matrices of every order of shapes and storage (in order, columns out of order, stored zeros), every assignment of "
         "W and U; matrices of 40000 and 66000 columns; additional variables of 4 types")
ASSUMPTIONS = ["every column of a W matrix is in use (the format stores no widths)", "all is written in double precision, but by the AVHRR converter, and W and U by the converter of text files"]
KINDS = ["shared", "gap", "diag", "ave3"]
WIDE = {1: np.ones((1, 40000)) / 4, 2: np.vstack([np.arange(66000) < 40000, np.arange(66000) > 30000]) / 4.}


def setup(ctx):
    global R, FNS, Writer
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    argv, sys.argv = sys.argv, ["pmh2fiduceo.py", "--quiet"]
    try:
        FNS = [importlib.import_module(m) for m in ("W_matrix_functions", "AVHRR_to_updated_spec", "pmh2fiduceo")]
    finally:
        sys.argv = argv
    from harmonisation.core.matchup.matchupIO import MatchUpReader as R
    from harmonisation.core.matchup.matchupIO.MatchUpWriter import MatchUpWriter as Writer


def types(ch):
    t = [[ch.pick([1, 2, 3, 4], "type") for _ in range(ch.pick([1, 2], "covariates"))] for _ in range(2)]
    return {"t": t, "writer": ch.idx(4, "writer"), "M": 3, "kinds": [0, 1], "store": 0, "use": "side", "add": 0}


def matrices(n):
    def g(ch):
        t = ch.pick([[[3], [4]], [[1], [3, 3]], [[3, 4], [3]], [[4, 1], [2, 4]]], "types")
        nW = ch.pick(n, "W matrices")
        spec = {"t": t, "writer": ch.idx(4, "writer"), "M": ch.pick([2, 1, 4], "match-ups"),
                "kinds": [ch.idx(4, "kind") for _ in range(nW)], "store": ch.idx(3, "storage"), "add": 0, "use": []}
        cols = sum(1 for s in t for x in s if x > 2)
        for _ in range(cols):
            spec["use"].append((ch.pick(range(1, nW + 1), "W"), ch.pick([1, 2], "U")))
        if {w for w, _ in spec["use"]} != set(range(1, nW + 1)):
            return None
        return spec
    return g


def additional(ch):
    return {"t": [[1], [2, 1]], "writer": ch.idx(4, "writer"), "M": ch.pick([3, 1], "match-ups"), "kinds": [], "store": 0, "use": "side",
            "add": ch.pick(range(16), "additional variables")}


def wide(ch):
    """Sizes, columns and row pointers of more than 16 bits."""
    n = ch.pick([1, 2], "W matrices")
    return {"t": [[3], [4]] if n == 2 else [[1], [3, 1]], "writer": ch.idx(4, "writer"), "M": ch.pick([1, 2], "match-ups"),
            "kinds": ["wide"] + [0] * (n - 1), "store": 0, "use": [(1, 1), (2, 2)][:n], "add": 0}


def spaces(tier):
    return [("wide W matrices", wide, None),
            ("types of all covariates", types, None), ("W matrices", matrices([1, 2] if tier == "quick" else [1, 2, 3]),
                                                       None if tier != "quick" else 5),
            ("additional variables", additional, None)]


ADD = [("nominal_measurand1", "f8"), ("lunar_angle", "f4"), ("original_indices", "i4"), ("flag", "i2")]


def stored(W, how, k):
    """csr with the same content: in order; columns of a row in reverse order; with a stored zero."""
    W = np.asarray(W)
    rows = []
    for r in W:
        c = [(j, v) for j, v in enumerate(r) if v]
        if how == 1:
            c = c[::-1]
        if how == 2 and not r[0] == 0 and len(c) < len(r):
            c.append((next(j for j in range(len(r)) if not r[j]), 0.))
        rows.append(c)
    ptr = np.cumsum([0] + [len(c) for c in rows])
    return csr_matrix((np.array([v for c in rows for _, v in c]), np.array([j for c in rows for j, _ in c], int), ptr), shape=W.shape)


def run(spec, rec):
    t, M = spec["t"], spec["M"]
    f = S.fill({"s": ["A", "B"], "m": [len(t[0]), len(t[1])], "M": M, "t": t}, 0)
    for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks"):
        f[k] = f[k] / 3
    f["w"], f["u"] = [[], []], [[], []]
    use = list(spec["use"]) if spec["use"] != "side" else None
    for s in (0, 1):
        for c, x in enumerate(t[s]):
            if x < 3:
                w, u = 0, 0
            elif use is None:
                w, u = 1 + s, 1 + s
            else:
                w, u = use.pop(0)
            f["w"][s].append(w)
            f["u"][s].append(u)
            if x == 4:
                f["Us%d" % (s + 1)][:, c] = f["Us%d" % (s + 1)][0, c]
    structured = any(x > 2 for s in t for x in s)
    add = {name: {"data": np.arange(M) + 10 * i + (0.5 if ty[0] == "f" else 0), "dtype": ty, "dim": ("M",), "Description": "x" * i}
           for i, (name, ty) in enumerate(ADD) if spec["add"] >> i & 1}
    path = os.path.join(rec.scratch, "x.nc")
    args = [f[k] for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2")] + [np.array(x) for x in t] + \
        [f[k] for k in ("K", "Kr", "Ks", "time1", "time2")] + ["A", "B"]
    Ws = Us = ()
    n = spec["writer"]
    fn = FNS[n if n < 3 else 0]
    kw = {"additional_variables": add} if add else {}
    if structured:
        Ws = [(WIDE[M] if k == "wide" else S.w_dense(KINDS[k], M)) * (1 + i) / 3 for i, k in enumerate(spec["kinds"])]
        Us = [(np.arange(max(W.shape[1] for W in Ws)) + 1.) / 7 + 10 * j for j in range(2)]
        if use is None or "wide" in spec["kinds"]:
            Us = [u[:W.shape[1]] for u, W in zip(Us, Ws)]
        sp = [stored(W, spec["store"], i) for i, W in enumerate(Ws)]
        val, row, col, nnz, cnt, uval = fn.return_w_matrix_variables(sp, Us)
        wu = [np.array(x) for x in f["w"] + f["u"]]
    if n < 3:
        fn.write_input_file(path, *args, **kw)
        if structured:
            fn.append_W_to_input_file(path, val, row, col, nnz, cnt, uval, *wu)
    else:
        if structured:
            kw["w_matrix_variables"] = (nnz, row, col, val, wu[0], wu[1], cnt, uval, wu[2], wu[3])
        Writer().write_input_file(path, *args, **kw)
    rec.step(2)
    rec.state((n, t, M, spec["kinds"], spec["store"], spec["use"], spec["add"]))
    tol = 1e-6 if n == 1 else 1e-12
    tolW = 1e-6 if n in (1, 2) else 1e-12
    # the file as it is
    d = Dataset(path)
    rec.check((d.sensor_1_name, d.sensor_2_name) == ("A", "B"), "sensors", "sensor names")
    for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2"):
        rec.check(k in d.variables and S.near(d[k][:], f[k], tol if k[:4] != "time" else 1e-15), "file",
                  "%s is %r, not %r" % (k, d[k][:] if k in d.variables else None, f[k]))
    for s in (0, 1):
        rec.check(list(d["uncertainty_type%d" % (s + 1)][:]) == t[s], "file", "uncertainty types")
    for name, v in add.items():
        rec.check(name in d.variables and S.near(d[name][:], v["data"], 1e-6) and d[name].Description == v["Description"], "file",
                  "additional variable " + name)
    rec.check(not structured or "w_matrix_nnz" in d.variables, "W", "the W matrices are not in the file")
    d.close()
    # the file as the solver sees it
    mu = R.open_matchup(path)
    rec.check(mu.idx["sensors"] == ["A", "B"] and list(mu.idx["Nm"]) == [M], "read", "index of the dataset")
    idx, blocks = S.layout([f])
    rec.check(S.near(mu.ks, f["K"], tol), "read", "ks")
    for b, (s, k, cov, side) in enumerate(blocks):
        what = "sensor %d, covariate %d: " % (s, cov)
        u, ty = mu.unc[b], t[side][cov - 1]
        rec.step()
        rec.check(S.near(mu.values[idx["idx"][b]:idx["idx"][b + 1]], f["X%d" % (side + 1)][:, cov - 1], 1e-6), "read", what + "values")
        if not rec.check(u.typeID == ty, "read", what + "type"):
            continue
        if ty < 3:
            rec.check(S.near(u.uR, f["Ur%d" % (side + 1)][:, cov - 1], 1e-6), "read", what + "uR")
        if ty in (2, 4):
            rec.check(S.near(u.uS * np.ones(M), f["Us%d" % (side + 1)][:, cov - 1], 1e-6), "read", what + "uS")
        if ty > 2:
            W, U = Ws[f["w"][side][cov - 1] - 1], Us[f["u"][side][cov - 1] - 1]
            got = mu.w_matrices[u.w_i].toarray()
            rec.check(S.near(got, W, tolW), "W", what + "W is\n%r, not\n%r" % (got, W))
            rec.check(S.near(mu.u_matrices[u.u_i], U, tolW), "U", what + "U is %r, not %r" % (mu.u_matrices[u.u_i], U))
    rec.outcome((n, t, f["w"], f["u"]))
    os.remove(path)
