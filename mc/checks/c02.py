"""C02: the error structure of every covariate is read as it is stored in the file."""

import os
import shutil

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("all uncertainty type vectors over 1-3 files with 1-2 covariates a side, all assignments of the columns to two W and "
         "two U matrices (also shared by columns and sides), 1-3 match-ups; W shapes diagonal, shared columns, ragged rows, rows from the "
         "last column to the first; one file with matrices of more than 70000 elements, rows and columns; 12 files in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")


def setup(ctx):
    global R
    from harmonisation.core.matchup.matchupIO import MatchUpReader as R


def column(ch, nW, nU):
    t = ch.pick([1, 2, 3, 4], "type")
    if t < 3:
        return t, 0, 0
    return t, ch.pick(range(1, nW + 1), "W"), ch.pick(range(1, nU + 1), "U")


def build(ch, pairs, ms, Ms, nW=2, nU=2):
    files = []
    for pair, M in zip(pairs, Ms):
        f = {"s": pair, "m": [ms[p] for p in pair], "M": M, "t": [[], []], "w": [[], []], "u": [[], []]}
        for side in range(2):
            for _ in range(f["m"][side]):
                t, w, u = column(ch, nW, nU)
                f["t"][side].append(t)
                f["w"][side].append(w)
                f["u"][side].append(u)
        if any(w for side in f["w"] for w in side):
            f["kinds"] = nW, nU
        files.append(f)
    return {"files": files}


def one(ch):
    m = ch.pick([(1, 1), (2, 1), (1, 2)], "m")
    M = ch.pick([2, 1, 3], "M")
    return build(ch, [["A", "B"]], {"A": m[0], "B": m[1]}, [M])


def one22(ch):
    return build(ch, [["A", "B"]], {"A": 2, "B": 2}, [2])


def one33(ch):
    return build(ch, [["A", "B"]], {"A": 3, "B": 3}, [3])


def two(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["A", "B"], ["C", "B"]],
                     [["A", "B"], ["A", "B"]], [["A", "B"], ["B", "A"]]], "pairs")
    return build(ch, pairs, {"A": 1, "B": 1, "C": 1}, [2, 3])


def three(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"], ["C", "D"]], [["A", "B"], ["A", "C"], ["B", "C"]]], "pairs")
    return build(ch, pairs, {"A": 1, "B": 1, "C": 1, "D": 1}, [1, 2, 1], 1, 1)


def many(ch):
    files = S.many(ch, Ms=(2, 3, 1))
    for f in files:
        if f["n"]:
            f["kinds"] = f["n"], f["n"]
    return {"files": files}


def large(ch):
    return {"large": ch.pick([1, 2, 3, 4], "order of the matrices"), "files": []}


def spaces(tier):
    sp = [("large matrices", large, None), ("12 files", many, None), ("1 file, m (1,1) (2,1) (1,2)", one, None), ("1 file, m (2,2)", one22, 3 if tier == "quick" else None),
          ("2 files, m=1", two, None if tier == "thorough" else 3), ("3 files, m=1", three, None if tier == "thorough" else 4)]
    if tier == "thorough":
        sp.append(("1 file, m (3,3)", one33, 5))
    return sp


def matrices(f, k):
    M = f["M"]
    shapes = ["shared", "gap", "back", "ave3", "diag"]
    f["W"] = [S.w_dense(shapes[(k + i + M) % 5], M) * (1 + 0.5 * i) for i in range(f["kinds"][0])]
    ncol = max(W.shape[1] for W in f["W"])
    f["U"] = [(np.arange(ncol if j else f["W"][0].shape[1]) + 1.0) / 8 + 10 * j + 100 * k for j in range(f["kinds"][1])]
    return f


def run_large(spec, rec, d):
    """Sizes and positions that do not fit into 16 bits: a band of three columns and one of two, each of 36000 rows."""
    from netCDF4 import Dataset
    M = 36000
    bands = [(3, [0.25, 0.5, 0.75]), (2, [0.125, 0.375])]
    if spec["large"] % 2:
        bands.reverse()
    nnz = [M * n for n, _ in bands]
    rows = np.array([np.arange(M + 1) * n for n, _ in bands])
    cols = np.concatenate([(np.arange(M)[:, None] * n + np.arange(n)).ravel() for n, _ in bands])
    vals = np.concatenate([(np.array(v) * (1 + np.arange(M)[:, None] / M)).ravel() for _, v in bands])
    U = [np.arange(n) / 8. + k + 1 for k, n in enumerate(nnz)]
    f = S.fill({"s": ["A", "B"], "m": [1, 1], "M": M, "t": [[3], [3]]}, 0)
    use = ([1], [2]) if spec["large"] < 3 else ([2], [1])
    p = os.path.join(d, "large.nc")
    S.write_file(p, f)
    g = Dataset(p, "a")
    for n, v, dim in (("w_matrix_nnz", nnz, ["w_matrix_count"]), ("w_matrix_row", rows, ["w_matrix_count", "w_matrix_row_count"]),
                      ("w_matrix_col", cols, ["w_matrix_nnz_sum"]), ("w_matrix_val", vals, ["w_matrix_nnz_sum"]),
                      ("w_matrix_use1", use[0], ["m1"]), ("w_matrix_use2", use[1], ["m2"]),
                      ("u_matrix_row_count", [len(u) for u in U], ["u_matrix_count"]),
                      ("u_matrix_val", np.concatenate(U), ["u_matrix_row_count_sum"]),
                      ("u_matrix_use1", use[0], ["m1"]), ("u_matrix_use2", use[1], ["m2"])):
        for size, name in zip(np.shape(v), dim):
            if name not in g.dimensions:
                g.createDimension(name, size)
        g.createVariable(n, "f8" if n.endswith("val") else "i4", dim)[:] = v
    g.close()
    mu = R.open_matchup([p])
    rec.step()
    rec.state(spec)
    for side in (0, 1):
        u = mu.unc[side]
        j = use[side][0] - 1
        W, first = mu.w_matrices[u.w_i], sum(nnz[:j])
        rec.check(u.typeID == 3 and W.shape == (M, nnz[j]) and S.eq(W.data, vals[first:first + nnz[j]]) and
                  S.eq(W.indices, cols[first:first + nnz[j]]) and S.eq(W.indptr, rows[j]), "W", "large W of side %d: %r" % (side, W))
        rec.check(S.eq(mu.u_matrices[u.u_i], U[j]), "U", "large U of side %d" % side)
    rec.outcome([W.shape for W in mu.w_matrices])


def run(spec, rec):
    if "large" in spec:
        d = os.path.join(rec.scratch, "c")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        return run_large(spec, rec, d)
    d = os.path.join(rec.scratch, "c")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    files = []
    for k, f in enumerate(spec["files"]):
        f = S.fill(f, k)
        for side in (0, 1):  # a systematic effect of a structured column has one value
            for c, t in enumerate(f["t"][side]):
                if t == 4:
                    f["Us%d" % (side + 1)][:, c] = f["Us%d" % (side + 1)][0, c]
        if "kinds" in f:
            matrices(f, k)
        files.append(f)
    ps = [os.path.join(d, "f%d.nc" % k) for k in range(len(files))]
    for p, f in zip(ps, files):
        S.write_file(p, f)
    mu = R.open_matchup(ps)
    rec.step(len(files))
    idx, blocks = S.layout(files)
    rec.state([(f["s"], f["m"], f["M"], f["t"], f["w"], f["u"]) for f in files])
    rec.check(len(mu.unc) == len(blocks), "unc", "%d uncertainties for %d blocks" % (len(mu.unc), len(blocks)))
    effects, used = {}, {}
    out = []
    for b, (s, k, cov, side) in enumerate(blocks):
        f, u = files[k - 1], mu.unc[b]
        t = f["t"][side][cov - 1]
        what = "file %d, sensor %d, covariate %d" % (k, s, cov)
        rec.step()
        out.append((t, getattr(u, "w_i", None), getattr(u, "u_i", None), getattr(u, "uS_i", None)))
        if not rec.check(u.typeID == t, "type", "%s: type %r, not %r" % (what, u.typeID, t)):
            continue
        if t in (1, 2):
            w = f["Ur%d" % (side + 1)][:, cov - 1]
            rec.check(S.near(u.uR, w, 1e-12), "uR", "%s: uR %r, not %r" % (what, u.uR, w))
        if t == 2:
            w = f["Us%d" % (side + 1)][:, cov - 1]
            rec.check(S.near(u.uS * np.ones(f["M"]), w, 1e-12), "uS", "%s: uS %r, not %r" % (what, u.uS, w))
        if t == 4:
            w = f["Us%d" % (side + 1)][0, cov - 1]
            rec.check(S.near(np.ones(1) * u.uS, [w], 1e-12), "uS", "%s: uS %r, not %r" % (what, u.uS, w))
        if t in (2, 4):
            effects.setdefault((s, cov), set()).add(u.uS_i)
        if t in (3, 4):
            W, U = f["W"][f["w"][side][cov - 1] - 1], f["U"][f["u"][side][cov - 1] - 1]
            used.setdefault(("W", u.w_i), set()).add((k, f["w"][side][cov - 1]))
            used.setdefault(("U", u.u_i), set()).add((k, f["u"][side][cov - 1]))
            rec.check(S.near(mu.w_matrices[u.w_i].toarray(), W, 1e-12), "W", "%s: W is\n%r, not\n%r"
                      % (what, mu.w_matrices[u.w_i].toarray(), W))
            rec.check(S.near(mu.u_matrices[u.u_i], U, 1e-12), "U", "%s: U is %r, not %r" % (what, mu.u_matrices[u.u_i], U))
    # one systematic effect per sensor and covariate, numbered from 1 without gaps
    rec.check(all(len(v) == 1 for v in effects.values()), "uS_i", "a covariate's systematic effect has several numbers %r" % effects)
    nums = sorted(x for v in effects.values() for x in v)
    rec.check(nums == list(range(1, len(effects) + 1)), "uS_i", "systematic effects are numbered %r" % effects)
    # every stored matrix is stored once
    rec.check(all(len(v) == 1 for v in used.values()), "shared", "matrices of different covariates share a place: %r" % used)
    for kind, store in (("W", mu.w_matrices), ("U", mu.u_matrices)):
        owners = [v for (kk, _), v in used.items() if kk == kind]
        rec.check(len(owners) == len(set(map(str, map(sorted, owners)))) and len(store) == len(owners), "stored",
                  "%d %s matrices are stored for %d in use" % (len(store), kind, len(owners)))
    rec.outcome(out)
