"""Match-up specifications, an independent writer of match-up files, and the boring reference model of the block layout.

A file specification is a dict
  {"s": [name1, name2], "m": [m1, m2], "M": M, "t": [[types of X1 columns], [types of X2 columns]],
   "w": [[W number per column], ..], "u": [[U number per column], ..]  (1-based, 0 = none),
   "W": [dense matrices], "U": [vectors], "opt": {name: [values]}, "add": {name: [values]}}
plus the numbers X1, X2, Ur1, ... made by `fill` so that every cell of every array is a different number.
"""

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import csr_matrix

NAMES = ["n1", "n1n", "n", "N1"]       # names that contain one another tell exact from partial matches
OPT = ["across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"]


def names(pair):
    return [NAMES["ABCD".index(x)] if x in "ABCD" else x for x in pair]


def fill(spec, n):
    """Gives file number n (from 0) numbers that tell every cell of every array of every file apart."""
    M, (m1, m2) = spec["M"], spec["m"]
    base = 1000.0 * (n + 1)

    def arr(code, shape):
        a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        return base + 50.0 * code + a + 1 / 3.

    out = dict(spec)
    out["X1"], out["X2"] = arr(0, (M, m1)), arr(1, (M, m2))
    out["Ur1"], out["Ur2"] = arr(2, (M, m1)) / 64., arr(3, (M, m2)) / 64.
    out["Us1"], out["Us2"] = arr(4, (M, m1)) / 64., arr(5, (M, m2)) / 64.
    out["K"] = arr(6, (M,))
    out["Kr"] = arr(7, (M,)) / 32.
    out["Ks"] = arr(8, (M,)) / 16.
    out["time1"] = 86400.0 * (1000 * (n + 1) + np.arange(M)) + 3600.0 * np.arange(1, M + 1) + n
    out["time2"] = out["time1"] + 61.0
    return out


def w_dense(kind, M):
    """Small W matrices (M rows) of several shapes; every matrix has all its columns in use."""
    if kind == "diag":
        return np.eye(M)
    if kind == "shared":          # neighbours share a column
        W = np.zeros((M, M + 1))
        for i in range(M):
            W[i, i], W[i, i + 1] = 0.25, 0.75
        return W
    if kind == "ave3":            # unequal weights, three columns, shared with two neighbours
        W = np.zeros((M, M + 2))
        for i in range(M):
            W[i, i], W[i, i + 1], W[i, i + 2] = 0.125, 0.375, 0.5
        return W
    if kind == "gap":             # rows of different length
        W = np.zeros((M, 2 * M))
        for i in range(M):
            W[i, 2 * i] = 0.5 if i % 2 else 1.0
            if i % 2:
                W[i, 2 * i + 1] = 0.5
        return W[:, np.abs(W).sum(0) > 0]
    if kind == "back":            # match-ups from the last to the first, weights that do not sum to one, columns skipped
        W = np.zeros((M, M + 2))
        for i in range(M):
            W[i, M - 1 - i], W[i, M + 1 - i] = 0.375, 1.25
        return W[:, np.abs(W).sum(0) > 0]
    raise ValueError(kind)


PATTERNS = ["chain", "star", "one pair", "every pair"]


def many(ch, n=12, Ms=(1, 3, 2), types=(1, 2, 3, 4)):
    """n series, in the patterns in which they share their sensors; 1-4 or 12 covariates, types and sizes in turn."""
    pattern, names = ch.pick(PATTERNS, "pattern"), ["s%d" % k for k in range(n + 1)]
    turn = ch.pick([0, 1, 2, 3], "types")
    pairs = {"chain": [[k, k + 1] for k in range(n)], "star": [[0, k + 1] for k in range(n)], "one pair": [[0, 1]] * n,
             "every pair": [[a, b] for a in range(6) for b in range(a)][:n]}[pattern]
    files = []
    for k, pair in enumerate(pairs):
        f = {"s": [names[p] for p in pair], "m": [12 if p == 1 and pattern in ("chain", "star") else 1 + (p + turn) % 4 for p in pair], "M": Ms[k % len(Ms)], "t": [[], []], "w": [[], []],
             "u": [[], []], "n": 0}
        for side in (0, 1):
            for c in range(f["m"][side]):
                t = types[(turn + k * 3 + side + c) % len(types)]
                f["n"] += t > 2
                f["t"][side].append(t)
                f["w"][side].append(f["n"] if t > 2 else 0)
                f["u"][side].append(f["n"] if t > 2 else 0)
        files.append(f)
    return files


def w_variables(Ws, Us):
    """The W/U variables of an input file, written from the format's description alone."""
    nnz, rows, cols, vals = [], [], [], []
    for W in Ws:
        W = np.asarray(W, float)
        ptr = [0]
        n = 0
        for r in W:
            for c in range(len(r)):
                if r[c] != 0:
                    cols.append(c)
                    vals.append(r[c])
                    n += 1
            ptr.append(n)
        nnz.append(n)
        rows.append(ptr)
    return (np.array(nnz), np.array(rows), np.array(cols), np.array(vals), np.array([len(u) for u in Us]),
            np.concatenate([np.asarray(u, float) for u in Us]))


def write_file(path, f, dtype="f8"):
    d = Dataset(path, "w")
    d.sensor_1_name, d.sensor_2_name = f["s"]
    d.createDimension("M", f["M"])
    d.createDimension("m1", f["m"][0])
    d.createDimension("m2", f["m"][1])
    for v, dim in (("X1", ("M", "m1")), ("X2", ("M", "m2")), ("Ur1", ("M", "m1")), ("Ur2", ("M", "m2")),
                   ("Us1", ("M", "m1")), ("Us2", ("M", "m2")), ("K", ("M",)), ("Kr", ("M",)), ("Ks", ("M",)),
                   ("time1", ("M",)), ("time2", ("M",))):
        d.createVariable(v, dtype if v[:4] != "time" else "f8", dim)[:] = f[v]
    d.createVariable("uncertainty_type1", "i4", ("m1",))[:] = f["t"][0]
    d.createVariable("uncertainty_type2", "i4", ("m2",))[:] = f["t"][1]
    if f.get("W"):
        nnz, rows, cols, vals, ucount, uvals = w_variables(f["W"], f["U"])
        d.createDimension("w_matrix_count", len(nnz))
        d.createDimension("w_matrix_row_count", rows.shape[1])
        d.createDimension("w_matrix_nnz_sum", len(vals))
        d.createDimension("u_matrix_count", len(ucount))
        d.createDimension("u_matrix_row_count_sum", len(uvals))
        d.createVariable("w_matrix_nnz", "i4", ("w_matrix_count",))[:] = nnz
        d.createVariable("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"))[:] = rows
        d.createVariable("w_matrix_col", "i4", ("w_matrix_nnz_sum",))[:] = cols
        d.createVariable("w_matrix_val", "f8", ("w_matrix_nnz_sum",))[:] = vals
        d.createVariable("w_matrix_use1", "i4", ("m1",))[:] = f["w"][0]
        d.createVariable("w_matrix_use2", "i4", ("m2",))[:] = f["w"][1]
        d.createVariable("u_matrix_row_count", "i4", ("u_matrix_count",))[:] = ucount
        d.createVariable("u_matrix_val", "f8", ("u_matrix_row_count_sum",))[:] = uvals
        d.createVariable("u_matrix_use1", "i4", ("m1",))[:] = f["u"][0]
        d.createVariable("u_matrix_use2", "i4", ("m2",))[:] = f["u"][1]
    for name, vals in f.get("opt", {}).items():
        d.createVariable(name, "i4", ("M",))[:] = vals
    for name, vals in f.get("add", {}).items():
        d.createVariable(name, f.get("addtype", "f8"), ("M",), **({"fill_value": f["addfill"]} if "addfill" in f else {}))[:] = vals
    d.close()


def layout(files):
    """The block layout of a list of file specifications."""
    sensors, ms = [], []
    for f in files:
        for name, m in zip(f["s"], f["m"]):
            if name not in sensors:
                sensors.append(name)
                ms.append(m)
    Nm = [f["M"] for f in files]
    cNm = [0]
    for n in Nm:
        cNm.append(cNm[-1] + n)
    Im = [[sensors.index(f["s"][0]), sensors.index(f["s"][1])] for f in files]
    blocks = []          # (sensor, file number from 1, covariate from 1, side of the pair)
    for cov in range(1, max(ms) + 1):
        for k, pair in enumerate(Im):
            for side, s in enumerate(pair):
                if ms[s] >= cov:
                    blocks.append((s, k + 1, cov, side))
    idx = [0]
    for b in blocks:
        idx.append(idx[-1] + Nm[b[1] - 1])
    return {"sensors": sensors, "sensor_ms": ms, "Nm": Nm, "cNm": cNm, "Im": Im, "n_sensor": [b[0] for b in blocks],
            "n_mu": [b[1] for b in blocks], "n_cov": [b[2] for b in blocks],
            "N_var": [Nm[b[1] - 1] for b in blocks], "idx": idx}, blocks


def mem_matchup(MatchUp, Uncertainty, files, dtype=np.float64):
    """A MatchUp object built in memory from the reference model (no file involved)."""
    mu = MatchUp()
    idx, blocks = layout(files)
    mu.idx = idx
    mu.values = np.zeros(idx["idx"][-1], dtype=dtype)
    mu.unc = [None] * len(blocks)
    mu.w_matrices, mu.u_matrices = [], []
    where = {}
    sys_ids = []
    for b, (s, k, cov, side) in enumerate(blocks):
        f = files[k - 1]
        X = "X%d" % (side + 1)
        mu.values[idx["idx"][b]:idx["idx"][b + 1]] = np.asarray(f[X])[:, cov - 1]
        t = f["t"][side][cov - 1]
        ur = np.array(np.asarray(f["Ur%d" % (side + 1)])[:, cov - 1], float)
        us = np.array(np.asarray(f["Us%d" % (side + 1)])[:, cov - 1], float)
        if t in (3, 4):
            ids = []
            for kind, no, store in (("W", f["w"][side][cov - 1], mu.w_matrices),
                                    ("U", f["u"][side][cov - 1], mu.u_matrices)):
                if (kind, k, no) not in where:
                    where[(kind, k, no)] = len(store)
                    data = f[kind][no - 1]
                    store.append(csr_matrix(np.asarray(data, float)) if kind == "W" else np.array(data, float))
                ids.append(where[(kind, k, no)])
        if t == 1:
            mu.unc[b] = Uncertainty(1, ur)
        elif t == 2:
            mu.unc[b] = Uncertainty(2, (ur, us))
        elif t == 3:
            mu.unc[b] = Uncertainty(3, (ids[0], ids[1]))
        elif t == 4:
            mu.unc[b] = Uncertainty(4, (ids[0], ids[1], us[0]))
        if t in (2, 4):
            if (s, cov) not in sys_ids:
                sys_ids.append((s, cov))
            mu.unc[b].uS_i = sys_ids.index((s, cov)) + 1
    mu.ks = np.concatenate([np.asarray(f["K"], float) for f in files])
    mu.unck = [Uncertainty(1, (np.asarray(f["Kr"]) ** 2 + np.asarray(f["Ks"]) ** 2) ** 0.5) for f in files]
    return mu, idx, blocks


def eq(a, b):
    """Equal arrays, NaNs equal to NaNs; tolerant of the container."""
    a, b = np.asarray(np.ma.filled(a, np.nan) if np.ma.isMaskedArray(a) else a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        return a.tolist() == b.tolist()
    a, b = a.astype(float), b.astype(float)
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def near(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same(a, b):
    """Equality of nested dictionaries and sequences, whatever kind of sequence they are."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    seq = lambda x: isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0
    if seq(a):
        return seq(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.all(a == b))


def inject():
    """Loads the processing modules; the package's __init__ does not export the names by which they import each other."""
    import importlib
    import numpy
    import harmonisation as h
    B = "harmonisation.core.matchup."
    set_print = numpy.set_printoptions

    def lenient(*a, **k):  # threshold=nan was fine for the numpy of the project's time
        try:
            set_print(*a, **k)
        except ValueError:
            pass
    numpy.set_printoptions = lenient
    out = {}
    for name, mod in (("evaluate_measurand", "matchupToolbox.utils.matchup_maths"),
                      ("evaluate_adjusted_measurand", "matchupToolbox.utils.matchup_maths"),
                      ("evaluate_K", "matchupToolbox.utils.matchup_maths"),
                      ("Sample2Ind", "matchupProcessing.sample2ind.Sample2Ind"),
                      ("Transform2NormInd", "matchupProcessing.transform2normind.Transform2NormInd"),
                      ("SimulateMatchUp", "matchupProcessing.simulate_matchup.SimulateMatchUp"),
                      ("HarmonisationResult", "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult"),
                      ("HarmonisationEIVPC", "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc."
                                             "HarmonisationEIVPC"),
                      ("HarmonisationEIV", "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv."
                                           "HarmonisationEIV")):
        obj = getattr(importlib.import_module(B + mod), name)
        if not hasattr(h, name) or not callable(getattr(h, name)):
            setattr(h, name, obj)
        out[name] = obj
    return out
