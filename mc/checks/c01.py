"""C01: opening match-up files loses, mixes and invents nothing (data, layout, order of the files)."""

import itertools
import os
import shutil
import time

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("1-3 files; every pairing of up to 4 sensors; 1-3 covariates per sensor; 1-3 match-ups per file; every way to name "
         "the files and every directory listing order; every presence pattern of the optional and "
         "additional variables, of both precisions, with and without a stated fill value; times around changes of the local time in 3 time zones; 12 files in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")
ASSUMPTIONS = ["times are whole seconds", "cells are told apart by distinct values, not by all float values"]
ORDER = [None]


def setup(ctx):
    real = os.listdir

    def listdir(path="."):
        names = sorted(real(path))
        if ORDER[0] is not None:
            perms = list(itertools.permutations(names))
            return list(perms[ORDER[0] % len(perms)])
        return names
    os.listdir = listdir   # the order of a directory listing is a choice of the environment
    global R
    from harmonisation.core.matchup.matchupIO import MatchUpReader as R


def topology(ch, n, maxm, fixm=None):
    names, ms, files = [], {}, []
    for k in range(n):
        pair = []
        for side in range(2):
            # an old sensor, or the next new one
            new = (S.NAMES + ["none"])[len(names)]
            opts = [x for x in names + [new] if x not in pair and len(names) + (x == new) <= 4]
            # simplest first: a new sensor for the first file, a chain afterwards
            s = ch.pick(opts if k else opts[::-1], "sensor")
            if s == new:
                names.append(s)
                ms[s] = fixm if fixm else ch.pick(range(1, maxm + 1), "m")
            pair.append(s)
        files.append({"s": pair, "m": [ms[pair[0]], ms[pair[1]]]})
    return files


def base(files, Ms):
    for f, M in zip(files, Ms):
        f["M"] = M
        f["t"] = [[1] * f["m"][0], [1] * f["m"][1]]
    return files


def small(ch):
    n = ch.pick([1, 2], "files")
    files = topology(ch, n, 3)
    return {"files": base(files, [ch.pick([1, 2, 3], "M") for _ in files]), "mode": "list"}


def three(ch):
    files = topology(ch, 3, 2)
    return {"files": base(files, ch.pick([(1, 2, 3), (3, 1, 2)], "Ms")), "mode": "list"}


def three_deep(ch):
    files = topology(ch, 3, 3)
    return {"files": base(files, [ch.pick([1, 2, 3], "M") for _ in files]), "mode": "list"}


def four(ch):
    files = topology(ch, 4, 2)
    return {"files": base(files, (1, 2, 3, 2)), "mode": "list"}


def many(ch):
    files = S.many(ch, types=[1])
    mode = ch.pick(["list", "dir"], "mode")
    return {"files": files, "mode": mode, "junk": False, "names": list(range(len(files))), "listing": None}


def paths(ch):
    n = ch.pick([1, 2, 3], "files")
    files = base([{"s": ["ABC"[k], "BCD"[k]], "m": [1, 2] if k % 2 else [2, 1]} for k in range(n)], [k + 1 for k in range(n)])
    mode = ch.pick(["list", "dir", "dirs"] + (["file"] if n == 1 else []), "mode")
    spec = {"files": files, "mode": mode}
    if mode == "list":
        spec["order"] = ch.pick(list(itertools.permutations(range(n))), "order")
    elif mode != "file":
        spec["junk"] = ch.flag("another file in the directory")
        spec["names"] = ch.pick(list(itertools.permutations(range(n))), "names")
        nf = n + spec["junk"] if mode == "dir" else 0
        if mode == "dirs":
            spec["split"] = ch.pick(range(1, n + 1), "split")   # files in the first of the two directories
            spec["dirorder"] = ch.pick([(0, 1), (1, 0)], "dirorder") if spec["split"] < n else (0,)
            nf = max(spec["split"] + spec["junk"], n - spec["split"])
        spec["listing"] = ch.idx(int(np.prod(range(1, nf + 1))), "listing order")
    return spec


def optional(ch):
    n = ch.pick([1, 2], "files")
    files = base([{"s": ["AB"[k], "BC"[k]], "m": [1, 1]} for k in range(n)], [2, 3][:n])
    for k, f in enumerate(files):
        mask = ch.idx(16, "optional variables")
        f["opt"] = {v: [40000 * (k + 1) + 3 * i + j for j in range(f["M"])] for i, v in enumerate(S.OPT) if mask >> i & 1}
    return {"files": files, "mode": "list"}


def additional(ch):
    n = ch.pick([1, 2], "files")
    files = base([{"s": ["AB"[k], "BC"[k]], "m": [1, 1]} for k in range(n)], [2, 3][:n])
    names = ["nominal_BT1", "nominal_BT2", "lunar_angle"]
    kind, stated = ch.pick(["f8", "f4"], "type of the additional variables"), ch.flag("fill value stated")
    for k, f in enumerate(files):
        mask = ch.idx(8, "additional variables")
        fillat = ch.pick([None, 0, 1], "fill value at") if mask else None
        f["add"] = {v: [-1e30 if (i + j) % 3 == 2 * bool(fillat) and fillat is not None else 100. * (k + 1) + 10 * i + j + (0 if kind == "f4" else 1 / 3.)
                        for j in range(f["M"])] for i, v in enumerate(names) if mask >> i & 1}
    for f in files:
        f["addtype"] = kind
        if stated:
            f["addfill"] = -1e30
    return {"files": files, "mode": "list", "open_add": not ch.flag("no additional"), "open_unc": not ch.flag("no unc")}


ZONES = ["UTC", "XXX-05:45", "EST5EDT,M3.2.0,M11.1.0"]
# the epoch, a summer's day, both sides of ends of summer time (of the third zone), before 1970
TIMES = [0., 962447400., 1099198800., 1099202400., 1099206000., -86400., 4102444800.]


def times(ch):
    files = base([{"s": ["AB"[k], "BC"[k]], "m": [1, 1]} for k in range(ch.pick([1, 2], "files"))], [2, 1])
    return {"files": files, "mode": "list", "zone": ch.pick(ZONES, "time zone"),
            "times": [[ch.pick(TIMES, "time") for _ in range(2)] for _ in files]}


def spaces(tier):
    sp = [("1-2 files, all pairings, m<=3, M<=3", small, None), ("3 files, all pairings, m<=2", three, None),
          ("12 files", many, None), ("ways to name the files", paths, None), ("optional indices", optional, None),
          ("additional variables", additional, None), ("times in time zones", times, 3 if tier == "quick" else None)]
    if tier == "thorough":
        sp += [("3 files, all pairings, m<=3, M<=3", three_deep, 6), ("4 files, all pairings, m<=2", four, 6)]
    return sp


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def run(spec, rec):
    d = os.path.join(rec.scratch, "c")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    for f, t in zip(files, spec.get("times", [])):
        for side in (1, 2):
            f["time%d" % side] = t[side - 1] + 3600. * np.arange(f["M"])
    n = len(files)
    mode, ORDER[0] = spec["mode"], None
    if mode in ("list", "file"):
        order = spec.get("order") or list(range(n))
        ps = [os.path.join(d, "f%d.nc" % k) for k in range(n)]
        for p, f in zip(ps, files):
            S.write_file(p, f)
        arg = [ps[k] for k in order] if mode == "list" else ps[0]
        want = [files[k] for k in order]
    else:
        dirs = [d] if mode == "dir" else [os.path.join(d, "y"), os.path.join(d, "x")]
        for p in dirs:
            os.makedirs(p, exist_ok=True)
        split = spec.get("split", n)
        placed = [[], []]
        for k in range(n):
            w = 0 if mode == "dir" or k < split else 1
            name = "f%d.nc" % spec["names"][k]
            S.write_file(os.path.join(dirs[w], name), files[k])
            placed[w].append((name, files[k]))
        if spec["junk"]:
            with open(os.path.join(dirs[0], "e_notes.txt"), "w") as f:
                f.write("not a match-up file")
        use = list(spec.get("dirorder", [0]))
        want = [f for w in use for _, f in sorted(placed[w], key=lambda x: x[0])]
        arg = d if mode == "dir" else [dirs[w] for w in use]
        ORDER[0] = spec["listing"]
    ou, oa = spec.get("open_unc", True), spec.get("open_add", True)
    try:
        zone(spec.get("zone", "UTC"))
        mu = R.open_matchup(arg, open_uncertainty=ou, open_additional_values=oa)
    finally:
        zone("UTC")
        ORDER[0] = None
    rec.step(len(files))
    exp, blocks = S.layout(want)
    rec.state((mode, exp, [sorted(f.get("opt", {})) for f in want], [sorted(f.get("add", {})) for f in want], ou, oa,
               spec.get("listing"), spec.get("dirorder")))
    for key, val in exp.items():
        got = mu.idx.get(key)
        rec.check([list(x) if isinstance(x, (list, tuple)) else x for x in list(got if got is not None else [])] == val,
                  "idx", "index %s is %r, not %r" % (key, got, val))
    rec.check(mu.values.shape == (exp["idx"][-1],), "values", "%r values, not %d" % (mu.values.shape, exp["idx"][-1]))
    for b, (s, k, cov, side) in enumerate(blocks):
        got = mu.values[exp["idx"][b]:exp["idx"][b + 1]]
        w = want[k - 1]["X%d" % (side + 1)][:, cov - 1].astype(np.float32)
        rec.check(S.eq(got, w), "values", "block %d (sensor %d, file %d, covariate %d): %r, not %r" % (b, s, k, cov, got, w))
        rec.step()
    K = np.concatenate([f["K"] for f in want])
    rec.check(S.near(mu.ks, K, 1e-12), "ks", "ks %r, not %r" % (mu.ks, K))
    for v, t in (("time1", mu.time1), ("time2", mu.time2)):
        w = np.concatenate([f[v] for f in want])
        got = [(x - __import__("datetime").datetime(1970, 1, 1)).total_seconds() for x in t]
        rec.check(S.eq(got, w), v, "%s %r, not %r" % (v, got, w))
    for v in S.OPT:
        got = getattr(mu, v)
        if any(v in f.get("opt", {}) for f in want):
            w = np.concatenate([np.array(f.get("opt", {}).get(v, [np.nan] * f["M"]), float) for f in want])
            rec.check(got is not None and S.eq(got, w), v, "%s %r, not %r" % (v, got, w))
        else:
            rec.check(got is None, v, "%s %r though no file has it" % (v, got))
    if ou:
        rec.check(len(mu.unck) == len(want), "unck", "unck has %d entries" % len(mu.unck))
        for k, f in enumerate(want):
            rec.check(mu.unck[k].typeID == 1 and S.near(mu.unck[k].uR, np.hypot(f["Kr"], f["Ks"]), 1e-12), "unck",
                      "uncertainty of K in file %d" % k)
    else:
        rec.check(mu.unc is None and mu.unck is None and mu.w_matrices is None and mu.u_matrices is None, "unc",
                  "uncertainties opened though not asked for")
    if oa:
        names = sorted({v for f in want for v in f.get("add", {})})
        got = list(mu.idx["additional_values_name"])
        rec.check(sorted(got) == names, "additional", "additional variables %r, not %r" % (got, names))
        rec.check(np.shape(mu.additional_values) == (exp["cNm"][-1], len(names)), "additional", "shape of additional data")
        for v in names:
            w = np.concatenate([np.array(f.get("add", {}).get(v, [np.nan] * f["M"]), float) for f in want])
            w[w == -1e30] = np.nan
            rec.check(S.eq(mu.additional_values[:, got.index(v)], w), "additional", "%s: %r, not %r"
                      % (v, mu.additional_values[:, got.index(v)], w))
    else:
        rec.check(mu.additional_values is None, "additional", "additional data opened though not asked for")
    rec.outcome((mu.idx["n_sensor"], mu.idx["n_mu"], mu.values.tolist()))
