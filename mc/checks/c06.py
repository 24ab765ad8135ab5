"""C06: the sample with independent errors. The draws of random match-ups are choices of the environment, all explored."""

import copy
import itertools
import math
import random

import numpy as np

import core
import support as S

NEEDS = {"py", "cython"}
SCOPE = ("1-2 series, 1-2 covariates, 1-5 (thorough 6) match-ups; every assignment of error types; five shapes of weighting "
         "matrices (one with columns skipped) plus every pattern of runs of up to three columns; sampling factors and maxima; every possible outcome of every random draw; 12 series in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")
ASSUMPTIONS = ["a random draw gives a subset in ascending or descending order"]
ENV = [None]
REAL = random.sample


def draw(pop, k, *a, **kw):
    if ENV[0] is None:
        return REAL(pop, k, *a, **kw)
    if not isinstance(pop, (list, tuple, range)):
        raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
    n = len(pop)
    if not 0 <= k <= n:
        raise ValueError("Sample larger than population or is negative")
    combo = next(itertools.islice(itertools.combinations(range(n), k), ENV[0].idx(math.comb(n, k), "draw"), None))
    out = [pop[i] for i in combo]
    return out[::-1] if k > 1 and ENV[0].flag("descending") else out


def choice(a, size=None, replace=True, p=None):
    """numpy's way to draw; with one size."""
    if ENV[0] is None or p is not None or not isinstance(size, (int, np.integer)):
        return NPREAL(a, size, replace, p)
    if replace:
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[[ENV[0].idx(len(a), "one of") for _ in range(size)]]
    return np.array(draw(range(a) if np.ndim(a) == 0 else list(a), size), int)


def arrangement(n):
    """A permutation: all of them for few items, otherwise rotations, either way round."""
    if n <= 4:
        return next(itertools.islice(itertools.permutations(range(n)), ENV[0].idx(math.factorial(n), "order"), None))
    r = ENV[0].idx(n, "rotation")
    out = list(range(r, n)) + list(range(r))
    return out[::-1] if ENV[0].flag("backwards") else out


def shuffle(x, *a):
    if ENV[0] is None:
        return SHUFFLE(x)
    x[:] = [x[i] for i in arrangement(len(x))]


def permutation(x):
    if ENV[0] is None:
        return PERMUTATION(x)
    x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
    return x[list(arrangement(len(x)))]


NPREAL, SHUFFLE, PERMUTATION = np.random.choice, random.shuffle, np.random.permutation


def setup(ctx):
    random.sample = draw
    random.shuffle = np.random.shuffle = shuffle
    np.random.choice, np.random.permutation = choice, permutation
    global MatchUp, Uncertainty, Sample2Ind
    Sample2Ind = S.inject()["Sample2Ind"]
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty


KINDS = ["diag", "shared", "ave3", "gap", "back"]


def build(ch, pairs, ms, Ms, types=(1, 2, 3, 4)):
    files = []
    for p, M in zip(pairs, Ms):
        f = {"s": p, "m": [ms[p[0]], ms[p[1]]], "M": M, "t": [[], []], "w": [[], []], "u": [[], []], "kinds": []}
        for side in (0, 1):
            for _ in range(f["m"][side]):
                t = ch.pick(types, "type")
                f["t"][side].append(t)
                no = 0
                if t > 2:
                    kind = ch.pick(KINDS + (["the first"] if f["kinds"] else []), "W")
                    if kind == "the first":
                        no = 1
                    else:
                        f["kinds"].append(kind)
                        no = len(f["kinds"])
                f["w"][side].append(no)
                f["u"][side].append(no)
        files.append(f)
    return {"files": files}


def limits(ch, spec, full=True):
    spec["sf"] = ch.pick([1.0, 0.5, 0.34] if full else [1.0, 0.5], "factor")
    n = sum(f["M"] for f in spec["files"])
    spec["max"] = ch.pick([100000, n, 2] if full else [100000, 2], "maximum")
    spec["opt"] = ch.pick(["all", "none", "times", "1"], "optional") if full else "all"
    return spec


def one(maxM, types):
    def g(ch):
        m = ch.pick([(1, 1), (1, 2), (2, 1)], "m")
        return limits(ch, build(ch, [["A", "B"]], dict(zip("AB", m)), [ch.pick(range(1, maxM + 1), "M")], types))
    return g


def two(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["B", "A"], ["C", "B"]]], "pairs")
    return limits(ch, build(ch, pairs, {"A": 1, "B": 1, "C": 1}, ch.pick([(2, 4), (4, 1), (3, 3)], "Ms"), (1, 3, 4)), False)


def two2(ch):
    return limits(ch, build(ch, [["A", "B"], ["B", "C"]], {"A": 1, "B": 2, "C": 2}, (3, 4)))


def many(ch):
    files = S.many(ch, Ms=(1, 1, 3, 1, 1), types=ch.pick([(1, 3, 4), (1, 3), (4,)], "types in use"))
    for k, f in enumerate(files):
        f["kinds"] = [KINDS[(k + i) % 5] for i in range(f["n"])]
    return {"files": files, "sf": 1.0, "max": 100000, "opt": "all"}


def runs(maxM):
    """Every pattern of runs of columns: each row starts 0-2 columns after the previous one and is 1-3 columns long."""
    def g(ch):
        M = ch.pick(range(2, maxM + 1), "M")
        rows, start = [], 0
        for i in range(M):
            start += ch.pick([0, 1, 2], "start") if i else 0
            rows.append([start, ch.pick([1, 2, 3], "length")])
        f = {"s": ["A", "B"], "m": [1, 1], "M": M, "t": [[1], [3]], "w": [[0], [1]], "u": [[0], [1]], "kinds": [rows]}
        if ch.flag("another structured covariate"):
            f.update(t=[[4], [3]], w=[[2], [1]], u=[[2], [1]], kinds=[rows, "shared"])
        return {"files": [f], "sf": 1.0, "max": ch.pick([100000, 2], "maximum"), "opt": "all"}
    return g


def spaces(tier):
    q = tier == "quick"
    return [("12 series", many, None), ("1 series", one(4, (1, 3, 4, 2)), 4 if q else None), ("2 series, m=1", two, 5 if q else None),
            ("2 series, m up to 2", two2, 3 if q else 5), ("runs of columns", runs(4 if q else 5), None)]


def mats(f, k):
    f["W"], f["U"] = [], []
    for i, kind in enumerate(f["kinds"]):
        if isinstance(kind, list):
            W = np.zeros((f["M"], max(a + n for a, n in kind)))
            for r, (a, n) in enumerate(kind):
                W[r, a:a + n] = 1. / n
        else:
            W = S.w_dense(kind, f["M"])
        f["W"].append(W)
        f["U"].append((np.arange(W.shape[1]) * 3 % 7 + 3.0) / 4 + i + 5 * k)


PIX = S.OPT + ["time1", "time2"]


def run(spec, rec):
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    for k, f in enumerate(files):
        mats(f, k)
    mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, files, dtype=np.float32)
    total = idx["cNm"][-1]
    for i, v in enumerate(PIX):
        on = {"all": True, "none": False, "times": v[:4] == "time", "1": v[-1] == "1"}[spec["opt"]]
        setattr(mu, v, np.arange(total) + 100. * i if on else None)
    mu.a = np.float32([1, 2])
    mu.sensor_model, mu.sensor_model_constant, mu.adjustment_model = ["m"], [3.], ["j"]
    mu.idx["parameter_sensor"] = ["A", "B"]
    mu._original_idx = copy.deepcopy(mu.idx)
    before = (mu.values.copy(), mu.ks.copy(), copy.deepcopy(mu.idx), [copy.deepcopy(getattr(u, "uR", None)) for u in mu.unc])
    op = Sample2Ind()
    rec.state([(f["s"], f["m"], f["M"], f["t"], f["w"], f["kinds"]) for f in files] + [spec["sf"], spec["max"]])

    def env(ch):
        ENV[0] = ch
        try:
            out = op.run(mu, sf=spec["sf"], n_sample_max=spec["max"])
        finally:
            ENV[0] = None
        rec.step()
        examine(spec, files, mu, idx, blocks, out, rec)
        return True

    n = 0
    for _ in core.enumerate_space(env):
        n += 1
    rec.count("environment_choices_explored", n)
    rec.check(S.eq(mu.values, before[0]) and S.eq(mu.ks, before[1]) and S.same(mu.idx, before[2]) and
              all(b is None or S.eq(u.uR, b) for u, b in zip(mu.unc, before[3])),
              "changed", "the source changed")


def examine(spec, files, mu, idx, blocks, out, rec):
    # which match-ups were taken, told by the adjustment factors, which are distinct
    o = out.idx
    nser = len(files)
    ok = rec.check(len(o["Nm"]) == nser and list(o["cNm"]) == [0] + list(np.cumsum(o["Nm"])) and len(out.ks) == o["cNm"][-1], "counts", "index %r" % o)
    if not ok:
        return
    total = idx["cNm"][-1]
    sf = spec["sf"]
    if total * sf > spec["max"]:
        sf = float(spec["max"]) / total
    rows = []
    for k, f in enumerate(files):
        ks = out.ks[o["cNm"][k]:o["cNm"][k + 1]]
        r = [int(np.argmin(np.abs(f["K"] - v))) for v in ks]
        rec.check(S.eq(ks, f["K"][r]), "ks", "series %d: factors %r are not of this series" % (k, ks))
        rec.check(len(set(r)) == len(r), "twice", "series %d: match-ups %r" % (k, r))
        rows.append(r)
        cap = int(f["M"] * sf)
        structured = [f["w"][side][c] for side in (0, 1) for c in range(f["m"][side]) if f["t"][side][c] > 2]
        if not structured:
            rec.check(len(r) == cap, "number", "series %d: %d match-ups, not %d" % (k, len(r), cap))
            continue
        rec.check(len(r) <= cap, "number", "series %d: %d match-ups, more than %d" % (k, len(r), cap))
        for w in structured:
            used = f["W"][w - 1][r] != 0
            rec.check(not len(r) or used.sum(0).max() <= 1, "dependent", "series %d: match-ups %r share a column of matrix %d" % (k, r, w))
        if len(r) < cap:
            for i in set(range(f["M"])) - set(r):
                free = all(not np.any((f["W"][w - 1][r] != 0) & (f["W"][w - 1][i] != 0)) for w in structured)
                rec.check(not free, "not-maximal", "series %d: match-up %d is independent of the %r taken" % (k, i, r))
        rec.step()
    rec.check([o[x] for x in ("n_sensor", "n_mu", "n_cov", "Im", "sensors")] == [idx[x] for x in ("n_sensor", "n_mu", "n_cov", "Im", "sensors")],
              "idx", "index of the sample %r" % o)
    N = [len(rows[k - 1]) for (s, k, cov, side) in blocks]
    rec.check(list(o["N_var"]) == N and list(o["idx"]) == [0] + list(np.cumsum(N)), "idx", "index of the sample %r" % o)
    if len(out.values) != sum(N):
        return rec.fail("idx", "%d values, not %d" % (len(out.values), sum(N)))
    i0 = 0
    for b, (s, k, cov, side) in enumerate(blocks):
        f, r = files[k - 1], rows[k - 1]
        t, w = f["t"][side][cov - 1], f["w"][side][cov - 1]
        got = out.values[i0:i0 + len(r)]
        rec.check(S.eq(got, np.float32(f["X%d" % (side + 1)][r, cov - 1])), "values", "series %d sensor %d covariate %d: %r" % (k, s, cov, got))
        u = out.unc[b]
        if w:
            W, U = f["W"][w - 1], f["U"][w - 1]
            want = [np.sqrt(np.mean(U[W[i] != 0] ** 2)) for i in r]
        else:
            want = f["Ur%d" % (side + 1)][r, cov - 1]
        rec.check(u.typeID == 1 and S.near(u.uR, np.asarray(want), 1e-6), "unc-%d" % t, "series %d sensor %d covariate %d: uncertainty %r, not %r" % (k, s, cov, u.uR, want))
        i0 += len(r)
        rec.step()
    for k, f in enumerate(files):
        rec.check(out.unck[k].typeID == 1 and S.near(out.unck[k].uR, np.hypot(f["Kr"], f["Ks"])[rows[k]]), "unck", "series %d" % k)
    whole = np.concatenate([np.array(r, int) + idx["cNm"][k] for k, r in enumerate(rows)])
    for v in PIX:
        src, got = getattr(mu, v), getattr(out, v)
        if src is None:
            rec.check(got is None, "pixels", "%s appeared" % v)
        else:
            rec.check(got is not None and S.eq(np.asarray(got, float), src[whole]), "pixels", "%s: %r" % (v, got))
    rec.check(S.eq(out.a, [1, 2]) and out.sensor_model == ["m"] and list(out.sensor_model_constant) == [3.] and out.adjustment_model == ["j"],
              "attached", "sensor functions or parameters")
    rec.outcome(rows)


def vacuous(total):
    if not total.counts.get("environment_choices_explored", 0) > total.validated:
        return "no random draw was explored"
