"""C05: the transformation to independent, normalised variables and back."""

import copy

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("1-2 series over 2-3 sensors, 1-2 covariates, 1-3 (thorough 4) match-ups; every assignment of error types to the columns; "
         "five shapes of weighting matrices (one with weights that do not sum to one), shared by columns or not; forward, back, and back from arbitrary normalised values; by new operators and ones used before; 12 series in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")


def setup(ctx):
    global MatchUp, Uncertainty, T
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd as T


KINDS = ["diag", "shared", "ave3", "gap", "back"]


def build(ch, pairs, ms, Ms):
    files = []
    for p, M in zip(pairs, Ms):
        f = {"s": p, "m": [ms[p[0]], ms[p[1]]], "M": M, "t": [[], []], "w": [[], []], "u": [[], []]}
        n = 0
        share = None
        for side in (0, 1):
            for _ in range(f["m"][side]):
                t = ch.pick([1, 2, 3, 4], "type")
                f["t"][side].append(t)
                if t > 2:
                    if share is None:
                        share = ch.flag("columns share matrices")
                    n = 1 if share else n + 1
                f["w"][side].append(n if t > 2 else 0)
                f["u"][side].append(n if t > 2 else 0)
        f["nW"] = n
        f["kind"] = ch.pick(KINDS, "W shape") if n else None
        files.append(f)
    return {"files": files}


def one(maxM):
    def g(ch):
        m = ch.pick([(1, 1), (1, 2), (2, 1), (2, 2)], "m")
        return build(ch, [["A", "B"]], dict(zip("AB", m)), [ch.pick(range(1, maxM + 1), "M")])
    return g


def two(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["A", "B"], ["B", "A"]], [["A", "B"], ["A", "B"]]], "pairs")
    return build(ch, pairs, {"A": 1, "B": 1, "C": 1}, ch.pick([(2, 3), (3, 1)], "Ms"))


def two2(ch):
    return build(ch, [["A", "B"], ["B", "C"]], {"A": 1, "B": 2, "C": 2}, (2, 3))


def many(ch):
    files = S.many(ch, Ms=(2, 3, 1))
    for k, f in enumerate(files):
        f["nW"], f["kind"] = f["n"], KINDS[k % 5] if f["n"] else None
    return {"files": files}


def spaces(tier):
    q = tier == "quick"
    return [("12 series", many, None), ("1 series", one(3 if q else 4), None), ("2 series, m=1", two, None),
            ("2 series, m up to 2", two2, 3 if q else 5)]


def mats(f, k):
    f["W"], f["U"] = [], []
    for i in range(f["nW"]):
        W = S.w_dense(KINDS[(KINDS.index(f["kind"]) + i) % 5], f["M"])
        f["W"].append(W)
        f["U"].append((np.arange(W.shape[1]) + 3.0) / 4 + i + 5 * k)


def small():
    """A dataset with a systematic effect in its first series and a weighting matrix in the second."""
    files = [S.fill({"s": p, "m": [1, 1], "M": M, "t": t, "w": w, "u": w, "nW": n, "kind": "diag" if n else None}, k) for k, (p, M, t, w, n) in
             enumerate([(["A", "B"], 2, [[2], [1]], [[0], [0]], 0), (["B", "C"], 3, [[4], [3]], [[1], [1]], 1)])]
    for k, f in enumerate(files):
        mats(f, k)
    mu = S.mem_matchup(MatchUp, Uncertainty, files, dtype=np.float32)[0]
    mu.a, mu.sensor_model, mu.sensor_model_constant, mu.adjustment_model = np.float32([5]), ["z"], [0.], ["z"]
    mu.idx["parameter_sensor"] = ["C"]
    mu._original_idx = copy.deepcopy(mu.idx)
    return mu


def run(spec, rec):
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    for k, f in enumerate(files):
        mats(f, k)
        for v in ("X1", "X2", "K"):
            f[v] = (f[v] - 1000. * (k + 1)) / 8 + k
    mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, files, dtype=np.float32)
    total = idx["cNm"][-1]
    for i, v in enumerate(S.OPT + ["time1", "time2"]):
        setattr(mu, v, np.arange(total) + 10. * i)
    mu.a = np.float32([1, 2])
    mu.sensor_model, mu.sensor_model_constant, mu.adjustment_model = ["m"], [3.], ["j"]
    mu.idx["parameter_sensor"] = ["A", "B"]
    mu._original_idx = copy.deepcopy(mu.idx)
    before = mu.values.copy(), mu.ks.copy(), copy.deepcopy(mu.idx)
    rec.state([(f["s"], f["m"], f["M"], f["t"], f["w"], f["kind"]) for f in files])
    tol = dict(rtol=2e-5, atol=2e-4)

    op = T()
    if (sum(idx["Nm"]) + len(blocks)) % 2:       # an operator used before, on another dataset, does as a new one
        other = small()
        op.reverse(op.run(other))
    ind = op.run(mu)
    rec.step()
    # the layout of the independent variables
    N = []
    for b, (s, k, cov, side) in enumerate(blocks):
        f = files[k - 1]
        w = f["u"][side][cov - 1]
        N.append(len(f["U"][w - 1]) if w else f["M"])
    n_sys = len({(s, cov) for (s, k, cov, side) in blocks if files[k - 1]["t"][side][cov - 1] in (2, 4)})
    off = [0]
    for n in N:
        off.append(off[-1] + n)
    want = off[:-1] + [off[-1] + n_sys]
    rec.check(list(ind.idx["N_var"]) == N and list(ind.idx["idx"]) == want, "layout", "layout %r %r, not %r %r"
              % (ind.idx["N_var"], ind.idx["idx"], N, want))
    rec.check(len(ind.values) == want[-1], "layout", "%d values, not %d" % (len(ind.values), want[-1]))
    rec.check(S.eq(ind.values[off[-1]:], np.zeros(n_sys)), "systematic", "systematic effects start as %r" % ind.values[off[-1]:])
    for k, f in enumerate(files):
        u = np.hypot(f["Kr"], f["Ks"])
        rec.check(S.near(ind.ks[idx["cNm"][k]:idx["cNm"][k + 1]] * u, f["K"], **tol), "ks", "normalised factors of series %d" % k)
    for b, (s, k, cov, side) in enumerate(blocks):
        f = files[k - 1]
        x = np.asarray(ind.values[off[b]:off[b + 1]], float)
        X = f["X%d" % (side + 1)][:, cov - 1]
        w = f["w"][side][cov - 1]
        got = f["W"][w - 1].dot(f["U"][w - 1] * x) if w else x * f["Ur%d" % (side + 1)][:, cov - 1]
        rec.step()
        rec.check(S.near(got, X, **tol), "forward-%d" % f["t"][side][cov - 1],
                  "series %d, sensor %d, covariate %d: the variables stand for %r, not %r" % (k, s, cov, got, X))

    def passed(x, what):
        ok = all(S.eq(getattr(x, v), np.arange(total) + 10. * i) for i, v in enumerate(S.OPT + ["time1", "time2"])
                 if getattr(x, v) is not None)
        rec.check(ok and all(getattr(x, v) is not None for v in S.OPT + ["time1", "time2"]), "pixels", what + ": times or indices")
        rec.check(S.eq(x.a, [1, 2]) and x.sensor_model == ["m"] and list(x.sensor_model_constant) == [3.] and
                  x.adjustment_model == ["j"], "attached", what + ": sensor functions or parameters")
        rec.check(list(x.idx["parameter_sensor"]) == ["A", "B"], "attached", what + ": parameter labels")
    passed(ind, "forward")

    back = op.reverse(ind)
    rec.step()
    passed(back, "back")
    rec.check(S.near(back.values, before[0], **tol), "round-trip", "back: %r, not %r" % (back.values, before[0]))
    rec.check(S.near(back.ks, before[1], **tol), "round-trip-ks", "back: ks %r, not %r" % (back.ks, before[1]))
    rec.check(S.same(dict(back.idx), before[2]), "round-trip-idx", "back: index %r" % back.idx)
    rec.check(S.eq(mu.values, before[0]) and S.eq(mu.ks, before[1]) and S.same(dict(mu.idx), before[2]), "changed", "the input changed")

    # back from any values: the systematic effects act on all series of their sensor and covariate
    z = (np.arange(want[-1]) * 7 % 11 - 4.5).astype(np.float32)
    zk = (np.arange(total) * 5 % 7 - 2.5)
    ind.values = z.copy()
    ind.ks = zk.copy()
    back = op.reverse(ind)
    rec.step()
    ids = []
    for b, (s, k, cov, side) in enumerate(blocks):
        if files[k - 1]["t"][side][cov - 1] in (2, 4) and (s, cov) not in ids:
            ids.append((s, cov))
    out = []
    for b, (s, k, cov, side) in enumerate(blocks):
        f = files[k - 1]
        t, w = f["t"][side][cov - 1], f["w"][side][cov - 1]
        x = z[off[b]:off[b + 1]].astype(float)
        sysv = z[off[-1] + ids.index((s, cov))] if t in (2, 4) else 0.
        us = f["Us%d" % (side + 1)][:, cov - 1]
        if w:
            X = f["W"][w - 1].dot(f["U"][w - 1] * x + sysv * us[0])
        else:
            X = x * f["Ur%d" % (side + 1)][:, cov - 1] + sysv * us
        got = back.values[idx["idx"][b]:idx["idx"][b + 1]]
        rec.step()
        rec.check(S.near(got, X, **tol), "back-%d" % t, "series %d, sensor %d, covariate %d: %r, not %r" % (k, s, cov, got, X))
        out.append(np.round(got, 2).tolist())
    for k, f in enumerate(files):
        u = np.hypot(f["Kr"], f["Ks"])
        i0, i1 = idx["cNm"][k], idx["cNm"][k + 1]
        rec.check(S.near(back.ks[i0:i1], zk[i0:i1] * u, **tol), "back-ks", "factors of series %d" % k)
    rec.check(S.eq(ind.values, z) and S.eq(ind.ks, zk), "changed", "going back changed its input")
    rec.outcome(out)
