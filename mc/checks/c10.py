"""C10: residuals of the full problem, and products with its Jacobian and with the transpose of it."""

import numpy as np

import gn
import support as S

NEEDS = {"py", "cython"}
SCOPE = ("1-3 series over up to 4 sensors, with and without references, 1-3 covariates per sensor (also unequal), 1-3 parameters; "
         "every assignment of error types (reference included) and weighting matrices; linear and curved adjustments; at the "
         "data, near them and with systematic effects; with and without preconditioner; every unit vector both ways; 12 series in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")
ASSUMPTIONS = ["the solver works in single precision: numbers agree to 5e-4 of the largest in their column"]


def setup(ctx):
    global MatchUp, Uncertainty, T, GNAlgo
    gn.SCALED = True
    S.inject()
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd as T
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.GN_algo import GNAlgo
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv import GN_algo
    global compiled
    compiled = GN_algo.unconvert_Xs


PAIRS1 = [["A", "B"]]
PAIRS2 = [[["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["A", "B"], ["C", "B"]], [["A", "B"], ["B", "A"]], [["B", "C"], ["A", "B"]]]


def finish(ch, spec, full):
    spec["npar"] = ch.pick([(2, 1, 3), (1, 2, 2), (3, 2, 1), (0, 1, 1)] if full else [(2, 1, 2), (0, 1, 2)], "parameters")
    spec["adj"] = ch.pick([0, 1, 2, 3], "adjustment")
    spec["at"] = ch.pick([1, 0, 2], "point")
    spec["pre"] = ch.flag("preconditioner")
    return spec


def one(ch):
    ref = ch.flag("reference")
    m = ch.pick([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2)], "m")
    if ref and m[0] > 1:
        m = (1, m[1])
    spec = gn.problem(ch, PAIRS1, dict(zip("AB", m)), [ch.pick([2, 1, 3], "M")], [1, 2, 3, 4])
    spec["refs"] = ["A"] if ref else []
    return finish(ch, spec, True)


def two(ch):
    pairs = ch.pick(PAIRS2, "pairs")
    refs = ch.pick([["A"], []], "reference")
    ms = ch.pick([{"A": 1, "B": 2, "C": 2}, {"A": 1, "B": 1, "C": 1}, {"A": 1, "B": 2, "C": 1}, {"A": 1, "B": 1, "C": 3}], "m")
    spec = gn.problem(ch, pairs, ms, ch.pick([(2, 3), (3, 1)], "Ms"), [1, 2, 3, 4])
    spec["refs"] = refs
    return finish(ch, spec, False)


def three(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"], ["A", "C"]], [["A", "B"], ["B", "C"], ["C", "D"]], [["A", "B"], ["A", "C"], ["B", "D"]]], "pairs")
    spec = gn.problem(ch, pairs, {"A": 1, "B": 2, "C": 2, "D": 1}, (2, 1, 2), [1, 2, 3, 4])
    spec["refs"] = ["A"]
    return finish(ch, spec, False)


def many(ch):
    return finish(ch, gn.many(ch, 12, (1, 2, 1)), False)


def spaces(tier):
    q = tier == "quick"
    return [("12 series", many, 1 if q else 2), ("1 series", one, 3 if q else 5), ("2 series", two, 3 if q else 4), ("3 series", three, 2 if q else 3)]


def close(got, want, tol=5e-4):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    return bool(np.all(np.abs(got - want) <= tol * max(1e-3, np.max(np.abs(want)) if want.size else 0)))


def run(spec, rec):
    model = gn.Model(gn.fill(spec["files"]), spec["refs"], spec["npar"], spec["adj"])
    mu = model.matchup(MatchUp, Uncertainty)
    ind = T().run(mu)
    N, Na, Nk = model.N, model.Na, model.idx["cNm"][-1]
    V = None
    if spec["pre"]:
        L = np.tril(0.25 + (np.arange(Na * Na).reshape(Na, Na) % 3) * 0.125) + np.eye(Na)
        V = L.dot(L.T)
    op = GNAlgo(ind, V)
    P = np.eye(N + Na)
    if V is not None:
        P[N:, N:] = np.linalg.cholesky(V)
    x0 = np.asarray(ind.values, float)
    z = np.concatenate([x0, model.a0])
    if spec["at"]:
        z = z + 0.25 * ((np.arange(len(z)) * (5 + spec["at"])) % 7 - 3) / 3.
        if spec["at"] == 2:
            z[N:] -= 1.
    z = z.astype(np.float32)
    op.xyza = z.astype(op.xyza.dtype)
    rec.state([spec["files"], spec["refs"], spec["npar"], spec["adj"], spec["at"], spec["pre"]])
    f0, J0 = model.residuals(z.astype(float), x0, model.k)
    f = op.calc_f(op.xyza, ind)
    rec.step()
    rec.check(np.shape(f) == f0.shape and close(f[:N], f0[:N]), "residuals-x", "residuals of the variables %r, not %r" % (f[:N], f0[:N]))
    rec.check(np.shape(f) == f0.shape and close(f[N:], f0[N:], 2e-3), "residuals-k", "residuals of the match-ups %r, not %r" % (f[N:], f0[N:]))
    JP = J0.dot(P)
    cols = []
    for i in range(N + Na):
        e = np.zeros(N + Na, np.float32)
        e[i] = 1
        cols.append(np.array(op.get_JPx(e), float))
        rec.step()
        rec.check(S.eq(e, np.eye(N + Na)[i]), "changed", "a product changes its vector")
    got = np.array(cols).T
    if not rec.check(got.shape == JP.shape, "shape", "products of shape %r" % (got.shape,)):
        return
    for i in range(N + Na):
        if not close(got[:, i], JP[:, i]):
            rec.fail("product", "the derivatives by variable %d of %d+%d are %r, not %r" % (i, N, Na, got[:, i], JP[:, i]))
            break
    rows = []
    for i in range(N + Nk):
        e = np.zeros(N + Nk, np.float32)
        e[i] = 1
        rows.append(np.array(op.get_JPTx(e), float))
        rec.step()
    gotT = np.array(rows)
    if not rec.check(gotT.shape == JP.shape, "shape", "transposed products of shape %r" % (gotT.shape,)):
        return
    for i in range(N + Nk):
        if not close(gotT[i], JP[i]):
            rec.fail("transposed", "the derivatives of residual %d of %d+%d are %r, not %r" % (i, N, Nk, gotT[i], JP[i]))
            break
    # linear, and the product with both
    v = (np.arange(N + Na) * 3 % 5 - 2.).astype(np.float32)
    rec.check(close(op.get_JPx(v), JP.dot(v), 2e-3), "linear", "a product is not the sum of its parts")
    rec.check(close(op.calc_Hx(v), JP.T.dot(JP).dot(v), 2e-3), "normal", "the product with the normal matrix")
    w = (np.arange(N + Nk) * 5 % 7 - 3.).astype(np.float32)
    rec.check(close(op.get_JPTx(w), JP.T.dot(w), 2e-3), "linear", "a transposed product is not the sum of its parts")
    # covariates of each sensor
    for b, (s, k, cov, side) in enumerate(model.blocks):
        X = op.unconvert_Xs(op.xyza, ind.unc, ind.idx, ind._original_idx, s, k)
        want = model.A[b].dot(z[:N].astype(float))
        rec.check(np.shape(X)[0] == len(want) and close(X[:, cov - 1], want), "covariates", "covariate %d of sensor %d in series %d: %r, not %r" % (cov, s, k, X, want))
        i32 = lambda v: np.asarray(v, dtype=np.int32)
        Y = compiled(z.astype(np.float32), i32(ind.idx["n_sensor"]), i32(ind.idx["idx"]), i32(ind._original_idx["idx"]), i32(ind.idx["n_cov"]),
                     i32(ind.idx["n_mu"]), i32(ind.idx["N_var"]), ind.unc, ind.w_matrices, [np.float32(u) for u in ind.u_matrices], s, k,
                     ind.idx["sensor_ms"][s])
        rec.check(np.shape(Y)[0] == len(want) and close(Y[:, cov - 1], want), "compiled", "compiled: covariate %d of sensor %d in series %d: %r, not %r" % (cov, s, k, Y, want))
        rec.step(2)
    rec.outcome(np.round(f0, 3).tolist())
