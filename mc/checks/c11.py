"""C11: the harmonised parameters, cost and residuals of the full solver are those of the least-squares solution."""

import contextlib
import io

import numpy as np
from scipy.stats import chi2

import gn
import support as S

NEEDS = {"py", "cython"}
SCOPE = ("1-3 series over up to 4 sensors, one of them a reference, 1-3 covariates per sensor, 1-3 parameters; every assignment of error "
         "types and weighting matrices; linear and curved adjustments; near and distant first estimates; with and without preconditioner; values a few times and a thousand times their uncertainties; 12 series in four patterns")
ASSUMPTIONS = ["the solver works in single precision; parameters agree to 2% of their standard uncertainty",
               "problems have more match-ups than parameters and determine all parameters"]
TIMEOUT = 120


def setup(ctx):
    global MatchUp, Uncertainty, T, GNAlgo
    S.inject()
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd as T
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.GN_algo import GNAlgo


PAIRS = [[["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["A", "B"], ["C", "B"]], [["B", "C"], ["A", "B"]], [["A", "B"], ["A", "B"]]]


def finish(ch, spec, npars):
    spec.setdefault("refs", ["A"])
    spec["npar"] = ch.pick(npars, "parameters")
    spec["adj"] = ch.pick([0, 1, 2, 3], "adjustment")
    spec["a0"] = ch.pick([0., 0.25, -1.5], "first estimate")
    spec["pre"] = ch.flag("preconditioner")
    spec["noise"] = ch.pick([0.2, 1.], "departures")
    spec["scale"] = ch.pick([0.25, 0.002], "uncertainties")
    return spec


def one(ch):
    m = ch.pick([(1, 2), (1, 1), (1, 3)], "m")
    spec = gn.problem(ch, [["A", "B"]], dict(zip("AB", m)), [ch.pick([6, 4], "M")], [1, 2, 3, 4])
    return finish(ch, spec, [(0, 2), (0, 1), (0, 3)])


def two(ch):
    pairs = ch.pick(PAIRS, "pairs")
    ms = ch.pick([{"A": 1, "B": 2, "C": 2}, {"A": 1, "B": 1, "C": 1}, {"A": 1, "B": 2, "C": 1}, {"A": 1, "B": 1, "C": 3}], "m")
    spec = gn.problem(ch, pairs, ms, ch.pick([(5, 6), (6, 4)], "Ms"), [1, 2, 3, 4])
    return finish(ch, spec, [(0, 2, 2), (0, 1, 2), (0, 2, 1)])


def three(ch):
    pairs = ch.pick([[["A", "B"], ["B", "C"], ["A", "C"]], [["A", "B"], ["B", "C"], ["C", "D"]], [["A", "B"], ["A", "C"], ["B", "D"]]], "pairs")
    spec = gn.problem(ch, pairs, {"A": 1, "B": 1, "C": 2, "D": 1}, (5, 4, 5), [1, 2, 3, 4])
    return finish(ch, spec, [(0, 2, 2, 2), (0, 1, 2, 1)])


def many(ch):
    return finish(ch, gn.many(ch, 12, (5, 4, 6), 2), [(0,) + (2, 1) * 6])


def spaces(tier):
    q = tier == "quick"
    return [("12 series", many, 1 if q else 2), ("1 series", one, 3 if q else 5), ("2 series", two, 2 if q else 4), ("3 series", three, 2 if q else 3)]


def make(spec):
    model = gn.Model(gn.fill(spec["files"], spec.get("scale", 0.25)), spec["refs"], spec["npar"], spec["adj"])
    # adjustment factors that belong to some parameters, with small departures
    x0 = np.concatenate([np.concatenate([np.asarray(v, float) for v in x0_of(model)]), np.zeros(len(model.sys))])
    true = model.a0 + 0.25 * np.cos(np.arange(model.Na))
    K, _ = model.evaluate(np.concatenate([x0, true]))
    n = np.arange(len(K))
    i = 0
    for f in model.files:
        M = f["M"]
        f["K"] = K[i:i + M] + spec.get("noise", 0.2) * ((n[i:i + M] * 7 % 5) - 2)
        i += M
    model.k = np.concatenate([f["K"] for f in model.files])
    model.a0 = model.a0 + spec["a0"]
    return model


def x0_of(model):
    """The data as independent variables (any that stand for the data; for weighting matrices the least-norm ones)."""
    for b, (s, k, cov, side) in enumerate(model.blocks):
        X = model.files[k - 1]["X%d" % (side + 1)][:, cov - 1]
        A = model.A[b][:, model.off[b]:model.off[b + 1]]
        yield np.linalg.lstsq(A, X, rcond=None)[0]


def whole_steps(model, x0, want):
    """Whether Gauss-Newton without damping (in double precision) settles at the solution."""
    z = np.concatenate([x0, model.a0])
    for _ in range(12):
        f, J = model.residuals(z, x0, model.k)
        d = np.linalg.lstsq(J, -f, rcond=None)[0]
        z = z + d
        if not np.all(np.isfinite(z)) or np.max(np.abs(z)) > 1e4:
            return False
        if np.max(np.abs(d)) < 1e-8:
            return bool(np.max(np.abs(z - want)) < 1e-5)
    return False


def run(spec, rec):
    model = make(spec)
    mu = model.matchup(MatchUp, Uncertainty)
    ind = T().run(mu)
    x0 = np.asarray(ind.values, float).copy()
    N, Na, Nk = model.N, model.Na, model.idx["cNm"][-1]
    z, f, J = model.solve(x0, model.k, model.a0)
    cond = np.linalg.cond(J / np.linalg.norm(J, axis=0))
    if cond > 300:
        rec.count("problems_left_out_as_nearly_singular")
        return
    V = np.linalg.inv(J.T.dot(J))[N:, N:]
    sig = np.sqrt(np.diag(V))
    if spec["noise"] > 0.2 and not whole_steps(model, x0, z):
        rec.count("problems_left_out_as_the_method_does_not_settle")
        return
    rec.state([spec["files"], spec["npar"], spec["adj"], spec["a0"], spec["pre"], spec["noise"], spec["scale"]])
    op = GNAlgo(ind, np.linalg.inv(J.T.dot(J))[N:, N:] * 1.5 if spec["pre"] else None)
    with contextlib.redirect_stdout(io.StringIO()):
        a, cov, cost, dof, p, vres, kres, syst, systs = op.run(return_covariance=False)
    rec.step()
    err = np.max(np.abs(a - z[N:]) / sig)
    rec.check(err < 0.02, "parameters", "parameters %r, not %r (u %r)" % (a, z[N:], sig))
    best = f.dot(f)
    rec.check(abs(cost - best) <= 2e-3 * (1 + best), "cost", "cost %r, not %r" % (cost, best))
    rec.check(dof == Nk - Na, "dof", "degrees of freedom %r, not %d" % (dof, Nk - Na))
    want = chi2.sf(cost, Nk - Na) if Nk > Na else 0
    rec.check(abs(p - want) < 1e-6, "p-value", "probability %r of cost %r with %d degrees of freedom, not %r" % (p, cost, Nk - Na, want))
    # residuals in the units of the data
    want = np.concatenate([A.dot(z[:N] - x0) for A in model.A])
    scale = 0.02 * np.sqrt(np.concatenate([np.einsum("ij,ij->i", A, A) for A in model.A]))
    rec.check(np.shape(vres) == want.shape and np.all(np.abs(vres - want) < scale), "residuals", "residuals of the data %r, not %r" % (vres, want))
    wk = f[N:] * model.uk
    rec.check(np.shape(kres) == wk.shape and np.all(np.abs(kres - wk) < 0.02 * model.uk), "residuals-k",
              "residuals of the factors %r, not %r" % (kres, wk))
    if model.sys:
        rec.check(syst is not None and len(syst) == len(model.sys) and np.max(np.abs(syst - z[model.off[-1]:N])) < 0.02, "systematic",
                  "systematic effects %r, not %r" % (syst, z[model.off[-1]:N]))
        rec.check(list(systs) == [model.sensors[s] for s, _ in model.sys], "systematic-sensors", "sensors of the effects %r" % (systs,))
    else:
        rec.check(syst is None and systs is None, "systematic", "systematic effects %r" % (syst,))
    rec.outcome(np.round(a, 3).tolist())


def vacuous(total):
    if total.counts.get("problems_left_out_as_nearly_singular", 0) * 5 > total.validated:
        return "many problems are nearly singular"
