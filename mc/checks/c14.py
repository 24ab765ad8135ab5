"""C14: the approximate solution that preconditions the full one."""

import contextlib
import io

import numpy as np

import gn
import support as S
from checks import c11

NEEDS = {"py", "cython"}
SCOPE = ("1-3 series over up to 4 sensors, one of them a reference or none that matters, 1-3 covariates per sensor, 1-3 parameters; all "
         "errors random; linear and curved adjustments; near and distant first estimates; the sampled and transformed dataset and the "
         "wrapper that returns a harmonisation result")
ASSUMPTIONS = ["datasets are those the sampling gives: all errors random", "parameters agree to 2% of their standard uncertainty"]


def setup(ctx):
    global MatchUp, Uncertainty, T, PCAlgo, HarmonisationEIVPC
    HarmonisationEIVPC = S.inject()["HarmonisationEIVPC"]
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.pc_algo import PCAlgo
    c11.setup(ctx)
    MatchUp, Uncertainty, T = c11.MatchUp, c11.Uncertainty, c11.T


def finish(ch, spec, npars):
    spec["refs"] = ["A"]
    spec["npar"] = ch.pick(npars, "parameters")
    spec["adj"] = ch.pick([0, 1, 2, 3], "adjustment")
    spec["a0"] = ch.pick([0., 0.25, -1.5], "first estimate")
    spec["wrapped"] = ch.flag("wrapped")
    spec["scale"] = ch.pick([0.25, 0.05, 0.5], "uncertainties")
    return spec


def gen(pairs, ms, Ms, npars):
    def g(ch):
        spec = gn.problem(ch, ch.pick(pairs, "pairs"), ch.pick(ms, "m"), ch.pick(Ms, "Ms"), [1])
        return finish(ch, spec, npars)
    return g


def spaces(tier):
    P3 = [[["A", "B"], ["B", "C"], ["A", "C"]], [["A", "B"], ["B", "C"], ["C", "D"]], [["A", "B"], ["A", "C"], ["B", "D"]]]
    ms = [dict(zip("ABCD", (1,) + v)) for v in ((2, 2, 1), (1, 1, 1), (2, 1, 3), (3, 2, 2), (1, 3, 2))]
    return [("1 series", gen([[["A", "B"]]], ms, [[6], [4], [9]], [(0, 2), (0, 1), (0, 3)]), None),
            ("2 series", gen(c11.PAIRS, ms, [[5, 6], [6, 4]], [(0, 2, 2), (0, 1, 2), (0, 2, 1), (0, 3, 1)]), 3 if tier == "quick" else None),
            ("3 series", gen(P3, ms, [[5, 4, 5], [4, 6, 4]], [(0, 2, 2, 2), (0, 1, 2, 1)]), 3 if tier == "quick" else None)]


def solve(model, x0, a0):
    """Fixed point of generalised least squares, the data held fixed and their errors propagated at the estimate."""
    N = model.N
    a = a0.copy()
    for _ in range(200):
        J = model.residuals(np.concatenate([x0, a]), x0, model.k)[1][N:]
        Vk = np.eye(len(J)) + J[:, :N].dot(J[:, :N].T)
        L = np.linalg.inv(np.linalg.cholesky(Vk))
        b = a.copy()
        for _ in range(50):
            f, J = model.residuals(np.concatenate([x0, b]), x0, model.k)
            d = np.linalg.lstsq(L.dot(J[N:, N:]), -L.dot(f[N:]), rcond=None)[0]
            b = b + d
            if np.max(np.abs(d)) < 1e-11:
                break
        step = np.max(np.abs(b - a))
        a = b
        if step < 1e-11:
            break
    J = model.residuals(np.concatenate([x0, a]), x0, model.k)[1][N:]
    Ja = np.linalg.inv(np.linalg.cholesky(np.eye(len(J)) + J[:, :N].dot(J[:, :N].T))).dot(J[:, N:])
    return a, Ja


def run(spec, rec):
    model = c11.make(spec)
    for f in model.files:
        pass
    mu = model.matchup(MatchUp, Uncertainty)
    ind = T().run(mu)
    x0 = np.asarray(ind.values, float).copy()
    a, Ja = solve(model, x0, model.a0)
    if np.linalg.cond(Ja / np.linalg.norm(Ja, axis=0)) > 300:
        rec.count("problems_left_out_as_nearly_singular")
        return
    V = np.linalg.inv(Ja.T.dot(Ja))
    sig = np.sqrt(np.diag(V))
    rec.state([spec[k] for k in ("files", "npar", "adj", "a0", "scale")])
    with contextlib.redirect_stdout(io.StringIO()):
        if spec["wrapped"]:
            res = HarmonisationEIVPC().run(ind)
            got, cov = res.parameter, res.parameter_covariance_matrix
            rec.check(list(res.parameter_sensors) == model.par_of, "sensors", "sensors of the parameters %r" % (res.parameter_sensors,))
        else:
            got, cov = PCAlgo(ind).runPC()[:2]
    rec.step()
    got, cov = np.asarray(got, float), np.asarray(cov, float)
    if not rec.check(got.shape == a.shape and cov.shape == V.shape, "shape", "%r parameters, covariance %r" % (got.shape, cov.shape)):
        return
    rec.check(np.max(np.abs(got - a) / sig) < 0.02, "parameters", "parameters %r, not %r (u %r)" % (got, a, sig))
    rel = (cov - V) / np.outer(sig, sig)
    rec.check(np.max(np.abs(rel)) < 0.01, "covariance", "covariance %r, not %r" % (cov, V))
    rec.outcome(np.round(got, 3).tolist())


def vacuous(total):
    if total.counts.get("problems_left_out_as_nearly_singular", 0) * 5 > total.validated:
        return "many problems are nearly singular"
