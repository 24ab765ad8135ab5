"""C12: the covariance of the harmonised parameters is that of the least-squares problem at the solution."""

import contextlib
import io

import numpy as np

import gn
import support as S
from checks import c11

NEEDS = {"py", "cython"}
SCOPE = ("the problems of C11 (1-3 series, references, all error types and weighting matrices), at the solution and at the first "
         "estimate, with and without preconditioner; whole matrices, elements on their own, through a real pool of processes, and through one whose tasks complete in four orders; matrices of 6 series and up to 12 parameters")
ASSUMPTIONS = ["elements agree to 1% of the product of their standard uncertainties"]
TIMEOUT = 120


def setup(ctx):
    global GNA
    c11.setup(ctx)
    gn.SCALED = True
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv import GN_algo as GNA


def at(gen):
    def g(ch):
        spec = gen(ch)
        spec["what"] = ch.pick(["elements at the solution", "elements at the first estimate", "matrix", "run"], "what")
        spec["pool"] = spec["what"] in ("matrix", "run") and sum(ch.taken[:-1]) == 0 and ch.flag("pool of processes")
        spec["order"] = ch.pick(["reversed", "in order", "last first", "first last"], "completion") if spec["what"] in ("matrix", "run") and not spec["pool"] else "in order"
        return spec
    return g


def many(ch):
    spec = c11.finish(ch, gn.many(ch, 6, (5, 4, 6), 1), [(0, 2)])
    return dict(spec, what="matrix", pool=False, order="reversed")


def spaces(tier):
    q = tier == "quick"
    return [("1 series", at(c11.one), 2 if q else 4), ("2 series", at(c11.two), 2 if q else 4), ("3 series", at(c11.three), 2 if q else 3), ("6 series", many, 1)]


def run(spec, rec):
    model = c11.make(spec)
    mu = model.matchup(c11.MatchUp, c11.Uncertainty)
    ind = c11.T().run(mu)
    x0 = np.asarray(ind.values, float).copy()
    N, Na = model.N, model.Na
    z, f, J = model.solve(x0, model.k, model.a0)
    if spec["what"] == "elements at the first estimate":
        J = model.residuals(np.concatenate([x0, model.a0]), x0, model.k)[1]
    if np.linalg.cond(J / np.linalg.norm(J, axis=0)) > 300:
        rec.count("problems_left_out_as_nearly_singular")
        return
    V = np.linalg.inv(J.T.dot(J))[N:, N:]
    sig = np.sqrt(np.diag(V))
    D = np.diag(1.5 + np.arange(Na)).dot(np.eye(Na) + 0.1)
    gn.SerialPool.order = spec["order"]
    gn.use_pool(GNA, spec["pool"])
    op = c11.GNAlgo(ind, D.dot(D.T) if spec["pre"] else None)
    if spec["what"] in ("matrix", "elements at the solution"):
        op.xyza = z.astype(op.xyza.dtype)
    rec.state([spec["files"], spec["npar"], spec["adj"], spec["a0"], spec["pre"], spec["what"]])
    if spec["what"] in ("matrix", "run"):
        with contextlib.redirect_stdout(io.StringIO()):
            if spec["what"] == "run":
                C = np.asarray(op.run(return_covariance=True)[1], float)
            else:
                C = np.asarray(op.calculate_parameter_covariance_matrix(), float)
        rec.step()
        if not rec.check(C.shape == V.shape, "shape", "covariance of shape %r" % (C.shape,)):
            return
        rel = (C - V) / np.outer(sig, sig)
        rec.check(np.max(np.abs(rel)) < 0.01, "covariance", "covariance %r, not %r" % (C, V))
        rec.check(np.array_equal(C, C.T), "symmetric", "covariance %r is not symmetric" % C)
        return rec.outcome(np.round(C, 3).tolist())
    out = []
    # elements on their own
    for i in range(Na):
        j = (i + 1) % Na
        v = float(op.calculate_parameter_covariance_matrix_ij([i, j]))
        rec.check(abs(v - V[i, j]) < 0.01 * sig[i] * sig[j], "element", "element %d,%d is %r, not %r" % (i, j, v, V[i, j]))
        rec.step()
        out.append(round(v, 3))
    rec.outcome(out)


def vacuous(total):
    if total.counts.get("problems_left_out_as_nearly_singular", 0) * 5 > total.validated:
        return "many problems are nearly singular"
