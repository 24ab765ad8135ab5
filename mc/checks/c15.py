"""C15: the iterative linear solvers against dense solutions, on every small system."""

import contextlib
import io
import math

import numpy as np

import support as S

NEEDS = {"py", "cython"}
SCOPE = ("least-squares solver: every matrix of up to 3x2 / 2x3 with entries 0, 1, -2, 3 (3x3: 0, 1, -2 within a bound), every right-hand side of "
         "0, 1, -2, damped or not, with and without scaling operators; symmetric solver: every symmetric matrix up to 3x3 with entries 0, 1, -2, 3, shifted or "
         "not, with and without preconditioner; several systems solved one after another by the same solver object")
ASSUMPTIONS = ["solutions are compared to 1e-5 of the problem's scale"]


def setup(ctx):
    global LSMR, Minres, LinearOperator
    S.inject()
    B = "harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv."
    import importlib
    GNA = importlib.import_module(B + "GN_algo")
    LSMR, Minres, LinearOperator = GNA.LSMRFramework, GNA.Minres, GNA.LinearOperator


def lsmr(sizes, entries, rhs):
    def g(ch):
        m, n = ch.pick(sizes, "size")
        A = [[ch.pick(entries, "A") for _ in range(n)] for _ in range(m)]
        b = [ch.pick(rhs, "b") for _ in range(m)]
        return {"solver": "lsmr", "A": A, "b": b, "damp": ch.pick([0., 0.5], "damp"), "scaled": ch.flag("scaled"), "twice": ch.flag("twice"), "show": ch.flag("show")}
    return g


def minres(n, entries, rhs):
    def g(ch):
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                A[i][j] = A[j][i] = ch.pick(entries, "A")
        b = [ch.pick(rhs, "b") for _ in range(n)]
        return {"solver": "minres", "A": A, "b": b, "shift": ch.pick([0., 1.], "shift"), "precon": ch.flag("preconditioner"), "twice": ch.flag("twice"), "show": ch.flag("show")}
    return g


def spaces(tier):
    q = tier == "quick"
    E = [1, 0, -2, 3]
    R = [1, 0, -2]
    return [("lsmr, small", lsmr([(2, 1)], E + [-1], R + [3]), None),
            ("lsmr, 2x2", lsmr([(2, 2)], E, R), 4 if q else None),
            ("lsmr, 3x2 2x3", lsmr([(3, 2), (2, 3)], [1, 0, -2], R), 4 if q else 6),
            ("lsmr, 3x3", lsmr([(3, 3)], [1, 0, -2, 3], R), 4 if q else 6),
            ("minres, 1", minres(1, E + [-1, 5], R), None),
            ("minres, 2", minres(2, E, R), None),
            ("minres, 3", minres(3, E, R), 5 if q else 7)]


def operator(A):
    A = np.asarray(A, float)
    return LinearOperator(A.shape, matvec=lambda v: A.dot(v), rmatvec=lambda v: A.T.dot(v), dtype=float)


def run(spec, rec):
    A = np.array(spec["A"], float)
    rec.state([spec["A"], spec["b"]])
    with contextlib.redirect_stdout(io.StringIO()):
        if spec["solver"] == "lsmr":
            solver = LSMR(operator(A))
            for b in ([np.arange(1., len(A) + 1)] if spec["twice"] else []) + [np.array(spec["b"], float)]:
                one_lsmr(spec, rec, solver, A, b)
        else:
            solver = Minres(operator(A))
            for b in ([np.arange(1., len(A) + 1)] if spec["twice"] else []) + [np.array(spec["b"], float)]:
                one_minres(spec, rec, solver, A, b)


def one_lsmr(spec, rec, solver, A, b):
    m, n = A.shape
    kw = {}
    Mi, Ni = np.ones(m), np.ones(n)
    if spec["scaled"]:
        Mi, Ni = 1. + np.arange(m), 2. - 0.5 * np.arange(n)
        kw = {"M": lambda v: Mi * v, "N": lambda v: Ni * v}
    keep = b.copy()
    x, istop, itn, normr, normar, norma, conda, normx = solver.solve(b, damp=spec["damp"], atol=1e-12, btol=1e-12, conlim=1e12, itnlim=6 * n + 20, show=spec["show"], **kw)
    rec.step()
    rec.check(np.array_equal(b, keep), "changed", "the solver changes the right-hand side")
    rec.check(solver.x is not None and np.array_equal(x, solver.x), "kept", "returns %r, keeps %r" % (x, solver.x))
    # minimises |b - Ax|_M + damp^2 |x|_N^-1; of the minimisers the least in N^-1
    sM, sN = np.sqrt(Mi), np.sqrt(Ni)
    As = sM[:, None] * A * sN
    big = np.vstack([As, spec["damp"] * np.eye(n)])
    want = sN * (np.linalg.pinv(big, rcond=1e-10).dot(np.concatenate([sM * b, np.zeros(n)])))
    scale = 1 + np.max(np.abs(want))
    rec.check(np.shape(x) == want.shape and np.max(np.abs(x - want)) < 1e-5 * scale, "lsmr", "A %r, b %r, damp %r: %r, not %r" % (A.tolist(), b.tolist(), spec["damp"], x, want))
    r = np.concatenate([sM * (b - A.dot(want)), spec["damp"] * want / sN])
    rec.check(abs(normr - np.linalg.norm(r)) < 1e-5 * (1 + np.linalg.norm(b)), "lsmr-residual", "A %r, b %r: norm of the residual %r, not %r" % (A.tolist(), b.tolist(), normr, np.linalg.norm(r)))
    rec.check(istop != 7 and (istop or not np.any(A.T.dot(Mi * b))), "lsmr-stop", "A %r, b %r: stops for reason %r" % (A.tolist(), b.tolist(), istop))
    rec.outcome([istop, np.round(x, 3).tolist()])


def one_minres(spec, rec, solver, A, b):
    n = len(A)
    kw = {}
    P = np.ones(n)
    if spec["precon"]:
        P = 1. / (1. + np.arange(n))
        kw["precon"] = operator(np.diag(P))
    keep = b.copy()
    solver.solve(b, shift=spec["shift"], rtol=1e-12, itnlim=10 * n + 20, show=spec["show"], **kw)
    x = solver.x
    rec.step()
    rec.check(np.array_equal(b, keep), "changed", "the solver changes the right-hand side")
    B = A - spec["shift"] * np.eye(n)
    # the least residual in the norm of the preconditioner
    sP = np.sqrt(P)
    r = sP * (b - B.dot(x))
    As = sP[:, None] * B * sP
    w = np.linalg.pinv(As, rcond=1e-10).dot(sP * b)
    best = np.linalg.norm(sP * b - As.dot(w))
    if best > 1e-9 * (1 + np.linalg.norm(b)):
        # no solution: with a singular matrix the method may leave the least squares solution along a null vector
        rec.outcome([solver.istop])
        return
    rec.check(np.all(np.isfinite(x)) and np.linalg.norm(r) < best + 1e-5 * (1 + np.linalg.norm(b)), "minres",
              "A %r, shift %r, b %r: %r leaves the residual %r, not %r" % (A.tolist(), spec["shift"], b.tolist(), x, np.linalg.norm(r), best))
    if np.linalg.matrix_rank(B) == n:
        want = np.linalg.solve(B, b)
        rec.check(np.max(np.abs(x - want)) < 1e-5 * (1 + np.max(np.abs(want))), "minres", "A %r, shift %r, b %r: %r, not %r" % (A.tolist(), spec["shift"], b.tolist(), x, want))
    rec.check(solver.istop not in (6, 7, 8, 9), "minres-stop", "A %r, shift %r, b %r: stops for reason %r" % (A.tolist(), spec["shift"], b.tolist(), solver.istop))
    rec.outcome([solver.istop, np.round(x, 3).tolist()])
