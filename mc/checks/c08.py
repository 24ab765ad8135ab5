"""C08: evaluating sensor functions over a dataset uses each series' own data, parameters and indices, for any selection."""

import itertools

import numpy as np

import support as S
from checks import c01

NEEDS = {"py"}
SCOPE = ("every pairing of up to 4 sensors in 1-3 series, 1-3 covariates, 1-3 match-ups; every non-empty selection of series in "
         "every order, as a number or a list; with and without derivatives, adjustment, indices, parameter covariance; 0-3 "
         "parameters per sensor, sensors without parameters with and without derivatives; 12 series in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")


def setup(ctx):
    global MatchUp, Uncertainty, mm
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    import harmonisation.core.matchup.matchupToolbox.utils.matchup_maths as mm


def gen(n, maxm, Ms):
    def g(ch):
        files = c01.topology(ch, n, maxm)
        c01.base(files, [ch.pick(Ms, "M") for _ in files] if isinstance(Ms, list) else Ms)
        perms = [list(p) for r in range(1, n + 1) for p in itertools.permutations(range(1, n + 1), r)]
        sels = [0] + list(range(1, n + 1)) + perms
        spec = {"files": files, "sel": ch.pick(sels, "selection"), "npar": ch.pick([(0, 2, 1, 3), (3, 1, 2, 0)], "parameters"),
                "idx": ch.pick([7, 0], "times and indices"),
                "order": ch.pick([1, -1], "order of the parameters"), "ref": ch.flag("sensors without parameters have no derivatives")}
        return spec
    return g


def many(ch):
    return {"files": S.many(ch, types=(1, 2)), "sel": ch.pick([0, 11, [12, 1, 10]], "selection"), "npar": ch.pick([(2, 1, 3, 0) * 4, (0, 3, 1) * 5], "parameters"),
            "idx": ch.pick([7, 0], "times and indices"), "order": ch.pick([1, -1], "order of the parameters"),
            "ref": ch.flag("sensors without parameters have no derivatives")}


def spaces(tier):
    sp = [("12 series", many, None), ("1 series", gen(1, 3, [1, 2, 3]), None), ("2 series", gen(2, 2, [2, 1, 3]), None),
          ("3 series", gen(3, 2, (2, 1, 3)), 5 if tier == "quick" else None)]
    if tier == "thorough":
        sp.append(("2 series, m<=3", gen(2, 3, [2, 1, 3]), None))
    return sp


def model(tag, given=None, derivatives=True):
    """A sensor function that depends on everything it is given, and its derivatives."""
    def f(X, a, c, xt, at, t):
        if given is not None:
            given.append((tag, [float(x) for x in c]))
        X = np.asarray(X, float)
        a = np.asarray(a, float)
        e = 0.0
        for i, v in enumerate((xt, at, t)):
            if v is not None:
                e = e + (i + 1) * 0.25 * np.asarray(v, float)
        csum = float(np.sum(c))
        R = tag + csum + e + X.dot(np.arange(1, X.shape[1] + 1)) * 0.5
        J = np.zeros((X.shape[0], X.shape[1] + len(a)))
        J[:, :X.shape[1]] = 0.5 * np.arange(1, X.shape[1] + 1)
        for j, aj in enumerate(a):
            R = R + aj * X[:, 0] ** (j + 1) * 0.01
            J[:, X.shape[1] + j] = X[:, 0] ** (j + 1) * 0.01
            J[:, 0] += aj * (j + 1) * X[:, 0] ** j * 0.01
        return R, J if derivatives else None
    return f


def run(spec, rec):
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    for k, f in enumerate(files):  # small numbers
        for v in ("X1", "X2"):
            f[v] = (f[v] - 1000 * (k + 1)) / 16. + k
    mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, files, dtype=np.float32)
    sensors = idx["sensors"]
    total = idx["cNm"][-1]
    ext = {}
    for bit, v in enumerate(("across_track_index", "along_track_index", "time")):
        for j in "12":
            if spec["idx"] >> bit & 1:
                ext[v + j] = np.arange(total) * 2.0 + 100 * bit + 50 * int(j)
                setattr(mu, v + j, ext[v + j].copy())
    par = {s: [0.5 + i + 0.25 * j for j in range(spec["npar"][i])] for i, s in enumerate(sensors)}
    con = {s: [100. * i + j + 1 / 3. for j in range((i + 1) % 3)] for i, s in enumerate(sensors)}
    order = sensors[::spec["order"]]
    mu.a = np.array([a for s in order for a in par[s]], dtype=np.float32)
    mu.idx["parameter_sensor"] = [s for s in order for _ in par[s]]
    mu.sensor_model_constant = [c for s in order for c in con[s]]
    mu.idx["sensor_model_constant_sensor"] = [s for s in order for _ in con[s]]
    given = []
    mu.sensor_model = [model(10. * (i + 1), given, not (spec.get("ref") and not par[s])) for i, s in enumerate(sensors)]
    mu.adjustment_model = [(lambda i: lambda B: (B * (i + 2) + 1, np.ones(len(B)) * (i + 2)))(i) for i in range(len(sensors))]
    sel = spec["sel"]
    chosen = list(range(1, len(files) + 1)) if sel == 0 else [sel] if isinstance(sel, int) else sel
    rec.state((idx, sel, spec["npar"], spec["idx"], spec["order"], spec.get("ref")))

    R, J = [], {}
    for n in chosen:
        f = files[n - 1]
        cols = []
        for side, s in enumerate(f["s"]):
            e = [ext.get(v + str(side + 1)) for v in ("across_track_index", "along_track_index", "time")]
            e = [None if x is None else x[idx["cNm"][n - 1]:idx["cNm"][n]] for x in e]
            X = f["X%d" % (side + 1)].astype(np.float32)
            r, j = model(10. * (sensors.index(s) + 1))(X, np.float32(par[s]), con[s], *e)
            cols.append(r)
            J[(n, side)] = j
        R.append(np.array(cols).T)
    R = np.concatenate(R)

    tol = dict(rtol=2e-6, atol=1e-4)

    def same_J(got, key):
        for (n, side), j in J.items():
            g = got[n - 1][side]
            if spec.get("ref") and not par[files[n - 1]["s"][side]]:
                rec.check(g is None, key, "series %d, side %d has derivatives %r" % (n, side + 1, g))
                continue
            rec.check(g is not None and S.near(g, j, **tol), key, "derivatives of series %d, side %d: %r, not %r"
                      % (n, side + 1, g, j))

    got = mm.evaluate_measurand(mu, matchup_series=sel)
    rec.step()
    rec.check(S.near(got, R, **tol), "measurand", "measurand %r, not %r" % (got, R))
    got, gJ = mm.evaluate_measurand(mu, matchup_series=sel, return_derivatives=True)
    rec.step()
    rec.check(S.near(got, R, **tol), "measurand", "measurand (with derivatives) %r, not %r" % (got, R))
    same_J(gJ, "derivatives")

    slope = np.concatenate([np.ones((files[n - 1]["M"], 1)) * [idx["Im"][n - 1][0] + 2., idx["Im"][n - 1][1] + 2.]
                            for n in chosen])
    A = R * slope + 1
    got = mm.evaluate_adjusted_measurand(mu, matchup_series=sel)
    rec.check(S.near(got, A, **tol), "adjusted", "adjusted measurand %r, not %r" % (got, A))
    got, d = mm.evaluate_adjusted_measurand(mu, matchup_series=sel, return_derivatives=True)
    rec.check(S.near(got, A, **tol) and S.near(d, slope, **tol), "adjusted", "adjusted measurand or its derivatives")
    got, d, gJ = mm.evaluate_adjusted_measurand(mu, matchup_series=sel, return_derivatives=True,
                                                return_measurand_derivatives=True)
    rec.check(S.near(got, A, **tol) and S.near(d, slope, **tol), "adjusted", "adjusted measurand or its derivatives")
    same_J(gJ, "derivatives")
    got = mm.evaluate_K(mu, matchup_series=sel)
    rec.step(4)
    rec.check(S.near(got, A[:, 1] - A[:, 0], 2e-6, 5e-4), "K", "K %r, not %r" % (got, A[:, 1] - A[:, 0]))

    n = len(mu.a)
    if n:
        V = np.diag(np.arange(1., n + 1)) + 0.125 * np.add.outer(np.arange(n), np.arange(n))
        labels = mu.idx["parameter_sensor"]
        u = []
        for k in chosen:
            cols = []
            for side, s in enumerate(files[k - 1]["s"]):
                loc = [i for i, l in enumerate(labels) if l == s]
                Ja = J[(k, side)][:, files[k - 1]["m"][side]:]
                cols.append(np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Ja, V[np.ix_(loc, loc)], Ja), 0)) if loc
                            else np.zeros(len(Ja)))
            u.append(np.array(cols).T)
        u = np.concatenate(u)
        got, gu = mm.evaluate_measurand(mu, matchup_series=sel, parameter_covariance_matrix=V)
        rec.check(S.near(got, R, **tol) and S.near(gu, u, 1e-5, 1e-5), "uncertainty", "uncertainty %r, not %r" % (gu, u))
        got, gJ, gu = mm.evaluate_measurand(mu, matchup_series=sel, parameter_covariance_matrix=V, return_derivatives=True)
        rec.step(2)
        rec.check(S.near(got, R, **tol) and S.near(gu, u, 1e-5, 1e-5), "uncertainty", "uncertainty %r, not %r" % (gu, u))
        same_J(gJ, "derivatives")
    for tag, c in given:
        want = con[sensors[int(tag / 10) - 1]]
        rec.check(c == want, "constants", "sensor %d is given the constants %r, not %r" % (tag / 10, c, want))
    for v, x in ext.items():
        rec.check(S.eq(getattr(mu, v), x), "changed", "evaluation changed %s" % v)
    rec.outcome(np.round(R, 3).tolist())
