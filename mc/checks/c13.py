"""C13: histories of harmonisation runs that save their preconditioner and state and start from saved ones."""

import contextlib
import copy
import io
import os
import random
import shutil

import numpy as np

import gn
import support as S
from checks import c11, c14
from core import Pruned

NEEDS = {"py", "cython"}
SCOPE = ("histories of up to 3 (thorough 4) harmonisations of a dataset, each with a computed or an earlier saved preconditioner (by file or directory), started "
         "from the data, from an initial state or from the state an earlier run saved, saving either, both or none; 3 datasets with all "
         "error types; two draws of the sample; with and without covariance, three verbosities; every sequence of 3 (thorough 4) saves, opens "
         "and steps of three solvers and two directories")
ASSUMPTIONS = ["parameters agree to 2%, covariances to 1% of their standard uncertainty"]
TIMEOUT = 200
REAL = random.sample
DRAW = ["first"]


def draw(pop, k, *a, **kw):
    if not isinstance(pop, (list, tuple, range)):
        raise TypeError("Population must be a sequence.")
    pop = list(pop)
    return pop[:k] if DRAW[0] == "first" else pop[len(pop) - k:]


def setup(ctx):
    global EIV, GNA, HR
    names = S.inject()
    EIV, HR = names["HarmonisationEIV"], names["HarmonisationResult"]
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv import GN_algo as GNA
    gn.use_pool(GNA)
    c14.setup(ctx)
    random.sample = draw


DATA = {"random": dict(s=[["A", "B"]], t=[[[1], [1, 1]]]),
        "all": dict(s=[["A", "B"], ["B", "C"]], t=[[[1], [2, 3]], [[2, 4], [1]]]),
        "structured": dict(s=[["A", "B"], ["A", "C"]], t=[[[3], [4, 1]], [[1], [2]]])}


def files(name):
    out = []
    for p, t in zip(DATA[name]["s"], DATA[name]["t"]):
        f = {"s": p, "m": [len(t[0]), len(t[1])], "M": 40, "t": t, "w": [[], []], "u": [[], []], "kinds": []}
        for side in (0, 1):
            for x in t[side]:
                no = 0
                if x > 2:
                    f["kinds"].append(gn.KINDS[len(f["kinds"]) % 2 * 3])
                    no = len(f["kinds"])
                f["w"][side].append(no)
                f["u"][side].append(no)
        out.append(f)
    return out


def histories(n):
    def g(ch):
        spec = {"data": ch.pick(["all", "random", "structured"], "data"), "draw": ch.pick(["first", "last"], "draw"), "runs": []}
        pcs = gns = 0
        for i in range(ch.pick(range(1, n + 1), "runs")):
            r = {"pc": ch.idx(1 + 2 * pcs, "pc"), "save_pc": ch.pick([True, False], "save_pc"), "gn": ch.idx(2 + gns, "gn"),
                 "save_gn": ch.pick([True, False], "save_gn")}
            pcs += r["save_pc"]
            gns += r["save_gn"]
            r["state"] = ch.pick(["save_gn", "save_directory_GNOp"], "state saved by") if r["save_gn"] else None
            r["nocov"] = ch.flag("no covariance")
            spec["runs"].append(r)
        r["show"] = ch.pick([0, 1, 2], "show")
        return spec
    return g


def states(n):
    """Three solvers (with a preconditioner, without, and of the dataset as read) and two directories."""
    def g(ch):
        spec = {"data": ch.pick(["all", "random", "structured"], "data"), "ops": []}
        saved = set()
        for i in range(n):
            ops = [("save", s, d) for s in range(3) for d in range(2) if s < 2 or i and any(o[:2] == ("open", s) for o in spec["ops"])]
            ops += [("step", s) for s in range(2)] + [("open", s, d) for s in range(3) for d in sorted(saved)]
            op = ch.pick(ops, "op")
            if op[0] == "save":
                saved.add(op[2])
            spec["ops"].append(op)
        if spec["ops"][-1][0] != "open":
            raise Pruned()
        return spec
    return g


def run_states(spec, rec):
    model, z, f, V = problem(spec["data"])
    base = os.path.join(rec.scratch, "s")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    dirs = [os.path.join(base, "a"), os.path.join(base, "sub", "b")]
    new = lambda: model.matchup(c11.MatchUp, c11.Uncertainty)
    solvers = [GNA.GNAlgo(c11.T().run(new()), np.float32(V)), GNA.GNAlgo(c11.T().run(new())), GNA.GNAlgo(new())]
    solvers[0].xyza = np.asarray(solvers[0].xyza, float) + 0.01 * np.cos(np.arange(len(solvers[0].xyza)))
    look = lambda g: {"S": np.array(g.S, float), "xyza": np.array(g.xyza, float), "values": np.array(g.HData.values, float), "idx": copy.deepcopy(g.HData.idx)}
    now = [look(g) for g in solvers]
    rec.check(S.near(now[0]["S"].dot(now[0]["S"].T), V, 1e-4), "S", "S S' is not the covariance given")
    on_disc = {}
    for i, op in enumerate(spec["ops"]):
        op = tuple(op)
        g = solvers[op[1]]
        with contextlib.redirect_stdout(io.StringIO()):
            if op[0] == "step":
                g.xyza = np.asarray(g.xyza, float) + 0.1 * np.sin(i + np.arange(len(g.xyza)))
                now[op[1]] = look(g)
            elif op[0] == "save":
                g.save(dirs[op[2]])
                on_disc[op[2]] = copy.deepcopy(now[op[1]])
            else:
                g.open(dirs[op[2]])
                now[op[1]] = copy.deepcopy(on_disc[op[2]])
        rec.step()
        for j, (g, w) in enumerate(zip(solvers, now)):
            got = look(g)
            for k in ("S", "xyza", "values"):
                rec.check(S.near(got[k], w[k], 2e-7, 1e-7), "state", "after %r solver %d has %s %r, not %r" % (spec["ops"][:i + 1], j, k, got[k], w[k]))
            bad = [k for k in set(got["idx"]) | set(w["idx"]) if not S.same(got["idx"].get(k), w["idx"].get(k))]
            rec.check(not bad, "state", "after %r solver %d has index entries %r other than saved" % (spec["ops"][:i + 1], j, bad))
        if op[0] == "open":
            g, w = solvers[op[1]], now[op[1]]
            rec.check(S.near(g.calc_Px(np.ones(len(g.xyza))), np.concatenate([np.ones(model.N), w["S"].sum(1)]), 1e-5, 1e-6), "state", "preconditioner of an opened state")
        rec.state([spec["data"], spec["ops"][:i + 1]])
    rec.outcome(spec["ops"])


def spaces(tier):
    return [("solver states", states(3 if tier == "quick" else 4), None), ("histories", histories(3 if tier == "quick" else 4), 3 if tier == "quick" else 4)]


SOLVED = {}


def problem(name):
    if name not in SOLVED:
        spec = {"files": files(name), "refs": ["A"], "npar": (0, 2, 1), "adj": 1, "a0": 0.25, "scale": 0.25}
        model = c11.make(spec)
        ind = c11.T().run(model.matchup(c11.MatchUp, c11.Uncertainty))
        x0 = np.asarray(ind.values, float).copy()
        z, f, J = model.solve(x0, model.k, model.a0)
        SOLVED[name] = model, z, f, np.linalg.inv(J.T.dot(J))[model.N:, model.N:]
    return SOLVED[name]


def run(spec, rec):
    if "ops" in spec:
        return run_states(spec, rec)
    model, z, f, V = problem(spec["data"])
    DRAW[0] = spec["draw"]
    sig = np.sqrt(np.diag(V))
    N = model.N
    base = os.path.join(rec.scratch, "h")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    initial = os.path.join(base, "initial")
    GNA.GNAlgo(c11.T().run(model.matchup(c11.MatchUp, c11.Uncertainty))).save(initial)
    pcs, gns = [], [initial]
    hist = []
    for i, r in enumerate(spec["runs"]):
        kw = {}
        if r["pc"]:
            kw["pc_input"] = pcs[(r["pc"] - 1) // 2] if r["pc"] % 2 else os.path.dirname(pcs[(r["pc"] - 1) // 2])
        if r["gn"]:
            kw["gn_input"] = gns[r["gn"] - 1]
        if r["save_pc"]:
            pcs.append(os.path.join(base, "pc%d" % i, "harm_pc.nc"))
            os.mkdir(os.path.join(base, "pc%d" % i))
            kw["save_pc"] = pcs[-1]
        if r["save_gn"]:
            gns.append(os.path.join(base, "state%d" % i))
            kw[r["state"]] = gns[-1]
        if r["nocov"]:
            kw["return_covariance"] = False
        before = listing(base)
        with contextlib.redirect_stdout(io.StringIO()):
            res = EIV().run(model.matchup(c11.MatchUp, c11.Uncertainty), show=r.get("show", 0), **kw)
        rec.step()
        hist.append(sorted((k, os.path.relpath(v, base)) for k, v in kw.items() if v) + [r["nocov"], r.get("show")])
        rec.state([spec["data"], spec["draw"], hist])
        new = {p.split(os.sep)[0] for p in listing(base) - before}
        want = {os.path.relpath(v, base).split(os.sep)[0] for k, v in kw.items() if k[:4] == "save"}
        rec.check(new == want, "saved", "run %d (%r) wrote %r, not %r" % (i, kw, sorted(new), sorted(want)))
        changed = {p for p in before if p not in listing(base)}
        rec.check(not changed, "removed", "run %d removed %r" % (i, changed))
        a = np.asarray(res.parameter, float)
        rec.check(np.max(np.abs(a - z[N:]) / sig) < 0.02, "parameters", "run %d (%r): parameters %r, not %r (u %r)" % (i, kw, a, z[N:], sig))
        C = np.asarray(res.parameter_covariance_matrix, float)
        want = np.zeros_like(V) if r["nocov"] or r["state"] == "save_directory_GNOp" else V
        rec.check(np.max(np.abs(C - want) / np.outer(sig, sig)) < 0.01, "covariance", "run %d (%r): covariance %r, not %r" % (i, kw, C, want))
        rec.check(abs(res.cost - f.dot(f)) < 2e-3 * (1 + f.dot(f)), "cost", "run %d (%r): cost %r, not %r" % (i, kw, res.cost, f.dot(f)))
        rec.check(list(res.parameter_sensors) == model.par_of, "sensors", "sensors of the parameters %r" % (res.parameter_sensors,))
        kres = np.asarray(res.ks_res, float)
        wk = f[N:] * model.uk
        rec.check(kres.shape == wk.shape and np.all(np.abs(kres - wk) < 0.02 * model.uk), "residuals", "run %d (%r): residuals of the factors %r, not %r" % (i, kw, kres, wk))
        if model.sys:
            got = np.asarray(res.additional_variables["systematic_errors"]["data"], float)
            rec.check(np.max(np.abs(got - z[model.off[-1]:N])) < 0.02, "systematic", "systematic errors %r" % got)
        if r["save_pc"]:
            p = HR(pcs[-1])
            q = np.asarray(p.parameter, float)
            if r["pc"]:
                old = HR(kw["pc_input"])
                rec.check(S.near(q, old.parameter) and S.near(p.parameter_covariance_matrix, old.parameter_covariance_matrix), "pc-copy", "the preconditioner changed")
            rec.check(np.max(np.abs(q - z[N:]) / sig) < 25 and list(p.parameter_sensors) == model.par_of, "pc", "saved preconditioner %r, solution %r (u %r)" % (q, z[N:], sig))
    rec.outcome(hist)


def listing(base):
    out = set()
    for d, _, fs in os.walk(base):
        for n in fs:
            out.add(os.path.relpath(os.path.join(d, n), base))
    return out
