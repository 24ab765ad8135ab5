"""C07: a simulated dataset spans exactly the range of the dataset it is made from."""

import copy
import itertools

import numpy as np

import support as S
from checks import c01

NEEDS = {"py"}
SCOPE = ("every pairing of up to 4 sensors in 1-3 series, 1-3 match-ups, 1-5 (thorough 8) samples per series; block contents: "
         "every order of distinct values, constant, negative, mixed signs; 12 series in a chain, a star, a ring of pairs or of one pair, with up to 12 covariates")
VALS = {"inc": [1., 2., 4.], "dec": [9., 5., 2.], "mid": [2., 7., 3.], "low": [6., 1., 5.], "const": [3., 3., 3.],
        "neg": [-1., -8., -4.], "mixed": [-2.5, 6., 0.]}


def setup(ctx):
    global MatchUp, Uncertainty, Sim
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp as Sim


def gen(n, maxm, nmax):
    def g(ch):
        files = c01.topology(ch, ch.pick(n, "series"), maxm)
        c01.base(files, [ch.pick([1, 2, 3], "M") for _ in files])
        return {"files": files, "n": ch.pick(range(2, nmax + 1), "samples") if ch.flag("samples?") else 1,
                "vals": ch.pick(sorted(VALS), "values"), "verbose": False}
    return g


def values(ch):
    files = c01.base([{"s": ["A", "B"], "m": [1, 2]}], [3])
    return {"files": files, "n": ch.pick(range(1, 9), "samples"), "cells": [ch.pick(sorted(VALS), "block") for _ in range(4)],
            "verbose": ch.flag("verbose")}


def many(ch):
    files = S.many(ch, types=(1, 2))
    return {"files": files, "n": ch.pick([3, 1, 12], "trials"), "cells": ch.pick([sorted(VALS), sorted(VALS)[::-1]], "values"),
            "verbose": False}


def spaces(tier):
    q = tier == "quick"
    return [("12 series", many, None), ("1-2 series", gen([1, 2], 2 if q else 3, 5 if q else 8), None),
            ("3 series", gen([3], 2, 5), 5 if q else 8), ("block contents", values, None)]


def run(spec, rec):
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, files)
    cells = spec.get("cells") or [spec["vals"]]
    for b in range(len(blocks)):
        v = VALS[cells[b % len(cells)]]
        i0, i1 = idx["idx"][b], idx["idx"][b + 1]
        mu.values[i0:i1] = np.array(v[:i1 - i0]) + 10 * b
    for k in range(len(files)):
        v = VALS[cells[-1]]
        mu.ks[idx["cNm"][k]:idx["cNm"][k + 1]] = np.array(v[:files[k]["M"]]) - 3 * k
    mu.a = np.array([1.5, 2.5])
    mu.sensor_model, mu.sensor_model_constant, mu.adjustment_model = ["model"], [4.], ["adj"]
    mu.idx["parameter_sensor"] = ["B", "B"]
    mu._original_idx = copy.deepcopy(mu.idx)
    before = (mu.values.copy(), mu.ks.copy(), copy.deepcopy(mu.idx))
    n = spec["n"]
    sim = Sim().run(mu, n_samples_mu=n, verbose=spec["verbose"])
    rec.step()
    rec.state((idx, n, cells, spec["verbose"]))
    new = [dict(f, M=n) for f in files]
    exp, _ = S.layout(new)
    for key, val in exp.items():
        rec.check([list(x) if isinstance(x, (list, tuple)) else x for x in sim.idx[key]] == val, "idx",
                  "index %s is %r, not %r" % (key, sim.idx[key], val))
    rec.check(list(sim.idx["parameter_sensor"]) == ["B", "B"], "idx", "parameter labels")
    for what, got, src, gi, si in (("values", sim.values, before[0], exp["idx"], idx["idx"]),
                                   ("ks", sim.ks, before[1], exp["cNm"], idx["cNm"])):
        rec.check(len(got) == gi[-1], what, "%d %s, not %d" % (len(got), what, gi[-1]))
        for b in range(len(si) - 1):
            x, y = src[si[b]:si[b + 1]], got[gi[b]:gi[b + 1]]
            lo, hi = min(x), max(x)
            rec.step()
            want = [lo + (hi - lo) * i / (n - 1.) for i in range(n)] if n > 1 else [lo]
            ok = S.near(y, want, 1e-6, 1e-6) if n > 1 else len(y) == 1 and lo - 1e-6 <= y[0] <= hi + 1e-6
            rec.check(ok, what, "%s block %d: %r, not %r" % (what, b, y, want))
    rec.check(S.eq(mu.values, before[0]) and S.eq(mu.ks, before[1]) and S.same(mu.idx, before[2]), "changed",
              "the source dataset changed")
    rec.check(S.eq(sim.a, [1.5, 2.5]) and sim.sensor_model == ["model"] and list(sim.sensor_model_constant) == [4.] and
              sim.adjustment_model == ["adj"], "attached", "sensor functions or parameters of the simulation differ")
    sim.values[:] = -1
    sim.ks[:] = -1
    rec.check(S.eq(mu.values, before[0]) and S.eq(mu.ks, before[1]), "alias", "the simulation shares data with its source")
    for key in sim.idx:
        for part in [sim.idx[key]] + list(sim.idx[key] if isinstance(sim.idx[key], list) else []):
            if isinstance(part, list):
                part.append(part[0] if part else 0)
    sim.idx["parameter_sensor"] = ["C"]
    rec.check(S.same(mu.idx, before[2]), "alias", "the simulation shares its index with its source")
    rec.outcome(tuple(np.round(np.asarray(want, float), 4)) + (n,))
