"""C03: selecting data of a match-up dataset by covariate, sensor, series or name returns exactly that data."""

import numpy as np

import support as S
from checks import c01

NEEDS = {"py"}
SCOPE = ("every pairing of up to 4 sensors in 1-3 (thorough 4) series, 1-3 covariates, 1-3 or 11 match-ups; in each dataset every "
         "selector, valid or not, with the optional data present or absent, with and without a missing additional value; closing by call and by context manager")


def setup(ctx):
    global MatchUp, Uncertainty, Sim
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp as Sim


def gen(n, maxm, Ms):
    def g(ch):
        files = c01.topology(ch, ch.pick(n, "series"), maxm)
        c01.base(files, [ch.pick(Ms, "M") for _ in files] if isinstance(Ms, list) else Ms)
        few = len(files) < 3
        spec = {"files": files, "present": ch.pick([15, 0, 5, 10], "optional data") if few else 15,
                "names": ch.pick([2, 0, 1], "additional") if few else 2}
        spec["missing"] = ch.pick([None, 0, -1], "missing value") if few and spec["present"] == 15 and spec["names"] == 2 else None
        return spec
    return g


def spaces(tier):
    sp = [("1-2 series", gen([1, 2], 3, [1, 2, 3, 11]), None), ("3 series", gen([3], 2, (1, 2, 3)), None)]
    if tier == "thorough":
        sp += [("3 series, m<=3", gen([3], 3, (3, 1, 2)), None), ("4 series", gen([4], 2, (2, 1, 3, 2)), 7)]
    return sp


def raises(f, *a):
    try:
        v = f(*a)
    except Exception:
        return True, None
    return False, v


def run(spec, rec):
    files = [S.fill(f, k) for k, f in enumerate(spec["files"])]
    for f in files:
        for v in ("X1", "X2"):
            f[v] = np.roll(f[v], 1, axis=0)     # neither the first nor the last value is always an extreme one
    mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, files)
    total = idx["cNm"][-1]
    p = spec["present"]
    data = {}
    for bit, names in enumerate((("time1", "time2"), ("across_track_index1", "across_track_index2"),
                                 ("along_track_index1", "along_track_index2"))):
        for j, v in enumerate(names):
            if p >> bit & 1 or (p == 10 and j == 0):
                data[v] = 1000. * bit + 500 * j + np.arange(total)
                setattr(mu, v, data[v].copy())
    names = ["alpha", "beta"][:spec["names"]]
    mu.idx["additional_values_name"] = names
    mu.additional_values = np.arange(total * len(names), dtype=float).reshape(total, len(names)) + 0.5
    mu.additional_values = np.concatenate([np.roll(mu.additional_values[a:b], 2, axis=0) for a, b in zip(idx["cNm"][:-1], idx["cNm"][1:])])
    if spec["missing"] is not None and names:
        mu.additional_values[spec["missing"], 0] = np.nan
    rec.state((idx, p, names))
    before = mu.values.copy()

    for k, f in enumerate(files):
        for name in idx["sensors"] + ["nobody"]:
            inside = name in f["s"]
            for cov in range(1, 5):
                bad, got = raises(mu.getVariableData, cov, name, k + 1)
                rec.step()
                side = f["s"].index(name) if inside else 0
                if inside and cov <= f["m"][side]:
                    want = f["X%d" % (side + 1)][:, cov - 1]
                    rec.check(not bad and S.eq(got, want), "variable", "covariate %d of %s in series %d: %r, not %r"
                              % (cov, name, k + 1, got, want))
                    for fn, w in ((mu.getVariableDataMax, max(want)), (mu.getVariableDataMin, min(want))):
                        bad, got = raises(fn, cov, name, k + 1)
                        rec.check(not bad and got == w, "variable-range", "range of covariate %d of %s in series %d: %r, not %r"
                                  % (cov, name, k + 1, got, w))
                else:
                    rec.check(bad or got is None, "variable-none", "covariate %d of %s in series %d does not exist, but is %r"
                              % (cov, name, k + 1, got))
            for v, fn in (("time", mu.getSensorTime), ("across_track_index", mu.getSensorAcrossTrackIndex),
                          ("along_track_index", mu.getSensorAlongTrackIndex)):
                bad, got = raises(fn, k + 1, name)
                rec.step()
                if not inside:
                    rec.check(bad or got is None, v, "%s of %s in series %d does not exist, but is %r" % (v, name, k + 1, got))
                    continue
                full = data.get(v + str(f["s"].index(name) + 1))
                want = None if full is None else full[idx["cNm"][k]:idx["cNm"][k + 1]]
                ok = not bad and (got is None if want is None else got is not None and S.eq(got, want))
                rec.check(ok, v, "%s of %s in series %d: %r, not %r" % (v, name, k + 1, got, want))
    for n in [None] + list(range(1, len(files) + 1)):
        for j, name in enumerate(names):
            want = mu.additional_values[:, j] if n is None else mu.additional_values[idx["cNm"][n - 1]:idx["cNm"][n], j]
            got = mu.getAdditionalData(name, n)
            rec.step()
            rec.check(S.eq(got, want), "additional", "%s in series %r: %r, not %r" % (name, n, got, want))
            there = want[want == want]
            if len(there):
                got = mu.getAdditionalDataMin(name, n), mu.getAdditionalDataMax(name, n)
                rec.check(got == (min(there), max(there)), "additional-range", "range of %s in series %r, %r: %r" % (name, n, want, got))
        bad, got = raises(mu.getAdditionalData, "gamma", n)
        rec.check(bad or got is None, "additional-none", "an unknown variable is %r" % (got,))
    rec.check(list(mu.getAdditionalDataNames()) == names, "additional-names", "names %r" % (mu.getAdditionalDataNames(),))
    text = repr(mu)
    rec.check("Total Match-Ups - %d\n" % total in text and "Match-Up Series - %d\n" % len(files) in text and
              "Total Sensor State Data Values - %d\n" % idx["idx"][-1] in text, "repr", "summary is wrong: %r" % text[:300])
    rec.check(all("Series Sensors: %s, %s\nSeries Match-ups: %d\n" % (f["s"][0], f["s"][1], f["M"]) in text for f in files), "repr",
              "summary of a series is wrong: %r" % text[:500])
    sim = Sim().run(mu, n_samples_mu=2)
    text2 = repr(sim)
    rec.check("Total Match-Ups - %d\n" % (2 * len(files)) in text2 and "Match-Up Series - %d\n" % len(files) in text2 and
              "Total Sensor State Data Values - %d\n" % (2 * len(blocks)) in text2, "repr", "summary of a simulation is wrong: %r" % text2[:300])
    rec.check(S.eq(mu.values, before), "changed", "selecting data changed it")
    rec.outcome(text)

    if p & 1:
        mu.close()
    else:
        with mu as inside:
            rec.check(inside is mu, "with", "the context manager gives another object")
    rec.check(getattr(mu, "closed", False) is True, "close", "not marked as closed")
    left = [a for a in ("values", "unc", "w_matrices", "u_matrices", "ks", "unck", "time1", "additional_values", "idx", "a")
            if hasattr(mu, a)]
    rec.check(not left, "close", "still there after closing: %r" % left)
