"""C04: sensor functions, parameters and constants are attached to the sensors they belong to."""

import itertools
import os
import shutil
import sys

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("every pairing of up to 4 sensors in 1-3 series, every order of the sensors in the sensor data, 0-3 parameters and 0-2 "
         "constants per sensor, sensors with functions of their own or with one in common, with or without an adjustment model, with sensors that are in no match-up; unlike names and names that contain one another; attached when the "
         "files are opened and to an open dataset; up to three files of sensor data of the same or other names read one after another")


def setup(ctx):
    global MatchUp, Uncertainty, Reader, R, SDF
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    from harmonisation.core.matchup.matchupIO import MatchUpReader as R
    Reader = R.MatchUpReader


CHAINS = [[["A", "B"]], [["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]], [["A", "B"], ["C", "B"]],
          [["A", "B"], ["B", "C"], ["C", "D"]], [["A", "B"], ["A", "C"], ["A", "D"]], [["B", "A"], ["C", "D"], ["A", "C"]]]


def gen(ch):
    pairs = ch.pick(CHAINS, "pairs")
    names = sorted({x for p in pairs for x in p})
    unused = ch.pick([[], ["U"], ["0U", "Z"], ["A1", "1"]], "sensors without match-ups")
    every = names + unused
    perm = ch.idx(int(np.prod(range(1, len(every) + 1))) if len(every) <= 4 else 24, "order")
    npar = ch.pick([(0, 1, 2, 3), (3, 3, 3, 3), (1, 0, 3, 2), (2, 2, 0, 0)], "parameters")
    ncon = ch.pick([(0, 0, 0, 0), (1, 0, 2, 1), (2, 2, 2, 2)], "constants")
    adj = ch.pick([0, 5, 10, 15], "adjustment models")
    common = ch.flag("one sensor function for all")
    if ch.flag("names that contain one another"):
        alias = {"A": "n1", "B": "n15", "C": "N1", "D": "n", "U": "5", "0U": "n1 ", "Z": "n155", "A1": "15", "1": "n151"}
        pairs = [[alias[x] for x in p] for p in pairs]
        every = [alias[x] for x in every]
    return {"pairs": pairs, "every": every, "perm": perm, "npar": npar, "ncon": ncon, "adj": adj, "common": common}


def gen_file(ch):
    spec = gen(ch)
    spec["file"] = ch.pick(["argument", "later"], "attached when")
    return spec


def gen_names(ch):
    """Sensor data read from files one after the other: the files of one name are in different directories."""
    n = ch.pick([2, 3], "files")
    return {"names": [[ch.pick(["a", "b"], "directory"), ch.pick(["sd", "colorsys", "sensors"], "name")] for _ in range(n)],
            "ending": ch.pick([".py", ""], "ending")}


def run_names(spec, rec):
    """One module of the catalogue is a module of the standard library, too, which may have been imported."""
    import colorsys
    top = os.path.join(rec.scratch, "n" + "".join(d + n for d, n in spec["names"]) + spec["ending"][1:])
    shutil.rmtree(top, ignore_errors=True)
    path = list(sys.path)
    for d in ("a", "b"):
        os.makedirs(os.path.join(top, d))
        for name in ("sd", "colorsys", "sensors"):
            with open(os.path.join(top, d, name + ".py"), "w") as g:
                g.write("SENSOR_DATA = %r\n" % {"A": (d, name), "B": top})
    for d, name in spec["names"]:
        try:
            got = Reader().open_sensor_data(os.path.join(top, d, name) + spec["ending"])
        except Exception as e:
            got = e
        rec.step()
        rec.check(got == {"A": (d, name), "B": top}, "file", "reading %r gave the sensor data %r for %s of directory %s" % (
            spec["names"], got, name, d))
        rec.check(sys.modules.get("colorsys") is colorsys, "module", "a module in use was replaced")
    rec.state((spec["names"], spec["ending"]))
    rec.outcome(spec["names"])
    sys.path[:] = path
    for name in ("sd", "sensors"):
        sys.modules.pop(name, None)


def spaces(tier):
    return [("files of sensor data", gen_names, None), ("sensor data", gen, None), ("sensor data in a file", gen_file, 2 if tier == "quick" else 4)]


def sensor_data(spec):
    every = spec["every"]
    order = list(next(itertools.islice(itertools.permutations(every), spec["perm"], None)))
    out = {}
    for name in order:
        i = every.index(name) % 4
        d = {"sensor_model": ("model", "common" if spec["common"] else name), "sensor_model_parameter": [10. * every.index(name) + j + 1 / 3.
                                                                          for j in range(spec["npar"][i])],
             "sensor_model_constant": [1000. * every.index(name) + j + 1 / 3. for j in range(spec["ncon"][i])]}
        if spec["adj"] >> i & 1:
            d["sensor_adjustment_model"] = ("adjust", name)
        out[name] = d
    return out


def run(spec, rec):
    if "names" in spec:
        return run_names(spec, rec)
    files = []
    for k, p in enumerate(spec["pairs"]):
        f = {"s": p, "m": [1, 1], "M": k + 1, "t": [[1], [1]]}
        files.append(S.fill(f, k))
    sd = sensor_data(spec)
    idx, _ = S.layout(files)
    if spec.get("file"):
        d = os.path.join(rec.scratch, "c")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        paths = []
        for k, f in enumerate(files):
            paths.append(os.path.join(d, "%d.nc" % k))
            S.write_file(paths[-1], f)
        import hashlib
        mod = os.path.join(d, "sd_%s.py" % hashlib.sha1(repr(sorted(spec.items(), key=str)).encode()).hexdigest())
        with open(mod, "w") as g:
            g.write("SENSOR_DATA = %r\n" % sd)
        if spec["file"] == "argument":
            mu = R.open_matchup(paths, mod)
        else:
            mu = R.open_matchup(paths)
            mu.setSensorData(sd)
        rec.check(mu.sensor_data == sd, "sensor_data", "other sensor data: %r" % (mu.sensor_data,))
    else:
        mu, _, _ = S.mem_matchup(MatchUp, Uncertainty, files)
        mu.setSensorData(sd)
    rec.step()
    rec.state((idx["Im"], list(sd), spec["npar"], spec["ncon"], spec["adj"], spec["common"], spec.get("file")))
    sensors = idx["sensors"]
    rec.check(list(mu.idx["sensors"]) == sensors and list(mu.idx["idx"]) == idx["idx"], "idx", "the data index changed")
    labels = list(mu.idx["parameter_sensor"])
    rec.check(len(labels) == len(mu.a), "labels", "%d labels for %d parameters" % (len(labels), len(mu.a)))
    labels_c = list(mu.idx["sensor_model_constant_sensor"])
    rec.check(len(labels_c) == len(mu.sensor_model_constant), "labels", "labels of the constants")
    for s in sensors:
        got = [float(a) for l, a in zip(labels, mu.a) if l == s]
        rec.check(S.near(got, np.float32(sd[s]["sensor_model_parameter"]), 1e-15), "parameter",
                  "parameters of %s: %r, not %r" % (s, got, sd[s]["sensor_model_parameter"]))
        got = [float(a) for l, a in zip(labels_c, mu.sensor_model_constant) if l == s]
        rec.check(S.near(got, sd[s]["sensor_model_constant"], 1e-15), "constant",
                  "constants of %s: %r, not %r" % (s, got, sd[s]["sensor_model_constant"]))
        i = [k for k, l in enumerate(labels) if l == s]
        rec.check(not i or i == list(range(i[0], i[0] + len(i))), "labels", "parameters of %s are not together" % s)
    rec.check(set(labels) <= set(sensors) and set(labels_c) <= set(sensors), "labels",
              "parameters of sensors without match-ups: %r" % labels)
    rec.check(len(mu.sensor_model) == len(sensors) and len(mu.adjustment_model) == len(sensors), "models", "number of models")
    for n, s in enumerate(sensors):
        rec.check(tuple(mu.sensor_model[n]) == ("model", "common" if spec["common"] else s), "models", "model of %s is %r" % (s, mu.sensor_model[n]))
        want = sd[s].get("sensor_adjustment_model")
        got = mu.adjustment_model[n]
        if want is None:
            x = np.array([1.5, -2.0])
            ok = callable(got)
            if ok:
                y, dy = got(x)
                ok = S.eq(y, x) and S.eq(dy, [1, 1])
            rec.check(ok, "adjustment", "the default adjustment of %s is not the identity" % s)
        else:
            rec.check(not callable(got) and tuple(got) == want, "adjustment", "adjustment model of %s is %r" % (s, got))
    rec.outcome((labels, labels_c, [str(x) for x in mu.a]))
