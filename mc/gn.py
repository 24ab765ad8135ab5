"""Small harmonisation problems and the reference model of their residuals, Jacobian and solution, for the solver checks."""

import copy
import multiprocessing

import numpy as np

import support as S

KINDS = ["diag", "shared", "ave3", "gap"]
SCALED = False


def problem(ch, pairs, ms, Ms, types, W=True):
    """Choices of error types and weighting matrices for the columns of the series."""
    files = []
    for p, M in zip(pairs, Ms):
        f = {"s": p, "m": [ms[p[0]], ms[p[1]]], "M": M, "t": [[], []], "w": [[], []], "u": [[], []], "kinds": []}
        for side in (0, 1):
            for _ in range(f["m"][side]):
                t = ch.pick(types, "type")
                f["t"][side].append(t)
                no = 0
                if t > 2:
                    kind = ch.pick(KINDS + (["the first"] if f["kinds"] else []), "W") if W else "shared"
                    if kind == "the first":
                        no = 1
                    else:
                        f["kinds"].append(kind)
                        no = len(f["kinds"])
                f["w"][side].append(no)
                f["u"][side].append(no)
        files.append(f)
    return {"files": files}


def many(ch, n, Ms, most=None):
    """n series in the patterns of support.many, the first sensor for reference."""
    files = S.many(ch, n, Ms)
    ref = files[0]["s"][0]
    for k, f in enumerate(files):
        f["kinds"] = [KINDS[(k + i) % len(KINDS)] for i in range(f["n"])]
        for side in (0, 1):
            m = 1 if f["s"][side] == ref else min(f["m"][side], most or 12)
            f["m"][side] = m
            for key in "twu":
                f[key][side] = f[key][side][:m]
        used = sorted({w for side in (0, 1) for w in f["w"][side] if w})
        f["kinds"] = [f["kinds"][w - 1] for w in used]
        for key in "wu":
            f[key] = [[used.index(w) + 1 if w else 0 for w in side] for side in f[key]]
    return {"files": files, "refs": [ref]}


class Reference(object):
    """The sensor function of a reference, as the project has it."""

    def __call__(self, X, a, c, xt, at, t):
        return np.asarray(X)[:, 0], None


class SensorModel(object):
    """A sensor function that depends on all it is given, and its derivatives."""

    def __init__(self, tag, n_cov, n_par, curved=True):
        self.g = 0.5 + 0.25 * np.arange(1, n_cov + 1) + 0.125 * tag
        self.n_cov, self.n_par, self.q = n_cov, n_par, 0.02 if curved else 0.

    def __call__(self, X, a, c, xt, at, t):
        X = np.asarray(X, float)
        a = np.asarray(a, float)
        q, g, n_cov = self.q, self.g, self.n_cov
        e = 0.125 * np.asarray(xt, float) + 0.0625 * np.asarray(at, float) + 0.25 * np.asarray(t, float)
        R = X.dot(g) + q * X[:, 0] * X[:, -1] + float(np.sum(c)) + 0.0625 * e
        J = np.zeros((len(X), n_cov + self.n_par))
        J[:, :n_cov] = g
        J[:, 0] += q * X[:, -1]
        J[:, n_cov - 1] += q * X[:, 0]
        for k in range(self.n_par):
            col = [np.ones(len(X)), X[:, -1] * 0.5, X[:, 0] * 0.25 + e][k]
            R = R + a[k] * col
            J[:, n_cov + k] = col
            if k == 1:
                J[:, n_cov - 1] += a[k] * 0.5
            elif k == 2:
                J[:, 0] += a[k] * 0.25
        return R, J


def sensor_model(tag, n_cov, n_par, ref, curved=True):
    return Reference() if ref else SensorModel(tag, n_cov, n_par, curved)


class Adjustment(object):
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, R):
        return R + 0.03 * self.kind * R ** 2, 1 + 0.06 * self.kind * R


def adjustment(kind):
    return Adjustment(kind)


def fill(files, scale=1.):
    out = []
    for k, f in enumerate(files):
        f = dict(S.fill(f, k), s=S.names(f["s"]))
        M = f["M"]
        for n, v in enumerate(("X1", "X2")):
            m = f["m"][n]
            a = np.arange(M * m).reshape(M, m)
            f[v] = 2. + (a * 7 % 11) * 0.3 + 0.5 * n + 0.25 * k + np.arange(m)
        for v in ("Ur1", "Ur2", "Us1", "Us2"):
            a = np.arange(f[v].size).reshape(f[v].shape)
            f[v] = scale * (0.25 + (a * 3 % 5) * 0.0625 + (0.125 if v[1] == "s" else 0.))
        f["K"] = 0.5 + (np.arange(M) * 5 % 7) * 0.25
        f["Kr"] = 0.5 + (np.arange(M) % 3) * 0.125
        f["Ks"] = 0.25 + (np.arange(M) % 2) * 0.125
        f["W"], f["U"] = [], []
        for i, kind in enumerate(f["kinds"]):
            W = S.w_dense(kind, M)
            if kind == "diag" and SCALED:       # rows that do not sum to one
                W = W * (0.75 + 0.25 * (np.arange(M) % 4))[:, None]
            f["W"].append(W)
            f["U"].append(scale * (0.25 + (np.arange(W.shape[1]) * 3 % 4) * 0.0625 + 0.0625 * i))
        out.append(f)
    return out


class Model(object):
    """The problem in the terms of its specification: dense, in double precision."""

    def __init__(self, files, refs, npar, adj, curved=True):
        self.files = files
        refs = S.names(refs)
        self.idx, self.blocks = S.layout(files)
        self.sensors = self.idx["sensors"]
        self.npar = {s: (0 if s in refs else npar[i % len(npar)]) for i, s in enumerate(self.sensors)}
        self.par_of = [s for s in self.sensors for _ in range(self.npar[s])]
        self.a0 = np.array([0.5 + 0.25 * i for i in range(len(self.par_of))])
        self.con = {s: [0.25 * i] if i % 2 else [] for i, s in enumerate(self.sensors)}
        ms = self.idx["sensor_ms"]
        self.models = [sensor_model(i, ms[i], self.npar[s], s in refs, curved) for i, s in enumerate(self.sensors)]
        self.refs = refs
        # 0 none, 1 the sensors but not the references, 2 all but the first sensor, 3 the first sensor, a reference, too
        self.adj = [adjustment(adj if s not in refs else 0) if adj < 2 else adjustment(i if adj == 2 else (i + 1) % 3) for i, s in enumerate(self.sensors)]
        total = self.idx["cNm"][-1]
        self.pix = {v: (np.arange(total) * (i + 2) % 5) * 1.0 + i for i, v in enumerate(S.OPT + ["time1", "time2"])}
        # independent variables
        self.n = []
        for (s, k, cov, side) in self.blocks:
            w = files[k - 1]["u"][side][cov - 1]
            self.n.append(len(files[k - 1]["U"][w - 1]) if w else files[k - 1]["M"])
        self.off = np.concatenate([[0], np.cumsum(self.n)]).astype(int)
        self.sys = []
        for (s, k, cov, side) in self.blocks:
            if files[k - 1]["t"][side][cov - 1] in (2, 4) and (s, cov) not in self.sys:
                self.sys.append((s, cov))
        self.N = int(self.off[-1] + len(self.sys))
        self.Na = len(self.a0)
        self.uk = np.concatenate([np.hypot(f["Kr"], f["Ks"]) for f in files])
        self.k = np.concatenate([f["K"] for f in files])
        # linear map from independent variables to the covariates of every block
        self.A = []
        for b, (s, k, cov, side) in enumerate(self.blocks):
            f = files[k - 1]
            M = f["M"]
            A = np.zeros((M, self.N))
            t, w = f["t"][side][cov - 1], f["w"][side][cov - 1]
            us = f["Us%d" % (side + 1)][:, cov - 1]
            if w:
                A[:, self.off[b]:self.off[b + 1]] = f["W"][w - 1] * f["U"][w - 1]
                if t == 4:
                    A[:, self.off[-1] + self.sys.index((s, cov))] = f["W"][w - 1].sum(1) * us[0]
            else:
                A[:, self.off[b]:self.off[b + 1]] = np.diag(f["Ur%d" % (side + 1)][:, cov - 1])
                if t == 2:
                    A[:, self.off[-1] + self.sys.index((s, cov))] = us
            self.A.append(A)

    def evaluate(self, z):
        """Residuals and Jacobian at z = (independent variables, parameters), with x0 the transformed data."""
        z = np.asarray(z, float)
        x, a = z[:self.N], z[self.N:]
        Nk = self.idx["cNm"][-1]
        K = np.zeros(Nk)
        J = np.zeros((Nk, self.N + self.Na))
        self.measurand = {}
        for k, f in enumerate(self.files):
            i0, i1 = self.idx["cNm"][k], self.idx["cNm"][k + 1]
            for side, name in enumerate(f["s"]):
                s = self.sensors.index(name)
                bs = [(b, cov) for b, (s_, k_, cov, side_) in enumerate(self.blocks) if s_ == s and k_ == k + 1]
                bs.sort(key=lambda v: v[1])
                X = np.array([self.A[b].dot(x) for b, _ in bs]).T
                p = [i for i, l in enumerate(self.par_of) if l == name]
                pixs = [self.pix[v + str(side + 1)][i0:i1] for v in ("across_track_index", "along_track_index", "time")]
                R, JR = self.models[s](X, a[p], self.con[name], *pixs)
                if JR is None:
                    JR = np.ones((len(X), 1))
                self.measurand[(k, side)] = R
                B, JB = self.adj[s](R)
                sign = 1. if side else -1.
                K[i0:i1] += sign * B
                for j, (b, _) in enumerate(bs):
                    J[i0:i1] += np.hstack([sign * (JB * JR[:, j])[:, None] * self.A[b], np.zeros((i1 - i0, self.Na))])
                for j, i in enumerate(p):
                    J[i0:i1, self.N + i] += sign * JB * JR[:, len(bs) + j]
        return K, J

    def residuals(self, z, x0, k0):
        K, J = self.evaluate(z)
        f = np.concatenate([np.asarray(z[:self.N], float) - x0, (K - k0) / self.uk])
        Jf = np.vstack([np.hstack([np.eye(self.N), np.zeros((self.N, self.Na))]), J / self.uk[:, None]])
        return f, Jf

    def solve(self, x0, k0, a0, iters=60):
        """The least-squares solution, by damped dense Gauss-Newton steps in double precision."""
        z = np.concatenate([x0, a0])
        f, J = self.residuals(z, x0, k0)
        for _ in range(iters):
            d = np.linalg.lstsq(J, -f, rcond=None)[0]
            t = 1.
            while True:
                f1, J1 = self.residuals(z + t * d, x0, k0)
                if f1.dot(f1) <= f.dot(f) * (1 + 1e-12) or t < 1e-6:
                    break
                t /= 2
            z, f, J = z + t * d, f1, J1
            if np.max(np.abs(d)) < 1e-10 * (1 + np.max(np.abs(z))):
                break
        return z, f, J

    def matchup(self, MatchUp, Uncertainty):
        mu, idx, blocks = S.mem_matchup(MatchUp, Uncertainty, self.files, dtype=np.float32)
        for v, x in self.pix.items():
            setattr(mu, v, x.copy())
        mu.a = np.float32(self.a0)
        mu.idx["parameter_sensor"] = list(self.par_of)
        mu.sensor_model_constant = [c for s in self.sensors for c in self.con[s]]
        mu.idx["sensor_model_constant_sensor"] = [s for s in self.sensors for _ in self.con[s]]
        mu.sensor_model = list(self.models)
        mu.adjustment_model = list(self.adj)
        mu._original_idx = copy.deepcopy(mu.idx)
        return mu


class Result(object):
    """What an asynchronous task gives."""

    def __init__(self, r, callback=None):
        self.r = r
        if callback:
            callback(r)

    def get(self, timeout=None):
        return self.r

    result = get

    def ready(self):
        return True

    successful = done = ready

    def wait(self, timeout=None):
        pass


REALPOOL = multiprocessing.Pool


def use_pool(module, real=False):
    """Makes the code under test work with a SerialPool, however it imports its pool."""
    multiprocessing.Pool = REALPOOL if real else SerialPool
    if hasattr(module, "Pool"):
        module.Pool = multiprocessing.Pool


class SerialPool(object):
    """A pool of processes that runs in this one; tasks that may complete in any order complete in `order`."""
    order = "reversed"

    def __init__(self, *a, **k):
        pass

    def map(self, f, items, *a, **k):
        return [f(i) for i in items]

    def imap(self, f, items, *a, **k):
        return iter([f(i) for i in items])

    def imap_unordered(self, f, items, *a, **k):
        out = [f(i) for i in items]
        if self.order == "reversed":
            return iter(out[::-1])
        n = {"in order": 0, "last first": -1, "first last": 1}[self.order]
        return iter(out[n:] + out[:n])

    def starmap(self, f, items, *a, **k):
        return [f(*i) for i in items]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def map_async(self, f, items, chunksize=None, callback=None, *a, **k):
        return Result(self.map(f, items), callback)

    def starmap_async(self, f, items, chunksize=None, callback=None, *a, **k):
        return Result(self.starmap(f, items), callback)

    def apply_async(self, f, args=(), kwds={}, callback=None, *a, **k):
        return Result(f(*args, **kwds), callback)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None
