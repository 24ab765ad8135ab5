"""C18: the weighting matrix of a rolling average averages, for every match-up, the scanlines around it."""

import importlib
import os
import sys

import numpy as np

import support as S

NEEDS = {"py"}
SCOPE = ("1-4 match-ups (thorough 5) in every order, on every pattern of up to 6 scanlines with and without gaps and jitter; "
         "scanline times from 0.003 to 100 s; kernels of 1-4 scanlines, uniform, weighted, with zero weights; one uncertainty, "
         "or one per scanline; both implementations (tools and simulation converter)")
ASSUMPTIONS = ["times are not exactly half-way between two scanlines", "uncertainties are not negative"]
DT = [1.0, 0.5, 8. / 3., 0.01, 0.003, 100.]
KER = {"none": None, "w3": [0.25, 0.5, 0.25], "w2": [0.3, 0.7], "w0": [0.5, 0., 0.5], "w4": [0.1, 0.2, 0.3, 0.4], "w1": [1.]}


def setup(ctx):
    global IMPL
    sys.path.insert(0, os.path.join(ctx.tree, "tools"))
    argv, sys.argv = sys.argv, ["pmh2fiduceo.py", "--quiet"]
    try:
        IMPL = [importlib.import_module(m).generate_rolling_average_w_matrix for m in ("generate_w_matrices", "pmh2fiduceo")]
    finally:
        sys.argv = argv


def gen(ns, offs, jits, dts, kers, us):
    def g(ch):
        n = ch.pick(ns, "match-ups")
        spec = {"impl": ch.idx(2, "implementation"), "off": [], "jit": []}
        for i in range(n):
            spec["off"].append(ch.pick(offs, "scanline"))
        spec["jit"] = list(ch.pick(jits, "jitter"))
        spec["dt"] = ch.pick(dts, "scanline time")
        spec["ker"] = ch.pick(kers, "kernel")
        spec["t0"] = ch.pick([1.2e9, 0.], "start")
        spec["u"] = ch.pick(us, "uncertainty")
        spec["k"] = ch.pick([3, 1, 2, 4], "kernel size") if spec["ker"] == "none" else None
        return spec
    return g


JIT = [(0., 0., 0., 0., 0.), (0.3, -0.4, 0.2, -0.1, 0.4), (-0.2, 0.2, -0.45, 0.45, 0.1)]


def spaces(tier):
    allker = sorted(KER)
    sp = [("order and pattern of scanlines", gen([1, 2, 3], range(6), JIT[:2], DT[:1], ["none", "w4"], ["array"]), None),
          ("scanline times", gen([1, 2, 3], [0, 1, 3, 7], JIT, DT, ["none", "w3"], ["array", "float"]), None),
          ("kernels and uncertainties", gen([1, 2, 3], [0, 2, 5, 1], JIT[:1], [0.5], allker,
                                            ["float", "np", "int", "array", "uneven"]), None),
          ("4 match-ups", gen([4], [0, 1, 4, 9], JIT[:2], [1.0], ["none", "w3"], ["array"]), None)]
    sp += [("long gaps", gen([2, 3], [0, 1, 40000, 70000], JIT[:1], DT[:2], ["none", "w3"], ["array"]), None)]
    if tier == "thorough":
        sp += [("4 match-ups, 6 scanlines", gen([4], range(6), JIT, DT[:3], ["none", "w0"], ["array", "np"]), None),
               ("5 match-ups", gen([5], [0, 1, 2, 8], JIT[1:2], DT[2:4], ["w3"], ["array"]), None)]
    return sp


def run(spec, rec):
    fn = IMPL[spec["impl"]]
    n, dt = len(spec["off"]), spec["dt"]
    jit = [0.] * n if spec["ker"] == "x" else list(spec["jit"])[:n]
    times = np.array([spec["t0"] + dt * (o + j) for o, j in zip(spec["off"], jit)])
    rel = [(times[i] - times[0]) / dt for i in range(n)]
    pos = [int(np.floor(r + 0.5)) for r in rel]
    if any(abs(abs(r - np.floor(r)) - 0.5) < 1e-3 for r in rel):
        return
    pos = [p - min(pos) for p in pos]
    weights = KER[spec["ker"]]
    k = len(weights) if weights else spec["k"]
    w = weights or [1. / k] * k
    single = spec["u"] in ("float", "np", "int")
    if single:
        u = {"float": 0.75, "np": np.float64(0.75), "int": 2}[spec["u"]]
    elif spec["u"] == "array":            # one uncertainty per scanline
        u = np.array([[0.5 + 0.125 * (p + j) for j in range(k)] for p in pos])
    else:                                 # averages that disagree about a scanline: the largest counts
        u = np.array([[0.5 + 0.125 * ((3 * i + 5 * j) % 7) for j in range(k)] for i in range(n)])
        if 0. in w:
            return
    keep = (times.copy(), np.array(u, copy=True))
    W, U = fn(times, dt, u, weights=np.array(weights) if weights else None, kernel_size=k if (single or spec["ker"] != "none")
              else None)
    rec.step(2)
    lines = sorted({p + j for p in pos for j in range(k)})       # the scanlines that any average uses
    dense = np.zeros((n, len(lines)))
    umax = np.zeros(len(lines))
    for i, p in enumerate([lines.index(p) for p in pos]):
        for j in range(k):
            dense[i, p + j] += w[j]
            umax[p + j] = max(umax[p + j], u if single else u[i][j])
    used = [c for c in range(dense.shape[1]) if dense[:, c].any()]
    rec.state((tuple(pos), k, spec["ker"], dt))
    want, wantu = dense[:, used], umax[used]
    got = np.asarray(W.todense())
    rec.check(S.near(got, want, 1e-12), "weights", "W is\n%r, not\n%r (scanlines %r)" % (got, want, pos))
    rec.check(S.near(U, wantu, 1e-12), "uncertainty", "U is %r, not %r" % (U, wantu))
    rec.check(list(W.indptr) == sorted(W.indptr) and len(W.data) == W.nnz, "format", "not a proper sparse matrix")
    rec.check(S.eq(times, keep[0]) and S.eq(u, keep[1]), "changed", "an argument was changed")
    rec.outcome((want.tolist(), wantu.tolist()))
