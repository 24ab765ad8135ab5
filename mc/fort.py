"""The Fortran demo: its modules are built, with the project's own CMake rules, around a main program that runs commands."""

import os
import shutil
import struct
import subprocess

from core import HarnessError, VERIF

ENV = dict(os.environ, FC="gfortran", CC="gcc", LC_ALL="C", OMP_NUM_THREADS="1", GFORTRAN_ERROR_BACKTRACE="0")


def _build(src, out, flags):
    cmd = ["cmake", "-S", src, "-B", out, "-DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod", "-DCMAKE_Fortran_FLAGS=" + flags]
    for c in (cmd, ["cmake", "--build", out, "-j", "8"]):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode:
            raise HarnessError("cannot build the Fortran demo:\n" + r.stdout[-4000:])


def build_driver(ctx):
    """-> the path of the driver. Array bounds are checked, so that reading outside of an array ends it."""
    src = os.path.join(ctx.tree, "harmonisation_meiv_demo")
    dst = os.path.join(ctx.scratch, "driver-src")
    shutil.copytree(src, dst, symlinks=True)
    shutil.copy(os.path.join(VERIF, "mc", "fortran", "driver.F90"), os.path.join(dst, "src", "main", "fortran", "gpl", "demo.F90"))
    out = os.path.join(ctx.scratch, "driver")
    _build(dst, out, "-O1 -fcheck=bounds -ffree-line-length-none")
    return os.path.join(out, "harmonisation-demo")


def build_demo(ctx):
    """-> the build directory of the demo itself."""
    out = os.path.join(ctx.scratch, "demo")
    _build(os.path.join(ctx.tree, "harmonisation_meiv_demo"), out, "-O1")
    return out


# what the compiler's checks of bounds report: a program built without them would have gone on with the memory next to it
CRASHES = ["outside of expected range", "above upper bound", "below lower bound", "ound mismatch", "is less than that of", "SIGSEGV", "SIGABRT"]


def run(exe, text, cwd, timeout=60):
    """-> (exit status, [(name, text)])"""
    r = subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, timeout=timeout, env=ENV,
                       errors="replace")
    rows = []
    for line in r.stdout.split("\n"):
        if line.startswith("@"):
            name, _, rest = line[1:].partition(" ")
            rows.append((name, rest))
    if r.returncode == 99 or (r.returncode == 0 and (not rows or rows[-1][0] != "end")):
        raise HarnessError("the driver did not understand: %r" % text[:300])
    run.stdout, run.stderr = r.stdout, r.stderr
    run.crashed = r.returncode < 0 or any(x in r.stderr for x in CRASHES)
    return r.returncode, rows


def ints(v):
    return " ".join("%d" % x for x in v)


def text(t):
    return t[:-1] if t.endswith("|") else t


def hex_s(values):
    """Single precision values as the driver prints them."""
    return " ".join("%08X" % struct.unpack("<I", struct.pack("<f", float(v)))[0] for v in values)


def hex_d(values):
    return " ".join("%016X" % struct.unpack("<Q", struct.pack("<d", float(v)))[0] for v in values)


def num(values):
    return " ".join(repr(float(v)) for v in values)


class Lists(object):
    """What the lists of sensors and of match-up datasets are to hold."""

    def __init__(self, cap):
        self.cap, self.sensors, self.matchups = cap, [], []

    def matchup(self, i, j, m, ri, rj, name, uuid):
        if len(self.matchups) >= self.cap or not 0 < i < j or any((q["i"], q["j"]) == (i, j) for q in self.matchups):
            return 0
        f = {"name": name, "uuid": uuid, "i": i, "j": j, "m": m, "ri": ri, "rj": rj, "qi": [0.] * (m * ri), "qj": [0.] * (m * rj)}
        for k in ("hi", "hj", "vhi", "vhj", "ti", "tj", "pi", "pj"):
            f[k] = [0] * m
        for k in ("ui", "ic", "iv", "iw"):
            f[k] = [0] * ri
        for k in ("uj", "jc", "jv", "jw"):
            f[k] = [0] * rj
        f["iz"] = f["jz"] = 0
        self.matchups.append(f)
        return len(self.matchups)

    def dump(self):
        out = [("sensors", "%d %d %d %d" % ((self.cap, len(self.sensors)) * 2))]
        start = 1
        for name, k, n, r, o, y, px, pu in self.sensors:
            out += [("name", name + "|"), ("sensor", "%d %d %d %d %d %d %d %d" % ((k, n, r, o) + (start, start + n - 1) * 2)), ("y", hex_d(y)),
                    ("prior_x", hex_d(px))]
            var = [u * u if u > 0 else 0. for u in pu]
            out += [("prior_c", hex_d(var[a] if a == b else 0. for b in range(n) for a in range(n))),
                    ("prior_ci", hex_d((1. / var[a] if var[a] else 0.) if a == b else 0. for b in range(n) for a in range(n)))]
            start += n
        out.append(("matchups", "%d %d %d %d" % ((self.cap, len(self.matchups)) * 2)))
        m0 = 1
        for q in self.matchups:
            out += [("name", q["name"] + "|"), ("uuid", q["uuid"] + "|"),
                    ("matchup", " ".join(str(v) for v in (q["i"], q["j"], q["m"], q["ri"], q["rj"], m0, m0 + q["m"] - 1))),
                    ("shape", "%d %d %d %d" % (q["m"], q["ri"], q["m"], q["rj"]))]
            for k in ("qi", "qj", "hi", "hj", "vhi", "vhj"):
                out.append((k, hex_s(q[k])))
            for k in ("ti", "tj"):
                out.append((k, hex_d(q[k])))
            for k in ("pi", "pj", "ui", "uj", "ic", "jc", "iv", "jv", "iw", "jw"):
                out.append((k, " ".join("%d" % v for v in q[k])))
            out.append(("z", "%d %d" % (q["iz"], q["jz"])))
            m0 += q["m"]
        return out


def crs(rows, base, v0=1.):
    """-> ia, ja, a with distinct values."""
    ia, ja, a = [base], [], []
    for r in rows:
        ja += [c + base for c in r]
        a += [0.5 * (v0 + len(a) + k) for k in range(len(r))]
        ia.append(ia[-1] + len(r))
    return ia, ja, a


def banded(rows, a, step, n=None):
    """What is to be stored: of every step-th row, the values from its first to its last column."""
    at, ib, jb, b, k = 0, [1], [], [], 0
    for i, r in enumerate(rows):
        vals = dict(zip(r, a[at:at + len(r)]))
        at += len(r)
        if i % step:
            continue
        if r:
            lo, hi = min(r), max(r)
            b += [vals.get(c, 0.) for c in range(lo, hi + 1)]
            jb.append(lo + 1)
        else:
            jb.append(0)
        ib.append(len(b) + 1)
    if n is None:
        n = max([c + 1 for r in rows for c in r], default=None)
    return n, ib, jb, b


def w_rows(w):
    n, ib, jb, b = w
    return [("w", "%d %s" % (len(jb), n)), ("ia", " ".join(map(str, ib))), ("ja", " ".join(map(str, jb))), ("a", hex_s(b))]


def compare(rec, rows, want, key):
    for g, w in zip(rows + [None] * len(want), want):
        # the number of columns of a matrix without any element is not defined
        if g is not None and w[0] == "w" and w[1].endswith("None"):
            g, w = (g[0], g[1].split()[0]), (w[0], w[1].split()[0])
        if g != w:
            rec.fail(key + ":" + w[0], "expected %r, got %r" % (w, g))
            return
    rec.check(len(rows) == len(want), key + ":more", "unexpected %r" % (rows[len(want):][:1],))
