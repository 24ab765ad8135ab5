"""Shared machinery of the checks: exhaustive enumeration of choices, execution of every case on the real code,
violations with replay files, known findings and evidence.

A check is a module mc/checks/cNN.py with

    NEEDS = {"py", "cython", "compiled models", "fortran"}    what is built from /repo's working tree into a private scratch directory
    def setup(ctx)                         once, after the build (imports of the code under test go here)
    def spaces(tier)                       [(name, generator function over Choices, bound or None), ...]
    def run(spec, rec)                     executes one case; reports through rec

`spaces` gives finite choice trees; each leaf (a JSON-able spec) is one execution that is run on the real code and compared
with the reference model in the check. Nothing is sampled: a tree is enumerated completely, or completely up to the stated
number of deviations from the default choices.
"""

import contextlib
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CASE_TIMEOUT = 60
MAX_NEW = 8  # new violations after which a worker stops


class HarnessError(Exception):
    """Something is wrong with the check itself, not with the code under test."""


class Pruned(Exception):
    """Raised by a generator: this combination of choices is not a case."""


# ------------------------------------------------------------------------------------------------ choice enumeration

class Choices(object):
    def __init__(self, prefix):
        self.prefix, self.taken, self.widths, self.labels = prefix, [], [], []

    def idx(self, n, label=""):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise HarnessError("choice %d out of range at point %d (%s)" % (c, i, label))
        self.taken.append(c)
        self.widths.append(n)
        self.labels.append(label)
        return c

    def pick(self, options, label=""):
        options = list(options)
        return options[self.idx(len(options), label)]

    def flag(self, label=""):
        return bool(self.idx(2, label))


def enumerate_space(gen, bound=None):
    """Yields (spec, n_choice_points) for every leaf of gen's choice tree with at most `bound` non-default choices."""
    stack = [()]
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        try:
            spec = gen(ch)
        except Pruned:
            spec = None
        if ch.taken[:len(prefix)] != list(prefix):
            raise HarnessError("a choice tree is not deterministic")
        if spec is not None:
            yield spec, len(ch.taken)
        new = []
        used = sum(1 for c in prefix if c)
        for i in range(len(prefix), len(ch.taken)):
            # choices after the prefix were all the default
            if bound is not None and used + 1 > bound:
                break
            for alt in range(1, ch.widths[i]):
                new.append(tuple(ch.taken[:i]) + (alt,))
        stack.extend(reversed(new))


# --------------------------------------------------------------------------------------------------- building the code

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Ctx(object):
    def __init__(self, pid, tier, scratch):
        self.pid, self.tier, self.scratch = pid, tier, scratch
        self.tree = os.path.join(scratch, "tree")
        self.build_error = None
        self.data = {}

    def build(self, needs):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", FC="gfortran", CC="gcc",
                   HOME=os.environ.get("HOME", "/root"))
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONHOME", None)
        names = ["harmonisation_eiv", "tools"] + (["harmonisation_meiv_demo"] if "fortran" in needs else [])
        names = [n for n in names if os.path.isdir(os.path.join(REPO, n))]
        r = _run([PY, "-W", "ignore", os.path.join(VERIF, "mc", "py2tree.py"), REPO, self.tree] + names, env=env)
        if r.returncode:
            # a file that does not convert raises SyntaxError when it is imported; that is seen there
            sys.stderr.write(r.stdout)
        if "cython" in needs or "compiled models" in needs:
            procs = []
            base = os.path.join(self.tree, "harmonisation_eiv", "harmonisation")
            inc = _run([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());"
                                  "print(sysconfig.get_paths()['include']);"
                                  "print(sysconfig.get_config_var('EXT_SUFFIX'))"], env=env).stdout.split()
            rels = ["core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx",
                    "core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/cython_lib_GN_algo.pyx"]
            for rel in (rels if "cython" in needs else []) + (["sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx"] if "compiled models" in needs else []):
                pyx = os.path.join(base, rel)
                if not os.path.exists(pyx):
                    raise HarnessError("no " + rel)
                c, so = pyx[:-4] + ".c", pyx[:-4] + inc[2]
                # cython takes the package from the __init__.py's around it, as setup.py does
                cmd = ("cd '%s' && %s -2 -o '%s' '%s' && gcc -O1 -w -fPIC -shared -fwrapv -fno-strict-aliasing "
                       "-I'%s' -I'%s' '%s' -o '%s'"
                       % (os.path.join(self.tree, "harmonisation_eiv"), "/opt/venv/bin/cython", c, pyx, inc[0], inc[1],
                          c, so))
                procs.append((rel, subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE,
                                                    stderr=subprocess.STDOUT, text=True, env=env)))
            for rel, p in procs:
                out = p.communicate()[0]
                if p.returncode:
                    raise HarnessError("cannot build %s:\n%s" % (rel, out))
        sys.path.insert(0, os.path.join(self.tree, "harmonisation_eiv"))


# ------------------------------------------------------------------------------------------------------------ recording

class Rec(object):
    """What one worker saw."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.transitions = 0
        self.validated = 0
        self.states = set()
        self.outcomes = set()
        self.fails = []      # (index, key, message, spec)
        self.known = {}      # key -> first message
        self.counts = {}
        self._cur = None

    def state(self, obj):
        """Counts a distinct abstract state (canonical, hashable or picklable)."""
        if not isinstance(obj, (bytes, str)):
            obj = repr(obj)
        if isinstance(obj, str):
            obj = obj.encode()
        self.states.add(hashlib.blake2b(obj, digest_size=8).digest())

    def outcome(self, obj):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, key, message):
        i, spec = self._cur
        if key in self.known_keys:
            self.known.setdefault(key, message)
            return
        if len(self.fails) < 200:
            self.fails.append((i, key, message, spec))

    def check(self, cond, key, message):
        if not cond:
            self.fail(key, message)
        return bool(cond)


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def load_known(pid):
    keys, path = {}, os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    assert key.startswith("key=")
                    keys[key[4:]] = what
    return keys


@contextlib.contextmanager
def quiet_fds():
    """Sends what the code under test prints to /dev/null."""
    sys.stdout.flush()
    sys.stderr.flush()
    save = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("MC_STDERR"):
        os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(save[0], 1)
        os.dup2(save[1], 2)
        for fd in save + (null,):
            os.close(fd)


def exec_case(mod, i, spec, rec, timeout):
    rec._cur = (i, spec)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        mod.run(spec, rec)
        signal.alarm(0)
        rec.validated += 1
    except HarnessError:
        signal.alarm(0)
        raise
    except CaseTimeout:
        rec.fail("no-answer", "no answer within %d s" % timeout)
    except (Exception, SystemExit) as e:
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])
        rec.fail("exception:%s" % type(e).__name__, "%s: %s (%s)" % (type(e).__name__, str(e)[:300], where))
    finally:
        signal.alarm(0)


def worker(mod, cases, lo, step, out_path, prog_path, scratch, known, timeout, deadline):
    rec = Rec(scratch)
    rec.known_keys = known
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    done = 0
    harness = None
    capped = False
    with open(prog_path, "wb", buffering=0) as prog, quiet_fds():
        for i in range(lo, len(cases), step):
            if time.time() > deadline:
                capped = True
                break
            prog.seek(0)
            prog.write(b"%12d" % i)
            try:
                exec_case(mod, i, cases[i], rec, timeout)
            except HarnessError as e:
                harness = "".join(traceback.format_exception(e))
                break
            done += 1
            if len({f[1] for f in rec.fails}) >= MAX_NEW or len(rec.fails) >= 60:
                break
    rec.known_keys = None
    rec._cur = None
    with open(out_path, "wb") as f:
        pickle.dump({"rec": rec.__dict__, "done": done, "harness": harness, "capped": capped}, f)


def run_cases(mod, cases, ctx, known, workers, timeout, deadline):
    """Runs every case, on forked workers. Returns the merged record."""
    total = Rec(ctx.scratch)
    done, capped = 0, False
    pids = {}
    n = max(1, min(workers, len(cases)))
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        out, prog = (os.path.join(ctx.scratch, "w%d.%s" % (w, e)) for e in ("out", "prog"))
        pid = os.fork()
        if pid == 0:
            try:
                worker(mod, cases, w, n, out, prog, os.path.join(ctx.scratch, "work%d" % w), known, timeout, deadline)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(77)
        pids[pid] = (w, out, prog)
    broken = []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w, out, prog = pids.pop(pid)
        if status == 0 and os.path.exists(out):
            with open(out, "rb") as f:
                r = pickle.load(f)
            if r["harness"]:
                broken.append(r["harness"])
            done += r["done"]
            capped = capped or r["capped"]
            d = r["rec"]
            total.transitions += d["transitions"]
            total.validated += d["validated"]
            total.states |= d["states"]
            total.outcomes |= d["outcomes"]
            total.fails += d["fails"]
            for k, v in d["known"].items():
                total.known.setdefault(k, v)
            for k, v in d["counts"].items():
                total.counts[k] = total.counts.get(k, 0) + v
        elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
            broken.append("worker %d failed" % w)
        else:
            try:
                with open(prog, "rb") as f:
                    i = int(f.read())
            except (OSError, ValueError):
                broken.append("worker %d died at once" % w)
                continue
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else -1
            if sig == signal.SIGKILL:
                broken.append("worker %d was killed (memory?)" % w)
            total.fails.append((i, "crash", "the process was ended (signal %d, status %d) by this case"
                                % (sig, os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1), cases[i]))
    if broken and not total.fails:
        raise HarnessError("\n".join(broken))
    total.fails.sort(key=lambda f: f[0])
    return total, done, capped


# ------------------------------------------------------------------------------------------------------------------ main

def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, bytes):
        return x.decode("latin1")
    return x


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(argv[1:], 1):
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid.lower())
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    try:
        return _main(pid, tier, seed, replay, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, tier, seed, replay, scratch, t0):
    sys.path.insert(0, os.path.join(VERIF, "mc"))
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier, scratch)
    known = load_known(pid)
    needs = getattr(mod, "NEEDS", {"py"})
    ctx.build(needs)
    setup_fail = None
    try:
        with quiet_fds():
            mod.setup(ctx)
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        setup_fail = "".join(traceback.format_exception(e))
    if setup_fail is not None:
        # a change under test that cannot even be imported breaks the property for every input
        sys.stderr.write(setup_fail)
        path = write_replay(pid, "setup", setup_fail, None)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    if replay:
        with open(replay) as f:
            doc = json.load(f)
        rec = Rec(os.path.join(scratch, "replay"))
        rec.known_keys = {}
        os.makedirs(rec.scratch)
        os.chdir(rec.scratch)
        with quiet_fds():
            exec_case(mod, 0, doc["case"], rec, CASE_TIMEOUT * 5)
        for _, key, msg, _ in rec.fails:
            print("%s: %s" % (key, msg))
        if rec.fails:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("held on the replayed case")
        return 0

    cases, points, per_space = [], 0, []
    for name, gen, bound in mod.spaces(tier):
        n0 = len(cases)
        for spec, npts in enumerate_space(gen, bound):
            spec = jsonable(spec)
            spec["space"] = name
            cases.append(spec)
            points += npts
        per_space.append({"space": name, "executions": len(cases) - n0,
                          "deviation_bound": bound if bound is not None else "none (complete product)"})
    if not cases:
        raise HarnessError("no cases")
    cap = float(os.environ.get("MC_CAP", 780 if tier == "quick" else 7200))
    total, done, capped = run_cases(mod, cases, ctx, known, getattr(mod, "WORKERS", 8),
                                    getattr(mod, "TIMEOUT", CASE_TIMEOUT), t0 + cap)
    vac = getattr(mod, "vacuous", lambda total: None)(total) if not total.fails else None
    if vac:
        raise HarnessError("vacuous exploration: " + vac)

    # one violation per distinct key, simplest case first
    seen = {}
    for i, key, msg, spec in total.fails:
        seen.setdefault(key, (msg, spec))
    for key, msg in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
    shown = list(seen.items())[:5]
    for key, (msg, spec) in shown:
        path = write_replay(pid, key, msg, spec)
        sys.stderr.write("%s [%s] %s\n" % (pid, key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    import random
    rnd = random.Random(seed)  # only picks which cases are written out as samples
    samples = [cases[0], cases[-1]] + [cases[rnd.randrange(len(cases))] for _ in range(2)]
    cov = {"states": len(total.states), "transitions": total.transitions,
           "traces_validated_against_impl": total.validated,
           "evaluations": done, "distinct_outcomes": len(total.outcomes),
           "choice_points": points, "spaces": per_space,
           "exhaustive": bool(done == len(cases) and not capped and not total.fails),
           "planned_executions": len(cases), "samples": samples}
    cov.update(total.counts)
    if hasattr(mod, "SCOPE"):
        cov["scope"] = mod.SCOPE
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(seen), "known_findings": sorted(total.known)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(jsonable(ev), f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %d executions of %d planned, %d states, %d transitions, %d distinct outcomes, %d violation(s), %.1f s%s"
          % (pid, tier, done, len(cases), len(total.states), total.transitions, len(total.outcomes), len(seen),
             time.time() - t0, " CAPPED" if capped else ""))
    return 1 if seen else 0


def write_replay(pid, key, msg, spec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": pid, "key": key, "message": msg, "case": spec,
                   "replay_cmd": "bash /verif/mc/check %s --replay %s" % (pid, path)}, f, indent=1, default=str)
    return path


if __name__ == "__main__":
    sys.modules["core"] = sys.modules["__main__"]
    try:
        rc = main(sys.argv[1:])
    except HarnessError as e:
        traceback.print_exc()
        print("ERROR of the check: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
