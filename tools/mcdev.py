"""Development aid (no check uses it): runs a check with line coverage, or on a mutant, stopping at the first violation.

    mcdev.py cov OUT.json PID...          lines of the mirrored tree that the checks execute
    mcdev.py kill TREE REL MUTFILE PID... exit 1 as soon as one of the checks reports a violation; TREE is prebuilt
"""
import json
import os
import shutil
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
sys.dont_write_bytecode = True
import core  # noqa: E402

TOOL = 3


def coverage(out, pids):
    res = {}
    for pid in pids:
        d = tempfile.mkdtemp()
        real_worker, real_build = core.worker, core.Ctx.build
        tree = [None]
        hit = set()

        def build(self, needs):
            real_build(self, needs)
            tree[0] = self.tree
            mon = sys.monitoring
            mon.use_tool_id(TOOL, "cov")

            def line(code, no):
                if tree[0] and code.co_filename.startswith(tree[0]):
                    hit.add((os.path.relpath(code.co_filename, tree[0]), no))
                return mon.DISABLE
            mon.register_callback(TOOL, mon.events.LINE, line)
            mon.set_events(TOOL, mon.events.LINE)

        def worker(*a):
            try:
                real_worker(*a)
            finally:
                with open(os.path.join(d, "%d.json" % os.getpid()), "w") as f:
                    json.dump(sorted(hit), f)
        core.worker, core.Ctx.build = worker, build
        try:
            core.main([pid, "quick"])
        finally:
            core.worker, core.Ctx.build = real_worker, real_build
            sys.monitoring.set_events(TOOL, 0)
            sys.monitoring.free_tool_id(TOOL)
        lines = {}
        for n in os.listdir(d):
            for rel, no in json.load(open(os.path.join(d, n))):
                lines.setdefault(rel, set()).add(no)
        shutil.rmtree(d)
        res[pid] = {k: sorted(v) for k, v in lines.items()}
    json.dump(res, open(out, "w"))


def kill(prebuilt, rel, mutfile, pids):
    """In a fresh process per check."""
    workers = int(os.environ.get("MC_WORKERS", "2"))
    for pid in pids:
        pipe = os.fork()
        if pipe == 0:
            flag = tempfile.mktemp()

            def build(self, needs):
                shutil.copytree(prebuilt, self.tree, symlinks=True)
                shutil.copyfile(mutfile, os.path.join(self.tree, rel))
                sys.path.insert(0, os.path.join(self.tree, "harmonisation_eiv"))
            core.Ctx.build = build
            real_case, real_fail, real_run = core.exec_case, core.Rec.fail, core.run_cases

            def fail(self, key, message):
                n = len(self.fails)
                real_fail(self, key, message)
                if len(self.fails) > n:
                    open(flag, "w").close()

            def case(*a):
                if not os.path.exists(flag):
                    real_case(*a)

            def run(mod, cases, ctx, known, w, timeout, deadline):
                return real_run(mod, cases, ctx, known, workers, timeout, deadline)
            core.Rec.fail, core.exec_case, core.run_cases = fail, case, run
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            rc = 3
            try:
                rc = core.main([pid, "quick"])
            except BaseException:
                rc = 4
            if os.path.exists(flag):
                os.remove(flag)
            os._exit(rc)
        rc = os.waitstatus_to_exitcode(os.waitpid(pipe, 0)[1])
        if rc:
            print("killed %s %d" % (pid, rc))
            return 1
    print("survived " + " ".join(pids))
    return 0


if sys.argv[1] == "cov":
    coverage(sys.argv[2], sys.argv[3:])
else:
    sys.exit(kill(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]))
