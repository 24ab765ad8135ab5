"""Development aid (no check uses it): systematic mutants of the mirrored Python code, and which of them the checks miss.

    mutate.py COV.json OUT.jsonl SEED COUNT JOBS [REL-SUBSTRING]
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def strings(tree):
    """Constants that are documentation or text of messages."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print"):
            for m in ast.walk(n):
                skip.add(id(m))
    return skip


class Mut(object):
    """Applies mutation number `at` of the file, and describes it."""

    def __init__(self, tree, lines):
        self.lines, self.list, self.skip = lines, [], strings(tree)
        self.names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)} | \
                     {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        for node in ast.walk(tree):
            for field, value in ast.iter_fields(node):
                if isinstance(value, list):
                    for i, x in enumerate(value):
                        if isinstance(x, ast.AST):
                            self.visit(node, field, i, x)
                elif isinstance(value, ast.AST):
                    self.visit(node, field, None, value)

    def swap(self, s):
        for a, b in (("1", "2"), ("2", "1")):
            if s.endswith(a) and s[:-1] + b in self.names:
                return s[:-1] + b
        for a, b in (("start", "end"), ("end", "start"), ("random", "systematic"), ("Ur", "Us"), ("Us", "Ur"), ("uR", "uS"), ("uS", "uR"), ("across", "along"),
                     ("along", "across"), ("w_", "u_"), ("u_", "w_"), ("row", "col"), ("col", "row"), ("min", "max"), ("max", "min"), ("_original_idx", "idx"), ("n_sensor", "n_mu"), ("n_mu", "n_sensor")):
            if a in s and s.replace(a, b) in self.names and s.replace(a, b) != s:
                return s.replace(a, b)
        return None

    def visit(self, parent, field, i, x):
        line = getattr(x, "lineno", None)
        if line is None or id(x) in self.skip or isinstance(parent, (ast.Import, ast.ImportFrom)):
            return
        end = getattr(x, "end_lineno", line)
        if not any(k in self.lines for k in range(line, end + 1)):
            return

        def add(what, new):
            self.list.append((what, line, parent, field, i, x, new))

        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            t = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                 ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for o in t.get(type(x.ops[0]), []):
                y = copy.deepcopy(x)
                y.ops = [o()]
                add("compare", y)
        if isinstance(x, ast.BoolOp):
            y = copy.deepcopy(x)
            y.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            add("bool", y)
            for k in range(len(x.values)):
                y = copy.deepcopy(x)
                del y.values[k]
                add("drop", y if len(y.values) > 1 else y.values[0])
        if isinstance(x, ast.BinOp):
            t = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
            if type(x.op) in t and not (isinstance(x.op, ast.Add) and any(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in (x.left, x.right))):
                y = copy.deepcopy(x)
                y.op = t[type(x.op)]()
                add("arith", y)
                add("left", copy.deepcopy(x.left))
                add("right", copy.deepcopy(x.right))
        if isinstance(x, ast.UnaryOp):
            add("unary", copy.deepcopy(x.operand))
        if isinstance(x, ast.Constant):
            if isinstance(x.value, bool):
                add("const", ast.Constant(not x.value))
            elif isinstance(x.value, int):
                add("const", ast.Constant(x.value + 1))
                if x.value > 0:
                    add("const", ast.Constant(x.value - 1))
            elif isinstance(x.value, float):
                add("const", ast.Constant(x.value * 1.01 if x.value else 0.01))
            elif isinstance(x.value, str):
                s = self.swap(x.value)
                if s:
                    add("string", ast.Constant(s))
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            s = self.swap(x.id)
            if s:
                add("name", ast.Name(s, ast.Load()))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            s = self.swap(x.attr)
            if s:
                add("attribute", ast.Attribute(copy.deepcopy(x.value), s, ast.Load()))
        if isinstance(x, (ast.Assign, ast.AugAssign)) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and getattr(x.value.func, "id", "") != "print"):
            add("delete", ast.Pass())
        if isinstance(x, ast.AugAssign):
            add("assign", ast.Assign([copy.deepcopy(x.target)], copy.deepcopy(x.value), lineno=line))
        if isinstance(x, (ast.If, ast.IfExp)):
            for v in (True, False):
                y = copy.deepcopy(x)
                y.test = ast.Constant(v)
                add("if", y)
        if isinstance(x, ast.Continue):
            add("break", ast.Break())
        if isinstance(x, ast.Break):
            add("continue", ast.Continue())
        if isinstance(x, ast.Call):
            if len(x.args) >= 2 and not any(isinstance(k, ast.Starred) for k in x.args):
                for k in range(len(x.args) - 1):
                    if ast.dump(x.args[k]) != ast.dump(x.args[k + 1]) and type(x.args[k]) is type(x.args[k + 1]):
                        y = copy.deepcopy(x)
                        y.args[k], y.args[k + 1] = y.args[k + 1], y.args[k]
                        add("args", y)
            for k in range(len(x.keywords)):
                y = copy.deepcopy(x)
                del y.keywords[k]
                add("keyword", y)
            f = x.func
            n = getattr(f, "id", getattr(f, "attr", ""))
            if n in ("deepcopy", "copy", "abs", "sqrt", "sorted", "asarray", "set", "reversed") and len(x.args) == 1:
                add("unwrap", copy.deepcopy(x.args[0]))
        if isinstance(x, ast.Slice):
            for k in ("lower", "upper"):
                if getattr(x, k) is not None:
                    y = copy.deepcopy(x)
                    setattr(y, k, None)
                    add("slice", y)


def source(path, at, lines):
    tree = ast.parse(open(path).read())
    m = Mut(tree, lines)
    what, line, parent, field, i, x, new = m.list[at]
    old = ast.unparse(x) if not isinstance(x, ast.If) else "if " + ast.unparse(x.test)
    txt = ast.unparse(new) if not isinstance(new, ast.If) else "if " + ast.unparse(new.test)
    new = ast.copy_location(new, x)
    if i is None:
        setattr(parent, field, new)
    else:
        getattr(parent, field)[i] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), what, line, old[:150], txt[:150]


def main():
    cov, out, seed, count, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    only = sys.argv[6:] or [""]
    cov = json.load(open(cov))
    tree = os.environ.get("MT_TREE", "/tmp/mt/tree")
    anchors = {}
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        anchors[p["id"]] = p["anchors"]["files"]
    every = []
    covered = {}
    for pid, d in cov.items():
        for rel, lines in d.items():
            covered.setdefault(rel, {})[pid] = set(lines)
    for rel in sorted(covered):
        if not any(o in rel for o in only) or not rel.endswith(".py") or not os.path.exists(os.path.join(tree, rel)):
            continue
        lines = set().union(*covered[rel].values())
        m = Mut(ast.parse(open(os.path.join(tree, rel)).read()), lines)
        every += [(rel, k, m.list[k][1]) for k in range(len(m.list))]
    seen = set()
    if os.path.exists(out):
        seen = {(json.loads(x)["rel"], json.loads(x)["at"]) for x in open(out)}
    random.Random(seed).shuffle(every)
    print("%d mutants" % len(every))
    todo = [e for e in every if e[:2] not in seen][:count]

    def one(e):
        rel, at, line = e
        lines = set().union(*covered[rel].values())
        try:
            text, what, line, old, new = source(os.path.join(tree, rel), at, lines)
        except RecursionError:
            return None
        pids = [p for p in covered[rel] if line in covered[rel][p] or True]
        near = [p for p in pids if line in covered[rel][p]] or [p for p in pids if any(abs(line - k) < 3 for k in covered[rel][p])]
        first = [p for p in near if rel in anchors[p]]
        rest = [p for p in near if p not in first]
        use = first + (rest[:2] if first else rest[:4])
        f = tempfile.NamedTemporaryFile("w", suffix=".py", delete=False)
        f.write(text)
        f.close()
        try:
            r = subprocess.run(["timeout", "1500", PY, "-W", "ignore", os.path.join(V, "tools", "mcdev.py"), "kill", tree, rel, f.name] + use, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True)
        finally:
            os.unlink(f.name)
        return {"rel": rel, "at": at, "line": line, "what": what, "old": old, "new": new, "result": (r.stdout.strip() or "rc%d" % r.returncode)}

    n = {"killed": 0, "survived": 0, "other": 0}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for r in ex.map(one, todo):
            if r is None:
                continue
            n[r["result"].split()[0] if r["result"].split()[0] in n else "other"] += 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    print(n)


main()
