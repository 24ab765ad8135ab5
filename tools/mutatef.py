"""Development aid (no check uses it): systematic mutants of the Fortran demo, and which of them the checks miss.

    mutatef.py OUT.jsonl SEED COUNT JOBS [FILE-SUBSTRING]
"""
import concurrent.futures
import json
import os
import random
import re
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TREE = os.environ.get("MT_TREE", "/tmp/mt/treef")
DIR = "harmonisation_meiv_demo/src/main/fortran/gpl/"
CHECKS = {"mod_time": ["C25"], "mod_sensors": ["C26", "C28"], "mod_matchup": ["C26", "C28"], "mod_matrices": ["C27", "C28"], "mod_reader": ["C29", "C28"],
          "mod_assert": ["C29"], "mod_writer": ["C30"], "mod_nc": ["C30", "C28"], "mod_config": ["C31", "C30"], "mod_type": ["C30"]}
RULES = [(r"\+", "-"), (r"(?<![\w(,=*eE] )(?<!\()-(?!\d?\d?_)", "+"), (r"(?<!\*)\*(?!\*)", "/"), (r"(?<![/(])/(?![/=)])", "*"), (r"<=", "<"), (r"<(?!=)", "<="), (r">=", ">"), (r"(?<!=)>(?![=])", ">="),
         (r"==", "/="), (r"/=", "=="), (r"\.and\.", ".or."), (r"\.or\.", ".and."), (r"\.not\. *", ""), (r"\.true\.", ".false."), (r"\.false\.", ".true."),
         (r"(?<![\w.%])1(?![\w.])", "2"), (r"(?<![\w.%])2(?![\w.])", "1"), (r"(?<![\w.%])0(?![\w.])", "1"), (r"(?<![\w.%])1(?![\w.])", "0"),
         (r"(\w)1\b", r"\g<1>2"), (r"(\w)2\b", r"\g<1>1"), (r"_r\b", "_s"), (r"_s\b", "_r"), (r"\bUr", "Us"), (r"\bUs", "Ur"), (r"_mean\b", "_sdev"), (r"_i\b", "_j"), (r"_j\b", "_i"),
         (r"\btrim\( *([\w%]+) *\)", r"\1"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"_sp\b", "_dp"), (r"\bexit\b", "cycle"), (r"\bcycle\b", "exit")]


def mutants(rel):
    lines = open(os.path.join(TREE, rel)).read().split("\n")
    out = []
    decl = re.compile(r"^\s*(!|use |implicit|private|public|integer|real|logical|character|type|end|module|contains|subroutine|function|pure|elemental|interface|#|\$|recursive|procedure|\s*$)", re.I)
    for n, l in enumerate(lines):
        if decl.match(l):
            continue
        code = l.split("!")[0] if "'" not in l and '"' not in l else l
        for pat, sub in RULES:
            for m in re.finditer(pat, code):
                q = code[:m.start()]
                if q.count("'") % 2 or q.count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(sub) + code[m.end():]
                if new != code:
                    out.append((n, l, new))
        if "=" in code and not re.match(r"\s*(if|do|else|select|case|where|allocate|&)", code, re.I) and not code.rstrip().endswith("&"):
            out.append((n, l, "continue"))
        if re.match(r"\s*call \w+.*\)\s*$", code) or re.match(r"\s*call \w+\s*$", code):
            out.append((n, l, "continue"))
        m = re.match(r"(\s*(?:else )?if \()(.*)(\) then\s*|\) \w.*)$", code)
        if m:
            out += [(n, l, m.group(1) + v + m.group(3)) for v in (".true.", ".false.")]
    return lines, out


def main():
    out, seed, count, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    only = sys.argv[5:] or [""]
    every = []
    for f in sorted(os.listdir(os.path.join(TREE, DIR))):
        if f[:-4] in CHECKS and any(o in f for o in only):
            every += [(f, k) for k in range(len(mutants(DIR + f)[1]))]
    seen = set()
    if os.path.exists(out):
        seen = {(json.loads(x)["rel"], json.loads(x)["at"]) for x in open(out)}
    random.Random(seed).shuffle(every)
    print("%d mutants" % len(every))

    def one(e):
        f, at = e
        lines, ms = mutants(DIR + f)
        n, old, new = ms[at]
        lines[n] = new
        t = tempfile.NamedTemporaryFile("w", suffix=".F90", delete=False)
        t.write("\n".join(lines))
        t.close()
        try:
            r = subprocess.run(["timeout", "1500", PY, "-W", "ignore", os.path.join(V, "tools", "mcdev.py"), "kill", TREE, DIR + f, t.name] + CHECKS[f[:-4]],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        finally:
            os.unlink(t.name)
        return {"rel": f, "at": at, "line": n + 1, "old": old.strip()[:200], "new": new.strip()[:200], "result": r.stdout.strip() or "rc%d" % r.returncode}

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for r in ex.map(one, [e for e in every if e not in seen][:count]):
            o.write(json.dumps(r) + "\n")
            o.flush()


main()
