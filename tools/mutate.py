#!/usr/bin/env python3
"""Random token-level mutants of the anchor files of properties, run against their check (development aid, not part of any check).

usage: mutate.py OUT.jsonl SEED N_PER_PROP JOBS [C01 C02 ...]
Each mutant: private copy of /repo (own mount namespace), the mutated module's own self-test, then the check (quick tier).
"""
import ast, io, json, os, random, re, shutil, subprocess, sys, tempfile, time, tokenize
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, seed, per, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = sys.argv[5:]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

INSTR = [(r"(?<![<\-=])<(?![<=>a-z])", ["<="]), (r"<=", ["<"]), (r"(?<!-)>(?![>=])", [">="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]),
         (r"\bi0\b", ["i1"]), (r"\bi1\b", ["i2"]), (r"\bi2\b", ["i0"]), (r"\bNxx0\b", ["Nxx1"]), (r"NGHOSTS0", ["NGHOSTS1"]), (r"NGHOSTS1", ["NGHOSTS2"]), (r"NGHOSTS2", ["NGHOSTS0"]), (r"(?<![\w.])([1-9]\d*)(?![\w.])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(int(m.group(1)) - 1)]),
         (r"\b0\.5\b", ["0.25"]), (r"MIN\(", ["MAX("]), (r"MAX\(", ["MIN("]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"==", ["!="]), (r"!=", ["=="]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"xx0", ["xx1"]), (r"xx1", ["xx2"]), (r"cos\(", ["sin("]), (r"\+\+", ["+=2"])]
CODE = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r"(?<![<\-=])<(?![<=])", ["<="]), (r"(?<!-)>(?![>=])", [">="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" and ", [" or "]), (r" or ", [" and "]), (r"\bnot ", [""]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]),
        (r"\[i\]\[j\]", ["[j][i]"]), (r"\[i\]", ["[j]"]), (r"\[j\]", ["[i]", "[k]"]), (r"\[k\]", ["[j]"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r"(?<![\w.])(\d+)(?![\w.])", [lambda m: str(int(m.group(1)) + 1)]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*\*", ["*"]), (r"range\((\w+)\)", [lambda m: f"range(1, {m.group(1)})"]), (r"range\(i, ", ["range("]), (r"\bcontinue\b", ["pass"]), (r"\bbreak\b", ["pass"])]


def regions(src):
    """(start, end, in_string) spans worth mutating."""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    skip = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant) and isinstance(n.body[0].value.value, str):
            skip.append((n.body[0].lineno, n.body[0].end_lineno))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.arguments)) and hasattr(n, "lineno"):
            skip.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            skip.append((n.lineno, n.end_lineno))
    bad = set(k for a, b in skip for k in range(a, b + 1))
    res = []
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            res.append((n.lineno, n.end_lineno))
        elif isinstance(n, (ast.If, ast.While)):
            res.append((n.test.lineno, n.test.end_lineno))
        elif isinstance(n, ast.For):
            res.append((n.iter.lineno, n.iter.end_lineno))
    good = sorted(set(k for a, b in res for k in range(a, b + 1)) - bad)
    instr = {}
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type in (tokenize.STRING, getattr(tokenize, "FSTRING_MIDDLE", -1)):
            for k in range(t.start[0], t.end[0] + 1):
                instr.setdefault(k, []).append((t.start[1] if k == t.start[0] else 0, t.end[1] if k == t.end[0] else 10 ** 6))
    return good, instr, lines


def mutant(src, rng):
    good, instr, lines = regions(src)
    for _ in range(400):
        k = rng.choice(good)
        l = lines[k - 1]
        if l.strip().startswith("#") or "//" in l and l.strip().startswith("//") or not l.strip() or "desc" in l or "print(" in l or "fprintf" in l or ":param" in l:
            continue
        cut = len(l)
        cands = []
        for pats, s in ((INSTR, True), (CODE, False)):
            for p, rs in pats:
                for m in re.finditer(p, l[:cut]):
                    ins = any(a <= m.start() < b for a, b in instr.get(k, []))
                    c = l.find("//") if ins else l.find("#")
                    if ins == s and (c < 0 or m.start() < c):
                        for r in rs:
                            cands.append((m.start(), m.end(), r(m) if callable(r) else r))
        if not cands:
            continue
        a, b, r = rng.choice(cands)
        new = l[:a] + r + l[b:]
        s2 = "".join(lines[:k - 1]) + new + "".join(lines[k:])
        try:
            ast.parse(s2)
        except SyntaxError:
            continue
        return s2, k, l.strip(), new.strip()


def run(p, f, rng):
    src = open(os.path.join("/repo", f)).read()
    m = mutant(src, rng)
    if not m:
        return
    s2, k, old, new = m
    W = tempfile.mkdtemp(dir="/var/tmp", prefix="mut.")
    rec = dict(prop=p["id"], file=f, line=k, old=old, new=new)
    try:
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=evidence", "--exclude=seeded", V + "/", W + "/verif/"]) if shutil.which("rsync") else subprocess.run(f"mkdir {W}/verif && cd {V} && cp -a checks lib tools known_findings.json properties.jsonl MANIFEST.json {W}/verif/ && mkdir -p {W}/verif/evidence", shell=True, check=True)
        open(os.path.join(W, "repo", f), "w").write(s2)
        sh = f"""mount --bind {W}/repo /repo; mount --bind {W}/verif /verif; mount -t tmpfs none /tmp
cd /repo; PYTHONPATH=/repo timeout 400 /opt/venv/bin/python {f} >/tmp/self.log 2>&1 || exit 77
git status --porcelain | grep -q '^??' && exit 77
cd /verif; VERIF_SEED=1 timeout 900 python3 checks/{p['id'].lower()}.py --tier quick -j {jobs} > {W}/c.log 2>&1; exit $?"""
        t = time.time()
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        rec["rc"], rec["s"] = r.returncode, round(time.time() - t)
        if r.returncode != 77 and os.path.exists(W + "/c.log"):
            log = open(W + "/c.log", errors="replace").read()
            rec["v"] = [l[:160] for l in log.split("\n") if "VIOLATION" in l][:1]
            if r.returncode not in (0, 1):
                rec["tail"] = log[-400:]
    finally:
        shutil.rmtree(W, ignore_errors=True)
    open(out, "a").write(json.dumps(rec) + "\n")
    return rec["rc"] != 77


rng = random.Random(seed)
todo = [p for p in props if not only or p["id"] in only]
for rnd in range(per):
    for p in todo:
        for _ in range(6):
            fs = [f for f in p["anchors"]["files"]] if isinstance(p.get("anchors"), dict) else p["files"]
            fs = [f for f in fs if f.endswith(".py") and os.path.exists("/repo/" + f)]
            if run(p, rng.choice(fs), rng):
                break
