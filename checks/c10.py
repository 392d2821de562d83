#!/usr/bin/env python3
"""C10: generated parameter-file and command-line handling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C10", assumptions=[
    "parameter-file lines are shorter than 1000 characters, arrays have at most 100 elements, scalar values at most 120 characters",
    "strings are printable text without double quotes or backslashes",
    "what a line without '=' or a brace-enclosed scalar means is not specified and not generated (except as raw bytes, where only memory safety is checked)",
])
FLAGS = ["-O1", "-g", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w"]


def project(ps, cmd, fp):
    import bhah, cparams as cp
    bhah.start(fp=fp, coord="Spherical")
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cl
    ps = [p for p in ps if p["name"] not in par.glb_code_params_dict]
    for n, q in par.glb_code_params_dict.items():
        q.add_to_parfile = False
    cp.register(ps)
    com = [p for p in ps if p["com"]]
    inpar = [p for p in com if p["inpar"]]
    d = vp.fresh_dir()
    names = [p["name"] for p in inpar if p["type"] in ("REAL", "int", "bool") or p["type"].startswith("char")]
    cmd = [names[i % len(names)] for i in cmd] if names else []
    cmd = list(dict.fromkeys(cmd))
    if not inpar:
        return None
    cl.register_CFunction_cmdline_input_and_parfile_parser("proj", cmdline_inputs=cmd)
    cl.generate_default_parfile(d, "proj")
    main = f'''#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main(int argc, const char *argv[]) {{
  static commondata_struct commondata;
  memset(&commondata, 1, sizeof commondata);
  if (getenv("VP_DEFAULTS")) commondata_struct_set_to_default(&commondata);
  cmdline_input_and_parfile_parser(&commondata, argc, argv);
  printf("C\\n"); {cp.printers(com, lambda p: "commondata." + p["name"])}
  printf("END\\n"); return 0;
}}
'''
    try:
        exe, _ = bhah.build(main, flags=FLAGS, d=d)
    except Violation as e:
        raise Violation(f"parser for {[(p['type'], p['name']) for p in inpar]}, command-line parameters {cmd}, does not compile: {str(e)[-600:]}", "nocompile")
    return exe, d, com, inpar, cmd


def poison(p, fp):
    import cparams as cp
    b = p["type"].split("[")[0]
    n = int(p["type"].split("[")[1][:-1]) if "[" in p["type"] else None
    if b == "char":
        return "\x01" * n
    v = {"int": 0x01010101, "bool": True, "REAL": cp.struct.unpack("d" if fp == "double" else "f", b"\x01" * (8 if fp == "double" else 4))[0]}[b]
    return v if n is None else [v] * n


def run(exe, d, args, defaults=False):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
    env.pop("VP_DEFAULTS", None)
    if defaults:
        env["VP_DEFAULTS"] = "1"
    r = vp.run_exe(exe, args, cwd=d, env=env)
    r.stdout, r.stderr = r.stdout.decode("latin1"), r.stderr.decode("latin1")
    return r


def compare(r, com, want, fp, what):
    import cparams as cp
    L = iter(r.stdout.split("\n"))
    next(L)
    for p in com:
        ln = next(L)
        require(ln.split(" ")[0] == p["name"], f"harness: {ln}")
        g = cp.parse(ln, p, fp)
        require(g == want[p["name"]], f"{what}: {p['type']} {p['name']} = {g!r} instead of {want[p['name']]!r}")


# ---------------------------------------------------------------- structured files
def fstrategy():
    from hypothesis import strategies as st
    import cparams as cp
    ws = st.sampled_from(["", " ", "  ", "\t", " \t "])

    def number(draw, typ):
        """-> (text, value) with value None when the text must be rejected."""
        if typ == "REAL":
            k = draw(st.integers(0, 9))
            if k == 0:
                return draw(st.sampled_from(["1.0x", "abc", "", "1.0 2.0", "--3", "1e", "0.5,", "1e999"])), None
            if k <= 3:
                v = draw(st.integers(-9999, 9999))
                return str(v), float(v)
            m, e = draw(st.integers(-10**9, 10**9)), draw(st.integers(-12, 12))
            t = draw(st.sampled_from([f"{m}e{e}", f"{m}E{e}", f"{m / 1024}", f"+{abs(m)}.5", f"{m}."]))
            return t, float(t)
        if typ == "int":
            k = draw(st.integers(0, 7))
            if k == 0:
                return draw(st.sampled_from(["1.5", "x", "", "3x", "1 2", "2147483648", "-2147483649", "99999999999999999999", "4294967297", "0x10"])), None
            v = draw(st.integers(-500, 500) | st.sampled_from([2**31 - 1, -2**31, 1000000]))
            return draw(st.sampled_from([str(v), str(v) if v < 0 else "+" + str(v), ("-" if v < 0 else "") + "00" + str(abs(v))])), v
        k = draw(st.integers(0, 7))
        if k == 0:
            return draw(st.sampled_from(["yes", "2", "", "t", "truee", "01"])), None
        v = draw(st.booleans())
        return draw(st.sampled_from(["true", "True", "TRUE", "1"] if v else ["false", "False", "FALSE", "0"])), v

    def string(draw, n, quoted=None):
        quoted = draw(st.booleans()) if quoted is None else quoted
        if draw(st.integers(0, 6)) == 0:  # too long
            t = "x" * draw(st.sampled_from([n, n + 1, n + 5]))
            return (f'"{t}"' if quoted else t), None
        t = draw(st.text(st.sampled_from(cp.TEXT + ("=#%" * 4 if quoted else "%")), max_size=min(n - 1, 60)))
        if not quoted:
            t = t.strip()
        return (f'"{t}"' if quoted else t), t

    @st.composite
    def strat(draw):
        ps = draw(cp.set_strategy(4, 12, kinds=("REAL", "int", "bool", "char", "REALa", "inta")))
        for p in ps[:draw(st.integers(1, len(ps)))]:
            p["com"] = p["inpar"] = True
            if p["default"] == "unset":
                p["unset"], p["default"] = False, cp.value_for(draw, st, p["type"])
        cmd = draw(st.lists(st.integers(0, 20), max_size=3))
        files = []
        for _ in range(10):
            lines, used = [], []
            for _ in range(draw(st.integers(0, 8))):
                k = draw(st.integers(0, 11))
                if k == 0:
                    lines.append(dict(t="skip", s=draw(st.sampled_from(["", "   ", "# comment = 3", "  # x", "#" * 40, "#\"quoted"]))))
                elif k == 1:
                    lines.append(dict(t="skip", s=f"unknown_{draw(st.integers(0, 99))} = {draw(st.sampled_from(['1', 'abc', '{ 1, 2 }']))}"))
                elif k == 2:
                    lines.append(dict(t="bad", s=draw(st.sampled_from(["bad name = 3", "a-b = 1", "p[3 = {1,2,3}", "q[0] = { }", "r[-1] = { 1 }", "x" * 130 + " = 1", "p[" + "1" * 30 + "] = { 1 }", "a$ = 2"]))))
                else:
                    i = draw(st.integers(0, 15))
                    # mostly avoid duplicates so that the rest of the file is reached
                    if i in used and draw(st.integers(0, 5)):
                        continue
                    used.append(i)
                    ent = dict(t="set", i=i, a=draw(ws), b=draw(ws), c=draw(ws), d=draw(ws), com=draw(st.sampled_from(["", "", " # note", "# a = b"])))
                    p = ps[i % len(ps)]
                    base = p["type"].split("[")[0]
                    n = int(p["type"].split("[")[1][:-1]) if "[" in p["type"] else None
                    ent["sh"] = draw(st.sampled_from(["ok"] * 12 + ["nosize", "wrongsize", "wrongcount", "extrasize", "blanksep", "fewer"]))
                    if base == "char":
                        ent["txt"], ent["val"] = string(draw, n)
                    elif n is None:
                        ent["txt"], ent["val"] = number(draw, base)
                    else:
                        vs = [number(draw, base) for _ in range(min(n, 6))]
                        vs = [vs[j % len(vs)] for j in range(n)]
                        vs = [("7", 7) if not v[0].strip() or "," in v[0] else v for v in vs]
                        ent["txt"], ent["val"] = [v[0] for v in vs], [v[1] for v in vs]
                    lines.append(ent)
            files.append(dict(lines=lines, mode=draw(st.sampled_from(["default", "file", "default+cmd", "file+cmd", "default+cmd"])),
                              cmd=[draw(st.integers(0, 10**6)) for _ in range(3)], eol=draw(st.sampled_from(["\n", "\r\n", "\n"])), last=draw(st.booleans())))
        return dict(ps=ps, cmd=cmd, fp=draw(st.sampled_from(["double", "double", "float"])), files=files)
    return strat()


def cmdval(p, seed):
    """Command-line text and value for parameter p."""
    t = p["type"]
    if t == "REAL":
        tab = [("2.5", 2.5), ("-1e-3", -1e-3), ("7", 7.0), ("1.x", None)]
    elif t == "int":
        tab = [("12", 12), ("-3", -3), ("2147483648", None), ("5.", None)]
    elif t == "bool":
        tab = [("true", True), ("FALSE", False), ("1", True), ("maybe", None)]
    else:
        n = int(t.split("[")[1][:-1])
        tab = [("k" * min(n - 1, 60), "k" * min(n - 1, 60)), ('"' + "q" * min(n - 1, 60) + '"', "q" * min(n - 1, 60)), ("z" * n, None), ('"' + "w" * (n + 3) + '"', None), ('"', False if n == 1 else '"'), ('""', ""), ("", "")]
        if n > 130:
            tab.append(('"' + "v" * (n - 1) + '"', Ellipsis))
    return tab[seed % len(tab)]


def run_files(c):
    import cparams as cp
    fp = c["fp"]
    pr = project(c["ps"], c["cmd"], fp)
    if pr is None:
        return None
    exe, d, com, inpar, cmd = pr
    by = {p["name"]: p for p in com}
    # the default parameter file gives the defaults
    r = run(exe, d, [])
    what = f"default parameter file {open(os.path.join(d, 'proj.par')).read()!r}"
    require(r.returncode == 0 and r.stdout.rstrip().endswith("END"), f"{what} rejected (rc {r.returncode}): {r.stderr[-800:]}")
    require("Warning" not in r.stderr, f"{what}: {r.stderr[:300]}")
    compare(r, com, {p["name"]: cp.expected(p, p["default"], fp) if p["inpar"] else poison(p, fp) for p in com}, fp, what)
    tag = "default"
    ok = bad = 0
    for f in c["files"]:
        text, want, err, seen = [], {p["name"]: poison(p, fp) for p in com}, None, set()
        for e in f["lines"]:
            if e["t"] == "skip":
                text.append(e["s"])
                continue
            if e["t"] == "bad":
                text.append(e["s"])
                err = err or e["s"]
                continue
            p = c["ps"][e["i"] % len(c["ps"])]
            if p["name"] not in by or not p["inpar"]:
                continue
            n = int(p["type"].split("[")[1][:-1]) if "[" in p["type"] else None
            arr = n is not None and not p["type"].startswith("char")
            left, val = p["name"], e["txt"]
            badline = p["name"] in seen
            if arr:
                vs, sz = list(e["txt"]), n
                if e["sh"] == "nosize":
                    sz, badline = None, True
                elif e["sh"] == "wrongsize":
                    sz, badline = n + 1, True
                elif e["sh"] == "wrongcount":
                    vs, badline = vs + ["1"], True
                elif e["sh"] == "fewer" and n > 1:
                    vs, badline = vs[:-1], True
                left += "" if sz is None else f"[{sz}]"
                val = "{ " + ", ".join(vs) + " }"
                if e["sh"] == "blanksep" and n > 1:
                    k = e["i"] % (n - 1) + 1
                    val, badline = "{ " + " ".join([", ".join(vs[:k]), ", ".join(vs[k:])]) + " }", True
                badline |= any(v is None for v in e["val"])
            else:
                if e["sh"] == "extrasize":
                    left, badline = left + "[2]", True
                badline |= e["val"] is None
            # an empty unquoted value leaves nothing to read
            line = e["a"] + left + e["b"] + "=" + e["c"] + val + e["d"] + e["com"]
            if len(line) > 1000 or (not arr and len(val) > 125):
                continue
            if "\"" in line and line.count('"') % 2:
                continue
            if e["val"] == "" and val == "":  # empty unquoted string: unspecified
                continue
            if not arr and val == "" and (e["c"] + e["d"]) == "" and f["last"] and e is f["lines"][-1]:
                continue
            text.append(line)
            seen.add(p["name"])
            if badline:
                err = err or line
            else:
                want[p["name"]] = cp.expected(p, e["val"], fp)
        body = f["eol"].join(text) + ("" if f["last"] else f["eol"])
        if f["last"] and text and text[-1].rstrip(" \t").endswith("="):
            body += f["eol"]
        usefile = f["mode"].startswith("file")
        with open(os.path.join(d, "my.par" if usefile else "proj.par"), "w", newline="") as fh:
            fh.write(body)
        args = ["my.par"] if usefile else []
        skip = False
        if f["mode"].endswith("cmd") and cmd:
            for nme, s in zip(cmd, f["cmd"]):
                t, v = cmdval(by[nme], s)
                args.append(t)
                if v is None or v is False and by[nme]["type"] != "bool":
                    err = err or f"argument {t!r} for {nme}"
                elif v is Ellipsis:
                    skip = True  # accepted or rejected, but safely
                elif v == '"':
                    skip = True
                else:
                    want[nme] = cp.expected(by[nme], v, fp)
            if len(args) == 1 and not usefile and args[0] in ("-h", "--help", "my.par", "proj.par"):
                continue
        r = run(exe, d, args)
        desc = f"parameter file {body!r} with arguments {args}"
        require(r.returncode in (0, 1), f"{desc}: rc {r.returncode} {r.stderr[-1200:]}")
        if skip:
            continue
        if err:
            require(r.returncode == 1 and r.stderr.strip(), f"{desc}: not rejected although of {err!r}: {r.stdout[:300]!r}")
            bad += 1
        else:
            require(r.returncode == 0 and r.stdout.rstrip().endswith("END"), f"{desc}: rejected: {r.stderr[-600:]}")
            compare(r, com, want, fp, desc)
            ok += 1
    return f"{ok} accepted, {bad} rejected" if ok else tag


C.add("files", fstrategy, run_files, quick=64, thorough=1600, shards=8, budget=70,
      rule="parameter set with its generated parser: default file read back, plus structured files and command lines (at least one accepted)")


# ---------------------------------------------------------------- raw bytes: memory safety
def bstrategy():
    from hypothesis import strategies as st
    import cparams as cp

    @st.composite
    def strat(draw):
        ps = draw(cp.set_strategy(1, 6, kinds=("REAL", "int", "bool", "char", "REALa", "inta")))
        for p in ps:
            p["com"] = p["inpar"] = True
            if p["default"] == "unset":
                p["unset"], p["default"] = False, cp.value_for(draw, st, p["type"])
        return dict(ps=ps, cmd=draw(st.lists(st.integers(0, 9), max_size=2)), seed=draw(st.integers(0, 2**32)))
    return strat()


def run_bytes(c):
    import random
    pr = project(c["ps"], c["cmd"], "double")
    if pr is None:
        return None
    exe, d, com, inpar, cmd = pr
    rng = random.Random(c["seed"])
    base = open(os.path.join(d, "proj.par"), "rb").read()
    frag = [b"=", b"[", b"]", b"{", b"}", b",", b'"', b"#", b"\n", b"\0", b"\xff", b" ", b"\t", b"1" * 40, b"A" * 200, b"{" + b"1," * 150 + b"1}", b"==", b"[[", b"]=", b"\\", b"%n", b"-", b"x" * 1100,
            b'"' + b"s" * 140 + b'"'] + [p["name"].encode() for p in inpar]
    for _ in range(25):
        b = bytearray(base if rng.random() < 0.6 else b"\n".join(rng.choice(base.split(b"\n")) for _ in range(4)))
        for _ in range(rng.randint(1, 6)):
            i = rng.randint(0, len(b))
            k = rng.random()
            if k < 0.5:
                b[i:i] = rng.choice(frag)
            elif k < 0.75:
                b[i:i + rng.randint(1, 8)] = b""
            else:
                b[i:i + 1] = bytes([rng.randint(0, 255)])
        with open(os.path.join(d, "f.par"), "wb") as fh:
            fh.write(b)
        args = ["f.par"]
        for nme in cmd:
            args.append(rng.choice(["1", "", '"', '""', "x" * 300, '"' + "y" * 180 + '"', "{", "-", "1e400", "9" * 40]))
        r = run(exe, d, args)
        require(r.returncode in (0, 1), f"parameter file {bytes(b)!r}, arguments {args}: rc {r.returncode} {r.stderr[-1500:]}")
    return "fuzzed"


C.add("bytes", bstrategy, run_bytes, quick=24, thorough=1200, shards=4, budget=60,
      rule="25 mutated parameter files per generated parser, under AddressSanitizer and UBSan")

if __name__ == "__main__":
    sys.exit(C.main())
