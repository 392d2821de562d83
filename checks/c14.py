#!/usr/bin/env python3
"""C14: caches, worker processes and conditional writes never change what is generated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

PY = "/opt/venv/bin/python"
C = vp.Check("C14", assumptions=[
    "a crash is modelled by the process ending, or a write failing, after any number of bytes of any one file",
    "parallel tasks register disjoint names, as NRPy's own do",
])


def py(code, cache, seed="0", pre=None, timeout=300, cwd=None):
    import subprocess
    env = dict(os.environ, PYTHONPATH=vp.REPO, XDG_CACHE_HOME=cache, PYTHONHASHSEED=str(seed), HOME=cache, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([PY, "-c", code], env=env, capture_output=True, timeout=timeout, preexec_fn=pre, cwd=cwd)


# ------------------------------------------------------------------ cache under crashes
def snip(rng):
    toks = ["int a=1;", "double  f(double x){return x*x;}", "if(a){b();}", "for(int i=0;i<3;i++){g(i);}", "/* c\\n * d */", "#define X 1\\n", "x   =y+ z ;", "// t\\n", "REAL r[3]={1,2,3};", "\\u00e9"]
    return "\\n".join(rng.choice(toks) for _ in range(rng.randint(1, 6)))


def ops(rng):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["fmt", "fmt", "simp", "raw"])
        if k == "fmt":
            out.append(("fmt", snip(rng), rng.choice(["", "", "-style={BasedOnStyle: LLVM, ColumnLimit: 40}"])))
        elif k == "simp":
            v = rng.choice("xyz")
            out.append(("simp", rng.choice([f"sin({v})**2+cos({v})**2", f"({v}**2-1)/({v}-1)", f"{v}+{v}*2", f"exp(log({v}+1))", "0", f"sqrt({v}**2)", f"(({v}+1)**3-{v}**3-1)/3"]), rng.choice(["", "real=True", "positive=True"])))
        else:
            out.append(("raw", "id" + str(rng.randint(0, 3)), [rng.randint(0, 9) for _ in range(rng.randint(0, 400))]))
    return out


RUN = r"""
import sys, json, resource, signal
ops = json.loads(%r)
lim, ign = %d, %d
import sympy as sp
from nrpy.helpers.generic import clang_format
import nrpy.helpers.cached_functions as cf
if lim >= 0:
    if ign: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    else: signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
res = []
for o in ops:
    try:
        if o[0] == "fmt":
            s = o[1].encode().decode("unicode_escape")
            res.append(clang_format(s, o[2]) if o[2] else clang_format(s))
        elif o[0] == "simp":
            e = sp.sympify(o[1])
            if o[2]:
                e = e.subs({a: sp.Symbol(str(a), **{o[2].split("=")[0]: True}) for a in e.free_symbols}, simultaneous=True)
            r = cf.cached_simplify(e)
            res.append(str(r) + "|" + ",".join(sorted(str(sorted((k, v) for k, v in a.assumptions0.items())) for a in r.free_symbols)))
        else:
            if cf.is_cached(o[1]):
                res.append(cf.read_cached(o[1]))
            else:
                cf.write_cached(o[1], o[2]); res.append(cf.read_cached(o[1]))
    except OSError as e:
        if lim < 0: raise
        res.append("OSError")
print("RES" + json.dumps(res))
"""


def ccases(tier, rng):
    out = []
    for _ in range(24 if tier == "quick" else 500):
        pool = ops(rng)
        runs = []
        for _ in range(rng.randint(2, 4)):
            runs.append(dict(ops=[rng.randrange(len(pool)) for _ in range(rng.randint(1, 4))], lim=rng.choice([-1, 0, 1, 7, rng.randint(2, 60), rng.randint(20, 300)]), ign=rng.randint(0, 1)))
        runs.append(dict(ops=list(range(len(pool))), lim=-1, ign=0))
        out.append(dict(pool=pool, runs=runs))
    return out


def parse(r):
    import json
    for line in r.stdout.decode(errors="replace").splitlines():
        if line.startswith("RES"):
            return json.loads(line[3:])
    return None


def run_c(c):
    import json
    d = vp.fresh_dir()
    model, crashed = {}, False
    # what each operation gives with its own fresh cache
    ref = []
    r = py(RUN % (json.dumps([o for o in c["pool"] if o[0] != "raw"]), -1, 0), os.path.join(d, "ref"))
    require(r.returncode == 0, f"formatting/simplifying with an empty cache failed: {r.stderr.decode()[-800:]}")
    it = iter(parse(r))
    for o in c["pool"]:
        ref.append(next(it) if o[0] != "raw" else None)
    for q, run in enumerate(c["runs"]):
        seq = [c["pool"][i] for i in run["ops"]]
        r = py(RUN % (json.dumps(seq), run["lim"], run["ign"]), os.path.join(d, "cache"), seed=q)
        if run["lim"] >= 0:
            crashed = crashed or r.returncode != 0 or b"OSError" in r.stdout
        hist = f"history {[(x['ops'], x['lim']) for x in c['runs'][:q + 1]]} of {c['pool']}"
        if run["lim"] < 0:
            require(r.returncode == 0, f"with the cache left by earlier (partly failed) runs, this run fails: {r.stderr.decode()[-600:]}; {hist}")
        got = parse(r)
        if got is None:
            continue
        for o, i, v in zip(seq, run["ops"], got):
            if v == "OSError":
                continue
            if o[0] == "raw":
                # any value that some run tried to write under this id
                okv = [p[2] for p in c["pool"] if p[0] == "raw" and p[1] == o[1]]
                require(v in okv, f"read_cached({o[1]!r}) returned a value never written: {str(v)[:100]}; {hist}")
            else:
                require(v == ref[i], f"{o} gives {v!r} with this cache, {ref[i]!r} without; {hist}")
    return "crashed" if crashed else None


C.add_list("crashes", ccases, run_c, shards=8, budget=60, budget_thorough=1200,
           rule="histories of processes using the cache (formatting, simplification, raw entries), some killed or failing after a random number of written bytes; every later run must give the cache-free answers; non-trivial: some write was cut short")


# ------------------------------------------------------------------ concurrent processes
RACE = r"""
import sys, json, time
from nrpy.helpers.generic import clang_format
import nrpy.helpers.cached_functions as cf
t0 = float(sys.argv[1]) if len(sys.argv) > 1 else %f
import sympy as sp
x = sp.Symbol("x")
while time.time() < t0: pass
res = []
for k in range(%d):
    cf_res = []
    e = "r%%d_%d" %% k
    if not cf.is_cached(e):
        cf.write_cached(e, list(range(20000)))
    res.append(cf.read_cached(e) == list(range(20000)))
print("RES" + json.dumps(res))
"""


def rcases(tier, rng):
    return [dict(n=8, k=40 if tier == "quick" else 400, s=i) for i in range(3 if tier == "quick" else 20)]


def run_r(c):
    import subprocess, time
    d = vp.fresh_dir()
    env = dict(os.environ, PYTHONPATH=vp.REPO, XDG_CACHE_HOME=d, HOME=d)
    t0 = time.time() + 2.5
    ps = [subprocess.Popen([PY, "-c", RACE % (t0, c["k"], c["s"])], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE) for _ in range(c["n"])]
    for p in ps:
        o, e = p.communicate(timeout=300)
        require(p.returncode == 0 and b"false" not in o, f"{c['n']} processes sharing a cache: one of them fails: {e.decode()[-500:]} {o[-200:]!r}")
    return "race"


C.add_list("races", rcases, run_r, shards=1, budget=60, rule="processes that use the same cache entries at the same time")


# ------------------------------------------------------------------ parallel code generation
def pcases(tier, rng):
    out = []
    for _ in range(14 if tier == "quick" else 150):
        mods = []
        for m in range(rng.randint(1, 3)):
            fns = []
            for f in range(rng.randint(1, 4)):
                fns.append(dict(calls=[[rng.choice(["A", "B", "Spherical"]) + str(rng.randint(0, 99)), rng.randint(0, 9), rng.choice([True, False])] for _ in range(rng.randint(1, 3))],
                                cp=rng.randint(0, 2), gf=rng.randint(0, 2), defs=rng.randint(0, 1), gd=rng.randint(0, 1), sub=rng.choice([".", "sub"]), extra=rng.randint(0, 1), nested=rng.choice([False, False, True])))
            mods.append(fns)
        out.append(dict(mods=mods, infra=rng.choice(["BHaH", "BHaH", "ETLegacy", "CarpetX"]), err=rng.random() < 0.15, dup=rng.random() < 0.1, seed=rng.randint(0, 99)))
    return out


def mod_src(m, fns, infra, err):
    L = ["from inspect import currentframe as cfr", "import nrpy.c_function as cfc, nrpy.grid as gri, nrpy.params as par, nrpy.helpers.parallel_codegen as pcg",
         "import sympy as sp, time, nrpy.c_codegen as ccg"]
    if infra == "BHaH":
        L.append("from nrpy.infrastructures.BHaH import BHaH_defines_h as bd, griddata_commondata as gc")
    for f, s in enumerate(fns):
        L += [f"def task_{f}(name, n, flag=True):", "    if pcg.pcg_registration_phase():",
              "        pcg.register_func_call(f'{__name__}.{cfr().f_code.co_name}', locals())", "        return None",
              f"    tag = f'm{m}f{f}_' + name + f'_{{n}}_{{int(flag)}}'",
              "    time.sleep(0.001 * (hash(tag) % 7))"]
        if err:
            L.append(f"    if {f} == 0: raise KeyError('planned ' + tag)")
        for k in range(s["cp"]):
            L.append(f"    par.register_CodeParameter('REAL', __name__, tag + '_p{k}', n + 0.5 * {k}, commondata=flag)")
        for k in range(s["gf"]):
            L.append(f"    gri.register_gridfunctions(tag + '_g{k}x', group='EVOL')")
        if infra == "BHaH":
            if s["defs"]:
                L.append("    bd.register_BHaH_defines(tag, f'#define D_{tag} {n}\\n')")
            if s["gd"]:
                L.append("    gc.register_griddata_commondata(tag, f'int v_{tag}', is_commondata=flag)")
        if s["extra"]:
            L.append("    par.glb_extras_dict.setdefault('mine', {}).setdefault('deep', {})[tag] = n")
        L.append("    a, b = sp.symbols('a b', real=True)")
        L.append(f"    cfc.register_CFunction(desc='d ' + tag, name='fn_' + tag, params='const double a, const double b, double *out', subdirectory={s['sub']!r}, include_CodeParameters_h=False, body=ccg.c_codegen([(a + b) ** (n % 4) + sp.sin(a * n)], ['*out']))")
        L.append("    return pcg.NRPyEnv()")
        if s["nested"]:
            L.append(f"class K{f}:\n    pass\nK{f}.g = staticmethod(task_{f})")
    return "\n".join(L) + "\n"


DUMP = r"""
import sys, json
sys.path.insert(0, %r)
import nrpy.params as par, nrpy.grid as gri, nrpy.c_function as cfc, nrpy.helpers.parallel_codegen as pcg
par.set_parval_from_str("Infrastructure", %r)
par.set_parval_from_str("parallel_codegen_enable", %r)
par.register_CodeParameter("REAL", "main", "base_p", 1.5, commondata=True)
gri.register_gridfunctions("basegf", group="EVOL")
par.glb_extras_dict["mine"] = {"deep": {"base": -1}}
%s
pcg.do_parallel_codegen()
cf = {k: [v.full_function, v.subdirectory, v.function_prototype] for k, v in cfc.CFunction_dict.items()}
cp = {k: [v.module, v.cparam_type, v.defaultvalue, v.commondata, v.add_to_parfile] for k, v in par.glb_code_params_dict.items()}
gf = {k: sorted((a, str(b)) for a, b in vars(v).items()) for k, v in gri.glb_gridfcs_dict.items()}
def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x if isinstance(x, (int, float, str, bool)) else sorted((a, str(b)) for a, b in vars(x).items())
pr = {k: str(v.value) for k, v in par.glb_params_dict.items() if "parallel_codegen" not in k}
print("RES" + json.dumps(dict(cf=cf, cp=cp, gf=gf, ex=plain(par.glb_extras_dict), pr=pr), sort_keys=True))
"""


def run_p(c):
    d = vp.fresh_dir()
    calls, ncall = [], 0
    for m, fns in enumerate(c["mods"]):
        with open(os.path.join(d, f"vpmod{m}.py"), "w") as f:
            f.write(mod_src(m, fns, c["infra"], c["err"]))
        calls.append(f"import vpmod{m}")
        for k, s in enumerate(fns):
            seen = set()
            for a in s["calls"]:
                if tuple(a) in seen:
                    continue
                seen.add(tuple(a))
                calls.append(f"vpmod{m}." + (f"K{k}.g" if s["nested"] else f"task_{k}") + f"({a[0]!r}, {a[1]}" + (")" if a[2] else ", flag=False)"))
                ncall += 1
    if c["dup"]:
        calls.append(calls[-1])
    outs = []
    for mode, seed in ((False, 0), (True, c["seed"]), (True, c["seed"] + 1)):
        r = py(DUMP % (d, c["infra"], mode, "\n".join(calls)), os.path.join(d, "c"), seed=seed)
        outs.append((r.returncode != 0, parse(r), r))
    ser, p1, p2 = outs
    if ser[0]:
        require(p1[0] and p2[0], f"an error raised by a registered task in serial mode is lost in parallel mode (tasks: {calls})")
        return "error"
    for q in (p1, p2):
        require(not q[0], f"parallel code generation fails where serial succeeds: {q[2].stderr.decode()[-600:]} (tasks: {calls})")
        for part, what in (("cf", "C functions"), ("cp", "code parameters"), ("gf", "gridfunctions"), ("ex", "struct/define contributions"), ("pr", "NRPy parameters")):
            a, b = ser[1][part], q[1][part]
            if a != b:
                bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
                raise Violation(f"{c['infra']}: {what} differ between serial and parallel code generation: {bad[:4]}: {str(a.get(bad[0]))[:300]} vs {str(b.get(bad[0]))[:300]} (tasks: {calls})")
    return "parallel" if ncall > 1 else None


C.add_list("parallel", pcases, run_p, shards=4, budget=80, budget_thorough=1200,
           rule="random sets of registered tasks (functions, parameters, gridfunctions, struct members, errors) run serially and twice in worker processes; non-trivial: more than one task")

# ------------------------------------------------------------------ whole projects
EX = r"""
import sys, runpy
mode = %r
import nrpy.params as par
import nrpy.helpers.parallel_codegen
_o = par.set_parval_from_str
def f(n, v):
    if n.split("::")[-1] == "parallel_codegen_enable":
        v = mode
    return _o(n, v)
par.set_parval_from_str = f
sys.argv = [%r]
runpy.run_path(%r, run_name="__main__")
"""
QUICK = ["wave_equation_cartesian", "wave_equation_curvilinear", "carpet_wavetoy_thorns", "carpetx_wavetoy_thorns", "nrpyelliptic_conformally_flat"]
MORE = ["two_blackholes_collide", "wave_equation_multicoord_wavetoy", "tovola_neutron_star", "nrpypn_quasicircular_momenta", "superB_nrpyelliptic_conformally_flat", "spinning_blackhole"]


def xcases(tier, rng):
    out = []
    for e in QUICK + (MORE if tier == "thorough" else []):
        out.append(dict(ex=e, runs=[dict(par=True, seed=rng.randint(0, 999), cache="a"), dict(par=rng.random() < 0.5, seed=rng.randint(0, 999), cache="a"), dict(par=False, seed=rng.randint(0, 999), cache="b")]))
    return out


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def run_x(c):
    d = vp.fresh_dir()
    ref = None
    for q, r in enumerate(c["runs"]):
        w = os.path.join(d, f"w{q}")
        os.makedirs(w)
        res = py(EX % (r["par"], c["ex"], os.path.join(vp.REPO, "nrpy/examples", c["ex"] + ".py")), os.path.join(d, "cache" + r["cache"]), seed=r["seed"], cwd=w, timeout=800)
        require(res.returncode == 0, f"example {c['ex']} fails with {r}: {res.stderr.decode()[-800:]}")
        t = tree(w)
        require(len(t) > 2, f"example {c['ex']} generated nothing")
        if ref is None:
            ref = t
        else:
            bad = sorted(k for k in set(t) | set(ref) if t.get(k) != ref.get(k))
            if bad:
                a, b = ref.get(bad[0], b"").splitlines(), t.get(bad[0], b"").splitlines()
                diff = [(x, y) for x, y in zip(a, b) if x != y][:2]
                raise Violation(f"example {c['ex']} generates different files with {r} than with {c['runs'][0]}: {bad[:5]}; first difference {diff}")
    return "project"


C.add_list("projects", xcases, run_x, shards=5, budget=110, budget_thorough=3000,
           rule="example projects generated with cold and warm cache, serially and in parallel, under different hash seeds: identical files")


# ------------------------------------------------------------------ conditional updates
def ucases():
    import hypothesis.strategies as st
    text = st.text(alphabet="ab \n\t{};\u00e9x", max_size=25)
    op = st.tuples(st.sampled_from(["update", "update", "update", "respace", "swap", "nochange", "external", "delete"]), text, st.booleans())
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=8), fmt=st.booleans(), enc=st.sampled_from([None, "utf-8"]), sub=st.booleans()))


def run_u(c):
    import io, contextlib
    import nrpy.helpers.conditional_file_updater as cfu
    from nrpy.helpers.generic import clang_format
    d = vp.fresh_dir()
    p = os.path.join(d, "f.txt")
    model, writes = None, 0
    for kind, text, verbose in c["ops"]:
        if kind == "external":
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            model = text
            continue
        if kind == "delete":
            if os.path.exists(p):
                os.unlink(p)
            model = None
            continue
        if model is not None:
            os.utime(p, (1000, 1000))
        new = "".join(text)
        if kind in ("respace", "swap"):
            # the previous content with one interior blank more, or two neighbouring characters exchanged
            old = model or "a b;\nx a"
            k = len(text) % max(1, len(old.strip()) - 1)
            old = old.strip()
            gaps = [i for i, ch in enumerate(old) if ch in " \n\t"]
            if kind == "respace":
                new = old.replace(" ", "  ", 1) if not gaps else old[:gaps[k % len(gaps)]] + " \n"[len(text) % 2] + old[gaps[k % len(gaps)]:]
            else:
                new = old[:k] + old[k:k + 2][::-1] + old[k + 2:]
            kind = "update"
        cfu.verbose, cfu.nochange = verbose, kind == "nochange"
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                with cfu.ConditionalFileUpdater(p, encoding=c["enc"], do_format=c["fmt"]) as fd:
                    for ch in range(0, len(new), 5):
                        print(new[ch:ch + 5], file=fd, end="")
        finally:
            cfu.verbose = cfu.nochange = False
        want = clang_format(new) if c["fmt"] else new
        changed = (model or "").strip() != want.strip()
        if changed and kind == "update":
            model, writes = want, writes + 1
            require(os.path.exists(p), f"the new content was not written; history {c}")
            require("[written]" in buf.getvalue(), f"a change was not reported; history {c}")
        elif model is None:
            require(not os.path.exists(p), f"a file was created although nothing was to be written; history {c}")
            continue
        else:
            require(os.stat(p).st_mtime == 1000, f"the file was rewritten although {'changes are disabled' if kind == 'nochange' else 'its content did not change'}; history {c}")
            if kind == "update":
                require("[no changes]" in buf.getvalue(), f"an unchanged file was reported as written; history {c}")
        with open(p, encoding="utf-8", newline="") as f:
            got = f.read()
        require(got == model, f"the file contains {got!r}, want {model!r}; history {c}")
    return "written" if writes > 1 else None


C.add("updates", ucases, run_u, quick=250, thorough=6000, shards=2, budget=40,
      rule="histories of conditional updates, external edits, deletions and dry runs on one file against a model; non-trivial: at least two writes")

if __name__ == "__main__":
    sys.exit(C.main())
