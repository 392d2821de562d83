#!/usr/bin/env python3
"""C21: checkpoints survive crashes and restarts; whole generated projects build, run, converge and restart exactly."""
import io, json, os, random, re, resource, shutil, signal, subprocess, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C21", assumptions=[
    "a crash is the process being killed when the checkpoint file reaches a given size, or every further write failing (full disk); bytes already written stay",
    "checkpoint times are not within rounding of half a step from a multiple of the interval",
    "SIMD projects have Nxx0 a multiple of 8 (as in every example)",
    "whole projects are wave-equation projects assembled exactly like nrpy/examples/wave_equation_*.py with other options",
])
R = range(3)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# --------------------------------------------------------------------------------- checkpoint histories
CP_MAIN = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <unistd.h>
#define NT(p) ((long)(p)->Nxx_plus_2NGHOSTS0 * (p)->Nxx_plus_2NGHOSTS1 * (p)->Nxx_plus_2NGHOSTS2)
static FILE *in, *out;
static void rd(void *p, long n) { if(n && fread(p, 1, n, in) != (size_t)n) _exit(4); }
static void wr(const void *p, long n) { fwrite(p, 1, n, out); }
int main(int argc, char **argv) {
  const int mode = atoi(argv[1]);
  in = fopen(argv[2], "rb"); out = fdopen(3, "wb");
  commondata_struct cd; memset(&cd, 0, sizeof cd); commondata_struct_set_to_default(&cd);
  griddata_struct *gd = calloc(8, sizeof(griddata_struct));
  int ng, nn, hor, ip; double t, dt, every, conv, rp; char tag[16];
  rd(&ng, 4); rd(&nn, 4); rd(&hor, 4); rd(&ip, 4); rd(&t, 8); rd(&dt, 8); rd(&every, 8); rd(&conv, 8); rd(&rp, 8); rd(tag, 16);
  cd.NUMGRIDS = ng; cd.convergence_factor = conv; strcpy(cd.cp_tag, tag);
  params_struct_set_to_default(&cd, gd);
  if(mode == 0) {
    cd.nn = nn; cd.time = t; cd.dt = dt; cd.checkpoint_every = every; cd.cp_int = ip; cd.cp_real = rp; cd.cp_bool = nn & 1; cd.t_0 = 0.25; cd.nn_0 = 3;
@HOR_W@
    for(int g = 0; g < ng; g++) {
      int N[3]; rd(N, 12); double q; rd(&q, 8);
      gd[g].params.Nxx_plus_2NGHOSTS0 = N[0]; gd[g].params.Nxx_plus_2NGHOSTS1 = N[1]; gd[g].params.Nxx_plus_2NGHOSTS2 = N[2]; gd[g].params.gp_real = q;
      MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
      rd(gd[g].gridfuncs.y_n_gfs, sizeof(REAL) * NT(&gd[g].params) * NUM_EVOL_GFS);
    }
    write_checkpoint(&cd, gd);
    for(int g = 0; g < ng; g++) wr(gd[g].gridfuncs.y_n_gfs, sizeof(REAL) * NT(&gd[g].params) * NUM_EVOL_GFS);
    double z = cd.time; wr(&z, 8);
  } else {
    const int r = read_checkpoint(&cd, gd);
    wr(&r, 4);
    if(r) {
      double v[8] = {cd.time, cd.t_0, cd.dt, cd.checkpoint_every, cd.convergence_factor, cd.cp_real, 0, 0}; int w[6] = {cd.NUMGRIDS, cd.nn, cd.nn_0, cd.cp_int, cd.cp_bool, 0};
      wr(v, 64); wr(w, 24); char tg[16]; memset(tg, 0, 16); strncpy(tg, cd.cp_tag, 15); wr(tg, 16);
@HOR_R@
      for(int g = 0; g < cd.NUMGRIDS; g++) {
        int N[3] = {gd[g].params.Nxx_plus_2NGHOSTS0, gd[g].params.Nxx_plus_2NGHOSTS1, gd[g].params.Nxx_plus_2NGHOSTS2}; double q = gd[g].params.gp_real;
        wr(N, 12); wr(&q, 8); wr(gd[g].gridfuncs.y_n_gfs, sizeof(REAL) * NT(&gd[g].params) * NUM_EVOL_GFS);
      }
    }
  }
  fclose(out);
  _exit(0);
}
"""
_CP = {}
FMT = [("checkpoint-conv_factor%.2f.dat", "commondata->convergence_factor"), ("cp_%s-%.1f.bin", "commondata->cp_tag, commondata->convergence_factor"), ("last%.0f.chk", "commondata->convergence_factor")]


def cp_exe(c):
    key = json.dumps([c["fmt"], c["hor"], c["ngf"], c["mol"]])
    if key in _CP:
        return _CP[key]
    import bhah
    bhah.start("double", 4, "Cartesian")
    import nrpy.params as par
    import nrpy.grid as gri
    from nrpy.infrastructures.BHaH import checkpointing, griddata_commondata as gc
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    with quiet():
        gri.register_gridfunctions([f"gf{chr(97 + i)}" for i in range(c["ngf"])])
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
        par.register_CodeParameter("REAL", "t", "convergence_factor", 1.0, commondata=True)
        par.register_CodeParameter("REAL", "t", "cp_real", 1.0, commondata=True)
        par.register_CodeParameter("int", "t", "cp_int", 1, commondata=True)
        par.register_CodeParameter("bool", "t", "cp_bool", False, commondata=True)
        par.register_CodeParameter("char[16]", "t", "cp_tag", "x", commondata=True)
        par.register_CodeParameter("REAL", "t", "gp_real", 1.0)
        for i in R:
            if f"Nxx_plus_2NGHOSTS{i}" not in par.glb_code_params_dict:
                par.register_CodeParameter("int", "t", f"Nxx_plus_2NGHOSTS{i}", 1)
        MoL.register_CFunctions(MoL_method=c["mol"], rhs_string="", post_rhs_string="")
        checkpointing.register_CFunctions(filename_tuple=tuple(FMT[c["fmt"]]), default_checkpoint_every=2.0, enable_bhahaha=bool(c["hor"]))
        extra = None
        if c["hor"]:
            bd.register_BHaH_defines("after_general", "typedef struct { REAL a; int b; REAL *prev_horizon_m1, *prev_horizon_m2, *prev_horizon_m3; } bhahaha_params_and_data_struct;\n")
            gc.register_griddata_commondata("bah", "int bah_num_horizons", "x", is_commondata=True)
            gc.register_griddata_commondata("bah", "bhahaha_params_and_data_struct bhahaha_params_and_data[4]", "y", is_commondata=True)
    for n in list(__import__("nrpy.c_function", fromlist=["x"]).CFunction_dict):
        if n.startswith("MoL_step"):
            del __import__("nrpy.c_function", fromlist=["x"]).CFunction_dict[n]
    HW = """    cd.bah_num_horizons = hor;
    for(int h = 0; h < hor; h++) { bhahaha_params_and_data_struct *b = &cd.bhahaha_params_and_data[h]; rd(&b->a, 8); b->b = 7 + h;
      b->prev_horizon_m1 = malloc(8 * 2048); b->prev_horizon_m2 = malloc(8 * 2048); b->prev_horizon_m3 = malloc(8 * 2048); rd(b->prev_horizon_m1, 8 * 2048); rd(b->prev_horizon_m2, 8 * 2048); rd(b->prev_horizon_m3, 8 * 2048); }"""
    HR = """      wr(&cd.bah_num_horizons, 4);
      for(int h = 0; h < cd.bah_num_horizons; h++) { bhahaha_params_and_data_struct *b = &cd.bhahaha_params_and_data[h]; wr(&b->a, 8); wr(&b->b, 4); wr(b->prev_horizon_m1, 8 * 2048); wr(b->prev_horizon_m2, 8 * 2048); wr(b->prev_horizon_m3, 8 * 2048); }"""
    src = CP_MAIN.replace("@HOR_W@", HW if c["hor"] else "").replace("@HOR_R@", HR if c["hor"] else "")
    exe, d = bhah.build(src, flags=["-O1", "-g", "-fopenmp", "-fsanitize=address"], wrappers=False)
    _CP[key] = exe
    return exe


def cp_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 3))
    dim = st.integers(1, 7)
    write = st.fixed_dictionaries(dict(op=st.just("write"), grids=st.lists(st.tuples(dim, dim, dim), min_size=1, max_size=3), seed=st.integers(0, 2 ** 31), conv=st.sampled_from([1.0, 2.0]),
                                       t=st.one_of(st.integers(0, 12).map(lambda k: k * 0.5), f(0, 9)), dt=st.sampled_from([0.5, 0.125, 0.01]), every=st.sampled_from([2.0, 0.5, 1.5]), nn=st.integers(0, 999),
                                       hor=st.integers(0, 3), fault=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["kill", "full"]), st.floats(0, 1)))))
    read = st.fixed_dictionaries(dict(op=st.just("read"), conv=st.sampled_from([1.0, 2.0])))
    cut = st.fixed_dictionaries(dict(op=st.just("cut"), conv=st.sampled_from([1.0, 2.0]), frac=st.floats(0, 0.999)))
    variant = st.sampled_from([dict(fmt=0, hor=False, ngf=2, mol="RK4"), dict(fmt=1, hor=True, ngf=1, mol="Euler"), dict(fmt=2, hor=False, ngf=3, mol="RK2 Heun"), dict(fmt=0, hor=True, ngf=3, mol="SSPRK3")])
    return st.fixed_dictionaries(dict(variant=variant, threads=st.sampled_from([1, 3]),
                                      ops=st.lists(st.one_of(write, write, read, cut), min_size=1, max_size=6)))


def cp_call(exe, d, mode, spec, threads, limit=None, ignore=False):
    p = os.path.join(d, "spec.bin")
    with open(p, "wb") as f:
        f.write(spec)
    rfd, wfd = os.pipe()

    def pre():
        os.dup2(wfd, 3)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
    q = subprocess.Popen([exe, str(mode), p], cwd=d, pass_fds=(wfd, 3) if wfd != 3 else (3,), preexec_fn=pre, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         env=dict(os.environ, OMP_NUM_THREADS=str(threads), ASAN_OPTIONS="detect_leaks=0:exitcode=99"))
    os.close(wfd)
    import threading
    buf = []
    th = threading.Thread(target=lambda: buf.append(os.fdopen(rfd, "rb").read()))
    th.start()
    try:
        _o, err = q.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        q.kill()
        raise Violation("checkpoint program hangs")
    th.join()
    os.unlink(p)
    return q.returncode, buf[0], err.decode(errors="replace")


def run_cp(c):
    import numpy as np
    c = dict(c, **c["variant"])
    exe = cp_exe(c)
    d = vp.fresh_dir()
    model, names, tags = {}, {}, set()
    kinds = set()
    fname = lambda conv: FMT[c["fmt"]][0] % (("alpha", conv) if c["fmt"] == 1 else (conv,))

    def head(o, ng):
        return np.array([ng, o.get("nn", 0), o.get("hor", 0), (o.get("nn", 0) * 31) % 1000], np.int32).tobytes() + np.array([o.get("t", 0), o.get("dt", 1), o.get("every", 1), o["conv"], o.get("nn", 0) * 0.37 - 5], float).tobytes() + b"alpha".ljust(16, b"\0")

    for k, o in enumerate(c["ops"]):
        tag = f"operation {k} {json.dumps(o)} of history {json.dumps(c['ops'][:k])} (fmt {FMT[c['fmt']][0]}, {c['mol']})"
        path = os.path.join(d, fname(o["conv"]))
        if o["op"] == "write":
            nh = o["hor"] if c["hor"] else 0
            o = dict(o, hor=nh)
            rng = np.random.default_rng(o["seed"])
            x = abs(round(o["t"] / o["every"]) * o["every"] - o["t"])
            if abs(x - o["dt"] / 2) < 1e-9:
                continue
            due = x < o["dt"] / 2
            ys = [rng.integers(0, 2 ** 64, c["ngf"] * a * b * e, dtype=np.uint64) for a, b, e in o["grids"]]
            hz = [rng.standard_normal(1 + 3 * 2048) for _ in range(nh)]
            q = rng.standard_normal(len(ys))
            body = b"".join(h.tobytes() for h in hz) + b"".join(np.array(g, np.int32).tobytes() + np.array([q[i]]).tobytes() + y.tobytes() for i, (g, y) in enumerate(zip(o["grids"], ys)))
            spec = head(o, len(ys)) + body
            want = dict(t=o["t"], dt=o["dt"], every=o["every"], conv=o["conv"], nn=o["nn"], grids=o["grids"], ys=ys, q=q, hz=hz)
            size = 200 + sum(len(y.tobytes()) * 1.2 for y in ys) + sum(len(h.tobytes()) for h in hz)
            lim = None
            if o["fault"]:
                lim = int(o["fault"][1] * size * 1.1)
                kinds.add(o["fault"][0])
            before = os.stat(path).st_mtime_ns if os.path.exists(path) else None
            rc, out, err = cp_call(exe, d, 0, spec, c["threads"], lim, bool(o["fault"]) and o["fault"][0] == "full")
            require(rc != 99, f"{tag}: memory error {err[-1500:]}")
            if not o["fault"]:
                require(rc == 0, f"{tag}: write_checkpoint failed rc={rc} {err[-500:]}")
            if rc == 0:
                exp = b"".join(y.tobytes() for y in ys) + np.array([o["t"]]).tobytes()
                require(out == exp, f"{tag}: writing a checkpoint changed the evolved data")
            if not due:
                require(o["fault"] or (before == (os.stat(path).st_mtime_ns if os.path.exists(path) else None)), f"{tag}: checkpoint written although none is due")
                kinds.add("not due")
            elif not o["fault"]:
                require(os.path.exists(path), f"{tag}: no file {path} written, directory has {os.listdir(d)}")
                model[o["conv"]] = [want]
                kinds.add("write")
            else:
                # the previous checkpoint or the new one, complete
                model[o["conv"]] = model.get(o["conv"], [None]) + [want]
        elif o["op"] == "cut":
            if os.path.exists(path):
                n = int(os.path.getsize(path) * o["frac"])
                os.truncate(path, n)
                model[o["conv"]] = ["cut"]
                kinds.add("cut")
        if o["op"] == "read" or k == len(c["ops"]) - 1:
            poss = model.get(o["conv"], [None])
            rc, out, err = cp_call(exe, d, 1, head(dict(conv=o["conv"]), 1), c["threads"])
            require(rc != 99, f"{tag}: memory error while reading {err[-1500:]}")
            if poss == ["cut"]:
                if rc == 0:
                    require(np.frombuffer(out[:4], np.int32)[0] == 0, f"{tag}: a truncated checkpoint was read without an error")
                continue
            require(rc == 0, f"{tag}: read_checkpoint failed rc={rc} {err[-500:]}")
            r = int(np.frombuffer(out[:4], np.int32)[0])
            ok = any((w is None and r == 0) or (w is not None and r == 1 and same(out[4:], w, c)) for w in poss)
            desc = f"returned {r}" + (f", time {np.frombuffer(out[4:12])[0]}" if r else "")
            require(ok, f"{tag}: read_checkpoint {desc}; the complete checkpoints so far allow {[None if w is None else 'time %g' % w['t'] for w in poss]}")
            if any(w is not None for w in poss):
                kinds.add("restored")
    return "+".join(sorted(kinds)) if "restored" in kinds or "cut" in kinds else None


def same(b, w, c):
    import numpy as np
    v, i, t = np.frombuffer(b[:64]), np.frombuffer(b[64:88], np.int32), b[88:104]
    if list(v[:6]) != [w["t"], w["t"], w["dt"], w["every"], w["conv"], w["nn"] * 0.37 - 5]:
        return False
    if list(i[:5]) != [len(w["grids"]), w["nn"], w["nn"], (w["nn"] * 31) % 1000, w["nn"] & 1] or t.rstrip(b"\0") != b"alpha":
        return False
    p = 104
    if c["hor"]:
        if np.frombuffer(b[p:p + 4], np.int32)[0] != len(w["hz"]):
            return False
        p += 4
        for k, h in enumerate(w["hz"]):
            if b[p:p + 8] != h[:1].tobytes() or np.frombuffer(b[p + 8:p + 12], np.int32)[0] != 7 + k or b[p + 12:p + 12 + 3 * 2048 * 8] != h[1:].tobytes():
                return False
            p += 12 + 3 * 2048 * 8
    for g, y, q in zip(w["grids"], w["ys"], w["q"]):
        e = np.array(g, np.int32).tobytes() + np.array([q]).tobytes() + y.tobytes()
        if b[p:p + len(e)] != e:
            return False
        p += len(e)
    return p == len(b)


C.add("checkpoints", cp_strategy, run_cp, quick=240, thorough=6000, shards=6, budget=70, budget_thorough=1500, rule="history in which a complete checkpoint is read back bit for bit, or a truncated one is refused; faults at any byte")

# --------------------------------------------------------------------------------- whole projects
SYS = {"Cartesian": [10, 10, 10], "SinhCartesian": [10, 10, 10], "Spherical": [12, 8, 12], "SinhSpherical": [12, 8, 12], "SinhSphericalv2n2": [12, 8, 12],
       "Cylindrical": [8, 12, 12], "SinhCylindrical": [8, 12, 12], "SinhCylindricalv2n2": [8, 12, 12], "SymTP": [12, 8, 12], "SinhSymTP": [12, 8, 12]}
ORDER = {"RK4": 4, "DP5": 5, "CK5": 5, "DP6": 6, "L6": 6, "RK3": 3, "RK3 Heun": 3, "RK3 Ralston": 3, "SSPRK3": 3}
# second-order methods are unstable for undamped waves, third-order ones need a smaller time step


def proj_cases(tier, rng):
    n = 14 if tier == "quick" else 400
    out = []
    names = list(SYS)
    rng.shuffle(names)
    for k in range(n):
        kind = ["curvi", "cart", "sph1d", "multi", "curvi", "asan", "cart"][k % 7]
        if kind == "cart":
            cs = [rng.choice(["Cartesian", "SinhCartesian"])]
        elif kind == "sph1d":
            cs = [rng.choice(["Spherical", "SinhSpherical", "SinhSphericalv2n2"])]
        elif kind == "multi":
            cs = rng.sample(names, 2)
        else:
            cs = [names[k % len(names)]]
        wave = "SphericalGaussian" if kind == "sph1d" else "PlaneWave"
        size = 8.0 if kind == "sph1d" else 2.0
        nx = {c: ([rng.choice([40, 48, 56]), 2, 2] if kind == "sph1d" else list(SYS[c])) for c in cs}
        cube = all("Cartesian" in c for c in cs)
        tf = {"sph1d": 1.0}.get(kind, 0.4 if cube else 0.07)
        mol = rng.choice(list(ORDER))
        simd = rng.random() < 0.5 and "SinhSymTP" not in cs
        ko = rng.random() < 0.4
        if ko and "SinhCartesian" in nx:
            nx["SinhCartesian"] = [16, 16, 16]
        if simd:  # SIMD loops work on rows whose length is a multiple of the vector width
            for c in nx:
                nx[c][0] = -(-nx[c][0] // 8) * 8
        out.append(dict(kind=kind, coords=cs, sizes=[size] * len(cs), Nxx=nx, name=rng.choice(["wt", "curvi_toy", "Wave2"]), parallel=rng.random() < 0.3, fd=rng.choice([2, 4, 4, 6]), t_final=round(tf * rng.uniform(1.0, 1.3), 5),
                        collapse=rng.choice([1, 2]), rfm=simd or rng.random() < 0.4, wave=wave, sigma=round(rng.uniform(1.2, 2.0), 3) if kind == "sph1d" else 3.0, simd=simd, ko=ko,
                        diag_every=round(tf * rng.uniform(0.2, 0.3), 6), bcfd=rng.choice([2, 4]), mol=mol, cp_every=round(tf * rng.uniform(0.15, 0.45), 6), opt=rng.choice(["default", "fast", "debug"]),
                        sym="12" if kind == "sph1d" else "", cfl=rng.choice([0.5, 0.3]) if ORDER[mol] > 3 else 0.3, wavespeed=rng.choice([1.0, 0.8]), bc=rng.choice(["radiation", "extrapolation"]), kk=[round(rng.uniform(-1, 1), 2) for _ in R[:2]] + [1.0],
                        kill=rng.randrange(3), delay=round(rng.uniform(0, 0.05), 4), threads=[rng.choice([1, 2]), rng.choice([1, 3])]))
    return out


def proj_run(d, o, cf, threads, kill=None, timeout=240):
    """Run the project executable in d; with kill=(n, delay), SIGKILL it after the n-th finished checkpoint."""
    import time
    env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive", ASAN_OPTIONS="detect_leaks=0:exitcode=99")
    q = subprocess.Popen([os.path.join(d, o["name"])] + ([] if cf is None else [repr(cf)]), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
    err, n, killed, t0 = [], 0, False, time.time()
    import threading
    guard = threading.Timer(timeout, q.kill)
    guard.start()
    buf = b""
    while True:
        b = os.read(q.stderr.fileno(), 65536)
        if not b:
            break
        buf += b
        if kill is not None and not killed and buf.count(b"FINISHED WRITING CHECKPOINT") > kill[0]:
            time.sleep(kill[1])
            q.send_signal(signal.SIGKILL)
            killed = True
    rc = q.wait()
    guard.cancel()
    if time.time() - t0 > timeout:
        raise RuntimeError("project run too slow")
    return rc, buf.decode(errors="replace"), killed


def proj_outputs(d, cf):
    """{file: [[numbers]...]} of the output of one resolution; 0d files as {time: row} (a restart repeats rows)."""
    out = {}
    for f in sorted(os.listdir(d)):
        if f.startswith("out") and f.endswith(".txt") and f"cf{cf:.2f}" in f:
            rows = []
            for l in open(os.path.join(d, f)):
                if l.strip() and not l.startswith("#"):
                    try:
                        rows.append(tuple(float(x) for x in l.split()))
                    except ValueError:  # a row cut by the crash, with the repeated output after it
                        rows.append(())
            out[f] = {r[0]: r[1:] for r in rows if r} if f.startswith("out0d") else rows
    return out


def run_proj(o):
    import numpy as np
    d = vp.fresh_dir()
    with open(os.path.join(d, "o.json"), "w") as f:
        json.dump(o, f)
    env = dict(os.environ, PYTHONPATH=vp.REPO, XDG_CACHE_HOME=os.path.join(d, "cache"))
    tag = f"project {json.dumps({k: v for k, v in o.items() if k not in ('name', 'delay')})}"
    q = subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "waveproj.py"), "o.json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    require(q.returncode == 0, f"{tag}: generation fails: {q.stdout.decode(errors='replace')[-1500:]}")
    pd = os.path.join(d, "project", o["name"])
    args = ["make", "-j4"]
    if o["kind"] == "asan":
        args += ["CFLAGS=-std=gnu99 -O1 -g -Wall -march=native -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=undefined"]
    q = subprocess.run(args, cwd=pd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    mk = q.stdout.decode(errors="replace")
    require(q.returncode == 0 and os.path.exists(os.path.join(pd, o["name"])), f"{tag}: make fails: {mk[-1500:]}")
    # parameter file: the defaults, with some values changed
    pf = os.path.join(pd, o["name"] + ".par")
    txt = open(pf).read()
    edits = {"CFL_FACTOR": o["cfl"], "wavespeed": o["wavespeed"], "outer_bc_type": '"%s"' % o["bc"]}
    if o["wave"] == "PlaneWave":
        edits.update({f"kk{i}": o["kk"][i] for i in R})
    for k, v in edits.items():
        txt, n = re.subn(rf"(?m)^{k} = [^#]*", f"{k} = {v} ", txt)
        require(n == 1, f"{tag}: parameter {k} is missing from the default parameter file")
    open(pf, "w").write(txt)
    # uninterrupted run
    def check(rc, err, what):
        require(rc == 0, f"{tag}: {what} exits with {rc}: {err[-1500:]}")
    rc, err, _ = proj_run(pd, o, None, o["threads"][0])
    check(rc, err, "run")
    ncp = err.count("FINISHED WRITING CHECKPOINT")
    require(ncp >= 2, f"{tag}: {ncp} checkpoints written in a run with t_final {o['t_final']} and checkpoint_every {o['cp_every']}")
    base = proj_outputs(pd, 1.0)
    times = sorted({f.rsplit("-t", 1)[1][:-4] for f in base if not f.startswith("out0d")})
    for cs in o["coords"]:
        for t in times:
            for f in [f"out1d-y-{cs}", f"out1d-z-{cs}", f"out2d-xy-{cs}", f"out2d-yz-{cs}"]:
                require(f"{f}-cf1.00-t{t}.txt" in base, f"{tag}: no output {f} at t={t}; files {sorted(base)[:20]}")
    require(len(times) >= 2 and times[0] == "000.0000", f"{tag}: output at times {times}")
    # all files finite, and at t=0 the data are the exact solution
    for f, rows in base.items():
        rr = list(rows.values()) if isinstance(rows, dict) else rows
        require(rr and all(np.isfinite(r).all() for r in np.array(rr)), f"{tag}: {f} is empty or has NaN/inf: {rr[:2]}")
        for r in (rr if f.endswith("t000.0000.txt") else []):
            require(r[-4] == r[-3] and r[-2] == r[-1], f"{tag}: initial data differ from the exact solution at t=0 in {f}: {r}")
    # crash after some checkpoint, restart, compare everything
    shutil.move(os.path.join(pd), os.path.join(d, "a"))
    ad = os.path.join(d, "a")
    bd_ = os.path.join(d, "b")
    os.makedirs(bd_)
    for f in (o["name"], o["name"] + ".par"):
        shutil.copy(os.path.join(ad, f), bd_)
    rc, err, killed = proj_run(bd_, o, None, o["threads"][1], kill=(min(o["kill"], ncp - 1), o["delay"]))
    if not killed:
        check(rc, err, "second run")
    for r in range(3):
        rc, err, _ = proj_run(bd_, o, None, o["threads"][1])
        if rc == 0:
            break
    check(rc, err, "restarted run")
    require("FINISHED WITH READING" in err, f"{tag}: the restarted run did not read the checkpoint: {err[-400:]}")
    again = proj_outputs(bd_, 1.0)
    require(set(again) == set(base), f"{tag}: output files after crash and restart differ: missing {sorted(set(base) - set(again))[:5]}, extra {sorted(set(again) - set(base))[:5]}")
    for f in base:
        A, B = base[f], again[f]
        if isinstance(A, dict):
            require(set(A) == set(B), f"{tag}: {f}: times {sorted(A)} uninterrupted, {sorted(B)} after restart")
            A, B = [A[k] for k in sorted(A)], [B[k] for k in sorted(A)]
        # output since the checkpoint is written again, after the rows of the crashed run
        require(len(A) <= len(B), f"{tag}: {f}: {len(A)} rows uninterrupted, {len(B)} after restart")
        B = B[len(B) - len(A):]
        bad = [i for i, r in enumerate(B) if len(r) != len(A[0])]
        require(bad in ([], [0]), f"{tag}: {f}: malformed rows {[B[i] for i in bad[:3]]}")
        A, B = A[len(bad):], B[len(bad):]
        if not A:
            continue
        a, b = np.array(A), np.array(B)
        nc = a.shape[1] - 6  # coordinates; then two log errors, exactUU, numUU, exactVV, numVV
        for col in list(range(nc)) + [nc + 3, nc + 5]:
            require((a[:, col] == b[:, col]).all(), f"{tag}: {f}: column {col} differs between an uninterrupted run and crash+restart (threads {o['threads']}): {A[int(np.argmax(a[:, col] != b[:, col]))]} vs {B[int(np.argmax(a[:, col] != b[:, col]))]}")
        require(np.abs(a[:, [nc + 2, nc + 4]] - b[:, [nc + 2, nc + 4]]).max() < 1e-10, f"{tag}: {f}: exact solution columns differ after a restart (time is wrong)")
    if o["kind"] == "asan":
        return "asan+restart " + o["coords"][0]
    # convergence to the exact solution
    rc, err, _ = proj_run(bd_, o, 2.0, o["threads"][1])
    check(rc, err, "run at twice the resolution")
    fine = proj_outputs(bd_, 2.0)
    L = o["sizes"][0]
    p = min(o["fd"], ORDER[o["mol"]])
    for cs in o["coords"]:
        coarse = o["ko"] and "Sinh" in cs  # few points outside the safe region, and wide stencils
        rsafe = 0.45 if o["kind"] == "sph1d" else 0.3 if coarse else 0.45

        def err_of(out, cf):
            ts = sorted({f.rsplit("-t", 1)[1][:-4] for f in out if not f.startswith("out0d")})
            e = []
            for pl in ("xy", "yz"):
                for r in out[f"out2d-{pl}-{cs}-cf{cf:.2f}-t{ts[-1]}.txt"]:
                    if np.hypot(r[0], r[1]) < rsafe * L:
                        e.append((r[-3] - r[-4], r[-1] - r[-2]))
            e = np.array(e)
            return np.sqrt((e ** 2).mean(axis=0)), float(ts[-1]), len(e)
        (e1, t1, n1), (e2, t2, n2) = err_of(base, 1.0), err_of(fine, 2.0)
        require(n2 > 1.5 * n1, f"{tag}: {cs}: {n1} points at resolution 1, {n2} at resolution 2")
        if os.environ.get("C21_CAL"):
            print("CAL", file=open("/tmp/cal.log", "a"), *(o["kind"], cs, "fd", o["fd"], o["mol"], "ko", o["ko"], "p", p, "e1", e1, "e2", e2, "rate", np.log2(e1 / e2), t1, t2, n1))
        for k, nm in enumerate(("uu", "vv")):
            rate = np.log2(e1[k] / e2[k])
            require(e2[k] < 1e-9 or rate > (0.4 * p - 0.4 if coarse else 0.6 * p - 0.6), f"{tag}: {cs}: {nm} error {e1[k]:.3e} at t={t1} (factor 1), {e2[k]:.3e} at t={t2} (factor 2): order {rate:.2f}, expected about {p}")
    return f"{o['kind']} {'+'.join(o['coords'])} fd{o['fd']} {o['mol']}"


C.add_list("projects", proj_cases, run_proj, shards=8, budget=150, rule="project generated, built, run, killed after a checkpoint, restarted bit for bit, and (unless built with sanitizers) convergent")

if __name__ == "__main__":
    sys.exit(C.main())
