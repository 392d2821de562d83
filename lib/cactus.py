"""A very small Cactus: parses a thorn's interface/param/schedule.ccl and builds a program that
declares to every scheduled function exactly what its own schedule entry grants (READS -> const,
WRITES -> mutable), serves CCTK_ParameterGet from param.ccl, and calls functions in schedule order."""
import os
import re

import vp
from vp import Violation, require

EXTERNAL = {
    "metric": ["gxx", "gxy", "gxz", "gyy", "gyz", "gzz"],
    "curv": ["kxx", "kxy", "kxz", "kyy", "kyz", "kzz"],
    "lapse": ["alp"],
    "shift": ["betax", "betay", "betaz"],
    "dtshift": ["dtbetax", "dtbetay", "dtbetaz"],
    "stress_energy_scalar": ["eTtt"],
    "stress_energy_vector": ["eTtx", "eTty", "eTtz"],
    "stress_energy_tensor": ["eTxx", "eTxy", "eTxz", "eTyy", "eTyz", "eTzz"],
}


def strip(text):
    return "\n".join(l.split("#")[0] if not l.lstrip().startswith("#") else "" for l in text.split("\n"))


def parse_interface(text):
    text = strip(text)
    groups = {}
    for m in re.finditer(r"^CCTK_REAL\s+(\w+)\s+type\s*=\s*GF\b([^\n{]*?(?:TAGS='[^']*')?)\s*\{([^}]*)\}", text, re.M):
        name = m.group(1)
        require(name not in groups, f"interface.ccl declares the variable group {name} twice")
        groups[name] = dict(vars=[v.strip() for v in re.split(r"[,\s]+", m.group(3).strip()) if v.strip()], attrs=m.group(2))
    impl = re.findall(r"^implements:\s*(\w+)", text, re.M)
    require(len(impl) == 1, f"interface.ccl: implements lines {impl}")
    inh = re.findall(r"^inherits:[ \t]*(.*)$", text, re.M)
    return dict(implements=impl[0], inherits=inh[0].split() if inh else [], groups=groups, text=text)


def parse_param(text):
    text = strip(text)
    out = {}
    body = text[text.index("restricted:"):]
    for m in re.finditer(r"^(\w+)\s+(\w+)\s+\"[^\"]*\"\s*\{([^}]*)\}\s*(\S+)", body, re.M):
        require(m.group(2) not in out, f"param.ccl declares {m.group(2)} twice")
        out[m.group(2)] = (m.group(1), m.group(4), m.group(3))
    return out


def parse_schedule(text):
    text = strip(text)
    items = []
    pos = 0
    conds = []          # (condition, end position) of enclosing if-blocks
    for m in re.finditer(r"\bif\s*\(([^)]*)\)\s*\{", text):
        depth, k = 1, m.end()
        while depth and k < len(text):
            depth += {"{": 1, "}": -1}.get(text[k], 0)
            k += 1
        conds.append((m.group(1).strip(), m.start(), k))
    for m in re.finditer(r"\bschedule\s+([^{]*?)\{([^}]*)\}\s*\"([^\"]*)\"", text, re.I):
        tok = m.group(1).split()
        it = dict(group=False, before=[], after=[], alias=None, bin=None, cond=[c for c, a, b in conds if a < m.start() < b], reads={}, writes={}, sync=[], opts={})
        if tok[0].upper() == "GROUP":
            it["group"] = True
            tok = tok[1:]
        it["name"] = tok[0]
        k = 1
        while k < len(tok):
            w = tok[k].lower()
            require(w in ("at", "in", "as", "before", "after") and k + 1 < len(tok), f"schedule.ccl: cannot read 'schedule {m.group(1).strip()}'")
            if w in ("at", "in"):
                require(it["bin"] is None, f"schedule.ccl: two bins in 'schedule {m.group(1).strip()}'")
                it["bin"] = tok[k + 1].upper()
            elif w == "as":
                it["alias"] = tok[k + 1]
            else:
                it[w].append(tok[k + 1])
            k += 2
        require(it["bin"], f"schedule.ccl: no bin in 'schedule {m.group(1).strip()}'")
        for kw, body in re.findall(r"\b(LANG|OPTIONS|READS|WRITES|SYNC)\s*:\s*((?:(?!\b(?:LANG|OPTIONS|READS|WRITES|SYNC)\s*:).)*)", m.group(2), re.S):
            if kw in ("LANG", "OPTIONS"):
                it["opts"][kw] = body.strip()
            elif kw == "SYNC":
                it["sync"] += [v for v in re.split(r"[,\s]+", body.strip()) if v]
            else:
                for v in re.findall(r"([\w:]+)\s*(?:\(\s*(\w+)\s*\))?", body):
                    it[kw.lower()][v[0]] = v[1] or "interior"
        items.append(it)
    storage = re.findall(r"^STORAGE:\s*(\w+)\s*\[(\d+)\]", text, re.M)
    return items, storage


class Thorn:
    def __init__(self, path, name):
        rd = lambda f: open(os.path.join(path, name, f), encoding="utf-8").read()
        self.path, self.name = os.path.join(path, name), name
        self.iface = parse_interface(rd("interface.ccl"))
        self.params = parse_param(rd("param.ccl"))
        self.items, self.storage = parse_schedule(rd("schedule.ccl"))
        mk = strip(rd("src/make.code.defn"))
        self.srcs = re.findall(r"[\w./]+\.(?:cxx|c)\b", mk.split("SRCS", 1)[1])
        self.vars = [v for g in self.iface["groups"].values() for v in g["vars"]]

    def resolve(self, v):
        """A READS/WRITES entry -> list of variables."""
        if "::" in v:
            impl, g = v.split("::")
            if impl == self.name:
                return self.resolve(g)
            require(impl in self.iface["inherits"], f"{self.name}: schedule.ccl uses {v} but interface.ccl inherits only {self.iface['inherits']}", "schedule-uses-uninherited")
            require(g in EXTERNAL, f"{self.name}: unknown external group {v}")
            return EXTERNAL[g]
        if v in self.iface["groups"]:
            return self.iface["groups"][v]["vars"]
        require(v in self.vars, f"{self.name}: schedule.ccl mentions {v}, which interface.ccl does not declare")
        return [v]

    def access(self, fn):
        """variable -> (readable, writable, write region) over every schedule entry of fn."""
        rd, wr = {}, {}
        for it in self.items:
            if it["name"] == fn and not it["group"]:
                for v, reg in it["reads"].items():
                    for x in self.resolve(v):
                        rd[x] = reg
                for v, reg in it["writes"].items():
                    for x in self.resolve(v):
                        wr[x] = reg
        return rd, wr

    def order(self, bin_, **par):
        """Functions of a bin in an order consistent with before/after (ties: as listed)."""
        its = [it for it in self.items if it["bin"] == bin_.upper() and all(self.cond(c, par) for c in it["cond"])]
        nm = lambda it: it["alias"] or it["name"]
        n = len(its)
        edge = set()
        for a in range(n):
            for b in range(n):
                if a != b and (nm(its[b]) in its[a]["before"] or its[b]["name"] in its[a]["before"] or nm(its[a]) in its[b]["after"] or its[a]["name"] in its[b]["after"]):
                    edge.add((a, b))
        done, out = set(), []
        while len(out) < n:
            nxt = [k for k in range(n) if k not in done and not any(b == k and a not in done for a, b in edge)]
            require(nxt, f"{self.name}: the schedule of {bin_} is cyclic: {[nm(i) for i in its]}")
            done.add(nxt[0])
            out.append(its[nxt[0]])
        return out

    @staticmethod
    def cond(c, par):
        m = re.fullmatch(r"(\w+)\s*==\s*(\d+)", c)
        require(m and m.group(1) in par, f"schedule.ccl: unexpected condition '{c}'")
        return par[m.group(1)] == int(m.group(2))


CCTK_H = r"""#ifndef CCTK_H_
#define CCTK_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef double CCTK_REAL; typedef int CCTK_INT; typedef const char *CCTK_STRING;
#ifdef __cplusplus
extern "C" {
#define restrict __restrict__
#endif
typedef struct { int cctk_lsh[3], cctk_ash[3], cctk_nghostzones[3]; CCTK_REAL cctk_delta_space[3]; int cctk_levfac[3]; CCTK_REAL cctk_time, cctk_delta_time; CCTK_REAL *data[512]; } cGH;
#define CCTK_ARGUMENTS cGH *cctkGH
#define CCTK_GFINDEX3D(GH, i, j, k) ((i) + (GH)->cctk_ash[0] * ((j) + (GH)->cctk_ash[1] * (k)))
#define CCTK_DELTA_SPACE(d) (cctkGH->cctk_delta_space[d] / cctkGH->cctk_levfac[d])
#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))
#define CCTK_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define CCTK_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ALL_FACES 63
#define CCTK_ERROR(m) do { printf("ERROR %s\n", m); } while(0)
const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type);
int CCTK_GroupIndex(const char *g);
int MoLRegisterEvolvedGroup(int a, int b);
int SetCartSymVN(cGH *, const int *sym, const char *name);
int Driver_SelectVarForBC(const void *GH, int faces, int w, int t, const char *v, const char *bc);
int Boundary_SelectVarForBC(const void *GH, int faces, int w, int t, const char *v, const char *bc);
int ExtrapolateGammas(const void *GH, CCTK_REAL *var);
int NewRad_Apply(const void *GH, const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, int radpower);
int Einstein_RegisterSlicing(const char *);
#ifdef __cplusplus
}
#endif
#endif
"""

LOOP_HXX = r"""#ifndef LOOP_HXX_
#define LOOP_HXX_
#include "cctk.h"
namespace Loop {
struct V3 { int v[3]; int operator[](int d) const { return v[d]; } };
inline V3 operator+(V3 a, V3 b) { return {{a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]}}; }
inline V3 operator-(V3 a, V3 b) { return {{a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2]}}; }
inline V3 operator*(int n, V3 b) { return {{n * b.v[0], n * b.v[1], n * b.v[2]}}; }
struct PointDesc { V3 I; V3 DI[3]; };
template <typename T> struct GF3D2 {
  T *p; const cGH *gh;
  T &operator()(V3 i) const {
    for(int d = 0; d < 3; d++) if(i.v[d] < 0 || i.v[d] >= gh->cctk_lsh[d]) { fprintf(stderr, "gridfunction accessed outside the grid\n"); abort(); }
    return p[CCTK_GFINDEX3D(gh, i.v[0], i.v[1], i.v[2])];
  }
};
struct Grid {
  const cGH *gh; V3 nghostzones;
  template <class F> void run(int lo0, int lo1, int lo2, F f) const {
    int lo[3] = {lo0, lo1, lo2};
    PointDesc p; for(int d = 0; d < 3; d++) for(int e = 0; e < 3; e++) p.DI[d].v[e] = d == e;
    for(int k = lo[2]; k < gh->cctk_lsh[2] - lo[2]; k++) for(int j = lo[1]; j < gh->cctk_lsh[1] - lo[1]; j++) for(int i = lo[0]; i < gh->cctk_lsh[0] - lo[0]; i++) { p.I = V3{{i, j, k}}; f(p); }
  }
#define VP_L(NAME, A, B, C) template <int CI, int CJ, int CK, class F> void NAME(V3 ng, F f) const { (void)ng; run(A, B, C, f); }
  VP_L(loop_all_device, 0, 0, 0) VP_L(loop_all, 0, 0, 0) VP_L(loop_int_device, ng[0], ng[1], ng[2]) VP_L(loop_int, ng[0], ng[1], ng[2])
};
}
#endif
"""

NEWRADX = r"""#ifndef NEWRADX_
#define NEWRADX_
#include "loop_device.hxx"
namespace NewRadX {
inline void NewRadX_Apply(const cGH *gh, const Loop::GF3D2<const CCTK_REAL> var, Loop::GF3D2<CCTK_REAL> rhs, CCTK_REAL v0, CCTK_REAL c, CCTK_REAL rp) { NewRad_Apply(gh, var.p, rhs.p, v0, c, (int)rp); }
inline void NewRadX_Apply(const cGH *gh, const Loop::GF3D2<CCTK_REAL> var, Loop::GF3D2<CCTK_REAL> rhs, CCTK_REAL v0, CCTK_REAL c, CCTK_REAL rp) { NewRad_Apply(gh, var.p, rhs.p, v0, c, (int)rp); }
}
#endif
"""

MAIN = r"""
#include "cctk.h"
@PROTO@
static const char *names[] = {@NAMES@, 0};
static cGH GH;
static CCTK_REAL *nthvar(const char *what, const void *p) { for(int n = 0; names[n]; n++) if(GH.data[n] == p) { printf(" %s", names[n]); return GH.data[n]; } printf(" ?%s", what); return 0; }
@PARAMDEF@
const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type) {
  (void)type;
  if(strcmp(thorn, "@THORN@") == 0) { @PARAMGET@ }
  printf("NOPARAM %s::%s\n", thorn, name); fflush(stdout); return 0;
}
int CCTK_GroupIndex(const char *g) { static int n = 10; printf("GROUP %d %s\n", n, g); return n++; }
int MoLRegisterEvolvedGroup(int a, int b) { printf("MOL %d %d\n", a, b); return 0; }
int SetCartSymVN(cGH *gh, const int *s, const char *name) { (void)gh; printf("SYM %s %d %d %d\n", name, s[0], s[1], s[2]); return 0; }
int Driver_SelectVarForBC(const void *G, int f, int w, int t, const char *v, const char *bc) { (void)G; printf("DBC %s %s %d %d %d\n", v, bc, f, w, t); return 0; }
int Boundary_SelectVarForBC(const void *G, int f, int w, int t, const char *v, const char *bc) { (void)G; printf("BBC %s %s %d %d %d\n", v, bc, f, w, t); return 0; }
int ExtrapolateGammas(const void *G, CCTK_REAL *v) { (void)G; printf("EXTRAP"); nthvar("", v); printf("\n"); return 0; }
int NewRad_Apply(const void *G, const CCTK_REAL *v, CCTK_REAL *r, CCTK_REAL v0, CCTK_REAL c, int rp) { (void)G; printf("NEWRAD"); nthvar("", v); nthvar("", r); printf(" %.17g %.17g %d\n", v0, c, rp); return 0; }
int Einstein_RegisterSlicing(const char *s) { printf("SLICING %s\n", s); return 0; }
static void rd(FILE *f, void *p, size_t n) { if(fread(p, 1, n, f) != n) exit(4); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"); int hd[8]; double d[8];
  rd(f, hd, sizeof hd); rd(f, d, sizeof d);
  for(int k = 0; k < 3; k++) { GH.cctk_lsh[k] = hd[k]; GH.cctk_ash[k] = hd[k] + hd[6]; GH.cctk_nghostzones[k] = hd[3 + k]; GH.cctk_levfac[k] = 1 << hd[7]; GH.cctk_delta_space[k] = d[k] * (1 << hd[7]); }
  GH.cctk_time = d[3]; GH.cctk_delta_time = d[4];
@PARAMRD@
  const size_t tot = (size_t)GH.cctk_ash[0] * GH.cctk_ash[1] * GH.cctk_ash[2];
  int nv = 0; for(; names[nv]; nv++) { GH.data[nv] = (double *)malloc(8 * tot); rd(f, GH.data[nv], 8 * tot); }
  int nc; rd(f, &nc, 4);
  for(int c = 0; c < nc; c++) {
    int w; rd(f, &w, 4); printf("CALL %d\n", w); fflush(stdout);
    switch(w) {
@CALLS@
    default: exit(5);
    }
  }
  fclose(f);
  f = fopen(argv[2], "wb"); for(int n = 0; n < nv; n++) fwrite(GH.data[n], 8, tot, f);
  fclose(f); printf("END\n");
  for(int n = 0; n < nv; n++) free(GH.data[n]);
  return 0;
}
"""


class Program:
    """The thorn compiled against the small Cactus."""

    def __init__(self, thorn, flags=(), cxx=False, jobs=1, asan=True, opt='-O1'):
        t = self.t = thorn
        self.fns = sorted({it["name"] for it in t.items if not it["group"]})
        ext = [v for g, vs in EXTERNAL.items() for v in vs]
        self.names = t.vars + ext
        idx = {n: k for k, n in enumerate(self.names)}
        d = vp.fresh_dir()
        X = ".cxx" if cxx else ".c"
        src = os.path.join(t.path, "src")
        w = lambda n, s: open(os.path.join(d, n), "w").write(s)
        w("cctk.h", CCTK_H)
        w("loop_device.hxx", LOOP_HXX)
        w("newradx.hxx", NEWRADX)
        for h in ("Symmetry.h", "Slicing.h", "cctk_Faces.h", "util_Table.h"):
            w(h, '#include "cctk.h"\n')
        common = "const int *cctk_lsh CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_lsh; const int *cctk_nghostzones CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_nghostzones; const CCTK_REAL cctk_time CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_time;"
        # declared with C linkage up front, so that definitions with and without extern "C" link
        proto = "\n".join(f"int {fn}(void);" if fn.endswith("_RegisterSlicing") else f"void {fn}(CCTK_ARGUMENTS);" for fn in self.fns)
        proto = '#include "cctk.h"\n#ifdef __cplusplus\nextern "C" {\n#endif\n' + proto + "\n#ifdef __cplusplus\n}\n#endif\n"
        args = "#pragma once\n" + proto
        for fn in self.fns:
            r, wr = t.access(fn)
            plain, x = [], []
            for v in sorted(set(r) | set(wr)):
                c = "" if v in wr else "const "
                plain.append(f"{c}CCTK_REAL *restrict {v} CCTK_ATTRIBUTE_UNUSED = cctkGH->data[{idx[v]}];")
                x.append(f"const Loop::GF3D2<{c}CCTK_REAL> {v} CCTK_ATTRIBUTE_UNUSED{{cctkGH->data[{idx[v]}], cctkGH}};")
            args += f"#define DECLARE_CCTK_ARGUMENTS_{fn} {common} {' '.join(plain)} do {{}} while(0)\n"
            args += (f"#define DECLARE_CCTK_ARGUMENTSX_{fn} {common} const Loop::Grid grid CCTK_ATTRIBUTE_UNUSED{{cctkGH, {{{{cctk_nghostzones[0], cctk_nghostzones[1], cctk_nghostzones[2]}}}}}}; "
                     f"{' '.join(x)} do {{}} while(0)\n")
        w("cctk_Arguments.h", args)
        ctype = {"CCTK_REAL": "CCTK_REAL", "REAL": "CCTK_REAL", "CCTK_INT": "CCTK_INT", "INT": "CCTK_INT"}
        for n, (ty, dv, _) in t.params.items():
            require(ty in ctype, f"{t.name}: param.ccl declares {n} with type {ty}")
        decl = " ".join(f"const {ctype[ty]} {n} CCTK_ATTRIBUTE_UNUSED = VP_par_{n};" for n, (ty, _, _) in t.params.items())
        ex = " ".join(f"extern {ctype[ty]} VP_par_{n};" for n, (ty, _, _) in t.params.items())
        ext_c = '#ifdef __cplusplus\nextern "C" {\n#endif\n%s\n#ifdef __cplusplus\n}\n#endif\n'
        w("cctk_Parameters.h", "#pragma once\n" + ext_c % ex + f"#define DECLARE_CCTK_PARAMETERS {decl} do {{}} while(0)\n")
        m = MAIN
        for k, v in {
            "@PROTO@": proto, "@THORN@": t.name,
            "@NAMES@": ", ".join(f'"{n}"' for n in self.names),
            "@PARAMDEF@": "\n".join(f"{ctype[ty]} VP_par_{n};" for n, (ty, _, _) in t.params.items()),
            "@PARAMGET@": " ".join(f'if(strcmp(name, "{n}") == 0) return &VP_par_{n};' for n in t.params),
            "@PARAMRD@": "\n".join(f"  {{ double q; rd(f, &q, 8); VP_par_{n} = q; }}" for n in t.params),
            "@CALLS@": "\n".join(f"    case {k}: {fn}({'' if fn.endswith('_RegisterSlicing') else '&GH'}); break;" for k, fn in enumerate(self.fns)),
        }.items():
            m = m.replace(k, v)
        self.pnames = list(t.params)
        main = os.path.join(d, "vp_main" + X)
        open(main, "w").write(m)
        srcs = [os.path.join(src, s) for s in t.srcs] + [main]
        for s in srcs:
            require(os.path.exists(s), f"{t.name}: make.code.defn lists {os.path.basename(s)}, which was not written")
        exe = os.path.join(d, "prog")
        comp = ["g++", "-std=c++17"] if cxx else ["gcc", "-std=gnu99"]
        base = comp + [opt, "-w", "-fno-strict-aliasing", f"-I{d}", f"-I{src}"] + (["-fsanitize=address"] if asan else []) + list(flags)
        from concurrent.futures import ThreadPoolExecutor

        def cc(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = vp.sh(base + ["-c", s, "-o", o], timeout=600)
            return s, o, r
        with ThreadPoolExecutor(jobs) as ex_:
            res = list(ex_.map(cc, srcs))
        for s, o, r in res:
            require(r.returncode == 0, f"{t.name}: {os.path.basename(s)} does not compile: {r.stderr.decode(errors='replace')[:1200]}", f"compile-{os.path.basename(s)}")
        r = vp.sh(base + [o for _, o, _ in res] + ["-lm", "-o", exe], timeout=600)
        require(r.returncode == 0, f"{t.name}: the thorn does not link: {r.stderr.decode(errors='replace')[:1200]}", "link")
        self.exe, self.d = exe, d

    def run(self, lsh, ng, dx, data, calls, params, time=0.0, pad=0, lev=0, threads=1, what=""):
        """data: name -> array [i][j][k]; calls: function names. Returns (data after, log lines)."""
        import numpy as np
        ash = [n + pad for n in lsh]
        b = np.array(list(lsh) + list(ng) + [pad, lev], np.int32).tobytes() + np.array(list(dx) + [time, 0.01, 0, 0, 0], np.float64).tobytes()
        b += np.array([float(params[n]) for n in self.pnames]).tobytes()
        for n in self.names:
            A = np.full(ash[::-1], np.nan)
            if n in data:
                A[:lsh[2], :lsh[1], :lsh[0]] = np.transpose(data[n], (2, 1, 0))
            b += A.tobytes()
        b += np.array([len(calls)] + [self.fns.index(c) for c in calls], np.int32).tobytes()
        i, o = os.path.join(self.d, "in.bin"), os.path.join(self.d, "out.bin")
        open(i, "wb").write(b)
        r = vp.run_exe(self.exe, [i, o], timeout=120, env={"OMP_NUM_THREADS": str(threads), "ASAN_OPTIONS": "detect_leaks=0"})
        log = r.stdout.decode(errors="replace").split("\n")
        require(r.returncode == 0 and "END" in log, f"{what}: calling {calls} failed (rc={r.returncode}): {' | '.join(log[-4:])[:300]} {r.stderr.decode(errors='replace')[:900]}")
        z = np.fromfile(o).reshape([len(self.names)] + ash[::-1])
        out = {n: np.transpose(z[k][:lsh[2], :lsh[1], :lsh[0]], (2, 1, 0)) for k, n in enumerate(self.names)}
        padbad = False
        if pad:
            m = np.ones(ash[::-1], bool)
            m[:lsh[2], :lsh[1], :lsh[0]] = False
            padbad = not np.isnan(z[:, m]).all()
        return out, log, padbad
