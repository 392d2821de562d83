"""Run projects generated by nrpy.infrastructures.superB without Charm++.

`translate(project_dir, inc_dir)` turns the project's .ci files into the .decl.h/.def.h
files charmc would have made, for the stand-in runtime in lib/minicharm: structured-dagger
entry methods become C++20 coroutines that wait on per-chare mailboxes.
"""
import os, re, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
RT = os.path.join(HERE, "minicharm")


class Unsupported(Exception):
    """The .ci file uses something the stand-in does not implement (never an alarm)."""


def _strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)


def _match(s, i, op, cl):
    """Index just after the bracket closing the one at s[i]."""
    depth, j, n = 0, i, len(s)
    while j < n:
        c = s[j]
        if c == '"' or c == "'":
            k = j + 1
            while k < n and s[k] != c:
                k += 2 if s[k] == "\\" else 1
            j = k + 1
            continue
        if c == op:
            depth += 1
        elif c == cl:
            depth -= 1
            if depth == 0:
                return j + 1
        j += 1
    raise Unsupported("unbalanced " + op)


class Param:
    def __init__(self, text):
        text = text.strip()
        self.arr = None
        m = re.match(r"^(.*?)\b(\w+)\s*\[(.*)\]$", text, re.S)
        if m:
            self.type, self.name, self.arr = m.group(1).strip(), m.group(2), m.group(3).strip()
            return
        m = re.match(r"^(.*?[\s\*&])(\w+)$", text, re.S)
        if not m:
            raise Unsupported("parameter " + text)
        self.type, self.name = m.group(1).strip(), m.group(2)

    @property
    def field(self):
        return f"std::vector<{self.type}> {self.name}" if self.arr else f"{self.type} {self.name}"

    @property
    def arg(self):
        return f"const {self.type} *{self.name}" if self.arr else f"{self.type} {self.name}"

    @property
    def ptr(self):
        return (not self.arr) and self.type.endswith("*")


def _params(text):
    text = text.strip()
    if not text or text == "void":
        return []
    out, depth, cur = [], 0, ""
    for c in text:
        if c in "<([":
            depth += 1
        if c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [Param(x) for x in out]


class Entry:
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body
        self.when = False


def parse_entries(text):
    es = []
    for m in re.finditer(r"\bentry\b\s*(\[[^\]]*\])?\s*(void\s+)?(\w+)\s*\(", text):
        close = _match(text, m.end() - 1, "(", ")")
        ps = text[m.end() : close - 1]
        rest = text[close:].lstrip()
        body = None
        if rest.startswith("{"):
            st = text.index("{", close)
            body = text[st : _match(text, st, "{", "}")]
        elif not rest.startswith(";"):
            raise Unsupported("entry " + m.group(3))
        es.append((m.group(3), ps, body, bool(m.group(2))))
    return es


def sdag(body, whens):
    """Structured-dagger block -> C++ coroutine code."""
    out, i, n = "", 0, len(body)
    while i < n:
        c = body[i]
        if c == '"':
            j = i + 1
            while body[j] != '"':
                j += 2 if body[j] == "\\" else 1
            out += body[i : j + 1]
            i = j + 1
            continue
        m = re.match(r"[A-Za-z_]\w*", body[i:])
        if not m:
            out += c
            i += 1
            continue
        w = m.group(0)
        j = i + len(w)
        if w == "serial":
            mm = re.match(r"\s*(\"[^\"]*\"\s*)?\{", body[j:])
            if not mm:
                raise Unsupported("serial")
            st = j + mm.end() - 1
            en = _match(body, st, "{", "}")
            out += body[st:en]  # plain C++: passed through untouched
            i = en
        elif w == "when":
            mm = re.match(r"\s*(\w+)\s*", body[j:])
            name = mm.group(1)
            j += mm.end()
            ref = None
            if body[j] == "[":
                en = _match(body, j, "[", "]")
                ref = body[j + 1 : en - 1]
                j = en
                j += len(re.match(r"\s*", body[j:]).group(0))
            if body[j] != "(":
                raise Unsupported("when")
            en = _match(body, j, "(", ")")
            ps = _params(body[j + 1 : en - 1])
            j = en
            mm = re.match(r"\s*(serial\s*(\"[^\"]*\"\s*)?)?\{", body[j:])
            if not mm:
                raise Unsupported("when with several conditions")
            st = j + mm.end() - 1
            en = _match(body, st, "{", "}")
            inner = body[st:en]
            if not mm.group(1):
                inner = sdag(inner, whens)
            whens.setdefault(name, []).append(ps)
            got = f"auto mc_m = co_await mc_mb_{name}.get({'' if ref is None else '(long)(' + ref + ')'});"
            decl = "".join(
                f" {p.type} *{p.name} = mc_m->mc_get<{k}>().data();" if p.arr else f" {p.type} {p.name} = mc_m->mc_get<{k}>();"
                for k, p in enumerate(ps)
            )
            out += "{ " + got + decl + " " + inner + " }"
            i = en
        elif w in ("if", "else", "while", "for"):
            out += w
            i = j
            mm = re.match(r"\s*\(", body[i:])
            if w != "else" and mm:
                en = _match(body, i + mm.end() - 1, "(", ")")
                out += body[i:en]
                i = en
        elif w in ("overlap", "case", "forall", "atomic"):
            raise Unsupported(w)
        else:
            raise Unsupported("statement outside serial: " + body[i : i + 60])
    return out


def translate(proj, inc):
    os.makedirs(inc, exist_ok=True)
    for f in ("pup.h", "pup_stl.h", "ckio.h"):
        with open(os.path.join(inc, f), "w") as o:
            o.write('#include "minicharm_light.h"\n')
    shutil.copy(os.path.join(RT, "minicharm.h"), inc)
    shutil.copy(os.path.join(RT, "minicharm_light.h"), inc)
    ci = _strip_comments(open(os.path.join(proj, "timestepping.ci")).read())
    mci = _strip_comments(open(os.path.join(proj, "main.ci")).read())
    if "message " in ci or "CProxySection" in ci:
        raise Unsupported("sections")
    includes = re.findall(r'include\s+"([^"]+)"', ci)
    raw = parse_entries(ci)
    ctor = [e for e in raw if e[0] == "Timestepping"]
    entries = [Entry(nm, _params(ps), b) for nm, ps, b, _ in raw if nm != "Timestepping"]
    if len(ctor) != 1:
        raise Unsupported("constructor")
    by = {}
    for e in entries:
        if e.name in by:
            raise Unsupported("overloaded entry " + e.name)
        by[e.name] = e
    whens = {}
    bodies = {}
    for e in entries:
        if e.body is not None:
            bodies[e.name] = sdag(e.body, whens)
    for nm, uses in whens.items():
        if nm not in by or by[nm].body is not None:
            raise Unsupported("when " + nm)
        by[nm].when = True
        for ps in uses:
            if len(ps) != len(by[nm].params):
                raise Unsupported("when arity " + nm)
    D = ["#ifndef MC_TIMESTEPPING_DECL_H", "#define MC_TIMESTEPPING_DECL_H", '#include "minicharm.h"']
    D += [f'#include "{x}"' for x in includes]
    D += ["class Timestepping;"]
    for e in entries:
        D.append(f"struct mc_Msg_{e.name} {{")
        D += [f"  {p.field};" for p in e.params]
        first = e.params[0] if e.params else None
        isint = first is not None and not first.arr and re.fullmatch(r"(const\s+)?(unsigned\s+|short\s+|long\s+)*(int|short|long|CMK_REFNUM_TYPE|size_t)", first.type)
        D.append(f"  long mc_ref() const {{ return {'(long)' + first.name if isint else '0'}; }}")
        for k, p in enumerate(e.params):
            if k == 0:
                D.append("  template <int K> auto &mc_get() {")
            D.append(f"    {'if' if k == 0 else 'else if'} constexpr (K == {k}) return {p.name};")
            if k == len(e.params) - 1:
                D.append("  }")
        D.append("};")
    sig = lambda e: ", ".join(p.arg for p in e.params)
    D.append("struct CProxyElement_Timestepping {\n  int elem;")
    D += [f"  void {e.name}({sig(e)}) const;" for e in entries]
    D.append("};")
    D.append("struct CProxy_Timestepping {")
    D.append("  CProxyElement_Timestepping operator()(int x, int y, int z) const {")
    D.append('    if (x < 0 || y < 0 || z < 0 || x >= mc::N0 || y >= mc::N1 || z >= mc::N2) mc::fail("message to chare (%d,%d,%d), which does not exist", x, y, z);')
    D.append("    return {mc::lin(x, y, z)};\n  }")
    D.append("  CProxyElement_Timestepping operator[](const CkArrayIndex3D &i) const { return (*this)(i.x, i.y, i.z); }")
    D += [f"  void {e.name}({sig(e)}) const;" for e in entries]
    D.append("  static CProxy_Timestepping ckNew(CommondataObject &d, int n0, int n1, int n2);")
    D.append("};")
    D.append("inline CkCallback::CkCallback(mc::Ep e, const CProxyElement_Timestepping &p) : ep(e.id), elem(p.elem) {}")
    D.append("struct CkIndex_Timestepping {")
    D += [f"  template <class... A> static mc::Ep {e.name}(A...) {{ return mc::Ep{{{k}}}; }}" for k, e in enumerate(entries)]
    D.append("};")
    D.append(
        """namespace mc { extern CkArrayIndex3D constructing; }
struct CBase_Timestepping {
  CkArrayIndex3D thisIndex;
  CProxy_Timestepping thisProxy;
  CBase_Timestepping() : thisIndex(mc::constructing) {}
  CBase_Timestepping(CkMigrateMessage *) {}
  void pup(PUP::er &p) { p | thisIndex.x; p | thisIndex.y; p | thisIndex.z; }
  int mc_elem() const { return mc::lin(thisIndex.x, thisIndex.y, thisIndex.z); }
  void contribute(const std::vector<double> &v, CkReduction::reducerType op, const CkCallback &cb) { mc::contribute(mc_elem(), v, op, cb); }
  void contribute(size_t bytes, const void *d, CkReduction::reducerType op, const CkCallback &cb) {
    const double *q = (const double *)d;
    mc::contribute(mc_elem(), std::vector<double>(q, q + bytes / sizeof(double)), op, cb);
  }
  void contribute(const CkCallback &cb) { mc::contribute(mc_elem(), {}, CkReduction::nop, cb); }
};"""
    )
    mac = ["public:", "friend struct mc_access;", "bool mc_finished_start = false;", "void __sdag_pup(PUP::er &) {}"]
    for e in entries:
        if e.body is not None:
            mac.append(f"mc::Task {e.name}({', '.join(p.field for p in e.params)});")
        elif e.when:
            mac.append(f"mc::Mailbox<mc_Msg_{e.name}> mc_mb_{e.name};")
    mac.append("alignas(16) char mc_state_begin;")
    D.append("#define Timestepping_SDAG_CODE " + " ".join(mac))
    D.append("#endif")
    open(os.path.join(inc, "timestepping.decl.h"), "w").write("\n".join(D) + "\n")

    F = ["namespace mc { extern std::vector<Timestepping *> elems; CkArrayIndex3D constructing; }"]
    for k, e in enumerate(entries):
        nm = e.name
        F.append(f"static void mc_dispatch_{nm}(int el, std::shared_ptr<mc_Msg_{nm}> m) {{")
        if e.when:
            F.append(f"  mc::elems[el]->mc_mb_{nm}.deliver(m);")
        else:
            args = ", ".join(
                (f"m->{p.name}" if e.body is not None else f"m->{p.name}.data()") if p.arr else f"m->{p.name}" for p in e.params
            )
            F.append(f"  mc::elems[el]->{nm}({args});")
        F.append("}")
        fill = [f"  auto mc_q = std::make_shared<mc_Msg_{nm}>();"]
        for p in e.params:
            fill.append(f"  mc_q->{p.name}.assign({p.name}, {p.name} + ({p.arr}));" if p.arr else f"  mc_q->{p.name} = {p.name};")
        F.append(f"void CProxyElement_Timestepping::{nm}({sig(e)}) const {{")
        F += fill + ["  const int mc_el = elem;", f"  mc::post(mc_el, [mc_el, mc_q] {{ mc_dispatch_{nm}(mc_el, mc_q); }});", "}"]
        F.append(f"void CProxy_Timestepping::{nm}({sig(e)}) const {{")
        F.append("  for (int mc_el = 0; mc_el < mc::nchares(); mc_el++) {")
        F += ["  " + x for x in fill] + [f"    mc::post(mc_el, [mc_el, mc_q] {{ mc_dispatch_{nm}(mc_el, mc_q); }});", "  }", "}"]
        if e.body is not None:
            F.append(f"mc::Task Timestepping::{nm}({', '.join(p.field for p in e.params)}) {{")
            F.append(bodies[nm])
            F.append("  mc_finished_start = true;" if nm == "start" else "")
            F.append("  co_return;\n}")
    F.append("void mc::invoke(int ep, int el, CkMessage *msg) {\n  switch (ep) {")
    for k, e in enumerate(entries):
        if len(e.params) == 0:
            F.append(f"  case {k}: delete msg; mc_dispatch_{e.name}(el, std::make_shared<mc_Msg_{e.name}>()); break;")
        elif len(e.params) == 1 and e.params[0].ptr:
            F.append(f"  case {k}: {{ auto m = std::make_shared<mc_Msg_{e.name}>(); m->{e.params[0].name} = dynamic_cast<{e.params[0].type}>(msg);")
            F.append(f'    if (!m->{e.params[0].name}) mc::fail("callback message of the wrong type for {e.name}"); mc_dispatch_{e.name}(el, m); }} break;')
    F.append('  default: mc::fail("callback to an entry method that takes no message");\n  }\n}')
    F.append(
        """CProxy_Timestepping CProxy_Timestepping::ckNew(CommondataObject &d, int n0, int n1, int n2) {
  mc::N0 = n0; mc::N1 = n1; mc::N2 = n2;
  PUP::er pk(1);
  d.pup(pk);
  for (int z = 0; z < n2; z++) for (int y = 0; y < n1; y++) for (int x = 0; x < n0; x++) {
    void *cm = aligned_alloc(64, (sizeof(CommondataObject) + 127) / 64 * 64);
    memset(cm, 0xA5, sizeof(CommondataObject));
    CommondataObject *c = new (cm) CommondataObject;
    PUP::er un(2);
    un.takeFrom(pk);
    c->pup(un);
    void *mem = aligned_alloc(64, (sizeof(Timestepping) + 127) / 64 * 64);
    memset(mem, 0xA5, sizeof(Timestepping));
    mc::constructing = CkArrayIndex3D(x, y, z);
    mc::elems.push_back(new (mem) Timestepping(std::move(*c)));
  }
  return CProxy_Timestepping();
}"""
    )
    open(os.path.join(inc, "timestepping.def.h"), "w").write("\n".join(F) + "\n")
    if set(nm for nm, _, _, _ in parse_entries(mci)) != {"Main", "done"}:
        raise Unsupported("main.ci")
    open(os.path.join(inc, "main.decl.h"), "w").write(
        '#ifndef MC_MAIN_DECL_H\n#define MC_MAIN_DECL_H\n#include "minicharm.h"\nstruct CProxy_Main { void done() const; };\n'
        "struct CBase_Main { CProxy_Main thisProxy; void pup(PUP::er &) {} };\n#endif\n"
    )
    open(os.path.join(inc, "main.def.h"), "w").write(
        "namespace mc { extern Main *the_main; }\nvoid CProxy_Main::done() const { mc::post(-1, [] { if (mc::the_main) mc::the_main->done(); }); }\n"
    )
