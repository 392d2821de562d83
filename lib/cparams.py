"""Random CodeParameter sets and their reference values (shared by C09 and C11)."""
import struct

RES = {"auto break case char const continue default do double else enum extern float for goto if int long register return short "
       "signed sizeof static struct switch typedef union unsigned void volatile while inline restrict bool true false main params "
       "commondata griddata grid REAL"}
TEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+./:;,!?()[]<>*&^$@~| "


def name_strategy():
    from hypothesis import strategies as st
    tail = st.text("abcxyzABCXYZ019_", min_size=0, max_size=10)
    return st.tuples(st.sampled_from(["q", "Q", "par", "Par", "z_", "Zq", "nq", "char_", "intx", "REALx", "b_"]), tail).map("".join)


def value_for(draw, st, typ, extra="=#%"):
    base = typ.split("[")[0]
    if base == "REAL":
        k = draw(st.sampled_from(["int", "simple", "wide"]))
        if k == "int":
            return draw(st.integers(-50, 50))
        if k == "simple":
            return draw(st.integers(-4000, 4000)) / 16.0
        m, e = draw(st.integers(-10**6, 10**6)), draw(st.integers(-18, 18))
        return float(f"{m}e{e}")
    if base == "int":
        return draw(st.integers(-100, 100) | st.sampled_from([2**31 - 1, -2**31 + 1, 65536, 0]))
    if base == "bool":
        return draw(st.booleans())
    n = int(typ.split("[")[1][:-1])
    if extra and draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(["50%", "a=b", "%s", "#1", "x # y = z", "%d%%", "100% of", "==", "##"]))[:n - 1]
    k = draw(st.integers(0, min(n - 1, 60)))
    return draw(st.text(st.sampled_from(TEXT + extra * 8), min_size=k, max_size=k))


def param_strategy(real_strings=False, extra="=#%", kinds=("REAL", "REAL", "int", "bool", "char", "REALa", "inta")):
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        k = draw(st.sampled_from(kinds))
        if k == "char":
            typ = f"char[{draw(st.sampled_from([1, 2, 8, 50, 100, 126, 130, 200]))}]"
        elif k == "REALa":
            typ = f"REAL[{draw(st.sampled_from([1, 2, 3, 5, 12, 30]))}]"
        elif k == "inta":
            typ = f"int[{draw(st.sampled_from([1, 2, 3, 7, 40]))}]"
        else:
            typ = k
        arr = k in ("REALa", "inta")
        com = arr or draw(st.booleans())
        inset = (not arr) and draw(st.sampled_from([True, True, False]))
        inpar = draw(st.booleans())
        p = dict(name=draw(name_strategy()), type=typ, com=com, inset=inset, inpar=inpar, module=draw(st.sampled_from(["m", "zmod", "Amod"])),
                 desc=draw(st.sampled_from(["", "words", "has = and # inside", "50% of [x] {y}"])), unset=False)
        if real_strings and k == "REAL" and draw(st.integers(0, 5)) == 0:
            p["default"] = draw(st.sampled_from(["M_PI", "1e-3", "2.0*M_PI", "1E5", "DBL_EPS_T"]))
            p["inpar"] = False
        elif not inpar and draw(st.integers(0, 3)) == 0:
            p["unset"] = True
            p["default"] = "unset"
        else:
            p["default"] = value_for(draw, st, typ, extra)
            if p["default"] == "unset":
                p["default"] = "unse"
        return p
    return strat()


def set_strategy(lo=1, hi=14, **kw):
    from hypothesis import strategies as st
    return st.lists(param_strategy(**kw), min_size=lo, max_size=hi, unique_by=lambda p: p["name"])


STRINGS = {"M_PI": 3.141592653589793, "1e-3": 1e-3, "2.0*M_PI": 2 * 3.141592653589793, "1E5": 1e5, "DBL_EPS_T": 0.125}


def rnd(v, fp):
    if isinstance(v, str):
        v = STRINGS[v]
    return struct.unpack("f", struct.pack("f", v))[0] if fp == "float" else float(v)


def register(ps):
    import nrpy.params as par
    for p in ps:
        par.register_CodeParameter(p["type"], p["module"], p["name"], p["default"], commondata=p["com"],
                                   add_to_parfile=p["inpar"], add_to_set_CodeParameters_h=p["inset"], description=p["desc"])


def printers(ps, expr):
    """C statements printing every parameter; expr(p) is the C lvalue."""
    out = []
    for p in ps:
        e, t = expr(p), p["type"]
        if t == "REAL":
            out.append(f'printf("{p["name"]} %.17g\\n", (double)({e}));')
        elif t in ("int", "bool"):
            out.append(f'printf("{p["name"]} %d\\n", (int)({e}));')
        elif t.startswith("char"):
            n = int(t.split("[")[1][:-1])
            out.append(f'printf("{p["name"]} "); for (int i_ = 0; i_ < {n} && {e}[i_]; i_++) printf("%02x", (unsigned char){e}[i_]); printf("\\n");')
        else:
            n = int(t.split("[")[1][:-1])
            f, c = ("%.17g", "double") if t.startswith("REAL") else ("%d", "int")
            out.append(f'printf("{p["name"]}"); for (int i_ = 0; i_ < {n}; i_++) printf(" {f}", ({c}){e}[i_]); printf("\\n");')
    return "\n".join(out)


def parse(line, p, fp):
    """Printed text of one parameter -> python value."""
    f = line.split(" ")
    t = p["type"]
    if t == "REAL":
        return float(f[1])
    if t == "int":
        return int(f[1])
    if t == "bool":
        return bool(int(f[1]))
    if t.startswith("char"):
        return bytes.fromhex(f[1] if len(f) > 1 else "").decode("latin1")
    return [float(x) if t.startswith("REAL") else int(x) for x in f[1:]]


def expected(p, v, fp):
    t = p["type"]
    if t == "REAL":
        return rnd(v, fp)
    if t.startswith("REAL"):
        n = int(t.split("[")[1][:-1])
        return [rnd(x, fp) for x in (v if isinstance(v, list) else [v] * n)]
    if t.startswith("int["):
        n = int(t.split("[")[1][:-1])
        return list(v) if isinstance(v, list) else [v] * n
    return v
