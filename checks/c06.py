#!/usr/bin/env python3
"""C06: indexed expressions have exactly the declared symmetries; matrix inverses are inverses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C06", assumptions=[
    "symmetry tokens act on disjoint index groups",
    "base names contain '_d' only to mark a derivative, as the naming convention requires",
])


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        rank = draw(st.integers(1, 4))
        dim = draw(st.integers(1, 4))
        toks, free = [], list(range(rank))
        if rank > 1:
            for _ in range(draw(st.integers(0, 2))):
                if len(free) < 2:
                    break
                k = draw(st.integers(2, len(free)))
                g = sorted(draw(st.permutations(free))[:k])
                free = [i for i in free if i not in g]
                toks.append(draw(st.sampled_from(["sym", "sym", "anti"])) + "".join(map(str, g)))
        nd = draw(st.integers(0, min(2, rank)))
        kind = draw(st.sampled_from(["d", "dup", "dKO", "ddn"])) if nd == 1 else "d"
        ud = "".join(draw(st.lists(st.sampled_from("UD"), min_size=rank - nd, max_size=rank - nd)))
        name = draw(st.sampled_from(["h", "trK", "lambda", "Psi4_re", "pp->x", "A1b"])) + ud + (f"_{kind}{'D' * nd}" if nd else "")
        axes = draw(st.sampled_from(["", "", "", "0", "1", "2", "01", "12", "02", "012"]))
        return dict(rank=rank, dim=dim, sym="_".join(toks) or draw(st.sampled_from([None, "nosym"])), nd=nd, name=name, axes=axes,
                    via=draw(st.sampled_from(["declare", "rankN"])), default_dim=draw(st.booleans()))
    return strat()


def model(idx, sym):
    """(sign, canonical index); sign 0 when the component vanishes."""
    idx, sign = list(idx), 1
    for tok in (sym or "nosym").split("_"):
        if tok == "nosym":
            continue
        anti = tok.startswith("anti")
        pos = [int(ch) for ch in tok[4 if anti else 3:]]
        vals = [idx[p] for p in pos]
        if anti:
            if len(set(vals)) < len(vals):
                return 0, None
            inv = sum(1 for a in range(len(vals)) for b in range(a + 1, len(vals)) if vals[a] > vals[b])
            sign *= (-1) ** inv
        for p, v in zip(pos, sorted(vals)):
            idx[p] = v
    return sign, tuple(idx)


def run(c):
    import itertools
    import sympy as sp
    import nr
    nr.reset()
    import nrpy.indexedexp as ixp
    import nrpy.params as par
    par.set_parval_from_str("symmetry_axes", c["axes"])
    dim = 3 if c["default_dim"] else c["dim"]
    kw = {} if c["default_dim"] else dict(dimension=c["dim"])
    if c["sym"] is not None:
        kw["symmetry"] = c["sym"]
    if c["via"] == "declare":
        T = ixp.declare_indexedexp(c["name"], rank=c["rank"], **kw)
    else:
        T = getattr(ixp, f"declarerank{c['rank']}")(c["name"], **kw)
    require(ixp.get_rank(T) == c["rank"], f"rank of {c['name']}: {ixp.get_rank(T)}")
    # no aliasing between rows, right shape
    seen = set()

    def walk(x, depth):
        if depth == c["rank"]:
            require(not isinstance(x, list), "too deep")
            return
        require(isinstance(x, list) and len(x) == dim, f"{c['name']}: level {depth} is not a list of {dim}")
        require(id(x) not in seen, f"{c['name']}: two rows share storage")
        seen.add(id(x))
        for y in x:
            walk(y, depth + 1)
    walk(T, 0)
    for idx in itertools.product(range(dim), repeat=c["rank"]):
        v = T
        for i in idx:
            v = v[i]
        s, can = model(idx, c["sym"])
        if s == 0:
            want = sp.Integer(0)
        else:
            want = s * sp.Symbol(c["name"] + "".join(map(str, can)))
            if c["nd"] and any(str(i) in c["axes"] for i in can[c["rank"] - c["nd"]:]):
                want = sp.Integer(0)
        require(sp.sympify(v) == want, f"{c['name']} rank {c['rank']} dim {dim} symmetry {c['sym']} axes {c['axes']!r}: component {idx} is {v}, want {want}")
    Z = getattr(ixp, f"zerorank{c['rank']}")(dimension=dim)
    seen.clear()
    walk(Z, 0)
    flat = Z
    for _ in range(c["rank"] - 1):
        flat = [y for x in flat for y in x]
    require(all(x == 0 for x in flat), f"zerorank{c['rank']} is not zero")
    return "sym" if c["sym"] not in (None, "nosym") else None


C.add("declarations", strategy, run, quick=3000, thorough=30000, shards=4, budget=50, budget_thorough=600,
      rule="rank 1-4, dimension 1-4, random (anti)symmetry strings, derivative names, symmetry axes; non-trivial: a symmetry was requested")


def inv_strategy():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        n = draw(st.integers(2, 4))
        ent = st.tuples(st.integers(-6, 6), st.integers(1, 5))
        m = [[draw(ent) for _ in range(n)] for _ in range(n)]
        sym = draw(st.booleans())
        if sym:
            for i in range(n):
                for j in range(i):
                    m[i][j] = m[j][i]
        if draw(st.sampled_from([False, False, False, True])) and not sym:
            m[n - 1] = m[0]
        return dict(n=n, m=m, sym=sym, names=draw(st.booleans()))
    return strat()


def run_inv(c):
    from fractions import Fraction as F
    import sympy as sp
    import nrpy.indexedexp as ixp
    n = c["n"]
    f = [[F(*x) for x in r] for r in c["m"]]

    def det(a):
        if len(a) == 1:
            return a[0][0]
        return sum((-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(len(a)))
    D = det(f)
    fn = getattr(ixp, f"{'symm' if c['sym'] else 'generic'}_matrix_inverter{n}x{n}")
    if c["names"] and D != 0:
        # symbolic entries, numbers substituted afterwards
        S = ixp.declarerank2("m", dimension=n, symmetry="sym01" if c["sym"] else "nosym")
        sub = {S[i][j]: sp.Rational(*c["m"][i][j]) for i in range(n) for j in range(n)}
        inv, d = fn(S)
        d = sp.sympify(d).subs(sub)
        inv = [[sp.sympify(inv[i][j]).subs(sub) for j in range(n)] for i in range(n)]
    else:
        M = [[sp.Rational(*x) for x in r] for r in c["m"]]
        M0 = [list(r) for r in M]
        if D == 0:
            try:
                fn(M)
            except ixp.NonInvertibleMatrixError:
                return "singular"
            raise Violation(f"{fn.__name__} accepted the singular matrix {c['m']}")
        inv, d = fn(M)
        require(M == M0, f"{fn.__name__} modified its input")
    require(F(int(d.p), int(d.q)) == D, f"{fn.__name__}: determinant {d}, exact {D} for {c['m']}")
    for i in range(n):
        for j in range(n):
            s = sum(F(int(inv[i][k].p), int(inv[i][k].q)) * f[k][j] for k in range(n))
            require(s == (1 if i == j else 0), f"{fn.__name__}: (inverse * matrix)[{i}][{j}] = {s} for {c['m']}")
    return f"{n}x{n}"


C.add("inverses", inv_strategy, run_inv, quick=1500, thorough=12000, shards=2, budget=50, budget_thorough=600,
      rule="random rational matrices 2x2-4x4, symmetric and generic, numeric and symbolic entries, singular ones included; all are non-trivial")


def lc_cases(tier, rng):
    return [dict(p=rng.randint(1, 50), q=rng.randint(1, 50), v=[rng.randint(-9, 9) for _ in range(9)]) for _ in range(40)]


def run_lc(c):
    import itertools
    import sympy as sp
    import nrpy.indexedexp as ixp
    s = sp.Rational(c["p"], c["q"])
    E, U, D = ixp.LeviCivitaSymbol_dim3_rank3(), ixp.LeviCivitaTensorUUU_dim3_rank3(s), ixp.LeviCivitaTensorDDD_dim3_rank3(s)
    m = [c["v"][0:3], c["v"][3:6], c["v"][6:9]]
    det = 0
    for i, j, k in itertools.product(range(3), repeat=3):
        p = [i, j, k]
        sg = 0 if len(set(p)) < 3 else (-1) ** sum(1 for a in range(3) for b in range(a + 1, 3) if p[a] > p[b])
        require(E[i][j][k] == sg and U[i][j][k] == sg / s and D[i][j][k] == sg * s, f"Levi-Civita component {p}: {E[i][j][k]}, {U[i][j][k]}, {D[i][j][k]} for sqrt(g)={s}")
        det += E[i][j][k] * m[0][i] * m[1][j] * m[2][k]
    require(det == sp.Matrix(m).det(), "determinant through the Levi-Civita symbol")
    return "lc"


C.add_list("levi_civita", lc_cases, run_lc, budget=30, rule="random sqrt(det) and 3x3 integer matrices")

if __name__ == "__main__":
    sys.exit(C.main())
