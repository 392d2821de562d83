#!/usr/bin/env python3
"""C05: the algebraic rewriting passes (CSE pre/post-processing, expression trees) preserve values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C05", assumptions=[
    "SymPy's cse() and basic constructors are trusted; everything NRPy+ does before and after is under test",
    "input symbols do not use the reserved names (_NegativeOne_, _Integer_*, _Rational_*, tmp*)",
])
NAMES = ["x", "y", "z", "w"]


def sev(e, env):
    """Independent evaluator of SymPy trees (no SymPy evaluation involved)."""
    import mpmath as mp
    import sympy as sp
    if e.is_Symbol:
        return env[str(e)]
    if e.is_Rational:
        return mp.mpf(int(e.p)) / int(e.q)
    if e.is_Float:
        return mp.mpf(str(e))
    if e is sp.pi:
        return +mp.pi
    if e is sp.E:
        return +mp.e
    a = [sev(x, env) for x in e.args]
    if e.is_Add:
        return mp.fsum(a)
    if e.is_Mul:
        return mp.fprod(a)
    if e.is_Pow:
        if a[0] == 0 and a[1] < 0:
            raise ZeroDivisionError
        return a[0] ** (int(e.exp) if e.exp.is_Integer else a[1])
    n = e.func.__name__
    import exprgen as g
    return g.MPF[n](*a)


def close(a, b, bound):
    import mpmath as mp
    return abs(a - b) <= mp.mpf(10) ** -30 * (abs(a) + abs(b) + 1) + mp.mpf(10) ** -60 * bound


def strategy():
    from hypothesis import strategies as st
    import exprgen as g

    @st.composite
    def strat(draw):
        return dict(exprs=draw(g.system_strategy(n=(1, 4), max_leaves=9, floats=False)), pts=draw(g.points_strategy(NAMES, 3)),
                    prefix=draw(st.sampled_from(["", "FD", "pre_"])), neg1=draw(st.booleans()), factor=draw(st.booleans()),
                    negative=draw(st.booleans()), pre=draw(st.booleans()), order=draw(st.sampled_from(["canonical", "none"])),
                    single=draw(st.booleans()), negpow=draw(st.sampled_from([0, 0, 0, 2, 3, 4, 5, 6, 7, 8])))
    return strat()


def oracle(exprs, pts):
    import exprgen as g
    import mpmath as mp
    g.RANGE[:] = [mp.mpf(10) ** 80, mp.mpf(10) ** -80]
    mp.mp.dps = 75
    rows = []
    for p in pts:
        r = []
        for e in exprs:
            try:
                r.append(g.evaluate(e, p))
            except g.Skip:
                r.append(None)
        rows.append(r)
    return rows


def run(c):
    import mpmath as mp
    import sympy as sp
    import exprgen as g
    from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess, cse_postprocess
    syms = [g.to_sympy(e) for e in c["exprs"]]
    if any(s.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds) for s in syms):
        return None
    want = oracle(c["exprs"], c["pts"])
    if c.get("negpow"):  # an unevaluated power of -1
        syms[-1] = sp.Mul(sp.Pow(sp.Integer(-1), c["negpow"], evaluate=False), syms[-1], evaluate=False)
        if c["negpow"] % 2:
            for row in want:
                row[-1] = row[-1] and (-row[-1][0], row[-1][1])
    before = list(syms)
    consts = {}
    arg = syms[0] if c["single"] and len(syms) == 1 else syms
    out = syms
    if c["pre"]:
        out, d = cse_preprocess(arg, prefix=c["prefix"], declare_neg1_as_symbol=c["neg1"], factor=c["factor"],
                                negative=c["negative"] and c["neg1"])
        require(syms == before, "cse_preprocess modified the caller's list")
        require(isinstance(out, list) and len(out) == len(syms), f"cse_preprocess returned {len(out)} expressions for {len(syms)}")
        for s, v in d.items():
            require(str(s).startswith(c["prefix"] + "_"), f"constant symbol {s} lacks the prefix {c['prefix']!r}")
            consts[str(s)] = mp.mpf(int(v.p)) / int(v.q)
        for s, o in zip(syms, out):
            extra = {str(x) for x in o.free_symbols} - {str(x) for x in s.free_symbols} - set(consts)
            require(not extra, f"cse_preprocess({s}) -> {o} uses undeclared symbols {sorted(extra)}")
    n = 0
    for ip, p in enumerate(c["pts"]):
        env = {k: mp.mpf(v) for k, v in p.items()}
        env.update(consts)
        for ie in range(len(syms)):
            if want[ip][ie] is None:
                continue
            v, b = want[ip][ie]
            try:
                x = sev(out[ie], env)
            except ZeroDivisionError:
                x = mp.nan
            require(close(x, v, b), f"cse_preprocess({syms[ie]}, {c['prefix']!r}, neg1={c['neg1']}, factor={c['factor']}, negative={c['negative']}) -> {out[ie]}: value {mp.nstr(x, 15)} instead of {mp.nstr(v, 15)} at {p}")
            n += 1
    # full pipeline: cse + postprocess
    try:
        repl, red = sp.cse(out, sp.numbered_symbols("tmp"), order=c["order"])
    except ValueError:  # SymPy's own limitation
        return None
    r0, d0 = list(repl), list(red)
    repl2, red2 = cse_postprocess((repl, red))
    require(list(repl) == r0 and list(red) == d0, "cse_postprocess modified its input")
    require(len(red2) == len(red), f"cse_postprocess returned {len(red2)} results for {len(red)}")
    names = [str(s) for s, _ in repl2]
    require(len(set(names)) == len(names), f"duplicate temporaries {names}")
    for ip, p in enumerate(c["pts"]):
        env = {k: mp.mpf(v) for k, v in p.items()}
        env.update(consts)
        base = dict(env)
        ok = True
        for s, e in repl2:
            missing = {str(x) for x in e.free_symbols} - set(env)
            require(not missing, f"temporary {s} = {e} uses {missing} before definition")
            try:
                env[str(s)] = sev(e, env)
            except (ZeroDivisionError, ValueError):
                env[str(s)] = mp.nan
                ok = False
            if isinstance(env[str(s)], mp.mpc):
                ok = False
        for ie in range(len(syms)):
            missing = {str(x) for x in red2[ie].free_symbols} - set(env)
            require(not missing, f"result {red2[ie]} uses undefined {missing}")
            if want[ip][ie] is None:
                continue
            v, b = want[ip][ie]
            try:
                x = sev(red2[ie], env)
            except ZeroDivisionError:
                x = mp.nan
            require(close(x, v, b) or not ok and False, f"after cse_postprocess: {syms[ie]} -> {repl2} ; {red2[ie]}: value {mp.nstr(x, 15)} instead of {mp.nstr(v, 15)} at {p}")
    return "pre" if c["pre"] and n >= 3 else ("post" if repl and n >= 3 else None)


C.add("passes", strategy, run, quick=1600, thorough=40000, shards=8, shards_thorough=8, budget=60, budget_thorough=900,
      rule="random systems of 1-4 expressions x preprocessing options; non-trivial: >=3 decisive point comparisons with preprocessing or at least one common subexpression")


def tree_strategy():
    from hypothesis import strategies as st
    import exprgen as g
    return st.fixed_dictionaries(dict(e=g.expr_strategy(max_leaves=14, floats=False), pick=st.integers(0, 200), new=g.expr_strategy(max_leaves=4, floats=False),
                                      pts=g.points_strategy(NAMES, 2)))


def run_tree(c):
    import mpmath as mp
    import sympy as sp
    import exprgen as g
    from nrpy.helpers.expr_tree import ExprTree
    e = g.to_sympy(c["e"])
    mp.mp.dps = 75
    if e.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds):
        return None
    t = ExprTree(e)
    pre = [n.expr for n in t.preorder()]
    require(pre == list(sp.preorder_traversal(e)), f"preorder of {e}: {pre}")
    post = [n.expr for n in t.postorder()]
    require(post == list(sp.postorder_traversal(e)), f"postorder of {e}: {post}")
    pts = c["pts"]
    for evaluate in (False, True):
        t = ExprTree(e)
        r = t.reconstruct(evaluate=evaluate)
        if evaluate:
            require(r == e or sp.srepr(r) == sp.srepr(e), f"reconstruct(evaluate=True) of {e} gives {r}")
        for p in pts:
            try:
                v, b = g.evaluate(c["e"], p)
            except g.Skip:
                continue
            x = sev(r, {k: mp.mpf(q) for k, q in p.items()})
            require(close(x, v, b), f"reconstruct({evaluate}) of {e} = {r} has a different value at {p}")
    # replacing one leaf symbol through the tree is the same as substituting that occurrence everywhere it was picked
    t = ExprTree(e)
    leaves = [n for n in t.preorder() if n.expr.is_Symbol]
    if leaves:
        target = leaves[c["pick"] % len(leaves)].expr
        u = sp.Symbol("u_new", real=True)
        for n in t.preorder():
            if n.expr == target:
                n.expr = u
        r = t.reconstruct()
        for p in pts:
            try:
                v, b = g.evaluate(c["e"], p)
            except g.Skip:
                continue
            env = {k: mp.mpf(q) for k, q in p.items()}
            env["u_new"] = env.pop(str(target))
            require(close(sev(r, env), v, b), f"renaming {target} in the tree of {e} gives {r}")
    # rebuilding a node
    t = ExprTree(e)
    new = g.to_sympy(c["new"])
    if new.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds):
        return "tree" if g.size(c["e"]) >= 5 else None
    t.root.expr = new
    t.build(t.root)
    require([n.expr for n in t.preorder()] == list(sp.preorder_traversal(new)), f"build() after assigning {new} leaves {[n.expr for n in t.preorder()]}")
    return "tree" if g.size(c["e"]) >= 5 else None


C.add("trees", tree_strategy, run_tree, quick=500, thorough=10000, shards=2, budget=40, budget_thorough=600,
      rule="random expressions; traversal order, reconstruction, leaf replacement and rebuild; non-trivial: >=5 nodes")


def fun_strategy():
    from hypothesis import strategies as st
    item = st.integers(-3, 5)
    return st.fixed_dictionaries(dict(a=st.lists(item, max_size=6), b=st.lists(item, min_size=1, max_size=4), c=st.lists(item, min_size=1, max_size=3),
                                      nest=st.lists(st.one_of(item, st.lists(item, max_size=3)), max_size=6), rep=st.integers(1, 3)))


def run_fun(c):
    import itertools
    from nrpy.helpers import functional as f
    from nrpy.helpers.generic import superfast_uniq
    a = c["a"]
    require(superfast_uniq(a) == list(dict.fromkeys(a)), f"superfast_uniq({a}) = {superfast_uniq(a)}")
    require(f.uniquify(a) == list(dict.fromkeys(a)), f"uniquify({a}) = {f.uniquify(a)}")
    want = [y for x in c["nest"] for y in (x if isinstance(x, list) else [x])]
    require(list(f.flatten(c["nest"])) == want, f"flatten({c['nest']})")
    require(list(f.chain(*c["nest"])) == want, f"chain({c['nest']})")
    require(list(f.product(c["b"], c["c"])) == list(itertools.product(c["b"], c["c"])), f"product({c['b']},{c['c']})")
    require(list(f.product(c["b"], c["c"], c["b"])) == list(itertools.product(c["b"], c["c"], c["b"])), "triple product")
    if c["rep"] > 1:
        require(list(f.product(c["b"], repeat=c["rep"])) == list(itertools.product(c["b"], repeat=c["rep"])), f"product({c['b']}, repeat={c['rep']})")
    require(f.pipe(3, lambda x: x + 1, lambda x: x * 2) == 8 and f.repeat(lambda x: x * 2, 1, c["rep"]) == 2 ** c["rep"], "pipe/repeat")
    if a:
        require(f.reduce(lambda x, y: x * 10 + y, a) == __import__("functools").reduce(lambda x, y: x * 10 + y, a), f"reduce over {a}")
    require(f.reduce(lambda x, y: x - y, a, 7) == 7 - sum(a), "reduce with initializer")
    return "fun"


C.add("sequences", fun_strategy, run_fun, quick=300, thorough=3000, shards=1, budget=30,
      rule="list helpers used by the passes against itertools/functools")

if __name__ == "__main__":
    sys.exit(C.main())
