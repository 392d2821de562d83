"""Random symbolic expressions as JSON s-expressions, with an independent
high-precision evaluator that also tracks a first-order rounding-error bound.

s-expr:  ["v", name] | ["q", p, q] | ["f", "0.25"] | ["pi"]
       | ["add", e, ...] | ["mul", e, ...] | ["powi", e, n] | ["powq", e, p, q]
       | ["fn", name, e, ...]
"""
import mpmath as mp
import sympy as sp
from hypothesis import strategies as st

mp.mp.dps = 40

MPF = {
    "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "exp": mp.exp, "log": mp.log,
    "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh,
    "atan": mp.atan, "Abs": abs, "nrpyAbs": abs, "sign": mp.sign,
    "atan2": mp.atan2, "Max": max, "Min": min, "acos": mp.acos, "asin": mp.asin,
    "acosh": mp.acosh, "erf": mp.erf,
}


class Skip(Exception):
    """The point is outside the expression's real, well-conditioned domain."""


RANGE = [mp.mpf(10) ** 80, mp.mpf(10) ** -80]


def ev(e, env):
    """-> (value, error bound in units of eps)"""
    r = _ev(e, env)
    if not mp.isfinite(r[0]) or abs(r[0]) > RANGE[0] or (r[0] != 0 and abs(r[0]) < RANGE[1]):
        raise Skip
    return r


def _ev(e, env):
    op = e[0]
    if op == "v":
        x = env[e[1]]
        return x if isinstance(x, tuple) else (x, mp.mpf(0))
    if op == "q":
        v = mp.mpf(e[1]) / e[2]
        return v, abs(v)
    if op == "f":
        v = mp.mpf(e[1])
        return v, abs(v)
    if op == "pi":
        return +mp.pi, +mp.pi
    if op == "add":
        vs = [ev(x, env) for x in e[1:]]
        v = mp.fsum(x for x, _ in vs)
        return v, mp.fsum(b for _, b in vs) + mp.fsum(abs(x) for x, _ in vs)
    if op == "mul":
        v, b = mp.mpf(1), mp.mpf(0)
        for x in e[1:]:
            xv, xb = ev(x, env)
            b = b * abs(xv) + xb * abs(v)
            v = v * xv
            b += abs(v)
        return v, b
    if op == "powi":
        v, b = ev(e[1], env)
        n = e[2]
        if v == 0 and n < 0:
            raise Skip
        if n < 0 and b * mp.mpf(10) ** -10 > abs(v):
            raise Skip
        r = v ** n
        d = abs(n * v ** (n - 1)) if not (v == 0 and n < 1) else mp.mpf(0)
        return r, d * b + (abs(n) + 1) * abs(r)
    if op == "powq":
        v, b = ev(e[1], env)
        if v <= 0 or b * mp.mpf(10) ** -10 > v:
            raise Skip
        q = mp.mpf(e[2]) / e[3]
        r = v ** q
        return r, abs(q * r / v) * b + 4 * abs(r)
    if op == "fn":
        name = e[1]
        args = [ev(x, env) for x in e[2:]]
        try:
            r = MPF[name](*[a for a, _ in args])
        except (ValueError, ZeroDivisionError, OverflowError) as ex:
            raise Skip from ex
        if isinstance(r, mp.mpc) or not mp.isfinite(r) or abs(r) > 1e12:
            raise Skip
        b = 4 * abs(r)
        if name in ("Abs", "nrpyAbs"):
            b += args[0][1]
        elif name in ("sign",):
            if abs(args[0][0]) < mp.mpf(10) ** -9 * (1 + args[0][1]):
                raise Skip
        elif name in ("Max", "Min"):
            b += sum(a[1] for a in args)
        else:
            for i, (a, ab) in enumerate(args):
                if ab == 0:
                    continue
                h = mp.mpf(10) ** -12 * (1 + abs(a))
                aa = [x for x, _ in args]
                aa[i] = a + h
                try:
                    r2 = MPF[name](*aa)
                except (ValueError, ZeroDivisionError) as ex:
                    raise Skip from ex
                if isinstance(r2, mp.mpc):
                    raise Skip
                b += abs((r2 - r) / h) * ab * 2
        return r, b
    raise ValueError(op)


def evaluate(e, env):
    v, b = ev(e, {k: (mp.mpf(x[0]), mp.mpf(x[1])) if isinstance(x, tuple) else mp.mpf(x) for k, x in env.items()})
    if isinstance(v, mp.mpc) or not mp.isfinite(v) or abs(v) > mp.mpf(10) ** 22 or b > mp.mpf(10) ** 24:
        raise Skip
    return v, b


def to_sympy(e, syms=None, nrpyAbs=None, assume=None):
    if assume is None:
        assume = {"real": True}

    def S(name):
        if syms is not None and name in syms:
            return syms[name]
        return sp.Symbol(name, **assume)

    def rec(e):
        op = e[0]
        if op == "v":
            return S(e[1])
        if op == "q":
            return sp.Rational(e[1], e[2])
        if op == "f":
            return sp.Float(e[1])
        if op == "pi":
            return sp.pi
        if op == "add":
            return sp.Add(*[rec(x) for x in e[1:]])
        if op == "mul":
            return sp.Mul(*[rec(x) for x in e[1:]])
        if op == "powi":
            return sp.Pow(rec(e[1]), e[2])
        if op == "powq":
            return sp.Pow(rec(e[1]), sp.Rational(e[2], e[3]))
        if op == "fn":
            a = [rec(x) for x in e[2:]]
            if e[1] == "nrpyAbs":
                return sp.Function("nrpyAbs")(*a)
            return getattr(sp, e[1])(*a)
        raise ValueError(op)

    return rec(e)


def symbols_of(e):
    if e[0] == "v":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, list):
            out |= symbols_of(x)
    return out


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def ops_of(e):
    out = {e[0] if e[0] != "fn" else e[1]}
    for x in e[1:]:
        if isinstance(x, list):
            out |= ops_of(x)
    return out


RATS = [(1, 2), (-1, 2), (1, 3), (-1, 3), (3, 2), (-3, 2), (2, 3), (-2, 3), (5, 2), (-5, 2),
        (1, 6), (-1, 6), (1, 4), (3, 4), (4, 3), (-7, 2)]
FNS = ["sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "asinh", "atan", "Abs", "nrpyAbs", "atan2"]


def expr_strategy(names=("x", "y", "z", "w"), fns=FNS, rats=RATS, max_leaves=14, ipow=(-6, 8), floats=True,
                  share=True, consts_p=1, pi=True):
    """Expressions built around a small pool of shared sub-expressions so that
    CSE and partial factorisation have something to do."""
    var = st.sampled_from(names).map(lambda n: ["v", n])
    small = st.sampled_from([(1, 1), (-1, 1), (2, 1), (3, 1), (-2, 1), (1, 2), (-1, 2), (2, 3), (-3, 4), (5, 7),
                             (7, 1), (1, 12), (-1, 60), (11, 6), (0, 1)]) | st.tuples(
        st.integers(-30, 30), st.integers(1, 40))
    rat = small.map(lambda t: ["q", t[0], t[1]])
    leaf_list = [var, var, var, rat]
    if floats:
        leaf_list.append(st.sampled_from(["0.5", "2.0", "1.25", "-0.375"]).map(lambda s: ["f", s]))
    if pi:
        leaf_list.append(st.just(["pi"]))
    leaf = st.one_of(*leaf_list)

    def pos(sub):
        # an expression that is positive wherever it is real
        return st.one_of(
            var,
            sub.map(lambda e: ["add", ["powi", e, 2], ["q", 1, 2]]),
            sub.map(lambda e: ["add", ["mul", e, e], ["v", names[0]], ["q", 2, 1]]),
            st.tuples(var, var).map(lambda t: ["mul", *t]),
            st.tuples(var, var).map(lambda t: ["add", *t]),
        )

    def extend(sub):
        ip = st.integers(*ipow)
        alts = [
            st.lists(sub, min_size=2, max_size=4).map(lambda l: ["add", *l]),
            st.lists(sub, min_size=2, max_size=4).map(lambda l: ["mul", *l]),
            st.lists(sub, min_size=2, max_size=3).map(lambda l: ["add", *l]),
            st.lists(sub, min_size=2, max_size=3).map(lambda l: ["mul", *l]),
            st.tuples(sub, ip).map(lambda t: ["powi", t[0], t[1]]),
            st.tuples(sub, sub).map(lambda t: ["add", t[0], ["mul", ["q", -1, 1], t[1]]]),
            st.tuples(sub, sub).map(lambda t: ["mul", t[0], ["powi", t[1], -1]]),
        ]
        if rats:
            alts.append(st.tuples(pos(sub), st.sampled_from(rats)).map(lambda t: ["powq", t[0], *t[1]]))
        if fns:
            def mk(t):
                f, a, b = t
                if f == "log":
                    return ["fn", "log", ["add", ["powi", a, 2], ["q", 3, 2]]]
                if f in ("exp", "sinh", "cosh"):
                    return ["fn", f, ["fn", "sin", a]] if "sin" in fns else ["fn", f, ["mul", ["q", 1, 8], a]]
                if f in ("atan2", "Max", "Min"):
                    return ["fn", f, a, b]
                return ["fn", f, a]
            alts.append(st.tuples(st.sampled_from(fns), sub, sub).map(mk))
        return st.one_of(*alts)

    return st.recursive(leaf, extend, max_leaves=max_leaves)


@st.composite
def system_strategy(draw, n=(1, 4), **kw):
    """A list of expressions drawing on common sub-expressions."""
    base = expr_strategy(**kw)
    pool = draw(st.lists(base, min_size=1, max_size=3))
    k = draw(st.integers(*n))
    out = []
    for _ in range(k):
        e = draw(base)
        if draw(st.booleans()):
            p = draw(st.sampled_from(pool))
            how = draw(st.sampled_from(["add", "mul", "addneg", "div"]))
            if how == "add":
                e = ["add", e, p]
            elif how == "mul":
                e = ["mul", e, p]
            elif how == "addneg":
                e = ["add", e, ["mul", ["q", -1, 1], p]]
            else:
                e = ["mul", p, ["powi", ["add", ["powi", e, 2], ["q", 1, 1]], -1]]
        out.append(e)
    return out


def points_strategy(names=("x", "y", "z", "w"), n=6, lo=-3.0, hi=3.0):
    f = st.integers(1, 1000)

    def mk(ints):
        pts, it = [], iter(ints)
        for k in range(n):
            p = {}
            for nm in names:
                i = next(it)
                # the first half of the points is positive, the rest of mixed sign
                v = 0.15 + 2.2 * i / 1000.0
                if k >= (n + 1) // 2 and i % 2:
                    v = -v
                p[nm] = round(v, 6)
            pts.append(p)
        return pts

    return st.lists(f, min_size=n * len(names), max_size=n * len(names)).map(mk)
