"""Numerical evaluation of a SymPy expression DAG in mpmath, symbols matched by name."""
from mpmath import mp, mpf

_F = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
      "asin": mp.asin, "acos": mp.acos, "atan": mp.atan, "atan2": mp.atan2, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh,
      "Abs": abs, "nrpyAbs": abs, "erf": mp.erf, "sech": mp.sech, "sign": mp.sign, "csc": mp.csc, "sec": mp.sec, "cot": mp.cot,
      "Max": max, "Min": min, "re": mp.re, "im": mp.im, "conjugate": mp.conj, "polygamma": mp.polygamma, "loggamma": mp.loggamma, "gamma": mp.gamma}


class Evaluator:
    def __init__(self, env):
        import sympy as sp
        self.sp, self.env, self.memo, self.unknown = sp, env, {}, set()

    def __call__(self, e):
        sp = self.sp
        if isinstance(e, (int, float)):
            return mpf(e)
        e = sp.sympify(e)
        stack = [e]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            if not x.args:
                memo[x] = self.leaf(x)
                stack.pop()
                continue
            todo = [a for a in x.args if a not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self.node(x, [memo[a] for a in x.args])
            stack.pop()
        return memo[e]

    def leaf(self, x):
        sp = self.sp
        if x.is_Symbol:
            n = x.name
            if n not in self.env:
                self.unknown.add(n)
                raise KeyError("symbol without a value: " + n)
            return self.env[n]
        if x.is_Rational:
            return mpf(x.p) / mpf(x.q)
        if x.is_Float:
            return mpf(x._mpf_)
        if x is sp.pi:
            return +mp.pi
        if x is sp.E:
            return +mp.e
        if x is sp.I:
            return mp.mpc(0, 1)
        if x is sp.S.EulerGamma:
            return +mp.euler
        if x is sp.zoo or x is sp.nan:
            return mp.nan
        raise TypeError("leaf " + repr(x))

    def node(self, x, a):
        if x.is_Add:
            return mp.fsum(a)
        if x.is_Mul:
            r = mpf(1)
            for y in a:
                r = r * y
            return r
        if x.is_Pow:
            b, p = a
            q = x.args[1]
            if q.is_Integer:
                return b ** int(q)
            if q == self.sp.Rational(1, 2):
                return mp.sqrt(b)
            return mp.power(b, p)
        n = type(x).__name__
        if n == "UndefinedFunction" or n not in _F:
            n = x.func.__name__
        if n in _F:
            return _F[n](*a)
        raise TypeError("function " + n)
