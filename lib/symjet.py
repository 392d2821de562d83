"""Evaluate a SymPy expression on Taylor jets (symbols matched by name)."""
from jet import Jet
from mpmath import mp, mpf
from symeval import Evaluator


class JetEvaluator(Evaluator):
    """env: name -> Jet or number."""

    def node(self, x, a):
        if not any(isinstance(y, Jet) for y in a):
            return Evaluator.node(self, x, a)
        if x.is_Add:
            r = a[0]
            for y in a[1:]:
                r = r + y
            return r
        if x.is_Mul:
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if x.is_Pow:
            b, p = a
            q = x.args[1]
            if isinstance(b, Jet) and not isinstance(p, Jet):
                return b ** int(q) if q.is_Integer and int(q) >= 0 else b.pw(p)
            if x.args[0] is self.sp.E:
                return p.exp()
            raise TypeError("jet exponent")
        n = type(x).__name__
        if n in ("sin", "cos", "exp", "sinh"):
            return getattr(a[0], n)()
        if n == "log":
            c = a[0].c[0]
            return a[0].apply([mp.log(c)] + [(-1) ** (k + 1) / (k * c ** k) for k in range(1, a[0].N + 1)])
        if n == "tan":
            return a[0].sin() / a[0].cos()
        if n in ("Abs", "nrpyAbs"):
            return a[0] if a[0].v >= 0 else -a[0]
        raise TypeError("jet function " + n)
