#!/usr/bin/env python3
"""C03: finite-difference operators are exact to their advertised order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C03", assumptions=["exact rational arithmetic on both sides"])
KINDS = ["dD", "dDD", "dupD", "ddnD", "dfullupD", "dfulldnD", "dKOD"]


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        # random histories: the same process serves many operators and orders, in any order
        n = draw(st.integers(1, 6))
        calls = []
        for _ in range(n):
            kind = draw(st.sampled_from(KINDS))
            order = 2 * draw(st.integers(1, 6))
            d = [draw(st.integers(0, 2))] + ([draw(st.integers(0, 2))] if kind == "dDD" else [])
            poly = draw(st.lists(st.tuples(st.tuples(st.integers(0, 14), st.integers(0, 14), st.integers(0, 14)),
                                           st.integers(-9, 9), st.integers(1, 9)), min_size=1, max_size=5))
            calls.append(dict(kind=kind, order=order, d=d, poly=poly, dx=draw(st.lists(st.tuples(st.integers(1, 9), st.integers(1, 9)), min_size=3, max_size=3)),
                              wrap=draw(st.sampled_from(["", "hDD_", "uu_"]))))
        return calls
    return strat()


def run(calls):
    from fractions import Fraction as F
    import nrpy.finite_difference as fin
    import fdmodel as m
    for c in calls:
        op = c["kind"] + "".join(map(str, c["d"]))
        order = c["order"]
        coeffs, stencil = fin.compute_fdcoeffs_fdstencl(op, order)
        require(len(coeffs) == len(stencil), f"{op} order {order}: {len(coeffs)} coefficients, {len(stencil)} points")
        got = {}
        for w, o in zip(coeffs, stencil):
            o = tuple(int(x) for x in o)
            require(o not in got, f"{op} order {order}: duplicate stencil point {o}")
            require(w.is_Rational, f"{op} order {order}: inexact coefficient {w}")
            got[o] = F(int(w.p), int(w.q))
            require(w != 0, f"{op} order {order}: zero coefficient stored")
        # (a) the advertised stencil
        r = order // 2
        kind = c["kind"]
        for o in got:
            lo, hi = {"dD": (-r, r), "dDD": (-r, r), "dupD": (-r + 1, r + 1), "ddnD": (-r - 1, r - 1), "dfullupD": (0, order),
                      "dfulldnD": (-order, 0), "dKOD": (-r - 1, r + 1)}[kind]
            for ax in range(3):
                if ax in c["d"]:
                    require(lo <= o[ax] <= hi, f"{op} order {order}: stencil point {o} outside [{lo},{hi}]")
                else:
                    require(o[ax] == 0, f"{op} order {order}: stencil point {o} leaves the derivative direction")
        # (b) exactness on the polynomial sum coeff * x^a y^b z^c at the origin
        dx = [F(a, b) for a, b in c["dx"]]
        val, exact = F(0), F(0)
        scale = F(1)
        for ax in c["d"]:
            scale /= dx[ax]
        for o, w in got.items():
            f = F(0)
            for (e, p, q) in c["poly"]:
                t = F(p, q)
                for ax in range(3):
                    if e[ax]:
                        t *= (o[ax] * dx[ax]) ** e[ax]
                f += t
            val += w * f
        val *= scale
        fits = True
        if kind == "dKOD":
            # annihilates polynomials of degree < order+2, and damps: applied to x^(order+2) it has the
            # sign (-1)^(r+1) with r = order/2+1 and size (order+2)!/2^(order+2)
            for (e, p, q) in c["poly"]:
                if e[c["d"][0]] >= order + 2:
                    fits = False
            exact = F(0)
        else:
            for (e, p, q) in c["poly"]:
                want = [0, 0, 0]
                for ax in c["d"]:
                    want[ax] += 1
                for ax in range(3):
                    if ax in c["d"]:
                        lim = order if not (kind == "dDD" and c["d"][0] == c["d"][1]) else order + 1
                        if e[ax] > lim:
                            fits = False
                if list(e) == want:
                    fac = 1
                    for k in want:
                        fac *= {0: 1, 1: 1, 2: 2}[k]
                    exact += F(p, q) * fac
        if fits:
            require(val == exact, f"{op} order {order}: on polynomial {c['poly']} spacing {c['dx']} gives {val}, exact {exact}")
        # (c) identical to the independent reference weights
        ref, _ = m.stencil3d(op, order)
        require(got == ref, f"{op} order {order}: weights {got} differ from the reference {ref}")
    return calls[0]["kind"]


C.add("operators", strategy, run, quick=500, thorough=6000, shards=4, budget=80,
      rule="random sequences of (operator, order 2-12, directions, grid spacings, random rational polynomial); every case is non-trivial")


def ko_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(order=st.integers(1, 6).map(lambda x: 2 * x), d=st.integers(0, 2),
                                      k=st.integers(1, 31)))


def run_ko(c):
    """Fourier symbol of the dissipation operator is real and in [-1, 0], reaching -1 at the grid mode."""
    import math
    import nrpy.finite_difference as fin
    w, s = fin.compute_fdcoeffs_fdstencl(f"dKOD{c['d']}", c["order"])
    th = math.pi * c["k"] / 31.0
    re = sum(float(a) * math.cos(th * o[c["d"]]) for a, o in zip(w, s))
    im = sum(float(a) * math.sin(th * o[c["d"]]) for a, o in zip(w, s))
    require(abs(im) < 1e-12, f"KO order {c['order']} symbol not real at theta={th}: {im}")
    want = -math.sin(th / 2) ** (c["order"] + 2)
    require(abs(re - want) < 1e-12, f"KO order {c['order']} symbol at theta={th} is {re}, a dissipation operator gives {want}")
    return "ko"


C.add("dissipation", ko_strategy, run_ko, quick=150, thorough=1500, budget=40, shards=1,
      rule="Fourier symbol of the Kreiss-Oliger operator at random wavenumbers and orders")


# arbitrary-offset first derivatives used by the outer boundary condition
def arb_strategy():
    from hypothesis import strategies as st
    return st.integers(1, 6).flatmap(lambda h: st.fixed_dictionaries(dict(order=st.just(2 * h), off=st.integers(-h, h),
                                                                         poly=st.lists(st.integers(-9, 9), min_size=1, max_size=2 * h + 1))))


def run_arb(c):
    from fractions import Fraction as F
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    co, ix = cbc.get_arb_offset_FD_coeffs_indices(c["order"], c["off"], 1)
    h = c["order"] // 2
    require(sorted(int(i) for i in ix) == list(range(-h + c["off"], h + c["off"] + 1)), f"offset {c['off']} order {c['order']}: points {ix}")
    val = sum(F(int(w.p), int(w.q)) * sum(F(a) * int(i) ** k for k, a in enumerate(c["poly"])) for w, i in zip(co, ix))
    want = c["poly"][1] if len(c["poly"]) > 1 else 0
    require(val == want, f"order {c['order']} offset {c['off']}: derivative of {c['poly']} is {val}, exact {want}")
    return "arb"


C.add("offset_stencils", arb_strategy, run_arb, quick=150, thorough=2000, budget=40, shards=1,
      rule="first-derivative stencils shifted by -order/2..order/2, exact on random polynomials of degree <= order")

if __name__ == "__main__":
    sys.exit(C.main())
