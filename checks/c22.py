#!/usr/bin/env python3
"""C22: the horizon expansion function is the divergence of outgoing null rays; symbolic rotations are rotations."""
import contextlib, io, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C22", assumptions=["surface points away from the poles and the origin; positive definite metrics"])
R = range(3)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------ expansion
_FN = {}


def theta_value(expr, key, env):
    import sympy as sp
    if key not in _FN:
        fs = sorted(expr.free_symbols, key=str)
        miss = [str(q) for q in fs if str(q) not in env]
        require(not miss, f"Theta contains unknown symbols {miss}")
        _FN[key] = ([str(q) for q in fs], sp.lambdify(fs, expr, "mpmath", cse=True))
    names, fn = _FN[key]
    return fn(*[env[n] for n in names])


def theta_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 4))
    v = lambda n, s: st.lists(f(-s, s), min_size=n, max_size=n)
    return st.fixed_dictionaries(dict(pre=st.booleans(), r=f(0.3, 6), th=f(0.25, 2.9), ph=f(-3, 3), h=v(6, 0.3), dh=v(18, 0.7), W=f(0.3, 1.4), dW=v(3, 0.8), a=v(6, 0.8), trK=f(-1, 1),
                                      hd=v(2, 1.2), hdd=v(3, 1.5), kind=st.sampled_from(["general", "general", "general", "flat", "static"])))


IDX = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]


def run_theta(c):
    import mpmath as mp
    import sympy as sp
    mp.mp.dps = 60
    from nrpy.equations.general_relativity.bhahaha import ExpansionFunctionTheta as E
    key = "Spherical_rfm_precompute" if c["pre"] else "Spherical"
    with quiet():
        T = E.ExpansionFunctionTheta[key]
    r, th, ph = mp.mpf(c["r"]), mp.mpf(c["th"]), mp.mpf(c["ph"])
    sym = lambda l: {(i, j): mp.mpf(l[IDX.index((min(i, j), max(i, j)))]) for i in R for j in R}
    z = c["kind"] == "flat"
    h0 = sym([0] * 6 if z else c["h"])
    dh = [sym([0] * 6 if z else c["dh"][6 * k:6 * k + 6]) for k in R]
    W0, dW = (mp.mpf(1), [mp.mpf(0)] * 3) if z else (mp.mpf(c["W"]), [mp.mpf(x) for x in c["dW"]])
    aa = sym(c["a"] if c["kind"] != "static" else [0] * 6)
    trK = mp.mpf(c["trK"] if c["kind"] != "static" else 0)
    hd, hdd = [mp.mpf(x) for x in c["hd"]], [mp.mpf(x) for x in c["hdd"]]
    x0 = (r, th, ph)

    def fields(x):
        d = [x[k] - x0[k] for k in R]
        sc = [mp.mpf(1), x[0], x[0] * mp.sin(x[1])]
        W = W0 + sum(dW[k] * d[k] for k in R)
        G = mp.matrix(3, 3)
        for i in R:
            for j in R:
                hij = h0[i, j] + sum(dh[k][i, j] * d[k] for k in R)
                G[i, j] = sc[i] * sc[j] * (hij + (1 if i == j else 0)) / W ** 2
        return G

    def hsurf(t, p):
        a, b = t - th, p - ph
        return r + hd[0] * a + hd[1] * b + hdd[0] * a * a / 2 + hdd[1] * a * b + hdd[2] * b * b / 2

    def s_dens(x):
        """sqrt(det) s^i for the level sets of r - h(theta, phi); h's own derivatives are exact here."""
        G = fields(x)
        a, b = x[1] - th, x[2] - ph
        F = [mp.mpf(1), -(hd[0] + hdd[0] * a + hdd[1] * b), -(hd[1] + hdd[1] * a + hdd[2] * b)]
        Gi = G ** -1
        up = [sum(Gi[i, j] * F[j] for j in R) for i in R]
        lam = mp.sqrt(sum(up[i] * F[i] for i in R))
        sd = mp.sqrt(mp.det(G))
        return [sd * up[i] / lam for i in R], [up[i] / lam for i in R], sd

    G = fields(x0)
    ev = [G[0, 0], G[0, 0] * G[1, 1] - G[0, 1] ** 2, mp.det(G)]
    sc = [mp.mpf(1), r, r * mp.sin(th)]
    hh = mp.matrix(3, 3)
    for i in R:
        for j in R:
            hh[i, j] = h0[i, j] + (1 if i == j else 0)
    if not (hh[0, 0] > 0.1 and hh[0, 0] * hh[1, 1] - hh[0, 1] ** 2 > 0.05 and mp.det(hh) > 0.02):
        return None
    del ev
    eps = mp.mpf(10) ** -18
    div = mp.mpf(0)
    for i in R:
        xp, xm = list(x0), list(x0)
        xp[i] += eps
        xm[i] -= eps
        div += (s_dens(xp)[0][i] - s_dens(xm)[0][i]) / (2 * eps)
    _, s, sd = s_dens(x0)
    # trace-free Abar in the rescaled basis
    hi = hh ** -1
    tr = sum(hi[i, j] * aa[i, j] for i in R for j in R)
    aa = {(i, j): aa[i, j] - hh[i, j] * tr / 3 for i in R for j in R}
    ssK = sum(s[i] * s[j] * (sc[i] * sc[j] * aa[i, j] / W0 ** 2 + G[i, j] * trK / 3) for i in R for j in R)
    want = div / sd - trK + ssK
    env = {"hh": r, "xx0": r, "xx1": th, "xx2": ph, "WW": W0, "trK": trK, "f0_of_xx0": r, "f1_of_xx1": mp.sin(th), "f1_of_xx1__D1": mp.cos(th), "f1_of_xx1__DD11": -mp.sin(th)}
    for k in R:
        env[f"partial_D_WW{k}"] = dW[k]
        env[f"hh_dD{k}"] = [mp.mpf("7.5"), hd[0], hd[1]][k]   # h does not depend on r: a radial derivative must not matter
        for i in R:
            for j in R:
                env[f"partial_D_hDD{k}{i}{j}"] = dh[k][i, j]
                env[f"hDD{i}{j}"], env[f"aDD{i}{j}"] = h0[i, j], aa[i, j]
    for i in R:
        for j in R:
            env[f"hh_dDD{i}{j}"] = {(1, 1): hdd[0], (1, 2): hdd[1], (2, 2): hdd[2]}.get((min(i, j), max(i, j)), mp.mpf("-3.25"))
    got = theta_value(T.Theta, key, env)
    scale = 1 + abs(div / sd) + abs(trK) + abs(ssK)
    require(abs(got - want) < mp.mpf(10) ** -15 * scale * 1e3, f"{key}: Theta = {mp.nstr(got, 15)}, D_i s^i - K + s^i s^j K_ij = {mp.nstr(want, 15)} at r=h={c['r']}, theta={c['th']} for {c}")
    return c["kind"] + ("+pre" if c["pre"] else "")


C.add("expansion", theta_strategy, run_theta, quick=400, thorough=20000, shards=4, budget=40, rule="positive definite metric; expansion compared with a numerical divergence at 60 digits")


# exact horizons: Theta = 0 on the horizon, > 0 outside, < 0 inside
def hor_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 4))
    return st.fixed_dictionaries(dict(pre=st.booleans(), M=f(0.3, 3), th=f(0.3, 2.8), ph=f(-3, 3), slicing=st.sampled_from(["isotropic", "kerr-schild", "painleve"]), fac=f(0.4, 1.9)))


def run_hor(c):
    import mpmath as mp
    import sympy as sp
    mp.mp.dps = 40
    from nrpy.equations.general_relativity.bhahaha import ExpansionFunctionTheta as E
    key = "Spherical_rfm_precompute" if c["pre"] else "Spherical"
    with quiet():
        T = E.ExpansionFunctionTheta[key]
    M, th = mp.mpf(c["M"]), mp.mpf(c["th"])
    # spherically symmetric: gamma = A dr^2 + B r^2 dOmega, K_rr = k, K_thth = q r^2 (per unit sphere)
    if c["slicing"] == "isotropic":
        rh = M / 2
        A = lambda r: (1 + M / (2 * r)) ** 4
        B, k, q = A, lambda r: mp.mpf(0), lambda r: mp.mpf(0)
    elif c["slicing"] == "kerr-schild":
        rh = 2 * M
        A = lambda r: 1 + 2 * M / r
        B = lambda r: mp.mpf(1)
        al = lambda r: 1 / mp.sqrt(1 + 2 * M / r)
        k = lambda r: -2 * M / r ** 2 * al(r) * (1 + M / r)
        q = lambda r: 2 * M / r ** 2 * al(r)
    else:
        rh = 2 * M
        A = B = lambda r: mp.mpf(1)
        k = lambda r: -mp.sqrt(M / (2 * r ** 3))
        q = lambda r: mp.sqrt(2 * M / r ** 3)
    res = {}
    for tag, r in (("on", rh), ("off", rh * mp.mpf(c["fac"]))):
        W = lambda x: (A(x) * B(x) ** 2) ** (-mp.mpf(1) / 6)
        hr = lambda x: A(x) * W(x) ** 2 - 1
        ht = lambda x: B(x) * W(x) ** 2 - 1
        D = lambda f, x: (f(x + mp.mpf(10) ** -15) - f(x - mp.mpf(10) ** -15)) / (2 * mp.mpf(10) ** -15)
        trK = k(r) / A(r) + 2 * q(r) / B(r)
        env = {"hh": r, "xx0": r, "xx1": th, "xx2": mp.mpf(c["ph"]), "WW": W(r), "trK": trK, "f0_of_xx0": r, "f1_of_xx1": mp.sin(th), "f1_of_xx1__D1": mp.cos(th), "f1_of_xx1__DD11": -mp.sin(th)}
        for i in R:
            env[f"partial_D_WW{i}"] = D(W, r) if i == 0 else mp.mpf(0)
            env[f"hh_dD{i}"] = mp.mpf(0)
            for j in R:
                env[f"hh_dDD{i}{j}"] = mp.mpf(0)
                env[f"hDD{i}{j}"] = (hr(r) if i == 0 else ht(r)) if i == j else mp.mpf(0)
                Kij = (k(r) if i == 0 else q(r)) if i == j else mp.mpf(0)
                gij = (A(r) if i == 0 else B(r)) if i == j else mp.mpf(0)
                env[f"aDD{i}{j}"] = W(r) ** 2 * (Kij - gij * trK / 3)
                for l in R:
                    env[f"partial_D_hDD{l}{i}{j}"] = (D(hr, r) if i == 0 else D(ht, r)) if i == j and l == 0 else mp.mpf(0)
        res[tag] = theta_value(T.Theta, key, env)
    require(abs(res["on"]) * M < 1e-12, f"{c}: expansion {mp.nstr(res['on'], 10)} on the horizon of a Schwarzschild black hole")
    if abs(c["fac"] - 1) > 0.01:
        require((res["off"] > 0) == (c["fac"] > 1), f"{c}: expansion {mp.nstr(res['off'], 10)} {'outside' if c['fac'] > 1 else 'inside'} the horizon")
    return c["slicing"]


C.add("horizons", hor_strategy, run_hor, quick=120, thorough=3000, shards=2, budget=30, rule="Schwarzschild slice; sign off the horizon")


# ------------------------------------------------------------------ rotations
def rot_strategy():
    from hypothesis import strategies as st
    n = st.integers(-5, 5)
    axis = st.lists(n, min_size=3, max_size=3).filter(any)
    ten = st.one_of(st.lists(n, min_size=3, max_size=3), st.lists(st.lists(n, min_size=3, max_size=3), min_size=3, max_size=3))
    ang = st.one_of(st.sampled_from(["0", "pi/2", "pi", "-pi/3", "2*pi/3", "5*pi/4", "3*pi", "4*pi/3"]), st.integers(-40, 40).map(lambda k: f"{k}/7"))
    return st.fixed_dictionaries(dict(axis=axis, tensor=ten, angle=ang, symbolic=st.booleans(), bad=st.sampled_from([None] * 12 + ["len2", "len4", "2x2", "3x2"])))


def run_rot(c):
    import mpmath as mp
    import sympy as sp
    mp.mp.dps = 30
    from nrpy.equations.quaternion_rotations.tensor_rotation import rotate
    ang = sp.sympify(c["angle"])
    if c["bad"]:
        t = {"len2": [1, 2], "len4": [1, 2, 3, 4], "2x2": [[1, 2], [3, 4]], "3x2": [[1, 2], [3, 4], [5, 6]]}[c["bad"]]
        try:
            rotate([sp.sympify(x) if not isinstance(x, list) else [sp.sympify(y) for y in x] for x in t], [sp.sympify(x) for x in c["axis"]], ang)
        except ValueError:
            return "rejected"
        raise Violation(f"rotate accepts a tensor of shape {c['bad']}")
    ax = [mp.mpf(x) for x in c["axis"]]
    nn = mp.sqrt(sum(x * x for x in ax))
    u = [x / nn for x in ax]
    a = mp.mpf(sp.N(ang, 35))
    eps = lambda i, j, k: (i - j) * (j - k) * (k - i) // 2
    M = mp.matrix(3, 3)
    for i in R:
        for j in R:
            M[i, j] = (mp.cos(a) if i == j else 0) + (1 - mp.cos(a)) * u[i] * u[j] - mp.sin(a) * sum(eps(i, j, k) * u[k] for k in R)
    two = isinstance(c["tensor"][0], list)
    T = sp.symbols("t0:9") if two else sp.symbols("t0:3")
    vals = [x for row in c["tensor"] for x in row] if two else c["tensor"]
    arg = ([list(T[3 * i:3 * i + 3]) for i in R] if two else list(T)) if c["symbolic"] else ([[sp.Integer(x) for x in row] for row in c["tensor"]] if two else [sp.Integer(x) for x in c["tensor"]])
    axis = [sp.Integer(x) for x in c["axis"]]
    keep = repr((arg, axis))
    out = rotate(arg, axis, ang)
    require(repr((arg, axis)) == keep, f"rotate changed its arguments: {keep} -> {arg}, {axis}")
    num = lambda e: mp.mpf(sp.N(sp.sympify(e).subs(dict(zip(T, vals))), 30))
    if two:
        require(isinstance(out, list) and len(out) == 3 and all(len(x) == 3 for x in out), f"rotate returned {out}")
        V = mp.matrix([[mp.mpf(x) for x in row] for row in c["tensor"]])
        W = M * V * M.T
        bad = [(i, j, mp.nstr(num(out[i][j]), 12), mp.nstr(W[i, j], 12)) for i in R for j in R if abs(num(out[i][j]) - W[i, j]) > 1e-20]
    else:
        W = M * mp.matrix(vals)
        bad = [(i, mp.nstr(num(out[i]), 12), mp.nstr(W[i], 12)) for i in R if abs(num(out[i]) - W[i]) > 1e-20]
    require(not bad, f"rotate({c['tensor']}, axis {c['axis']}, angle {c['angle']}): (index, got, want) {bad[:3]}")
    return ("matrix" if two else "vector") if any(vals) else None


C.add("rotations", rot_strategy, run_rot, quick=300, thorough=8000, shards=3, budget=40, rule="non-zero vector or matrix compared with the Rodrigues matrix, or a wrong shape refused")

if __name__ == "__main__":
    sys.exit(C.main())
