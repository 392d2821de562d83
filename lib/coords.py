"""Independently written coordinate maps of NRPy's reference-metric systems."""
import random

from mpmath import mp, mpf

from jet import Jet, inv3

SYSTEMS = ["Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n4", "SinhSphericalv2n6",
           "HoleySinhSpherical", "RingHoleySinhSpherical", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SinhCylindricalv2n4",
           "SymTP", "SinhSymTP", "UWedgeHSinhSph", "LWedgeHSinhSph"]
PARAMS = {
    "Cartesian": ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"], "SinhCartesian": ["AMPLXYZ", "SINHWXYZ"], "Spherical": ["RMAX"],
    "SinhSpherical": ["AMPL", "SINHW"], "HoleySinhSpherical": ["AMPL", "SINHW", "RMIN"], "RingHoleySinhSpherical": ["AMPL", "SINHW", "RMIN"],
    "SinhSphericalv2": ["AMPL", "SINHW", "r_slope"], "Cylindrical": ["RHOMAX", "ZMIN", "ZMAX"],
    "SinhCylindrical": ["AMPLRHO", "AMPLZ", "SINHWRHO", "SINHWZ"],
    "SinhCylindricalv2": ["AMPLRHO", "AMPLZ", "SINHWRHO", "SINHWZ", "rho_slope", "z_slope"],
    "SymTP": ["AMAX", "bScale", "SINHWAA"], "SinhSymTP": ["AMAX", "bScale", "SINHWAA"],
    "UWedgeHSinhSph": ["AMPL", "SINHW", "RMIN"], "LWedgeHSinhSph": ["AMPL", "SINHW", "RMIN"],
}


def param_names(C):
    return PARAMS[C[:C.index("v2n") + 2] if "v2n" in C else C]


def is_sph(C):
    return "Spherical" in C or "Wedge" in C


def random_params(C, rng):
    p = {}
    for n in param_names(C):
        if n in ("SINHW", "SINHWXYZ", "SINHWRHO", "SINHWZ", "SINHWAA"):
            p[n] = round(rng.uniform(0.12, 1.2), 4)
        elif "slope" in n:
            p[n] = round(rng.uniform(0.03, 1.5), 4)
        elif n == "bScale":
            p[n] = round(rng.uniform(0.2, 3.0), 4)
        elif n == "RMIN":
            p[n] = round(rng.uniform(0.1, 1.5), 4)
        elif n in ("xmin", "ymin", "zmin", "ZMIN"):
            p[n] = round(rng.uniform(-20, -2), 3)
        else:
            p[n] = round(rng.uniform(2.0, 20.0), 3)
    return p


def domain(C, p):
    """(xxmin, xxmax) of the grid."""
    pi = mp.pi
    if C == "Cartesian":
        return [mpf(p[k + "min"]) for k in "xyz"], [mpf(p[k + "max"]) for k in "xyz"]
    if C == "SinhCartesian":
        return [mpf(-1)] * 3, [mpf(1)] * 3
    if "Spherical" in C or "Wedge" in C:
        lo, hi = [mpf(0), mpf(0), -pi], [mpf(1), pi, pi]
        if C == "Spherical":
            hi[0] = mpf(p["RMAX"])
        if "Holey" in C or "Wedge" in C:
            lo[0] = mpf(p["SINHW"]) * mp.asinh(mpf(p["RMIN"]) * mp.sinh(1 / mpf(p["SINHW"])) / mpf(p["AMPL"]))
        if "Ring" in C or "Wedge" in C:
            lo[1], hi[1] = pi / 4, 3 * pi / 4
        if "Wedge" in C:
            lo[2], hi[2] = -pi / 4, pi / 4
        return lo, hi
    if "Cylindrical" in C:
        lo, hi = [mpf(0), -pi, mpf(-1)], [mpf(1), pi, mpf(1)]
        if C == "Cylindrical":
            hi[0], lo[2], hi[2] = mpf(p["RHOMAX"]), mpf(p["ZMIN"]), mpf(p["ZMAX"])
        return lo, hi
    return [mpf(0), mpf(0), -pi], [mpf(p["AMAX"]) if C == "SymTP" else mpf(1), pi, pi]


def random_point(C, p, rng, ghosts=False):
    """Point inside the grid (margin from coordinate singularities), optionally in the ghost zones."""
    lo, hi = domain(C, p)
    x = []
    for i in range(3):
        f = rng.uniform(0.03, 0.97)
        if ghosts and rng.random() < 0.4:
            f = rng.choice([rng.uniform(-0.15, -0.03), rng.uniform(1.03, 1.15)])
        x.append(float(mp.nstr(lo[i] + (hi[i] - lo[i]) * mpf(f), 8)))
    return x


def _sinh(x, A, w):
    A, w = mpf(A), mpf(w)
    return (x / w).sinh() * (A / mp.sinh(1 / w))


def _sinhv2(x, A, w, s, n):
    A, w, s = mpf(A), mpf(w), mpf(s)
    return (x ** n) * (x / w).sinh() * ((A - s) / mp.sinh(1 / w)) + x * s


def radial(C, p, x, which=0):
    if "v2n" in C:
        n = int(C.split("v2n")[1])
        if "Spherical" in C:
            return _sinhv2(x, p["AMPL"], p["SINHW"], p["r_slope"], n)
        k = "RHO" if which == 0 else "Z"
        return _sinhv2(x, p["AMPL" + k], p["SINHW" + k], p["rho_slope" if which == 0 else "z_slope"], n)
    if C == "SinhCartesian":
        return _sinh(x, p["AMPLXYZ"], p["SINHWXYZ"])
    if C == "SinhCylindrical":
        k = "RHO" if which == 0 else "Z"
        return _sinh(x, p["AMPL" + k], p["SINHW" + k])
    if C == "SinhSymTP":
        return _sinh(x, p["AMAX"], p["SINHWAA"])
    if "SinhSph" in C:
        return _sinh(x, p["AMPL"], p["SINHW"])
    return x


def cart(C, p, x):
    """xx (list of Jets) -> Cartesian (list of Jets)."""
    if "Cartesian" in C:
        return [radial(C, p, y) for y in x]
    if is_sph(C):
        r = radial(C, p, x[0])
        st, ct = x[1].sin(), x[1].cos()
        X, Y, Z = r * st * x[2].cos(), r * st * x[2].sin(), r * ct
        if C.startswith("UWedge"):
            return [-Z, Y, X]
        if C.startswith("LWedge"):
            return [Z, Y, -X]
        return [X, Y, Z]
    if "Cylindrical" in C:
        rho = radial(C, p, x[0])
        return [rho * x[1].cos(), rho * x[1].sin(), radial(C, p, x[2], 2)]
    A = radial(C, p, x[0])
    b = mpf(p["bScale"])
    return [A * x[1].sin() * x[2].cos(), A * x[1].sin() * x[2].sin(), (A * A + b * b).sqrt() * x[1].cos()]


def h_signs(C, x):
    """Sign of the analytically continued scale factors."""
    s0 = 1 if x[0] >= 0 else -1
    s1 = 1 if mp.sin(x[1]) >= 0 else -1
    if is_sph(C):
        return [1, s0, s0 * s1]
    if "Cylindrical" in C:
        return [1, s0, 1]
    if "SymTP" in C:
        return [1, 1, s0 * s1]
    return [1, 1, 1]


class Geometry:
    """Every reference-metric quantity at a point, from the map's Taylor jet."""

    def __init__(self, C, p, xx, N=3):
        R = range(3)
        x = [Jet.var(3, N, i, mpf(xx[i])) for i in R]
        self.X = cart(C, p, x)
        J = [[self.X[i].diff(j) for j in R] for i in R]          # jets of degree N-1
        self.J = J
        self.Ji, _ = inv3(J)
        self.g = [[sum((J[k][i] * J[k][j] for k in R), Jet.const(3, N - 1, 0)) for j in R] for i in R]
        self.gi, self.det = inv3(self.g)
        sg = h_signs(C, xx)
        self.h = [self.g[i][i].sqrt() * sg[i] for i in R]
        # Gamma^i_{jk} = Jinv^i_a d_k J^a_j : jets of degree N-2
        if N < 2:
            return
        self.Gam = [[[sum((self.Ji[i][a].trunc(N - 2) * J[a][j].diff(k) for a in R), Jet.const(3, N - 2, 0)) for k in R] for j in R] for i in R]
