import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("C03-ko-order", "C03", [("nrpy/finite_difference.py",
"""                    fdcoeffs[i] *= (-1) ** (
                        sp.Rational((stencil_width + 1), 2)
                    ) / 2**matrixrow
""",
"""                    fdcoeffs[i] *= (-1) ** (
                        sp.Rational((stencil_width + 1), 2)
                    ) / 2 ** min(matrixrow, 10)
""")], """
import sympy as sp
from nrpy.finite_difference import compute_fdcoeffs_fdstencl
c, s = compute_fdcoeffs_fdstencl("dKOD0", 10)
ref = [sp.binomial(12, k) * (-1) ** k * (-1) / sp.Integer(2) ** 12 for k in range(13)]
print(c, ref)
assert [abs(x) for x in c] == [abs(x) for x in ref]
""", "Kreiss-Oliger dissipation at finite-difference order 10 or more", "The Kreiss-Oliger stencil is 4 times too strong from 10th order on")

mkbug("C05-even-powers", "C05", [("nrpy/helpers/cse_preprocess_postprocess.py",
"""                    if base == _NegativeOne_:
                        subtree.expr = (
                            _One_ if sp.Integer(exponent) % 2 == 0 else _NegativeOne_
                        )
""",
"""                    if base == _NegativeOne_:
                        subtree.expr = (
                            _NegativeOne_ if sp.Integer(exponent) > 2 else _One_
                        )
""")], """
import sympy as sp
from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess
x, y = sp.symbols("x y")
for n in (2, 3, 4, 5, 6):
    e = sp.Mul(sp.Pow(-1, n, evaluate=False), x + y, evaluate=False)
    new, d = cse_preprocess(e, declare_neg1_as_symbol=True)
    back = new[0].subs(d)
    print(n, new, sp.expand(back))
    assert sp.simplify(back - (-1) ** n * (x + y)) == 0
""", "an unevaluated power of -1 with an exponent other than 2 or 3, with -1 declared as a symbol", "preprocessing changes the sign of (-1)**4")

mkbug("C06-anti13", "C06", [("nrpy/indexedexp.py",
"""                    indexedexp[i][j][k][l] = sign * indexedexp[i][l][k][j]
                elif j == l and sign < 0:""",
"""                    indexedexp[i][j][k][l] = sign * indexedexp[i][l][k][j]
                elif j == l and k == l and sign < 0:""")], """
import nrpy.indexedexp as ixp, itertools
T = ixp.declarerank4("T", symmetry="anti13", dimension=3)
for i, j, k, l in itertools.product(range(3), repeat=4):
    assert T[i][j][k][l] + T[i][l][k][j] == 0, (i, j, k, l, T[i][j][k][l], T[i][l][k][j])
""", "a rank-4 object antisymmetric in its second and fourth indices", "components that antisymmetry forces to vanish are left as free symbols")

mkbug("C08-cfl-first-point", "C08", [("nrpy/helpers/jacobians.py",
open("/repo/nrpy/helpers/jacobians.py").read().split("def basis_transform_tensorDD_from_Cartesian_to_rfmbasis")[1].split("return ")[0].split("for i in range(3):")[1] if False else "XX", "XX")] if False else
[("nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py",
"""LOOP_NOOMP(i0, 0, Nxx_plus_2NGHOSTS0,
           i1, 0, Nxx_plus_2NGHOSTS1,
           i2, 0, Nxx_plus_2NGHOSTS2) {
    MAYBE_UNUSED const REAL xx0 = xx[0][i0];""",
"""LOOP_NOOMP(i0, NGHOSTS, Nxx_plus_2NGHOSTS0 - NGHOSTS,
           i1, NGHOSTS, NGHOSTS + 1,
           i2, NGHOSTS, Nxx_plus_2NGHOSTS2 - NGHOSTS) {
    MAYBE_UNUSED const REAL xx0 = xx[0][i0];""")], """
import os, subprocess
import nrpy.c_function as cfc, nrpy.params as par
from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
par.set_parval_from_str("Infrastructure", "BHaH")
ng.register_CFunction_cfl_limited_timestep("SinhCartesian")
f = [v for k, v in cfc.CFunction_dict.items() if k.startswith("cfl_limited_timestep")][0]
src = '''#include <math.h>
#include <stdio.h>
#define REAL double
#define NGHOSTS 2
#define MAYBE_UNUSED __attribute__((unused))
#define MIN(a,b) ((a)<(b)?(a):(b))
#define LOOP_NOOMP(i0,a0,b0,i1,a1,b1,i2,a2,b2) for(int i2=a2;i2<b2;i2++) for(int i1=a1;i1<b1;i1++) for(int i0=a0;i0<b0;i0++)
typedef struct {double dt, CFL_FACTOR;} commondata_struct;
typedef struct {int Nxx_plus_2NGHOSTS0,Nxx_plus_2NGHOSTS1,Nxx_plus_2NGHOSTS2; double dxx0,dxx1,dxx2,AMPLXYZ,SINHWXYZ;} params_struct;
static void f(commondata_struct *restrict commondata, params_struct *restrict params, double *restrict xx[3]) {
MAYBE_UNUSED const int Nxx_plus_2NGHOSTS0=params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1=params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2=params->Nxx_plus_2NGHOSTS2;
MAYBE_UNUSED const double dxx0=params->dxx0,dxx1=params->dxx1,dxx2=params->dxx2,AMPLXYZ=params->AMPLXYZ,SINHWXYZ=params->SINHWXYZ;
''' + f.body + '''}
int main(void){ commondata_struct c={1e30,0.5}; params_struct p={12,12,12,0.01,0.01,0.01,10.,0.3};
double x[3][12]; for(int d=0;d<3;d++) for(int i=0;i<12;i++) x[d][i]= d==1 ? -0.5+i*0.01 : -0.5 + 0.01*i; 
for(int i=0;i<12;i++) x[1][i] = -0.055 + 0.01*i; x[1][2] = -0.5; /* the tightest spacing in y is not at the first point */
double *xx[3]={x[0],x[1],x[2]}; f(&c,&p,xx); double best=1e30;
for(int d=0;d<3;d++) for(int i=0;i<12;i++){ double s=10./sinh(1/0.3)*cosh(x[d][i]/0.3)/0.3*0.01; if(s<best) best=s; }
printf("%.15e %.15e\\\\n", c.dt, 0.5*best); return fabs(c.dt-0.5*best)>1e-12*c.dt; }
'''
open("t.c", "w").write(src.replace("\\\\\\\\n", "\\\\n"))
assert subprocess.call(["gcc", "-O1", "-o", "t", "t.c", "-lm"]) == 0
raise SystemExit(subprocess.call(["./t"]))
""", "a coordinate system whose spacing in the xx1 direction varies with xx1 and has its minimum away from the first point", "the CFL timestep is not limited by the smallest spacing")
