"""Backends of the shipped SIMD header, and lane-wise stand-ins for the vector
math functions that only some compilers ship (exp/sin/cos)."""
import os

HEADER = os.path.join(os.environ.get("VP_REPO", "/repo"), "nrpy", "helpers", "simd_intrinsics.h")

BACKENDS = {
    "scalar": dict(flags=["-U__SSE2__", "-U__AVX__", "-U__AVX512F__", "-U__FMA__"], pre=""),
    "sse2": dict(flags=["-msse2", "-mno-avx"], pre=""),
    "sse3": dict(flags=["-msse3", "-mno-avx"], pre=""),
    # FMA without AVX: no compiler flag gives it, so the macro is withdrawn after
    # the intrinsics are available
    "sse2fma": dict(flags=["-mfma"], pre="#include <immintrin.h>\n#undef __AVX__\n#undef __AVX512F__\n"),
    "avx": dict(flags=["-mavx", "-mno-fma"], pre=""),
    "avxfma": dict(flags=["-mavx2", "-mfma"], pre=""),
    "avx512": dict(flags=["-mavx512f", "-mavx512dq", "-mfma"], pre=""),
}

STUBS = """
#include <math.h>
#if defined(__AVX512F__)
#define LANES_T __m512d
#define LN(f) f##512
#elif defined(__AVX__)
#elif defined(__SSE2__)
#endif
#define MKV(name, T, fn) static inline T name(T v) { union { T v; double d[sizeof(T)/sizeof(double)]; } u; u.v = v; \\
  for (unsigned i = 0; i < sizeof(T)/sizeof(double); i++) u.d[i] = fn(u.d[i]); return u.v; }
"""


def available():
    flags = open("/proc/cpuinfo").read()
    out = ["scalar", "sse2", "sse3"]
    if " avx " in flags:
        out.append("avx")
    if " fma " in flags and " avx2 " in flags:
        out += ["avxfma", "sse2fma"]
    if " avx512f " in flags and " avx512dq " in flags:
        out.append("avx512")
    return out


def prelude(backend, header=HEADER):
    s = "#include <stdio.h>\n#include <math.h>\n#include <stdlib.h>\n#define REAL double\n#define CCTK_REAL double\n"
    s += BACKENDS[backend]["pre"]
    s += f'#include "{header}"\n'
    s += STUBS
    if backend == "avx512":
        s += "MKV(_mm512_exp_pd, __m512d, exp)\nMKV(_mm512_sin_pd, __m512d, sin)\nMKV(_mm512_cos_pd, __m512d, cos)\n"
    elif backend in ("avx", "avxfma"):
        s += "MKV(_mm256_exp_pd, __m256d, exp)\nMKV(_mm256_sin_pd, __m256d, sin)\nMKV(_mm256_cos_pd, __m256d, cos)\n"
    elif backend in ("sse2", "sse3", "sse2fma"):
        s += "MKV(_mm_exp_pd, __m128d, exp)\nMKV(_mm_sin_pd, __m128d, sin)\nMKV(_mm_cos_pd, __m128d, cos)\n"
    return s


def flags(backend):
    return ["-O0", "-D_GNU_SOURCE"] + BACKENDS[backend]["flags"]
