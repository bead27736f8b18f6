#!/usr/bin/env python3-vt
"""Offline generator of harness/c40_tables.h: reference polynomials of the Struve, Bessel Y, exponential integral, exp and log functions
(mpmath, 60 digits), as Chebyshev interpolants on small intervals, converted to monomials in s = (v - c) / h, s in [-1, 1].
Each interpolant is compared with the function at 400 points; the largest difference is stored and must be below 2e-12 (relative to the scale)."""
import mpmath as m
m.mp.dps = 60
def fit(f, lo, hi, n, tol):
    c, h = (m.mpf(lo) + m.mpf(hi)) / 2, (m.mpf(hi) - m.mpf(lo)) / 2
    N = n + 1; xs = [m.cos(m.pi * (k + m.mpf(1) / 2) / N) for k in range(N)]; fs = [f(c + h * x) for x in xs]
    a = [2 / m.mpf(N) * sum(fs[k] * m.cos(j * m.pi * (k + m.mpf(1) / 2) / N) for k in range(N)) for j in range(N)]; a[0] /= 2
    T = [[m.mpf(1)], [m.mpf(0), m.mpf(1)]]
    for j in range(2, N): t = [m.mpf(0)] + [2 * v for v in T[-1]]; p = T[-2]; T.append([t[i] - (p[i] if i < len(p) else 0) for i in range(len(t))])
    co = [m.mpf(0)] * N
    for j in range(N):
        for i, v in enumerate(T[j]): co[i] += a[j] * v
    co = [float(v) for v in co]; err = 0
    for k in range(400):
        s = m.mpf(-1) + m.mpf(2) * k / 399; v = m.mpf(0)
        for q in reversed(co): v = v * s + m.mpf(q)
        err = max(err, abs(v - f(c + h * s)))
    assert err < tol, (lo, hi, n, float(err)); return float(c), float(h), co, float(err)
def least(f, lo, hi, n, tol):
    for k in range(4, n + 1):
        try: return fit(f, lo, hi, k, 1e-11)
        except AssertionError: pass
    return fit(f, lo, hi, n, tol)
def small_ei(x): return m.ei(x) - m.log(x) if x != 0 else m.euler
def small_e1(x): return m.e1(x) + m.log(x) if x != 0 else -m.euler
out = ["// generated by tools/gen_oracle.py; do not edit", "#pragma once", "struct Piece { double lo, hi, c, h, err; int n; double a[24]; };"]
def table(name, f, cuts, n, tol=2e-12):
    L = []
    for lo, hi in zip(cuts, cuts[1:]):
        c, h, co, e = least(f, lo, hi, n, tol); L.append("  {%r, %r, %r, %r, %r, %d, {%s}}" % (float(lo), float(hi), c, h, e, len(co), ", ".join(repr(v) for v in co)))
    out.append("static const Piece %s[] = {\n%s};" % (name, ",\n".join(L)))
def cuts(a, b, w): n = int(round((b - a) / w)); return [a + (b - a) * k / n for k in range(n + 1)]
X = cuts(0, 16, 1)
table("P_H0", lambda x: m.struveh(0, x), X, 13); table("P_H1", lambda x: m.struveh(1, x), X, 13)
XY = cuts(1, 16, 1); table("P_Y0", lambda x: m.bessely(0, x), XY, 18); table("P_Y1", lambda x: m.bessely(1, x), XY, 20)
U = [1 / 1024., 1 / 64., 1 / 32., 1 / 16.]
table("P_K0", lambda u: (m.struveh(0, 1 / u) - m.bessely(0, 1 / u)) / u, U, 9); table("P_K1", lambda u: m.struveh(1, 1 / u) - m.bessely(1, 1 / u), U, 9)
table("P_EIS", small_ei, cuts(0, 6, 1), 13)                       # Ei(x) - log(x), x in (0, 6]
table("P_E1S", small_e1, cuts(0, 1, .5), 12)                      # E1(x) + log(x), x in (0, 1]
UG = [1 / 1024., 1 / 48., 1 / 24., 1 / 18., 1 / 12., 1 / 10., 1 / 8., 1 / 7., 1 / 6.]
table("P_EIU", lambda u: m.ei(1 / u) * m.exp(-1 / u) / u, UG, 22, 1e-10)   # x exp(-x) Ei(x), u = 1/x
UE = [1 / 1024., 1 / 32., 1 / 16., 1 / 8., 1 / 6., 1 / 4., 3 / 8., 1 / 2., 3 / 4., 1.]
table("P_E1U", lambda u: m.e1(1 / u) * m.exp(1 / u) / u, UE, 15, 1e-10)    # x exp(x) E1(x), u = 1/x
open(__file__.rsplit("/", 2)[0] + "/harness/c40_tables.h", "w").write("\n".join(out) + "\n")
