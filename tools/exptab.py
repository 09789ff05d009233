#!/usr/bin/env python3-vt
"""Writes spec/ExprTab.tla: values of the transcendental functions and the constants of the expression language,
computed with mpmath to 60 digits and rounded to doubles (python3-vt tools/exptab.py > spec/ExprTab.tla)."""
import struct
from mpmath import mp, mpf
import mpmath as m
mp.dps = 60
B = lambda x: "<<%s>>" % ", ".join(str(b) for b in struct.pack(">d", float(x)))
R = [-2.5, -1.0, -0.75, -0.125, 0.25, 0.5, 1.0, 1.5, 2.0, 3.25, 10.0]
U = [-1.0, -0.75, -0.125, 0.25, 0.5, 0.9375, 1.0]
P = [0.0625, 0.5, 1.0, 1.5, 2.0, 3.0, 7.5, 10.0, 100.0, 1e6]
G = [1.0, 1.25, 1.5, 2.0, 3.0, 10.0, 1000.0]
ONE = dict(sin=(m.sin, R), cos=(m.cos, R), tan=(m.tan, R), asin=(m.asin, U), acos=(m.acos, U), atan=(m.atan, R),
           sinh=(m.sinh, R), cosh=(m.cosh, R), tanh=(m.tanh, R), asinh=(m.asinh, R), acosh=(m.acosh, G),
           atanh=(m.atanh, [-.75, -.125, .25, .5, .9375]), exp=(m.exp, R), expm1=(m.expm1, R), log=(m.log, P), log10=(m.log10, P),
           sqrt=(m.sqrt, P), cbrt=(m.cbrt, P + [27.0]), erf=(m.erf, R), erfc=(m.erfc, R),
           lgamma=(lambda x: m.log(m.gamma(x)), [.5, 1.5, 3.0, 4.25, 10.0, 100.0]),
           j0=(lambda x: m.besselj(0, x), P[:-2]), j1=(lambda x: m.besselj(1, x), P[:-2]), y0=(lambda x: m.bessely(0, x), P[:-2]), y1=(lambda x: m.bessely(1, x), P[:-2]),
           mtof=(lambda x: 440 * m.power(2, (x - 69) / mpf(12)), [69.0, 60.0, 0.0, 81.0, 127.0, 60.5]),
           ftom=(lambda x: 69 + 12 * m.log(x / 440) / m.log(2), [440.0, 220.0, 1000.0, 261.5, 8.25]))
XY = [(1.0, 2.0), (2.0, 0.5), (0.5, -1.5), (10.0, 0.25), (3.0, 3.0), (1.5, 2.5)]
QQ = [(1.0, 2.0), (-1.0, 2.0), (1.0, -2.0), (-1.0, -2.0), (2.5, 0.0), (-2.5, 0.0), (0.5, 0.25)]
NX = [(0.0, 2.5), (1.0, 2.5), (2.0, 2.5), (3.0, 7.5), (5.0, 1.5)]
TWO = dict(pow=(lambda x, y: m.power(x, y), XY), atan2=(m.atan2, QQ), hypot=(m.hypot, QQ + XY), jn=(lambda n, x: m.besselj(int(n), x), NX), yn=(lambda n, x: m.bessely(int(n), x), NX),
           mtof=(lambda x, b: b * m.power(2, (x - 69) / mpf(12)), [(69.0, 432.0), (60.0, 415.0), (81.0, 100.0)]),
           ftom=(lambda x, b: 69 + 12 * m.log(x / b) / m.log(2), [(432.0, 432.0), (100.0, 415.0), (1000.0, 432.0)]))
pi = mp.pi
CON = dict(pi=pi, twopi=2 * pi, halfpi=pi / 2, quarterpi=pi / 4, oneoverpi=1 / pi, twooverpi=2 / pi, degtorad=pi / 180, radtodeg=180 / pi, e=mp.e, lntwo=m.log(2), lnten=m.log(10),
           logtwoe=1 / m.log(2), logtene=1 / m.log(10), sqrttwo=m.sqrt(2), sqrthalf=m.sqrt(mpf(1) / 2), phi=(1 + m.sqrt(5)) / 2, twelfth_root_of_2=m.root(2, 12), thirteenth_root_of_3=m.root(3, 13))
def main():
    out = ["------------------------------ MODULE ExprTab ------------------------------",
           "(* Values of the transcendental functions at a few points, and the constants,  *)",
           "(* as doubles: written by tools/exptab.py.                                     *)"]
    def rec(name, rows): out.append("%s == [%s]" % (name, ",\n    ".join(rows)))
    rec("Tab1", ["%s |-> <<%s>>" % (f, ",\n        ".join("<<%s, %s>>" % (B(x), B(fn(mpf(x)))) for x in xs)) for f, (fn, xs) in sorted(ONE.items())])
    rec("Tab2", ["%s |-> <<%s>>" % (f, ",\n        ".join("<<%s, %s, %s>>" % (B(x), B(y), B(fn(mpf(x), mpf(y)))) for x, y in xs)) for f, (fn, xs) in sorted(TWO.items())])
    rec("Constants", ["%s |-> %s" % (n, B(v)) for n, v in sorted(CON.items())])
    out.append("=============================================================================")
    print("\n".join(out))
if __name__ == "__main__": main()
