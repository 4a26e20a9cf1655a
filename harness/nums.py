"""Numerical value of the exact numbers written by the specification."""
from math import pi
import cmath
import math


def ev(t):
    """Rational [n, d], cyclotomic ["cyc", N, coefs] or term [op, args, 0]."""
    if len(t) == 2:
        return t[0] / t[1]
    op = t[0]
    if op == "cyc":
        N = t[1]
        s, m = 0j, 0.0
        for k, c in enumerate(t[2]):
            if c[0] != 0:
                s += (c[0] / c[1]) * cmath.exp(2j * pi * k / N)
                m += abs(c[0] / c[1])
        # parts that cancel are zero
        return complex(0.0 if abs(s.real) < 1e-13 * m else s.real, 0.0 if abs(s.imag) < 1e-13 * m else s.imag)
    a = [ev(x) for x in t[1]]
    if op in ("nan", "free"):
        return float("nan")
    if op == "pi":
        return pi
    if op == "pipow":
        return pi ** a[0]
    if op == "add":
        return a[0] + a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] / a[1]
    if op == "sqrt":
        x = a[0]
        if isinstance(x, complex):
            return cmath.sqrt(x) if abs(x.imag) > 1e-12 * abs(x.real) else cmath.sqrt(x.real)
        return math.sqrt(x) if x >= 0 else cmath.sqrt(x)
    if op == "abs":
        return abs(a[0])
    if op == "arg":
        return cmath.phase(a[0])
    if op == "log10":
        return math.log10(a[0]) if a[0] > 0 else -math.inf
    if op == "aweight":  # IEC 61672 frequency weighting A, in dB
        f = a[0] ** 2
        r = 12200.0 ** 2 * f ** 2 / ((f + 20.6 ** 2) * (f + 12200.0 ** 2)
                                     * math.sqrt((f + 107.7 ** 2) * (f + 737.0 ** 2)))
        return 2.0 + 20 * math.log10(r)
    if op == "pow":
        return a[0] ** a[1]
    if op == "exp":
        return cmath.exp(a[0])
    if op == "turn":  # exp(2 i pi a)
        return cmath.exp(2j * pi * a[0])
    if op == "cos":
        return math.cos(a[0])
    if op == "sin":
        return math.sin(a[0])
    if op == "max":
        return max(x.real if isinstance(x, complex) else x for x in a)
    if op == "min":
        return min(x.real if isinstance(x, complex) else x for x in a)
    raise ValueError("unknown operator " + str(op))


def coord(x, e):
    """Coordinate x (rational) in units of pi^e."""
    return x[0] / x[1] * pi ** e if e else x[0] / x[1]


def is_free(t):
    """The specification states no value for this entry."""
    if len(t) == 2 or t[0] == "cyc":
        return False
    return t[0] == "free" or any(is_free(x) for x in t[1])
