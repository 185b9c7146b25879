"""Truncated power series (jets): differentiation of specifications."""
import math
from fractions import Fraction

import numpy as np


def const_like(n, d=1):
    return n / d


class Jet:
    """c[0] + c[1] h + ... + c[k] h**k + O(h**(k+1))"""
    __array_ufunc__ = None
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    @property
    def order(self):
        return len(self.c) - 1

    def _lift(self, o):
        if isinstance(o, Jet):
            return o
        return Jet([o] + [0 * o for _ in range(self.order)])

    def __add__(self, o):
        o = self._lift(o)
        return Jet([a + b for a, b in zip(self.c, o.c)])
    __radd__ = __add__

    def __neg__(self):
        return Jet([-a for a in self.c])

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) - self

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet([a * o for a in self.c])
        out = []
        for k in range(len(self.c)):
            t = self.c[0] * o.c[k]
            for i in range(1, k + 1):
                t = t + self.c[i] * o.c[k - i]
            out.append(t)
        return Jet(out)
    __rmul__ = __mul__

    def inverse(self):
        r = [1 / self.c[0]]
        for k in range(1, len(self.c)):
            t = self.c[1] * r[k - 1]
            for i in range(2, k + 1):
                t = t + self.c[i] * r[k - i]
            r.append(-t * r[0])
        return Jet(r)

    def __truediv__(self, o):
        if not isinstance(o, Jet):
            return Jet([a / o for a in self.c])
        return self * o.inverse()

    def __rtruediv__(self, o):
        return self._lift(o) * self.inverse()

    def __pow__(self, n):
        if n == 2:
            return self * self
        if isinstance(n, int) and n >= 0:
            r = self._lift(self.c[0] * 0 + 1)
            for _ in range(n):
                r = r * self
            return r
        if isinstance(n, int):
            return (self ** (-n)).inverse()
        raise TypeError("jet power")

    def sqrt(self):
        s = [np.sqrt(self.c[0])]
        for k in range(1, len(self.c)):
            t = self.c[k]
            for i in range(1, k):
                t = t - s[i] * s[k - i]
            s.append(t / (2 * s[0]))
        return Jet(s)

    def _sincos(self):
        h = Jet([self.c[0] * 0] + self.c[1:])
        p = self._lift(self.c[0] * 0 + 1)
        s = self._lift(self.c[0] * 0)
        c = p
        for k in range(1, len(self.c)):
            p = p * h
            f = math.factorial(k)
            sg = -1 if (k // 2) % 2 else 1
            if k % 2:
                s = s + p * Fraction(sg, f).__float__()
            else:
                c = c + p * Fraction(sg, f).__float__()
        s0, c0 = np.sin(self.c[0]), np.cos(self.c[0])
        return s * c0 + c * s0, c * c0 - s * s0

    def sin(self):
        return self._sincos()[0]

    def cos(self):
        return self._sincos()[1]


def sin(x):
    return x.sin() if isinstance(x, Jet) else np.sin(x)


def cos(x):
    return x.cos() if isinstance(x, Jet) else np.cos(x)


def sqrt(x):
    return x.sqrt() if isinstance(x, Jet) else np.sqrt(x)
