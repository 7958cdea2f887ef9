"""Explicit finite-difference stencils: values of symbols such as hDD_dD012 from gridded data."""

import functools
import math
import re
from fractions import Fraction

import mpmath as mp

import vf


@functools.lru_cache(None)
def _weights(offs, order):
    """finite-difference weights of a derivative on the given offsets (exact on polynomials)"""
    m = len(offs)
    A = [[Fraction(o) ** r for o in offs] + [Fraction(math.factorial(order) if r == order else 0)] for r in range(m)]
    for c in range(m):
        p = next(r for r in range(c, m) if A[r][c])
        A[c], A[p] = A[p], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for r in range(m):
            if r != c and A[r][c]:
                A[r] = [v - A[r][c] * w for v, w in zip(A[r], A[c])]
    return [float(A[r][m]) for r in range(m)]


def weights(offs, order):
    return _weights(tuple(offs), order)


class Point:
    """symbols at one grid point, derivatives by explicit stencils"""

    def __init__(self, get, fd, sp, ctrl, extra):
        self.get, self.fd, self.sp, self.ctrl, self.extra, self.memo = get, fd, sp, ctrl, extra, {}

    def line(self, name, q, offs, w):
        t = 0.0
        for o, c in zip(offs, w):
            s = [0, 0, 0]
            s[q] = o
            t += c * self.get(name, s)
        return t

    def d(self, name, kind, dirs):
        n, h = self.fd, self.fd // 2
        q = dirs[0]
        if kind == "dD":
            offs = list(range(-h, h + 1))
            return self.line(name, q, offs, weights(offs, 1)) / self.sp[q]
        if kind == "dupD":
            offs = list(range(1 - h, h + 2)) if n > 2 else [0, 1, 2]
            if not self.ctrl(q) > 0:
                offs = [-o for o in offs]
            return self.line(name, q, offs, weights(offs, 1)) / self.sp[q]
        if kind == "dKOD":
            r = h + 1
            offs = list(range(-r, r + 1))
            w = [(-1) ** (r + 1) * (-1) ** (r - o) * math.comb(2 * r, r + o) / 4.0**r for o in offs]
            return self.line(name, q, offs, w) / self.sp[q]
        if kind == "dDD":
            offs = list(range(-h, h + 1))
            if dirs[0] == dirs[1]:
                return self.line(name, q, offs, weights(offs, 2)) / self.sp[q] ** 2
            w, t = weights(offs, 1), 0.0
            for o1, c1 in zip(offs, w):
                for o2, c2 in zip(offs, w):
                    s = [0, 0, 0]
                    s[dirs[0]], s[dirs[1]] = o1, o2
                    t += c1 * c2 * self.get(name, s)
            return t / (self.sp[dirs[0]] * self.sp[dirs[1]])
        raise vf.HarnessError(kind)

    def __call__(self, name):
        if name not in self.memo:
            if name in self.extra:
                v = self.extra[name]
            else:
                g = re.match(r"(.+?)_(dD|dupD|dKOD|dDD)(\d+)$", name)
                if g:
                    k = 2 if g[2] == "dDD" else 1
                    v = self.d(g[1] + g[3][:-k], g[2], [int(c) for c in g[3][-k:]])
                else:
                    v = self.get(name, [0, 0, 0])
            self.memo[name] = mp.mpf(v)
        return self.memo[name]
