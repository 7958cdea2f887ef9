"""Evaluating nrpy's symbolic expressions on the same smooth tensor fields in any coordinate system.

Fields are given in Cartesian coordinates and basis by closed forms; their components in a
coordinate system follow from the Jacobian of the map to Cartesian coordinates, and derivatives
from high-precision central differences (50 digits, error below 1e-18), none of which uses nrpy's
own tensor code. Expressions are evaluated by walking their graph with mpmath numbers.
"""

import contextlib
import io
import itertools
import re

import mpmath as mp
import sympy as sp

import nrpy.params as par
import nrpy.reference_metric as refmetric

mp.mp.dps = 50
H = mp.mpf(10) ** -11
R3 = range(3)


class Unknown(Exception):
    """A symbol the harness has no value for."""


FUN = {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "exp": mp.exp, "log": mp.log, "asinh": mp.asinh, "acosh": mp.acosh, "atan": mp.atan, "acos": mp.acos, "asin": mp.asin, "atanh": mp.atanh, "Abs": abs, "sign": mp.sign, "atan2": mp.atan2, "re": mp.re, "im": mp.im, "conjugate": mp.conj, "erf": mp.erf, "sec": mp.sec, "csc": mp.csc, "cot": mp.cot, "Max": max, "Min": min, "sech": mp.sech, "csch": mp.csch, "coth": mp.coth, "nrpyAbs": abs}


def ev(expr, env, memo=None):
    """Value of expr; env: callable name -> number. Iterative, with shared subexpressions evaluated once."""
    memo = {} if memo is None else memo
    expr = sp.sympify(expr)
    stack = [expr]
    while stack:
        e = stack[-1]
        if e in memo:
            stack.pop()
            continue
        if e.is_Symbol:
            memo[e] = env(e.name)
        elif e.is_Rational:
            memo[e] = mp.mpf(int(e.p)) / int(e.q)
        elif e.is_Float:
            memo[e] = mp.mpf(e._mpf_)  # pylint: disable=protected-access
        elif e is sp.I:
            memo[e] = mp.mpc(0, 1)
        elif e.is_NumberSymbol:
            memo[e] = mp.mpf(e.evalf(60)._mpf_)  # pylint: disable=protected-access
        else:
            todo = [a for a in e.args if a not in memo]
            if todo:
                stack.extend(todo)
                continue
            a = [memo[x] for x in e.args]
            if e.is_Add:
                memo[e] = sum(a[1:], a[0])
            elif e.is_Mul:
                v = a[0]
                for w in a[1:]:
                    v = v * w
                memo[e] = v
            elif e.is_Pow:
                if e.exp.is_Integer:
                    memo[e] = a[0] ** int(e.exp)
                elif e.exp == sp.Rational(1, 2):
                    memo[e] = mp.sqrt(a[0])
                elif e.exp == sp.Rational(-1, 2):
                    memo[e] = 1 / mp.sqrt(a[0])
                else:
                    memo[e] = mp.power(a[0], a[1])
            else:
                n = e.func.__name__
                if n not in FUN:
                    raise Unknown(f"function {n}")
                memo[e] = FUN[n](*a)
        stack.pop()
    return memo[expr]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def param(name):
    if name == "PI":
        return mp.pi
    p = par.glb_code_params_dict.get(name)
    if p is None:
        return None
    try:
        return mp.mpf(str(p.defaultvalue))
    except (ValueError, TypeError):
        return None


# Values of the coordinate parameters: generic, in the ranges the coordinate systems are made for
PARAMS = {"RMAX": 3, "AMPL": 7, "SINHW": "0.35", "AMPLRHO": 6, "SINHWRHO": "0.4", "AMPLZ": 7, "SINHWZ": "0.45", "AMPLXYZ": 7, "SINHWXYZ": "0.3", "bScale": "0.8", "AMAX": 5, "SINHWAA": "0.4", "const_dr": "0.11", "const_drho": "0.12", "const_dz": "0.13", "rho_slope": "0.9", "z_slope": "0.95", "r_slope": "0.85", "AMPLR": 6, "SINHWR": "0.4", "a": "0.7", "M": "1.2", "r0": "0.6", "chi": "0.73", "wavespeed": "1.3", "eta": "1.7"}


def value(name, extra):
    if name in extra:
        return extra[name]
    if name in PARAMS:
        return mp.mpf(PARAMS[name])
    v = param(name)
    if v is None:
        raise Unknown(name)
    return v


class Geometry:
    """A coordinate system: position, Jacobian, flat metric and rescaling factors, numerically."""

    def __init__(self, cs):
        self.cs = cs
        self.rfm = quiet(refmetric.reference_metric.__getitem__, cs)
        self.x = self.rfm.xx
        self.map = [sp.sympify(e) for e in self.rfm.xx_to_Cart]
        self.jac = [[sp.diff(self.map[i], self.x[j]) for j in R3] for i in R3]
        self.names = [str(s) for s in self.x]

    def at(self, xx):
        extra = {n: v for n, v in zip(self.names, xx)}
        memo = {}

        def env(n):
            return value(n, extra)

        pos = [ev(e, env, memo) for e in self.map]
        J = [[ev(e, env, memo) for e in row] for row in self.jac]
        re = [ev(e, env, memo) for e in self.rfm.ReU]
        return pos, J, re


def mat(rows):
    return mp.matrix(rows)


def inv(m):
    return mp.inverse(mat(m)).tolist()


def DD(J, t):
    """Cartesian t_ab -> J^a_i J^b_j t_ab."""
    u = [[sum(t[a][b] * J[b][j] for b in R3) for j in R3] for a in R3]
    return [[sum(J[a][i] * u[a][j] for a in R3) for j in R3] for i in R3]


def U(Ji, v):
    return [sum(Ji[i][a] * v[a] for a in R3) for i in R3]


def det3(m):
    return mp.det(mat(m))


# a point inside the domain of each family, with different coordinates in each direction
def points(cs, k=0):
    sets = {
        "Spherical": [("0.57", "1.1", "0.7"), ("0.34", "2.05", "-2.3")],
        "Cylindrical": [("0.52", "0.8", "0.31"), ("0.41", "-2.2", "-0.45")],
        "Cartesian": [("0.42", "-0.37", "0.55"), ("-0.61", "0.23", "0.18")],
        "SymTP": [("0.62", "1.2", "0.9"), ("0.37", "2.1", "-1.7")],
    }
    fam = next((f for f in ("SymTP", "Cylindrical", "Cartesian") if f in cs), "Spherical")
    return [mp.mpf(s) for s in sets[fam][k]]


class Fields:
    """Smooth tensor fields in Cartesian coordinates; variant k picks the coefficients."""

    def __init__(self, k=0):
        self.k = k

    def s(self, p, n):
        """A generic smooth function of position, number n."""
        x, y, z = p
        n = n + 31 * self.k
        a, b, c = mp.mpf(1 + n % 7) / 7, mp.mpf(2 + n % 5) / 9, mp.mpf(3 + n % 11) / 13
        return mp.sin(a * x + b * y - c * z + mp.mpf(n) / 3) / 4 + x * y * c / 17 + y * z * a / 19 - x * z * b / 23 + x * x * b / 29 - z * z * a / 31 + y * y * c / 37

    def sym(self, p, n0):
        t = [[None] * 3 for _ in R3]
        for m, (i, j) in enumerate(itertools.combinations_with_replacement(R3, 2)):
            t[i][j] = t[j][i] = self.s(p, n0 + m)
        return t

    def state(self, p):
        """Conformal metric with unit determinant, conformal factor e^{4 phi}, and so on, in the Cartesian basis."""
        g = self.sym(p, 0)
        g = [[g[i][j] / 3 + (i == j) * (1 + mp.mpf(i) / 5) for j in R3] for i in R3]
        d = mp.cbrt(det3(g))
        f = {"gbar": [[g[i][j] / d for j in R3] for i in R3]}
        f["phi"] = self.s(p, 6) / 3 + mp.mpf(1) / 10
        e4 = mp.exp(4 * f["phi"])
        f["gamma"] = [[e4 * f["gbar"][i][j] for j in R3] for i in R3]
        A = self.sym(p, 7)
        gi = inv(f["gbar"])
        tr = sum(gi[i][j] * A[i][j] for i in R3 for j in R3)
        f["Abar"] = [[A[i][j] - f["gbar"][i][j] * tr / 3 for j in R3] for i in R3]
        f["trK"] = self.s(p, 13)
        f["K"] = [[e4 * f["Abar"][i][j] + f["gamma"][i][j] * f["trK"] / 3 for j in R3] for i in R3]
        f["alpha"] = self.s(p, 14) / 2 + 1
        f["beta"] = [self.s(p, 15 + i) for i in R3]
        f["B"] = [self.s(p, 18 + i) for i in R3]
        f["Lambda"] = [self.s(p, 21 + i) for i in R3]
        T = [[None] * 4 for _ in range(4)]
        for m, (i, j) in enumerate(itertools.combinations_with_replacement(range(4), 2)):
            T[i][j] = T[j][i] = self.s(p, 24 + m)
        f["T4UU"] = T
        f["uu"], f["vv"] = self.s(p, 40) + 1, self.s(p, 41)
        f["ws"], f["psi"], f["AA"] = self.s(p, 42) + 2, self.s(p, 43) / 4 + 2, self.s(p, 44) + 1
        return f


def cf_of(phi, choice):
    return {"phi": phi, "chi": mp.exp(-4 * phi), "W": mp.exp(-2 * phi)}[choice]


def T4(Ji, T):
    L = [[mp.mpf(0)] * 4 for _ in range(4)]
    L[0][0] = mp.mpf(1)
    for i in R3:
        for j in R3:
            L[i + 1][j + 1] = Ji[i][j]
    u = [[sum(L[i][a] * T[a][b] for a in range(4)) for b in range(4)] for i in range(4)]
    return [[sum(L[j][b] * u[i][b] for b in range(4)) for j in range(4)] for i in range(4)]


class System:
    """The fields as the gridfunctions of one coordinate system at one point, with derivatives."""

    def __init__(self, geo, fields, xx, cf):
        self.geo, self.fields, self.xx, self.cf = geo, fields, xx, cf
        self.pos, self.J, self.Re = geo.at(xx)
        self.Ji = inv(self.J)
        self.cache = {}
        self.fc = fields.state(self.pos)

    def shifted(self, off):
        if off not in self.cache:
            self.cache[off] = self.gfs([x + o * H for x, o in zip(self.xx, off)])
        return self.cache[off]

    def gfs(self, xx):
        pos, J, Re = self.geo.at(xx)
        f = self.fields.state(pos)
        Ji = inv(J)
        gh = DD(J, [[mp.mpf(i == j) for j in R3] for i in R3])
        gb, A = DD(J, f["gbar"]), DD(J, f["Abar"])
        v = {"alpha": f["alpha"], "trK": f["trK"], "cf": cf_of(f["phi"], self.cf), "uu": f["uu"], "vv": f["vv"], "variable_wavespeed": f["ws"], "psi_background": f["psi"], "ADD_times_AUU": f["AA"]}
        for i in R3:
            for j in R3:
                # ReDD[i][j] = scale_i scale_j = 1/(ReU[i] ReU[j])
                v[f"hDD{i}{j}"] = (gb[i][j] - gh[i][j]) * Re[i] * Re[j]
                v[f"aDD{i}{j}"] = A[i][j] * Re[i] * Re[j]
        for n, q in (("vetU", "beta"), ("betU", "B"), ("lambdaU", "Lambda")):
            for i, c in enumerate(U(Ji, f[q])):
                v[f"{n}{i}"] = c / Re[i]
        T = T4(Ji, f["T4UU"])
        for i in range(4):
            for j in range(4):
                v[f"T4UU{i}{j}"] = T[i][j]
        return v

    def diff(self, name, dirs):
        z = [0, 0, 0]
        if len(dirs) == 1:
            a, b = list(z), list(z)
            a[dirs[0]], b[dirs[0]] = 1, -1
            return (self.shifted(tuple(a))[name] - self.shifted(tuple(b))[name]) / (2 * H)
        i, j = dirs
        if i == j:
            a, b = list(z), list(z)
            a[i], b[i] = 1, -1
            return (self.shifted(tuple(a))[name] - 2 * self.shifted((0, 0, 0))[name] + self.shifted(tuple(b))[name]) / H**2
        t = mp.mpf(0)
        for si, sj in itertools.product((1, -1), repeat=2):
            o = list(z)
            o[i], o[j] = si, sj
            t += si * sj * self.shifted(tuple(o))[name]
        return t / (4 * H**2)

    def env(self, extra=None):
        """Symbol name -> value, derivatives included."""
        base = dict(zip(self.geo.names, self.xx))
        base.update(extra or {})
        here = self.shifted((0, 0, 0))
        pre = precomputed(self.geo.cs)

        def look(n):
            if n in base:
                return base[n]
            if n in here:
                return here[n]
            m = re.match(r"(.+?)_(dD|dupD|ddnD|dDD)(\d+)$", n)
            if m:
                k = {"dD": 1, "dupD": 1, "ddnD": 1, "dDD": 2}[m[2]]
                d = m[3]
                nm, dirs = m[1] + d[:-k], [int(c) for c in d[-k:]]
                if nm in here:
                    base[n] = self.diff(nm, dirs)
                    return base[n]
            if n in pre:
                base[n] = ev(pre[n], look)
                return base[n]
            return value(n, base)

        return look


_PRE = {}


def precomputed(cs):
    """Symbols of the precomputed reference metric -> their closed forms."""
    if cs not in _PRE:
        rfm = quiet(refmetric.reference_metric.__getitem__, cs + "_rfm_precompute")
        _PRE[cs] = {str(s): v for s, v in zip(getattr(rfm, "freevars_uniq_xx_indep", []), getattr(rfm, "freevars_uniq_vals", []))}
    return _PRE[cs]


def close(a, b, tol=mp.mpf(10) ** -14, scale=1):
    return mp.isfinite(mp.mpc(a).real) and abs(a - b) <= tol * (scale + abs(a) + abs(b))
