"""Bounded expression grammars and an independent evaluator (used by C01 and others)."""

import itertools
import math

import sympy as sp

NAMES = list("abcdefghijklmnop")
SYM = {n: sp.Symbol(n, real=True) for n in NAMES}
SKIP = object()


def _points():
    pts = {}
    for i, n in enumerate(NAMES):
        row = []
        for L in range(8):
            x = math.modf(math.sqrt(2 + 3 * i + 17 * L) * 7.7)[0] * 1.6 + 0.35
            if L >= 4 and ((i * 5 + L * 3) % 7) < 3:
                x = -x
            row.append(round(x * 4096) / 4096.0)  # exactly representable in float
        pts[n] = row
    return pts


POINTS = _points()
nrpyAbs = sp.Function("nrpyAbs")

_F = {
    "sin": (math.sin, math.cos), "cos": (math.cos, math.sin), "exp": (math.exp, math.exp),
    "tan": (math.tan, lambda x: 1 / math.cos(x) ** 2), "atan": (math.atan, lambda x: 1 / (1 + x * x)),
    "sinh": (math.sinh, math.cosh), "cosh": (math.cosh, math.sinh), "tanh": (math.tanh, lambda x: 1 - math.tanh(x) ** 2),
    "log": (math.log, lambda x: 1 / x), "Abs": (abs, lambda x: 1.0), "nrpyAbs": (abs, lambda x: 1.0),
    "asin": (math.asin, lambda x: 1 / math.sqrt(1 - x * x)), "acos": (math.acos, lambda x: 1 / math.sqrt(1 - x * x)),
}


class _Out(Exception):
    pass


def _ev(e, L):
    """(value, magnitude such that rounding errors are O(eps*magnitude))."""
    if e.is_Symbol:
        v = POINTS[e.name][L]
        return v, abs(v)
    if e.is_Number or e.is_NumberSymbol:
        v = float(e)
        return v, abs(v)
    if e.is_Add:
        s = m = 0.0
        for a in e.args:
            v, mm = _ev(a, L)
            s += v
            m += mm
        return s, m
    if e.is_Mul:
        s = m = 1.0
        for a in e.args:
            v, mm = _ev(a, L)
            s *= v
            m *= mm
        return s, m * 1.5
    if e.is_Pow:
        b, mb = _ev(e.base, L)
        x, mx = _ev(e.exp, L)
        if e.exp.is_Integer:
            if b == 0 and x < 0:
                raise _Out
            if abs(b) < 1e-3 * mb:
                raise _Out
            v = b ** int(x)
        else:
            if b < 1e-3 * max(mb, 1e-6):
                raise _Out
            v = b**x
        return v, abs(v) * (1 + abs(x) * mb / abs(b) + abs(math.log(abs(b))) * mx * (0 if e.exp.is_Number else 1))
    name = e.func.__name__
    if name in _F:
        f, d = _F[name]
        v, m = _ev(e.args[0], L)
        if name == "log" and v < 1e-3 * max(m, 1e-6):
            raise _Out
        if name in ("exp", "sinh", "cosh") and abs(v) > 30:
            raise _Out
        if abs(v) > 1e4:
            raise _Out
        if name == "tan" and abs(math.cos(v)) < 1e-3:
            raise _Out
        if name in ("asin", "acos") and abs(v) > 0.99:
            raise _Out
        return f(v), abs(f(v)) + abs(d(v)) * m
    if name == "sign":
        v, m = _ev(e.args[0], L)
        if abs(v) < 1e-3 * m and m > 0:
            raise _Out
        return float((v > 0) - (v < 0)), 1.0
    if name == "atan2":
        y, my = _ev(e.args[0], L)
        x, mx = _ev(e.args[1], L)
        r = math.hypot(x, y)
        if r < 1e-3 * (mx + my) or (x < 0 and abs(y) < 1e-3 * my):
            raise _Out
        return math.atan2(y, x), 1 + (mx + my) / r
    if name in ("Max", "Min"):
        vs = [_ev(a, L) for a in e.args]
        return (max if name == "Max" else min)(v for v, _ in vs), max(m for _, m in vs)
    raise NotImplementedError(name)


def evaluate(e, L):
    try:
        v, m = _ev(sp.sympify(e), L)
    except (_Out, ValueError, OverflowError, ZeroDivisionError):
        return SKIP
    if not (math.isfinite(v) and math.isfinite(m)) or m > 1e12:
        return SKIP
    return v, m


# --------------------------------------------------------------------------
_WIDE = ("s", "st", "2st", "s/t")
SHAPES = ("s", "st", "stu", "2s", "s/t", "st/u", "3/2st", "2", "1/2")
_NV = {"2st": 2, "s": 1, "st": 2, "stu": 3, "2s": 1, "s/t": 2, "st/u": 3, "3/2st": 2, "2": 0, "1/2": 0}


def _term(shape, v):
    R = sp.Rational
    return {
        "s": lambda: v[0], "st": lambda: v[0] * v[1], "stu": lambda: v[0] * v[1] * v[2], "2s": lambda: 2 * v[0],
        "s/t": lambda: v[0] / v[1], "st/u": lambda: v[0] * v[1] / v[2], "3/2st": lambda: R(3, 2) * v[0] * v[1],
        "2st": lambda: 2 * v[0] * v[1], "2": lambda: sp.Integer(2), "1/2": lambda: R(1, 2),
    }[shape]()


def grammar_sums(nmax, both_orders=True, exact=0, shapes=SHAPES):
    """All sums of <= nmax signed terms of the given shapes over fresh variables."""
    alphabet = [(sg, s) for s in shapes for sg in (1, -1)]
    out, seen = [], set()
    for n in range(1, nmax + 1):
        if exact and n != exact:
            continue
        for combo in itertools.combinations_with_replacement(alphabet, n):
            if sum(s in ("2", "1/2") for _, s in combo) > 1:
                continue
            for order in ((1, -1) if both_orders and n > 1 else (1,)):
                names = NAMES[::order]
                k = 0
                e = sp.Integer(0)
                for sg, s in combo:
                    v = [SYM[x] for x in names[k : k + _NV[s]]]
                    k += _NV[s]
                    e = e + sg * _term(s, v)
                if e not in seen:
                    seen.add(e)
                    out.append(e)
    return out


EXPS = [sp.Integer(n) for n in (2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6)] + [
    sp.Rational(*r) for r in ((1, 2), (-1, 2), (3, 2), (-3, 2), (5, 2), (-5, 2), (1, 3), (-1, 3), (2, 3), (1, 6), (-1, 6), (1, 4))
]
FUN_SIMD = [sp.sin, sp.cos, sp.exp, sp.log, sp.Abs, sp.sign]
FUN_ALL = FUN_SIMD + [sp.tan, sp.atan, sp.sinh, sp.cosh, sp.tanh, nrpyAbs]


def _level(prev, atoms, funs, exps):
    out = []
    for x in prev:
        for y in atoms:
            out += [x + y, x - y, y - x, x * y, x / y, y / x]
    for x in prev:
        out += [x**e for e in exps]
        out += [f(x) for f in funs]
    return out


def _uniq(L):
    seen, out = set(), []
    for e in L:
        e = sp.sympify(e)
        if e in seen or not e.free_symbols or e.has(sp.zoo, sp.nan, sp.I, sp.oo) or e.is_Relational or e.has(sp.Derivative, sp.Piecewise, sp.DiracDelta):
            continue
        seen.add(e)
        out.append(e)
    return out


SIMD_EXPS = {sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(-3, 2), sp.Rational(-5, 2), sp.Rational(1, 3)}


def simd_supported(e):
    """The vector back end supports integer, a few half-integer, cube-root and symbolic powers only."""
    for p in sp.preorder_traversal(e):
        if p.is_Pow and p.exp.is_Number and not p.exp.is_Integer and p.exp not in SIMD_EXPS:
            return False
        if p.is_Pow and not p.base.free_symbols:
            return False
    return True


def _ok_eval(e):
    return any(evaluate(e, L) is not SKIP for L in range(8))


def grammar_trees(thorough):
    """All operator trees: level 1 over atoms, level 2 over level 1."""
    a, b, c = SYM["a"], SYM["b"], SYM["c"]
    atoms = [a, b, sp.Integer(2), sp.Integer(-1), sp.Rational(1, 2)]
    l1 = _uniq(_level([a, b], atoms, FUN_SIMD, EXPS) + [a**b, a**2 * b, a * b * c, a + b + c, a - b - c])
    l1full = _uniq(_level([a, b], atoms, FUN_ALL, EXPS) + [sp.atan2(a, b), sp.Max(a, b), sp.Min(a, b), a**b])
    small_e = [sp.Integer(2), sp.Integer(3), sp.Integer(-1), sp.Integer(-2), sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(-3, 2), sp.Rational(1, 3)]
    at2 = [c, sp.Integer(3), sp.Rational(-2, 3)] if thorough else [c, sp.Rational(-2, 3)]
    l2 = _uniq(_level(l1, at2, FUN_SIMD if thorough else [sp.sin, sp.exp], EXPS if thorough else small_e))
    l2full = _uniq(_level(l1full, at2, FUN_ALL if thorough else [sp.cos, nrpyAbs], EXPS if thorough else small_e))
    simd = [e for e in _uniq(l1 + l2) if simd_supported(e) and _ok_eval(e)]
    full = [e for e in _uniq(l1full + l2full) if _ok_eval(e)]
    return full, simd


def grammar_lists(thorough):
    """All pairs (and triples) of expressions drawn from a pool sharing subexpressions."""
    a, b, c, d = (SYM[x] for x in "abcd")
    R = sp.Rational
    pool = [
        a * b, a * b + c, -a * b, a * b - c, (a + b) ** 2, (a + b) * c, -(a + b), (a + b) / d, 2 * (a + b), sp.sqrt(a * b + 2 * c),
        1 / (a * b), a * b * c * d, (a - b) * (a + b), sp.sin(a * b) + c, sp.sin(a * b) ** 2 - a * b, sp.exp(-(a + b)), R(3, 2) * a * b - d / 2,
        (a + b) ** 3 - R(1, 3) * (a + b), 2 * c, -c, sp.Integer(0), sp.Integer(1), sp.Integer(-1), R(2, 3), a, (a * b + c) / (a * b - c), sp.Integer(-2), R(-2, 3) * a,
    ]
    out = [[x, y] for x, y in itertools.product(pool, pool)]
    tri = pool if thorough else pool[:20:3] + [sp.Integer(-1), sp.Integer(0)]
    out += [list(t) for t in itertools.combinations(tri, 3)]
    return out


def grammar_specials():
    a, b = SYM["a"], SYM["b"]
    return [
        sp.pi * a, a / sp.pi, sp.E * a, sp.Float(0.1) * a, a ** sp.Float(0.5), a ** sp.Float(-0.5), a**2.0, sp.Float(1.5) * a + b, sp.sqrt(2) * a, a ** sp.Float(2.5),
        sp.sqrt(sp.pi) * a, sp.exp(1) * b, sp.asin(a / 4), sp.acos(b / 4), sp.Max(a, b, 1), sp.Min(a * b, a), sp.atan2(b, a), a ** sp.Rational(7, 3), (a * a) ** sp.Rational(1, 6),
        sp.log(2) * a, a / 3 + sp.Rational(1, 7), a * 10**10 + b, a - 1000003, sp.Rational(10**9 + 7, 3) * a,
    ]


def grammar_rationals():
    """Rational coefficients of every size, alone, as factors, and next to other terms."""
    a, b, c = SYM["a"], SYM["b"], SYM["c"]
    out = []
    for p, q in ((1, 3), (2, 7), (1, 64), (1, 65), (3, 100), (5, 84), (1, 840), (127, 128), (1, 5040), (205, 72), (1000003, 3), (12345678901, 7), (1, 12345678901)):
        for r in (sp.Rational(p, q), -sp.Rational(p, q)):
            out += [r * a, r + a, r * a + b, b - r * a * c, r * a**2, r / a, r * a + b / q + c * p, (a + r) * b, r * (a - b) + c]
    return out
