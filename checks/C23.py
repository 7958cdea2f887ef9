"""C23: expression validation tells equal from different.

All pairs of expressions of a grammar whose equality is decidable exactly (polynomials over
generators bound by s^2+c^2=1, q^2=x, E=exp) are given to check_zero() and assert_equal(); every
single-entry change of stored results is given to the trusted-value comparison.
"""

import contextlib
import io
import itertools
import json
import os
import sys

# sympy's cache mixes up precisions (known finding, see cached()); everything else is judged without it
os.environ.setdefault("SYMPY_USE_CACHE", "no")
# pylint: disable=wrong-import-position

import sympy as sp

import vf

NAMES = [("x", "y"), ("x0", "x1"), ("xx0", "PI2"), ("alpha", "hDD01"), ("S", "N"), ("M_SQRT", "lambda_")]


def symbols(names, real):
    return [sp.Symbol(n, real=True) if real else sp.Symbol(n) for n in names]


# normal form: each expression is carried along with a polynomial over (q, y, s, c, E), where
# x = q^2 (q = sqrt x), s = sin y, c = cos y, E = exp x; equality modulo s^2 + c^2 = 1 is exact.
q, yv, s, c, E = sp.symbols("q_ y_ s_ c_ E_")


def leaves(x, y):
    return [
        (x, q**2), (y, yv), (sp.Integer(2), sp.Integer(2)), (sp.Rational(-1, 3), sp.Rational(-1, 3)),
        (sp.sqrt(x), q), (sp.sin(y), s), (sp.cos(y), c), (sp.exp(x), E), (sp.sin(2 * y), 2 * s * c), (sp.exp(2 * x), E**2),
    ]


def level(ls, more):
    """All a op b over the leaves, unevaluated duplicates removed by text."""
    out = {}
    for (a, na), (b, nb) in itertools.product(ls, ls):
        for e, n in ((a + b, na + nb), (a - b, na - nb), (a * b, na * nb)) + (((a + b) ** 2, (na + nb) ** 2), (a / (1 + b**2), None)) * more:
            if n is not None:
                out.setdefault(sp.srepr(e), (e, n))
    return list(out.values())


def is_zero(n):
    r = sp.expand(n)
    if r == 0:
        return True
    return sp.rem(sp.Poly(r, c, q, yv, s, E), sp.Poly(c**2 + s**2 - 1, c, q, yv, s, E)).is_zero


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def pairs(names, real, part, parts, more, maxbad=5):
    import nrpy.validate_expressions.validate_expressions as ve  # pylint: disable=import-outside-toplevel

    x, y = symbols(names, real)
    ls = level(leaves(x, y), False)
    if not more:
        ls = ls[::4]
    # identities in two different shapes, so that zero is not found by sympy's own cancellation
    rich = [
        (x**2 - y**2, (x + y) * (x - y)), (sp.sin(2 * y), 2 * sp.sin(y) * sp.cos(y)), (sp.cos(2 * y), 1 - 2 * sp.sin(y) ** 2), (sp.exp(x) * sp.exp(y), sp.exp(x + y)),
        (sp.sinh(x), (sp.exp(x) - sp.exp(-x)) / 2), (1 / (1 + x) - 1, -x / (1 + x)), (sp.sqrt(x * y) ** 2, x * y), (sp.log(x * y), sp.log(x) + sp.log(y)),
        (sp.tan(y), sp.sin(y) / sp.cos(y)), ((x + y) ** 5, sp.expand((x + y) ** 5)), (sp.sqrt(1 + x) * sp.sqrt(1 + y), sp.sqrt((1 + x) * (1 + y))),
        (sp.Symbol("PI"), sp.pi), (sp.Symbol("M_PI") * x, sp.pi * x), (sp.Symbol("SQRT1_2"), 1 / sp.sqrt(2)), (sp.Symbol("M_SQRT1_2") ** 2, sp.Rational(1, 2)), (sp.cos(sp.Symbol("PI")), sp.Integer(-1)),
        (sp.Abs(x), x), (sp.asinh(x), sp.log(x + sp.sqrt(x**2 + 1))), (sp.I * x * sp.I, -x), (sp.exp(sp.I * y), sp.cos(y) + sp.I * sp.sin(y)), (sp.sqrt(-x) ** 2, -x),
    ]
    n = 0
    bad = []

    def judge(e, want, what):
        nonlocal n
        for fixed in (True, False):
            n += 1
            got = quiet(ve.check_zero, e, fixed_mpfs_for_free_symbols=fixed)
            if got is not want:
                bad.append((f"check_zero:{what}", f"check_zero({e}, fixed_mpfs_for_free_symbols={fixed}) is {got!r}"))

    for i, ((a, na), (b, nb)) in enumerate(itertools.product(ls, ls)):
        if i % parts != part:
            continue
        # multiply out one side only: different shapes of the same function
        e = sp.Add(sp.expand(a * (1 + x)), sp.Mul(-1, b, 1 + x, evaluate=False), evaluate=False)
        if i % 7 == 0:
            e = sp.Add(a, -b)
        judge(e, is_zero(na - nb), "grammar")
    if part == 0:
        for a, b in rich:
            judge(sp.Add(a, -b, evaluate=False), True, "identity")
            for eps in ("1e-3", "1e-10", "1e-20", "1e-23", "1e-25", "1e-27"):
                d = sp.Rational(eps)
                for w in (1, (1 + x), sp.cos(y) + 2, (1 + x) * sp.I):
                    judge(sp.Add(a, -b, d * w, evaluate=False), False, f"near {eps}")
            judge(sp.Add(a, -b, x * sp.Integer(10) ** 3, evaluate=False), False, "far")
    return n, bad[:maxbad]


def my_value(e, vals):
    """The expression at the given values, by mpmath directly at high precision."""
    import mpmath  # pylint: disable=import-outside-toplevel

    with mpmath.workdps(60):
        f = sp.lambdify(list(vals), e, modules="mpmath")
        return mpmath.mpmathify(f(*[mpmath.mpmathify(v) for v in vals.values()]))


def values(part, parts):
    """Values are the expression at the symbols' values, whatever was evaluated before."""
    import mpmath  # pylint: disable=import-outside-toplevel
    import nrpy.validate_expressions.validate_expressions as ve  # pylint: disable=import-outside-toplevel

    n = 0
    bad = []
    x, y = symbols(("x", "y"), True)
    z = sp.Symbol("x0")
    pool = [x, y, z, x + y, x * y * z + 1, sp.sin(x) ** 2 + sp.cos(x) * y, (x + y) ** 3 / (x + y + z), sp.sqrt(x - 5), sp.exp(sp.sin(x * y)) * sp.sin(x * y) + sp.sin(x * y) ** 2, sp.Integer(0), sp.Integer(7), sp.Rational(1, 3), x * sp.Rational("1e-27"), sp.Symbol("PI") * x, x - x * (1 + y - y), sp.Abs(x - 2), sp.log(x) / z**4, sp.Float("0.1", 30) * x]
    sym = sorted({t for e in pool for t in e.free_symbols}, key=str)
    vals = {t: quiet(ve.convert_one_expression_to_mpfmpc, t, fixed_mpfs_for_free_symbols=True) for t in sym}
    if len({str(v) for v in vals.values()}) != len(vals):
        bad.append(("values:distinct", f"two symbols share a value: {vals}"))
    for hist in itertools.product(range(-1, len(pool)), range(len(pool))):
        if (hist[0] + hist[1]) % parts != part:
            continue
        for dps in (15, 60):
            mpmath.mp.dps = dps
            if hist[0] >= 0:
                quiet(ve.convert_one_expression_to_mpfmpc, pool[hist[0]], fixed_mpfs_for_free_symbols=hist[0] % 2 == 0)
            got = quiet(ve.convert_one_expression_to_mpfmpc, pool[hist[1]], fixed_mpfs_for_free_symbols=True)
            want = my_value(pool[hist[1]], vals)
            n += 1
            with mpmath.workdps(60):
                if not abs(got - want) <= abs(want) * mpmath.mpf(10) ** -27:
                    bad.append(("values", f"the value of {pool[hist[1]]} is {got}, should be {want} (evaluated before: {pool[hist[0]] if hist[0] >= 0 else 'nothing'}, mp.dps was {dps})"))
    if part == 0:
        # entries of a dictionary of expressions
        for order in itertools.permutations(["b", "a", "T", "f_funcform", "n"]):
            d = {"a": x + y, "b": [x, sp.Integer(0)], "T": [[x, y], [[z, x * y], x]], "f_funcform": x * 3, "n": 5}
            got = quiet(ve.process_dictionary_of_expressions, {k: d[k] for k in order}, fixed_mpfs_for_free_symbols=True)
            want = {"a": x + y, "b_0": x, "b_1": 0 * x, "T_0": x, "T_1": y, "T_2": z, "T_3": x * y, "T_4": x}
            n += 1
            if set(got) != set(want):
                bad.append(("entries", f"entries {sorted(got)} for the dictionary {d}"))
            else:
                for k, e in want.items():
                    if not abs(got[k] - my_value(e, vals)) <= abs(got[k]) * mpmath.mpf(10) ** -27:
                        bad.append(("entries", f"entry {k} has the value {got[k]}"))
    return n, bad[:5]


def equal_dicts():
    import nrpy.validate_expressions.validate_expressions as ve  # pylint: disable=import-outside-toplevel

    x, y = symbols(("x", "y"), True)
    forms = [[sp.sin(2 * x), 2 * sp.sin(x) * sp.cos(x)], [(x + y) ** 2, x**2 + 2 * x * y + y**2], [x, x + 0], [sp.Integer(0), sp.Add(x * y, -y * x, evaluate=False)], [sp.sqrt(x - 3), sp.I * sp.sqrt(3 - x)]]
    n = 0
    bad = []

    def accepts(a, b):
        nonlocal n
        n += 1
        try:
            quiet(ve.assert_equal, a, b)
            return True
        except AssertionError:
            return False

    k = len(forms)
    for i, j, u, w in itertools.product(range(k), range(k), range(2), range(2)):
        want = i == j
        a, b = forms[i][u], forms[j][w]
        for wrap in (lambda e: e, lambda e: {"A": e}, lambda e: {"A": [e, x]}, lambda e: {"A": [[x, e], [y, x]]}, lambda e: {"A": x, "B": e, "C": y}):
            if accepts(wrap(a), wrap(b)) is not want:
                bad.append(("assert_equal", f"assert_equal({wrap(a)}, {wrap(b)}) {'passes' if not want else 'fails'}"))
    for eps in ("1e-6", "1e-15", "1e-22"):
        for i in range(k):
            e = forms[i][1] + sp.Rational(eps) * (1 + y)
            for a, b in ((forms[i][0], e), (e, forms[i][0])):
                for wrap in (lambda e: e, lambda e: {"A": x, "B": [x, e]}):
                    if accepts(wrap(a), wrap(b)):
                        bad.append(("assert_equal:near", f"assert_equal({wrap(a)}, {wrap(b)}) passes"))
    d = {"A": x, "B": y, "C": [x, y]}
    for drop in ("A", "B", "C"):
        less = {k2: v for k2, v in d.items() if k2 != drop}
        if accepts(d, less) or accepts(less, d):
            bad.append(("assert_equal:missing", f"assert_equal passes for dictionaries {sorted(d)} and {sorted(less)}"))
    if accepts({"A": [x, y, x]}, {"A": [x, y]}) or accepts({"A": [x]}, {"A": [x, y]}):
        bad.append(("assert_equal:missing", "assert_equal passes for lists of different lengths"))
    if accepts(d, {"A": x, "B": y, "C": [y, x]}):
        bad.append(("assert_equal:order", "assert_equal passes for exchanged components"))
    if accepts(sp.nan, x) or accepts({"A": x, "B": sp.nan * x}, {"A": x, "B": y}):
        bad.append(("assert_equal:nan", "assert_equal passes with NaN"))
    return n, bad[:5]


def trusted(scratch):
    """Generate stored results, then compare every single-entry change with them."""
    import mpmath  # pylint: disable=import-outside-toplevel
    import nrpy.validate_expressions.validate_expressions as ve  # pylint: disable=import-outside-toplevel

    root = os.path.join(scratch, "trusted")
    os.makedirs(os.path.join(root, "pkg"))
    os.chdir(root)
    sys.path.insert(0, root)
    here = os.path.join(root, "pkg", "mod.py")
    vf.write(here, "")
    x, y = symbols(("x", "y"), True)
    sets = {
        "reals": {"a": x, "b": x * y, "T": [[x, y], [y, -x]]},
        "complex": {"a": sp.sqrt(x - 2), "b": x + sp.I * y, "c": y},
        "zeros": {"a": sp.Integer(0), "b": x, "c": [x - x, y]},
        "small": {"a": x * sp.Rational("1e-20"), "b": y * sp.Rational("1e30"), "c": sp.Rational("1e-40") * x},
        "onlycomplex": {"a": sp.sqrt(x - 2)},
        "empty": {},
    }
    n = 0
    bad = []

    def accepts(name, res):
        nonlocal n
        n += 1
        try:
            quiet(ve.compare_or_generate_trusted_results, here, root, name, res)
            return True
        except (ValueError, KeyError):
            return False

    for name, d in sets.items():
        res = quiet(ve.process_dictionary_of_expressions, d, fixed_mpfs_for_free_symbols=True)
        accepts(name, res)
        f = os.path.join(root, "pkg", "tests", name + ".py")
        if not os.path.exists(f):
            bad.append(("trusted:generate", f"no file of trusted results was made for {name}"))
            continue
        before = open(f).read()
        for _ in range(2):
            if not accepts(name, quiet(ve.process_dictionary_of_expressions, d, fixed_mpfs_for_free_symbols=True)):
                bad.append(("trusted:same", f"{name}: the same results are rejected"))
        rev = dict(reversed(list(res.items())))
        if not accepts(name, rev):
            bad.append(("trusted:order", f"{name}: the same results in another order are rejected"))
        for k, v in res.items():
            for r in ("1e-3", "1e-12", "1e-20", "1e-22"):
                for sign in (1, -1):
                    w = v * (1 + sign * mpmath.mpf(r)) if v != 0 else sign * mpmath.mpf(r)
                    if accepts(name, {**res, k: w}):
                        bad.append(("trusted:changed", f"{name}: entry {k} = {w} is accepted, stored {v}"))
            for w in (-v if v != 0 else mpmath.mpf(1), v + mpmath.mpc(0, 1) * (abs(v) + mpmath.mpf("1e-3")) * mpmath.mpf("1e-10"), mpmath.mpf("nan"), mpmath.mpf("inf"), mpmath.mpc(mpmath.mpf("nan"), 0)):
                if accepts(name, {**res, k: w}):
                    bad.append(("trusted:changed", f"{name}: entry {k} = {w} is accepted, stored {v}"))
            if v != 0 and not accepts(name, {**res, k: v * (1 + mpmath.mpf("1e-28"))}):
                bad.append(("trusted:rounding", f"{name}: rounding of the last digits of {k} is rejected"))
            less = {a: b for a, b in res.items() if a != k}
            if accepts(name, less):
                bad.append(("trusted:missing", f"{name}: a missing entry {k} is accepted"))
            if accepts(name, {**less, k + "new": v}):
                bad.append(("trusted:renamed", f"{name}: a renamed entry {k} is accepted"))
        for a, b in itertools.combinations(res, 2):
            if res[a] != res[b] and accepts(name, {**res, a: res[b], b: res[a]}):
                bad.append(("trusted:exchanged", f"{name}: exchanged entries {a} and {b} are accepted"))
        if accepts(name, {**res, "extra": mpmath.mpf(0)}):
            bad.append(("trusted:extra", f"{name}: an additional entry is accepted"))
        if open(f).read() != before:
            bad.append(("trusted:rewritten", f"{name}: comparing changed the stored results"))
        # the stored results read back by another process
        def text(v):
            return "[" + ",".join(text(w) for w in v) + "]" if isinstance(v, list) else sp.srepr(v)

        code = f"import sys,os; sys.path.insert(0,{root!r}); os.chdir({root!r})\nfrom sympy import *\nimport nrpy.validate_expressions.validate_expressions as ve\nd={{{','.join(repr(k) + ':' + text(v) for k, v in d.items())}}}\n"
        code += f"ve.compare_or_generate_trusted_results({here!r},{root!r},{name!r},ve.process_dictionary_of_expressions(d,fixed_mpfs_for_free_symbols=True))\n"
        for seed in ("0", "5"):
            p = vf.run([sys.executable, "-c", code], env={"PYTHONHASHSEED": seed, "PYTHONPATH": os.environ.get("PYTHONPATH", "")})
            n += 1
            if p.returncode and "ValueError" in p.stderr:
                bad.append(("trusted:process", f"{name}: another process rejects the same results: {p.stderr[-300:]}"))
            elif p.returncode:
                raise vf.HarnessError(p.stderr[-800:])
    return n, bad[:5]


def cached():
    """The same judgements with sympy's cache in use; there, and only there, an identity may be missed."""
    code = "import sys, json; sys.path[:0] = %r\nimport C23\nprint('RES ' + json.dumps(C23.pairs(('x', 'y'), True, 0, 5, False, 10**9)))" % ([os.path.dirname(os.path.abspath(__file__)), os.path.dirname(vf.__file__)],)
    p = vf.run([sys.executable, "-c", code], env={"SYMPY_USE_CACHE": "yes"}, timeout=600)
    res = [t for t in p.stdout.splitlines() if t.startswith("RES ")]
    if not res:
        raise vf.HarnessError(p.stderr[-1500:])
    n, bad = json.loads(res[0][4:])
    out = []
    for key, msg in bad:
        out.append(("check_zero:cached", msg + " with sympy's cache in use") if msg.endswith("is False") else (key + ":cached", msg))
    seen = {}
    for k, m in out:
        seen.setdefault(k, m)
    return n, list(seen.items())


def run(job, scratch, thorough):
    if job[0] == "cached":
        return cached()
    if job[0] == "pairs":
        return pairs(*job[1:], thorough)
    if job[0] == "values":
        return values(*job[1:])
    if job[0] == "dicts":
        return equal_dicts()
    return trusted(scratch)


def body(chk):
    parts = 6 if not chk.thorough else 24
    jobs = [("cached",), ("trusted",), ("dicts",)] + [("values", i, 2) for i in range(2)]
    use = NAMES if chk.thorough else NAMES[:2]
    for i, nm in enumerate(use):
        jobs += [("pairs", nm, i % 2 == 0, p, parts) for p in range(parts)]
    jobs += [("pairs", nm, i % 2 == 0, 0, 10**9) for i, nm in enumerate(NAMES) if nm not in use]
    for j, (n, bad) in zip(jobs, vf.pmap(run, [(j, chk.scratch, chk.thorough) for j in jobs])):
        chk.count("judgements", n)
        chk.outcome(j)
        for key, msg in bad:
            chk.violation(key, msg, {"job": j})
    chk.sample({"job": jobs[4]})


if __name__ == "__main__":
    vf.main("C23", "exploration", "distinct (part of the grammar, symbol names)", body)
