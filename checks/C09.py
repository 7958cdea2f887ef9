"""C09: indexed-expression symmetries, declarations, symmetry-axis zeroing, inverses, Levi-Civita.

Exhaustive enumeration of ranks, dimensions, symmetry specifications and index tuples against a
reference built from the permutation group a specification generates; all small integer matrices
plus the generic symbolic matrix for every inverter.
"""

import itertools
from fractions import Fraction

import sympy as sp

import vf

import nrpy.indexedexp as ixp
import nrpy.params as par

DECL = {1: ixp.declarerank1, 2: ixp.declarerank2, 3: ixp.declarerank3, 4: ixp.declarerank4}
ZERO = {1: ixp.zerorank1, 2: ixp.zerorank2, 3: ixp.zerorank3, 4: ixp.zerorank4}


def pairs_of(spec):
    """Generators of a symmetry specification: [(a, b, sign)]."""
    out = []
    for s in spec.split("_"):
        if s == "nosym":
            continue
        sg = 1 if s.startswith("sym") else -1
        d = s[3:] if sg == 1 else s[4:]
        for a, b in zip(d, d[1:]):
            out.append((int(a), int(b), sg))
    return out


def orbits(rank, dim, gens):
    """tuple -> (canonical representative, sign or 0)."""
    rep = {}
    for t in itertools.product(range(dim), repeat=rank):
        if t in rep:
            continue
        seen = {t: 1}
        zero = False
        stack = [t]
        while stack:
            u = stack.pop()
            for a, b, sg in gens:
                v = list(u)
                v[a], v[b] = v[b], v[a]
                v = tuple(v)
                s = seen[u] * sg
                if v not in seen:
                    seen[v] = s
                    stack.append(v)
                elif seen[v] != s:
                    zero = True
        for u, s in seen.items():
            rep[u] = (t, 0 if zero else s)
    return rep


def get(T, ix):
    for i in ix:
        T = T[i]
    return sp.sympify(T)


def axis_zero(name_idx, nder, axes):
    return any(str(i) in axes for i in name_idx[len(name_idx) - nder:]) if nder else False


def one(rank, dim, spec, base, nder, axes):
    """One declaration; returns an error or None, and the number of components compared."""
    par.set_parval_from_str("symmetry_axes", axes)
    kw = {"dimension": dim}
    if spec is not None:
        kw["symmetry"] = spec
    T = DECL[rank](base, **kw)
    if ixp.get_rank(T) != rank:
        return f"get_rank gives {ixp.get_rank(T)}"
    orb = orbits(rank, dim, pairs_of(spec) if spec else [])
    names = {}
    n = 0
    for ix in itertools.product(range(dim), repeat=rank):
        rep, s = orb[ix]
        v = get(T, ix)
        n += 1
        if s == 0:
            if v != 0:
                return f"component {ix} is {v}, must vanish"
            continue
        if axis_zero(ix, nder, axes):
            if v != 0:
                return f"component {ix} is {v}: a derivative along symmetry axis {axes} was not removed"
            continue
        if v == 0:
            return f"component {ix} is 0, it does not vanish by symmetry"
        if rep not in names:
            syms = v.free_symbols
            if len(syms) != 1:
                return f"component {ix} is {v}"
            names[rep] = sp.sympify(v / s) if s == 1 else -v
            nm = str(names[rep])
            want = [base + "".join(map(str, t)) for t, (r, sg) in orb.items() if r == rep and sg == 1]
            if nm not in want:
                return f"component {ix} is {v}; no index tuple of its class is named {nm}"
            # the symbol names the component it stands for
            own = tuple(int(c) for c in nm[len(base):])
            if not axis_zero(own, nder, axes) and get(T, own) != names[rep]:
                return f"component {own} is {get(T, own)}, not {nm}"
        if v != s * names[rep]:
            return f"component {ix} is {v}, want {s * names[rep]}"
    if len(set(names.values())) != len(names):
        return "two independent components share a symbol"
    if len(DECL[rank](base, **kw)) != dim:
        return "wrong dimension"
    return None


def specs(rank, deep):
    prs = list(itertools.combinations(range(rank), 2))
    single = [p + f"{a}{b}" for a, b in prs for p in ("sym", "anti")]
    out = [None, "nosym"] + single
    if rank == 3:
        out += ["sym012", "anti012", "sym01_sym12", "sym01_sym02", "sym02_sym12", "anti01_anti12", "anti01_anti02"]
    if rank == 4:
        out += ["sym0123", "anti0123", "sym012", "sym123", "anti012", "anti123", "sym01_sym12_sym23"]
        # disjoint pairs, every sign combination
        for a, b in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
            for p, q in itertools.product(("sym", "anti"), repeat=2):
                out.append(f"{p}{a[0]}{a[1]}_{q}{b[0]}{b[1]}")
                out.append(f"{q}{b[0]}{b[1]}_{p}{a[0]}{a[1]}")
    if deep and rank == 4:
        out += [f"{p}{x}" for p in ("sym", "anti") for x in ("013", "023")]
    return out


def bad_specs():
    """Specifications that must be refused."""
    bad = []
    for rank, spec in ((2, "01"), (2, "sym02"), (2, "foo"), (3, "sym03"), (3, "symm01x"), (4, "sym45"), (2, "sym"), (1, "sym01")):
        try:
            r = DECL[rank]("zz", symmetry=spec)
            bad.append(f"rank {rank} accepted symmetry {spec!r}: {str(r)[:80]}")
        except (ValueError, IndexError):
            pass
    for kw in ({"dimension": 2.5}, {"DIM": 3}):
        try:
            ixp.declarerank1("zz", **kw)
            bad.append(f"accepted {kw}")
        except ValueError:
            pass
    for nm in ("a b", "a+b", "x[0]"):
        try:
            ixp.declarerank1(nm)
            bad.append(f"accepted the name {nm!r}")
        except ValueError:
            pass
    return bad


def decl_batch(items):
    out = []
    for it in items:
        e = one(*it)
        if e:
            out.append((it, e))
    return out


# -- matrices --------------------------------------------------------------------------------
def det(m):
    """Laplace expansion (reference)."""
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j] != 0)


INV = {
    ("symm", 2): "symm_matrix_inverter2x2", ("symm", 3): "symm_matrix_inverter3x3", ("symm", 4): "symm_matrix_inverter4x4",
    ("generic", 2): "generic_matrix_inverter2x2", ("generic", 3): "generic_matrix_inverter3x3", ("generic", 4): "generic_matrix_inverter4x4",
}


def mats(kind, n, vals, part, nparts):
    if kind == "symm":
        ij = [(i, j) for i in range(n) for j in range(i, n)]
    else:
        ij = [(i, j) for i in range(n) for j in range(n)]
    for k, t in enumerate(itertools.product(vals, repeat=len(ij))):
        if k % nparts != part:
            continue
        m = [[Fraction(0)] * n for _ in range(n)]
        for (i, j), v in zip(ij, t):
            m[i][j] = Fraction(v)
            if kind == "symm":
                m[j][i] = Fraction(v)
        yield m


def invert_batch(kind, n, vals, part, nparts):
    f = getattr(ixp, INV[kind, n])
    cnt = sing = 0
    for m in mats(kind, n, vals, part, nparts):
        d = det(m)
        cnt += 1
        mm = [list(r) for r in m]
        try:
            inv, dd = f(mm)
        except ixp.NonInvertibleMatrixError:
            if d != 0:
                return cnt, sing, f"{kind} {n}x{n} {[[int(x) for x in r] for r in m]}: called singular, determinant is {d}"
            sing += 1
            continue
        except ZeroDivisionError:
            sing += 1
            if d != 0:
                return cnt, sing, f"{kind} {n}x{n} {[[int(x) for x in r] for r in m]}: division by zero, determinant is {d}"
            continue
        if d == 0:
            return cnt, sing, f"{kind} {n}x{n} {[[int(x) for x in r] for r in m]}: singular, but an inverse was returned"
        if dd != d:
            return cnt, sing, f"{kind} {n}x{n} {[[int(x) for x in r] for r in m]}: determinant {dd}, want {d}"
        for i in range(n):
            for j in range(n):
                s = sum(m[i][k] * inv[k][j] for k in range(n))
                if s != (1 if i == j else 0):
                    return cnt, sing, f"{kind} {n}x{n} {[[int(x) for x in r] for r in m]}: (A A^-1)[{i}][{j}] = {s}"
        if mm != m:
            return cnt, sing, f"{kind} {n}x{n}: the input matrix was modified"
    return cnt, sing, None


def symbolic(kind, n):
    """The generic symbolic matrix: the identity holds for every matrix."""
    f = getattr(ixp, INV[kind, n])
    a = [[sp.Symbol(f"a{min(i, j)}{max(i, j)}" if kind == "symm" else f"a{i}{j}") for j in range(n)] for i in range(n)]
    inv, d = f(a)
    if sp.expand(d - det(a)) != 0:
        return f"{kind} {n}x{n}: determinant of the generic matrix is wrong"
    D = sp.Symbol("D")
    for i in range(n):
        for j in range(n):
            num = sp.expand(sp.together(inv[i][j]) * d) if n < 3 else sp.expand(sp.cancel(inv[i][j] * d))
            cof = sp.expand((-1) ** (i + j) * det([[a[r][c] for c in range(n) if c != i] for r in range(n) if r != j]))
            if sp.expand(num - cof) != 0:
                return f"{kind} {n}x{n}: element {i}{j} of the inverse of the generic matrix is wrong ({D})"
    return None


def misc():
    """Zero tensors, Levi-Civita, create_tensor_symbolic."""
    for r in (1, 2, 3, 4):
        for dim in (2, 3, 4):
            z = ZERO[r](dimension=dim)
            if any(get(z, ix) != 0 for ix in itertools.product(range(dim), repeat=r)) or len(z) != dim:
                return f"zerorank{r}(dimension={dim}) is not zero"
            # independent storage
            for ix in itertools.product(range(dim), repeat=r):
                z = ZERO[r](dimension=dim)
                t = z
                for i in ix[:-1]:
                    t = t[i]
                t[ix[-1]] = 7
                if sum(1 for jx in itertools.product(range(dim), repeat=r) if get(z, jx) != 0) != 1:
                    return f"zerorank{r}(dimension={dim}): elements share storage"
    s = sp.Symbol("s", positive=True)
    eps, up, dn = ixp.LeviCivitaSymbol_dim3_rank3(), ixp.LeviCivitaTensorUUU_dim3_rank3(s), ixp.LeviCivitaTensorDDD_dim3_rank3(s)
    for p in itertools.product(range(3), repeat=3):
        e = 0 if len(set(p)) < 3 else (-1) ** sum(1 for a in range(3) for b in range(a) if p[b] > p[a])
        if get(eps, p) != e or sp.simplify(get(up, p) - e / s) != 0 or sp.simplify(get(dn, p) - e * s) != 0:
            return f"Levi-Civita at {p}"
    for shape in ([2], [2, 3], [3, 2, 2]):
        for cz in ("", "x", "A"):
            T = ixp.create_tensor_symbolic(shape, "q", character_zero_index=cz)
            for ix in itertools.product(*[range(k) for k in shape]):
                want = "q" + "".join(str(i) if not cz else chr(ord(cz) + i) for i in ix)
                if str(get(T, ix)) != want:
                    return f"create_tensor_symbolic({shape}, 'q', {cz!r}) at {ix}: {get(T, ix)}, want {want}"
    return None


def body(chk):
    T = chk.thorough
    items = []
    for rank in (1, 2, 3, 4):
        for dim in (2, 3, 4) if rank < 4 or T else (2, 3):
            for sp_ in [s for s in specs(rank, T) if rank > 1 or s in (None, "nosym")]:
                items.append((rank, dim, sp_, "T" + "UD"[rank % 2] * rank, 0, ""))
                items.append((rank, dim, sp_, "Q", 0, "1"))
    # derivative declarations: scalar, vector, rank-2; first, second, one-sided, dissipation
    for nt in (0, 1, 2, 3):
        for suf, nd in (("_dD", 1), ("_dDD", 2), ("_dupD", 1), ("_ddnD", 1), ("_dKOD", 1)):
            rank = nt + nd
            if rank > 4:
                continue
            ts = {0: [[]], 1: [[]], 2: [[], ["sym01"], ["anti01"]], 3: [[], ["sym12"]]}[nt]
            for tsym in ts:
                for dsym in ([[], [f"sym{nt}{nt + 1}"]] if nd == 2 else [[]]):
                    spec = "_".join(tsym + dsym) or None
                    for axes in ("", "0", "1", "2", "01", "02", "12", "012"):
                        for b in ("h" + "D" * nt + suf, "my_data" + "D" * nt + suf) if nt < 3 else ("h" + "D" * nt + suf,):
                            items.append((rank, 3, spec, b, nd, axes))
                            if b.startswith("h"):
                                items.append((rank, 2, spec, b, nd, axes))
                                items.append((rank, 4, spec, b, nd, axes + "3"))
    # names that merely look like derivatives are not derivatives
    for b in ("rho_dustU", "v_driftD", "mom_densityDD", "B_dipoleUD", "x_dU"):
        r = sum(1 for c in b.split("_")[-1] if c in "UD")
        for axes in ("0", "12"):
            items.append((r, 3, None, b, 0, axes))
    for bad in vf.pmap(decl_batch, [(items[i::32],) for i in range(32)]):
        for it, e in bad:
            chk.violation(f"declare:rank={it[0]}:symmetry={it[2]}:{it[3]}:nder={it[4]}:axes={it[5]}" if it[4] or it[3] not in ("Q", "T" + "UD"[it[0] % 2] * it[0]) else f"declare:rank={it[0]}:symmetry={it[2]}", f"rank {it[0]} dimension {it[1]} symmetry {it[2]} name {it[3]} symmetry_axes {it[5]!r}: {e}", {"case": it})
    chk.count("declarations", len(items))
    comps = sum(i[1] ** i[0] for i in items)
    chk.count("evaluations", comps)
    for it in items:
        chk.outcome(it)
    chk.sample(items[17])
    for e in vf.forked(bad_specs):
        chk.violation("refusal:" + e[:60], e, {})
    e = vf.forked(misc)
    if e:
        chk.violation("misc:" + e[:60], e, {})
    chk.note(f"declarations done {chk.counters}")
    jobs = []
    for kind, n, vals, parts in (
        ("symm", 2, range(-3, 4), 1), ("generic", 2, range(-2, 3), 1), ("symm", 3, range(-1, 2) if not T else range(-2, 3), 8),
        ("generic", 3, range(-1, 2), 8), ("symm", 4, range(-1, 2), 16), ("generic", 4, (0, 1), 16),
    ):
        jobs += [(kind, n, tuple(vals), p, parts) for p in range(parts)]
    for j, (c, s, e) in zip(jobs, vf.pmap(invert_batch, jobs, timeout=800)):
        chk.count("matrices", c)
        chk.count("singular", s)
        chk.count("evaluations", c)
        if e:
            chk.violation("inverse:" + e[:80], e, {"job": j})
    sj = [k for k in INV]
    for k, e in zip(sj, vf.pmap(symbolic, sj, timeout=800)):
        chk.count("evaluations")
        if e:
            chk.violation("symbolic:" + e[:80], e, {"inverter": k})


if __name__ == "__main__":
    vf.main("C09", "exploration", "distinct (rank, dimension, symmetry, name, symmetry axes) declarations", body)
