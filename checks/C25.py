"""C25: metric variable conversions are mutually inverse.

For every coordinate system, reference-metric option and choice of conformal factor, the
conversions form a graph over the representations (ADM in the Cartesian and in the grid's basis,
rescaled BSSN, covariant and contravariant spacetime metric). All walks up to the stated length are
executed at generic points and metrics; every representation reached must be that of the metric the
walk started from. The derivatives, connection and inverse that the conversions provide are
compared with differences of the fields themselves.
"""

import itertools

import mpmath as mp
import sympy as sp

import bhah
import tensors as tn
import vf

import nrpy.indexedexp as ixp
import nrpy.params as par

R3 = range(3)
TOL = mp.mpf(10) ** -25
DTOL = mp.mpf(10) ** -13


def flat(x, pre=""):
    if isinstance(x, (list, tuple)):
        return list(itertools.chain.from_iterable(flat(y, f"{pre}{i}") for i, y in enumerate(x)))
    return [(pre, x)]


def names(base, comp, lo=0):
    return {f"{base}{k}": v for k, v in flat(comp)}


class Conv:
    """All conversions of one configuration, as functions from numbers to numbers."""

    def __init__(self, cs, pre, cf):
        from nrpy.equations.general_relativity import ADM_to_BSSN as a2b, BSSN_to_ADM as b2a, g4munu_conversions as g4  # pylint: disable=import-outside-toplevel
        from nrpy.helpers import jacobians as jac  # pylint: disable=import-outside-toplevel

        par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
        g, K = ixp.declarerank2("gammaDD", symmetry="sym01"), ixp.declarerank2("KDD", symmetry="sym01")
        be, B = ixp.declarerank1("betaU"), ixp.declarerank1("BU")
        al = sp.Symbol("alpha", real=True)
        G = ixp.declarerank2("g4DD", symmetry="sym01", dimension=4)
        q = tn.quiet
        A = q(a2b.ADM_to_BSSN, g, K, be, B, cs, pre)
        C = q(b2a.BSSN_to_ADM, cs, pre)
        self.cfonly = q(a2b.ADM_to_BSSN, g, K, be, B, cs, pre, compute_cf_only=True).cf
        self.back = C
        from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities  # pylint: disable=import-outside-toplevel

        BUx = BSSN_quantities[cs + ("_rfm_precompute" if pre else "")].BU
        bssn = {**names("hDD", A.hDD), **names("aDD", A.aDD), "cf": A.cf, "trK": A.trK, **names("vetU", A.vetU), **names("betU", A.betU), "alpha": al}
        adm = {**names("gammaDD", C.gammaDD), **names("KDD", C.KDD), **names("betaU", C.betaU), **names("BU", BUx), "alpha": al}
        h, c, v, a = q(g4.g4DD_to_BSSN, [list(r) for r in G], cs, pre)
        a3, aa, bb = g4.g4DD_to_ADM([list(r) for r in G])
        a3d, aad, bbd = q(g4.g4DD_to_ADM)
        self.default_g4 = {**names("gammaDD", a3d), "alpha": aad, **names("betaU", bbd)}
        self.edges = {
            ("ADM", "BSSN"): bssn,
            ("BSSN", "ADM"): adm,
            ("ADM", "g4DD"): names("g4DD", g4.ADM_to_g4DD(g, be, al)),
            ("ADM", "g4UU"): names("g4UU", g4.ADM_to_g4UU(g, be, al)),
            ("ADM", "g4UU+"): names("g4UU", g4.ADM_to_g4UU(g, be, al, ixp.declarerank2("gammaUU", symmetry="sym01"))),
            ("BSSN", "g4DD"): names("g4DD", q(g4.BSSN_to_g4DD, cs, pre)),
            ("BSSN", "g4UU"): names("g4UU", q(g4.BSSN_to_g4UU, cs, pre)),
            ("g4DD", "ADM"): {**names("gammaDD", a3), "alpha": aa, **names("betaU", bb)},
            ("g4DD", "BSSN"): {**names("hDD", h), "cf": c, **names("vetU", v), "alpha": a},
        }
        if not pre:
            T = ixp.declarerank2("T4UU", symmetry="sym01", dimension=4)
            D = ixp.declarerank1("covD")
            self.edges[("ADM", "Cart")] = {
                **names("gammaDD", jac.basis_transform_tensorDD_from_rfmbasis_to_Cartesian(cs, g)), **names("KDD", jac.basis_transform_tensorDD_from_rfmbasis_to_Cartesian(cs, K)),
                **names("betaU", jac.basis_transform_vectorU_from_rfmbasis_to_Cartesian(cs, be)), **names("BU", jac.basis_transform_vectorU_from_rfmbasis_to_Cartesian(cs, B)),
                **names("covD", jac.basis_transform_vectorD_from_rfmbasis_to_Cartesian(cs, D)), **names("T4UU", jac.basis_transform_4tensorUU_from_time_indep_rfmbasis_to_Cartesian(cs, T)), "alpha": al,
            }
            self.edges[("Cart", "ADM")] = {
                **names("gammaDD", jac.basis_transform_tensorDD_from_Cartesian_to_rfmbasis(cs, g)), **names("KDD", jac.basis_transform_tensorDD_from_Cartesian_to_rfmbasis(cs, K)),
                **names("betaU", jac.basis_transform_vectorU_from_Cartesian_to_rfmbasis(cs, be)), **names("BU", jac.basis_transform_vectorU_from_Cartesian_to_rfmbasis(cs, B)),
                **names("covD", jac.basis_transform_vectorD_from_Cartesian_to_rfmbasis(cs, D)), **names("T4UU", jac.basis_transform_4tensorUU_from_Cartesian_to_time_indep_rfmbasis(cs, T)), "alpha": al,
            }


def reference(S, cf):
    """Each representation of the fields at the point, from the definitions."""
    f, J, Ji = S.fc, S.J, S.Ji
    cart = {**names("gammaDD", f["gamma"]), **names("KDD", f["K"]), **names("betaU", f["beta"]), **names("BU", f["B"]), "alpha": f["alpha"], **names("T4UU", f["T4UU"]), **names("covD", f["Lambda"])}
    g = tn.DD(J, f["gamma"])
    be = tn.U(Ji, f["beta"])
    cov = [sum(J[a][i] * f["Lambda"][a] for a in R3) for i in R3]
    adm = {**names("gammaDD", g), **names("KDD", tn.DD(J, f["K"])), **names("betaU", be), **names("BU", tn.U(Ji, f["B"])), "alpha": f["alpha"], **names("T4UU", tn.T4(Ji, f["T4UU"])), **names("covD", cov), **names("gammaUU", tn.inv(g))}
    here = S.shifted((0, 0, 0))
    bssn = {k: v for k, v in here.items() if k[:3] in ("hDD", "aDD", "vet", "bet") or k in ("cf", "trK", "alpha")}
    bl = [sum(g[i][j] * be[j] for j in R3) for i in R3]
    g4 = [[-f["alpha"] ** 2 + sum(bl[i] * be[i] for i in R3)] + bl] + [[bl[i]] + g[i] for i in R3]
    g4u = tn.inv(g4)
    _ = cf
    return {"Cart": cart, "ADM": adm, "BSSN": bssn, "g4DD": names("g4DD", g4), "g4UU": names("g4UU", g4u)}


def finding(src, dst, ref, got, k):
    """g4DD_to_ADM() takes g_{0i} for g_{0,i+1} (known finding): the value this gives."""
    if src != "g4DD" or not (k == "alpha" or k.startswith(("betaU", "vetU"))):
        return False
    g4 = [[ref["g4DD"][f"g4DD{i}{j}"] for j in range(4)] for i in range(4)]
    gi = tn.inv([r[1:] for r in g4[1:]])
    bl = g4[0][:3]
    be = [sum(gi[i][j] * bl[j] for j in R3) for i in R3]
    want = {"alpha": mp.sqrt(sum(be[i] * bl[i] for i in R3) - g4[0][0]), **{f"betaU{i}": be[i] for i in R3}}
    if dst == "BSSN":
        # rescaled with the ratio of the true components
        for i in R3:
            want[f"vetU{i}"] = be[i] * ref["BSSN"][f"vetU{i}"] / ref["ADM"][f"betaU{i}"]
    return tn.close(got, want[k], TOL)


def one(cs, pre, cf, k, depth):
    """One configuration, at point and fields k: problems, (walks, comparisons)."""
    geo = tn.Geometry(cs)
    S = tn.System(geo, tn.Fields(k), tn.points(cs, k), cf)
    conv = Conv(cs, pre, cf)
    ref = reference(S, cf)
    lab = f"{cs}{'+precompute' if pre else ''}:{cf}"
    probs, walks, comps = [], 0, 0
    done = {}

    def bad(key, msg):
        probs.append((key, f"{lab} point {k}: {msg}"))

    def edge(src, dst, vals):
        env = S.env({**{n: v for n, v in ref[src].items()}, **vals})
        memo = {}
        return {n: tn.ev(e, env, memo) for n, e in conv.edges[(src, dst)].items()}

    def check(path, src, dst, out):
        nonlocal comps
        for n, v in out.items():
            comps += 1
            w = ref[dst.rstrip("+")].get(n)
            if w is None or tn.close(v, w, TOL):
                continue
            if finding(src, dst, ref, v, n):
                done["known"] = True
                continue
            if (src, dst, n) not in done:
                done[(src, dst, n)] = True
                bad(f"{src}-{dst}:{n}", f"after the conversions {' -> '.join(path)}, {n} is {mp.nstr(v, 15)} instead of {mp.nstr(w, 15)}")

    # every walk of the conversion graph up to the depth, each step computing with the previous step's results
    frontier = [((n,), {}) for n in ("Cart", "ADM", "BSSN", "g4DD")]
    for _ in range(depth):
        nxt = []
        for path, vals in frontier:
            for src, dst in conv.edges:
                if src != path[-1]:
                    continue
                if (path, dst) in done:
                    continue
                out = edge(src, dst, vals)
                walks += 1
                check(path + (dst,), src, dst, out)
                # what the known finding spoils is not carried further
                clean = {n: v for n, v in out.items() if tn.close(v, ref[dst.rstrip("+")].get(n, v), TOL)}
                if dst in ("Cart", "ADM", "BSSN", "g4DD"):
                    nxt.append((path + (dst,), clean))
        frontier = nxt
    # the default (symbolic) forms agree with the ones given expressions
    env = S.env(ref["g4DD"])
    check(("g4DD", "ADM"), "g4DD", "ADM", {n: tn.ev(e, env) for n, e in conv.default_g4.items()})
    env = S.env(ref["ADM"])
    v = tn.ev(conv.cfonly, env)
    comps += 1
    if not tn.close(v, ref["BSSN"]["cf"], TOL):
        bad("cf-only", f"compute_cf_only gives {mp.nstr(v, 15)}, not {mp.nstr(ref['BSSN']['cf'], 15)}")

    # derivatives, inverse, determinant and connection
    def field(off):
        xx = [x + o * tn.H for x, o in zip(S.xx, off)]
        pos, J, _Re = geo.at(xx)
        f = S.fields.state(pos)
        return tn.DD(J, f["gamma"]), tn.DD(J, f["K"])

    cache = {}

    def F(*off):
        if off not in cache:
            cache[off] = field(off)
        return cache[off]

    def unit(i, s):
        o = [0, 0, 0]
        o[i] += s
        return o

    def d1(w, i, j, k_):
        return (F(*unit(k_, 1))[w][i][j] - F(*unit(k_, -1))[w][i][j]) / (2 * tn.H)

    def d2(i, j, k_, l):
        if k_ == l:
            return (F(*unit(k_, 1))[0][i][j] - 2 * F(0, 0, 0)[0][i][j] + F(*unit(k_, -1))[0][i][j]) / tn.H**2
        t = 0
        for s, u in itertools.product((1, -1), repeat=2):
            o = unit(k_, s)
            o[l] += u
            t += s * u * F(*o)[0][i][j]
        return t / (4 * tn.H**2)

    B = conv.back
    env, memo = S.env(), {}
    g = F(0, 0, 0)[0]
    gi = tn.inv(g)
    dg = [[[d1(0, i, j, m) for m in R3] for j in R3] for i in R3]

    def cmp(n, e, w, tol):
        nonlocal comps
        comps += 1
        v = tn.ev(e, env, memo)
        if not tn.close(v, w, tol):
            bad(f"derived:{n[:8]}", f"{n} is {mp.nstr(v, 15)} instead of {mp.nstr(w, 15)}")

    cmp("detgamma", B.detgamma, tn.det3(g), TOL)
    for i, j in itertools.product(R3, repeat=2):
        cmp(f"gammaUU{i}{j}", B.gammaUU[i][j], gi[i][j], TOL)
        for m in R3:
            cmp(f"gammaDDdD{i}{j}{m}", B.gammaDDdD[i][j][m], dg[i][j][m], DTOL)
            cmp(f"KDDdD{i}{j}{m}", B.KDDdD[i][j][m], d1(1, i, j, m), DTOL)
            cmp(f"GammaUDD{i}{j}{m}", B.GammaUDD[i][j][m], sum(gi[i][l] * (dg[l][j][m] + dg[l][m][j] - dg[j][m][l]) for l in R3) / 2, DTOL)
            for l in R3:
                cmp(f"gammaDDdDD{i}{j}{m}{l}", B.gammaDDdDD[i][j][m][l], d2(i, j, m, l), DTOL)
    return probs, (walks, comps, bool(done.get("known")))


def body(chk):
    depth = 5 if chk.thorough else 3
    confs = [(cs, pre, cf, k, depth) for cs in bhah.COORDS for pre in (False, True) for cf in ("W", "phi", "chi") for k in ((0, 1) if chk.thorough else (0,))]
    confs.sort(key=lambda c: "SymTP" not in c[0])
    known = 0
    for c, (probs, (w, n, kf)) in zip(confs, vf.pmap(one, confs)):
        chk.count("walks", w)
        chk.count("evaluations", n)
        chk.outcome(c)
        known += kf
        for key, msg in probs:
            chk.violation(key, msg, {"configuration": c})
    if known:
        chk.violation("g4DD_to_ADM:shift-index", f"g4DD_to_ADM() and g4DD_to_BSSN() take g_0i for beta_i with i starting at 0 instead of 1, so lapse and shift are wrong ({known} configurations)", {})
    chk.sample({"walks up to": depth, "configuration": confs[0]})


if __name__ == "__main__":
    vf.main("C25", "exploration", "distinct (coordinate system, precomputation, conformal factor, point and metric)", body)
