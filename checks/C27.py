"""C27: the field equations are the same equations in every coordinate system and choice of variables.

The right-hand sides, constraints and Ricci tensor built for every coordinate system (with and
without precomputation, Ricci gridfunctions, stress-energy terms), conformal factor, lapse and
shift condition are evaluated on the same smooth fields; the oracle is the ADM form of Einstein's
equations in Cartesian coordinates, from differences of the fields alone. Exact solutions the
library offers (black holes, waves, Bowen-York data) must satisfy their equations.
"""

import itertools

import mpmath as mp
import sympy as sp

import bhah
import tensors as tn
import vf

import nrpy.params as par

R3 = range(3)
DTOL = mp.mpf(10) ** -11
H, H2 = tn.H, mp.mpf(10) ** -17
LAPSE = ("OnePlusLog", "HarmonicSlicing", "OnePlusLogAlt", "Frozen")
SHIFT = ("GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted", "GammaDriving1stOrder_Covariant", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving", "Frozen")


def shift(p, *steps):
    q = list(p)
    for i, s in steps:
        q[i] += s
    return q


def christoffel(g, dg):
    gi = tn.inv(g)
    return [[[sum(gi[i][l] * (dg[l][j][k] + dg[l][k][j] - dg[j][k][l]) for l in R3) / 2 for k in R3] for j in R3] for i in R3]


class Consistent(tn.Fields):
    """Fields whose Lambda^i is the contracted conformal connection (Cartesian: hat-Gamma = 0)."""

    def metric(self, p):
        g = self.sym(p, 0)
        g = [[g[i][j] / 3 + (i == j) * (1 + mp.mpf(i) / 5) for j in R3] for i in R3]
        d = mp.cbrt(tn.det3(g))
        return [[g[i][j] / d for j in R3] for i in R3]

    def state(self, p):
        f = super().state(p)
        dg = [[[None] * 3 for _ in R3] for _ in R3]
        for k in R3:
            a, b = self.metric(shift(p, (k, H2))), self.metric(shift(p, (k, -H2)))
            for i in R3:
                for j in R3:
                    dg[i][j][k] = (a[i][j] - b[i][j]) / (2 * H2)
        G = christoffel(f["gbar"], dg)
        gi = tn.inv(f["gbar"])
        f["Lambda"] = [sum(gi[j][k] * G[i][j][k] for j in R3 for k in R3) for i in R3]
        return f


class Jet:
    """Values and derivatives of nested lists of fields at a point."""

    def __init__(self, fn, p):
        self.fn, self.p, self.c = fn, p, {}

    def at(self, *steps):
        key = tuple(sorted(steps))
        if key not in self.c:
            self.c[key] = self.fn(shift(self.p, *((i, s * H) for i, s in steps)))
        return self.c[key]

    def v(self, get):
        return get(self.at())

    def d(self, get, i):
        return (get(self.at((i, 1))) - get(self.at((i, -1)))) / (2 * H)

    def dd(self, get, i, j):
        if i == j:
            return (get(self.at((i, 1))) - 2 * get(self.at()) + get(self.at((i, -1)))) / H**2
        return sum(s * u * get(self.at((i, s), (j, u))) for s in (1, -1) for u in (1, -1)) / (4 * H**2)


def ricci(jet, name):
    """Metric, inverse, connection and Ricci tensor of the symmetric field called name."""
    g = jet.v(lambda f: f[name])
    gi = tn.inv(g)
    dg = [[[jet.d(lambda f, i=i, j=j: f[name][i][j], k) for k in R3] for j in R3] for i in R3]
    ddg = {}
    for i, j, k, l in itertools.product(R3, repeat=4):
        if i <= j and k <= l:
            v = jet.dd(lambda f, i=i, j=j: f[name][i][j], k, l)
            for a, b in ((i, j), (j, i)):
                for c, e in ((k, l), (l, k)):
                    ddg[a, b, c, e] = v
    G = christoffel(g, dg)
    # d_m g^{il} = -g^{ia} g^{lb} d_m g_ab
    dgi = [[[-sum(gi[i][a] * gi[l][b] * dg[a][b][m] for a in R3 for b in R3) for m in R3] for l in R3] for i in R3]

    def dG(i, j, k, m):
        return sum(dgi[i][l][m] * (dg[l][j][k] + dg[l][k][j] - dg[j][k][l]) + gi[i][l] * (ddg[l, j, k, m] + ddg[l, k, j, m] - ddg[j, k, l, m]) for l in R3) / 2

    R = [[sum(dG(k, i, j, k) - dG(k, i, k, j) for k in R3) + sum(G[k][k][l] * G[l][i][j] - G[k][j][l] * G[l][i][k] for k in R3 for l in R3) for j in R3] for i in R3]
    return g, gi, dg, G, R


def adm(jet, matter):
    """Time derivatives of the ADM variables and the constraints, in the coordinates of the jet."""
    g, gi, dg, G, R = ricci(jet, "gamma")
    K = jet.v(lambda f: f["K"])
    dK = [[[jet.d(lambda f, i=i, j=j: f["K"][i][j], k) for k in R3] for j in R3] for i in R3]
    al = jet.v(lambda f: f["alpha"])
    dal = [jet.d(lambda f: f["alpha"], i) for i in R3]
    ddal = [[jet.dd(lambda f: f["alpha"], i, j) for j in R3] for i in R3]
    be = jet.v(lambda f: f["beta"])
    db = [[jet.d(lambda f, i=i: f["beta"][i], j) for j in R3] for i in R3]
    Ku = [[sum(gi[i][k] * K[k][j] for k in R3) for j in R3] for i in R3]
    tr = sum(Ku[i][i] for i in R3)
    rho = S = mp.mpf(0)
    SD, SDD = [mp.mpf(0)] * 3, [[mp.mpf(0)] * 3 for _ in R3]
    if matter:
        T = jet.v(lambda f: f["T4UU"])
        bl = [sum(g[i][j] * be[j] for j in R3) for i in R3]
        g4 = [[-al**2 + sum(bl[i] * be[i] for i in R3)] + bl] + [[bl[i]] + g[i] for i in R3]
        rho = al**2 * T[0][0]
        SD = [al * sum(g4[i + 1][m] * T[m][0] for m in range(4)) for i in R3]
        SDD = [[sum(g4[i + 1][m] * g4[j + 1][n] * T[m][n] for m in range(4) for n in range(4)) for j in R3] for i in R3]
        S = sum(gi[i][j] * SDD[i][j] for i in R3 for j in R3)
    lie = lambda t, dt: [[sum(be[k] * dt[i][j][k] + t[k][j] * db[k][i] + t[i][k] * db[k][j] for k in R3) for j in R3] for i in R3]
    Lg, LK = lie(g, dg), lie(K, dK)
    gt = [[-2 * al * K[i][j] + Lg[i][j] for j in R3] for i in R3]
    Kt = [
        [
            -(ddal[i][j] - sum(G[k][i][j] * dal[k] for k in R3)) + al * (R[i][j] + tr * K[i][j] - 2 * sum(K[i][k] * Ku[k][j] for k in R3))
            + 8 * mp.pi * al * (g[i][j] * (S - rho) / 2 - SDD[i][j]) + LK[i][j]
            for j in R3
        ]
        for i in R3
    ]
    Rs = sum(gi[i][j] * R[i][j] for i in R3 for j in R3)
    KK = sum(Ku[i][j] * Ku[j][i] for i in R3 for j in R3)
    Ham = Rs + tr**2 - KK - 16 * mp.pi * rho
    DK = [[[dK[i][j][k] - sum(G[l][k][i] * K[l][j] + G[l][k][j] * K[i][l] for l in R3) for k in R3] for j in R3] for i in R3]
    MD = [sum(gi[j][k] * (DK[i][j][k] - DK[j][k][i]) for j in R3 for k in R3) - 8 * mp.pi * SD[i] for i in R3]
    MU = [sum(gi[i][j] * MD[j] for j in R3) for i in R3]
    return dict(g=g, gi=gi, dg=dg, G=G, R=R, K=K, tr=tr, gt=gt, Kt=Kt, H=Ham, MU=MU, al=al, be=be, db=db, dal=dal)


def oracle(fields, p, matter):
    """Everything the library's expressions should equal, in the Cartesian basis at position p."""
    jet = Jet(fields.state, p)
    a = adm(jet, matter)
    f = jet.at()
    e4 = mp.exp(4 * f["phi"])
    gb, gi = f["gbar"], a["gi"]
    gbi = [[gi[i][j] * e4 for j in R3] for i in R3]
    # e^{12 phi} = det gamma (det gbar = 1, kept by the Lagrangian-free choice d_t det gbar = 0 with density weight: gbar evolves with -2/3 Dbar_k beta^k)
    trg = sum(gi[i][j] * a["gt"][i][j] for i in R3 for j in R3)
    phit = trg / 12
    gbt = [[(a["gt"][i][j] - 4 * phit * a["g"][i][j]) / e4 for j in R3] for i in R3]
    dgi = [[-sum(gi[i][k] * gi[j][l] * a["gt"][k][l] for k in R3 for l in R3) for j in R3] for i in R3]
    trt = sum(dgi[i][j] * a["K"][i][j] + gi[i][j] * a["Kt"][i][j] for i in R3 for j in R3)
    A = f["Abar"]
    # Abar = e^{-4 phi} (K_ij - gamma_ij K/3)
    At = [[-4 * phit * A[i][j] + (a["Kt"][i][j] - (a["gt"][i][j] * a["tr"] + a["g"][i][j] * trt) / 3) / e4 for j in R3] for i in R3]
    H, M = a["H"], a["MU"]
    # BSSN adds multiples of the constraints
    o = {"phi": phit, "gbar": gbt, "trK": trt - a["al"] * H, "Abar": At, "H": H, "MU": M}
    # d_t Lambda^i from the definition, plus the momentum constraint
    eps = mp.mpf(10) ** -16

    def gdot(q):
        jq = Jet(fields.state, q)
        fq = jq.at()
        g, K, be, al = fq["gamma"], fq["K"], fq["beta"], fq["alpha"]
        dgq = [[[jq.d(lambda s, i=i, j=j: s["gamma"][i][j], k) for k in R3] for j in R3] for i in R3]
        dbq = [[jq.d(lambda s, i=i: s["beta"][i], j) for j in R3] for i in R3]
        gt = [[-2 * al * K[i][j] + sum(be[k] * dgq[i][j][k] + g[k][j] * dbq[k][i] + g[i][k] * dbq[k][j] for k in R3) for j in R3] for i in R3]
        giq = tn.inv(g)
        ph = sum(giq[i][j] * gt[i][j] for i in R3 for j in R3) / 12
        e = mp.exp(4 * fq["phi"])
        return [[(gt[i][j] - 4 * ph * g[i][j]) / e for j in R3] for i in R3]

    hh = mp.mpf(10) ** -9
    dgbt = [[[None] * 3 for _ in R3] for _ in R3]
    for k in R3:
        u, w = gdot(shift(p, (k, hh))), gdot(shift(p, (k, -hh)))
        for i in R3:
            for j in R3:
                dgbt[i][j][k] = (u[i][j] - w[i][j]) / (2 * hh)
    dgb = [[[jet.d(lambda s, i=i, j=j: s["gbar"][i][j], k) for k in R3] for j in R3] for i in R3]

    def lam(s):
        g = [[gb[i][j] + s * gbt[i][j] for j in R3] for i in R3]
        d = [[[dgb[i][j][k] + s * dgbt[i][j][k] for k in R3] for j in R3] for i in R3]
        G, q = christoffel(g, d), tn.inv(g)
        return [sum(q[j][k] * G[i][j][k] for j in R3 for k in R3) for i in R3]

    lp, lm = lam(eps), lam(-eps)
    o["Lambda"] = [(lp[i] - lm[i]) / (2 * eps) + 2 * a["al"] * e4 * M[i] for i in R3]
    o["Msq"] = sum(gb[i][j] * M[i] * M[j] for i in R3 for j in R3)
    _g, _gi, _dg, Gb, Rb = ricci(jet, "gbar")
    o["Rbar"] = Rb
    # gauge conditions
    be, K = a["be"], a["tr"]
    adv = lambda d: [sum(be[j] * d[i][j] for j in R3) for i in R3]
    grad = lambda n: [[jet.d(lambda s, i=i: s[n][i], j) for j in R3] for i in R3]
    con = lambda v: [sum(be[j] * Gb[i][m][j] * v[m] for j in R3 for m in R3) for i in R3]
    bda = sum(be[i] * a["dal"][i] for i in R3)
    o["lapse"] = {"OnePlusLog": bda - 2 * a["al"] * K, "OnePlusLogAlt": bda - a["al"] * (1 - a["al"]) * K, "HarmonicSlicing": 6 * mp.exp(6 * f["phi"]) * phit, "Frozen": mp.mpf(0)}
    eta = tn.value("eta", {})
    ab, aB, aL = adv(grad("beta")), adv(grad("B")), adv(grad("Lambda"))
    cb, cB, cL = con(be), con(f["B"]), con(f["Lambda"])
    q = mp.mpf(3) / 4
    zero = [mp.mpf(0)] * 3
    o["shift"] = {
        "GammaDriving2ndOrder_Covariant": ([ab[i] + cb[i] + f["B"][i] for i in R3], [aB[i] + cB[i] + q * (o["Lambda"][i] - aL[i] - cL[i]) - eta * f["B"][i] for i in R3]),
        "GammaDriving2ndOrder_Covariant__Hatted": ([ab[i] + f["B"][i] for i in R3], [aB[i] + q * (o["Lambda"][i] - aL[i]) - eta * f["B"][i] for i in R3]),
        "GammaDriving1stOrder_Covariant": ([ab[i] + cb[i] + q * f["Lambda"][i] - eta * be[i] for i in R3], zero),
        "GammaDriving1stOrder_Covariant__Hatted": ([ab[i] + q * f["Lambda"][i] - eta * be[i] for i in R3], zero),
        "NonAdvectingGammaDriving": (f["B"], [q * o["Lambda"][i] - eta * f["B"][i] for i in R3]),
        "Frozen": (zero, zero),
    }
    o["lap"] = sum(jet.dd(lambda s: s["uu"], i, i) for i in R3)
    return o


def one(cs, cf, k, full):
    """All equations in one coordinate system with one conformal factor."""
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities  # pylint: disable=import-outside-toplevel
    from nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs import HyperbolicRelaxationCurvilinearRHSs  # pylint: disable=import-outside-toplevel
    from nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs import WaveEquationCurvilinear_RHSs  # pylint: disable=import-outside-toplevel

    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    geo = tn.Geometry(cs)
    S = tn.System(geo, Consistent(k), tn.points(cs, k), cf)
    probs, n = [], 0
    J, Ji, Re, here = S.J, S.Ji, S.Re, S.shifted((0, 0, 0))
    dcf = {"phi": mp.mpf(1), "chi": -4 * here["cf"], "W": -2 * here["cf"]}[cf]
    known = set()

    def bad(lab, name, v, w):
        probs.append((f"{lab}:{name.rstrip('0123456789')}", f"{cs} ({cf}, {lab}): {name} is {mp.nstr(v, 14)}, but the same fields in Cartesian coordinates give {mp.nstr(w, 14)}"))

    def cmp(lab, name, e, w, env, memo, scale=1):
        nonlocal n
        n += 1
        v = tn.ev(e, env, memo)
        if not tn.close(v, w, DTOL, scale):
            bad(lab, name, v, w)

    def want(o):
        w = {"cf_rhs": dcf * o["phi"], "trK_rhs": o["trK"]}
        gt, At, L = tn.DD(J, o["gbar"]), tn.DD(J, o["Abar"]), tn.U(Ji, o["Lambda"])
        for i in R3:
            w[f"lambda_rhsU{i}"] = L[i] / Re[i]
            for j in range(i, 3):
                w[f"h_rhsDD{i}{j}"] = gt[i][j] * Re[i] * Re[j]
                w[f"a_rhsDD{i}{j}"] = At[i][j] * Re[i] * Re[j]
        return w

    oracles = {m: oracle(S.fields, S.pos, m) for m in (False, True)}
    o = oracles[False]
    Rb = tn.DD(J, o["Rbar"])
    ric = {f"RbarDD{i}{j}": Rb[i][j] for i in R3 for j in R3}
    for pre in (False, True):
        ps = "_rfm_precompute" if pre else ""
        Bq = tn.quiet(BSSN_quantities.__getitem__, cs + ps)
        env, memo = S.env(), {}
        for i in R3:
            for j in R3:
                cmp("Ricci" + ps, f"RbarDD{i}{j}", Bq.RbarDD[i][j], Rb[i][j], env, memo)
        for vn, e in zip(Bq.Ricci_varnames, Bq.Ricci_exprs):
            cmp("Ricci list" + ps, str(vn), e, ric["RbarDD" + str(vn)[-2:]] if str(vn)[-2:].isdigit() else mp.nan, env, memo)
        for m, rg in ((False, False), (True, True), (True, False), (False, True)) if full else ((True, True), (False, False)) if not pre else ((True, False),):
            suf = ps + ("_RbarDD_gridfunctions" if rg else "") + ("_T4munu" if m else "")
            env, memo = S.env(ric if rg else {}), {}
            om = oracles[m]
            rhs = tn.quiet(BSSN_RHSs.__getitem__, cs + suf)
            w = want(om)
            if sorted(rhs.BSSN_RHSs_varname_to_expr_dict) != sorted(w):
                probs.append(("names", f"{cs}{suf}: right-hand sides for {sorted(rhs.BSSN_RHSs_varname_to_expr_dict)}"))
            for v, e in rhs.BSSN_RHSs_varname_to_expr_dict.items():
                if v in w:
                    cmp("BSSN" + suf, v, e, w[v], env, memo)
            c = tn.quiet(BSSN_constraints.__getitem__, cs + suf)
            cmp("constraints" + suf, "H", c.H, om["H"], env, memo)
            cmp("constraints" + suf, "Msquared", c.Msquared, om["Msq"], env, memo)
            MU = tn.U(Ji, om["MU"])
            for i in R3:
                cmp("constraints" + suf, f"MU{i}", c.MU[i], MU[i], env, memo)
                cmp("constraints" + suf, f"mU{i}", c.mU[i], MU[i] / Re[i], env, memo)
        # gauge conditions; the frozen shift last
        m = pre
        om = oracles[m]
        env, memo = S.env(), {}
        got = {}
        lamx = tn.U(Ji, om["Lambda"])

        def dx(q, i, j):
            f = lambda s: tn.U(tn.inv(geo.at(s)[1]), S.fields.state(geo.at(s)[0])[q])[i]
            a, b = list(S.xx), list(S.xx)
            a[j] += H
            b[j] -= H
            return (f(a) - f(b)) / (2 * H)

        bx = tn.U(Ji, S.fc["beta"])
        eta = tn.value("eta", {})
        Bx = tn.U(Ji, S.fc["B"])
        shifts = {s: tuple(tn.U(Ji, v) for v in om["shift"][s]) for s in om["shift"]}
        if full or not pre:
            nc = "GammaDriving2ndOrder_NoCovariant"
            shifts[nc] = (
                [Bx[i] + sum(bx[j] * dx("beta", i, j) for j in R3) for i in R3],
                [mp.mpf(3) / 4 * (lamx[i] - sum(bx[j] * dx("Lambda", i, j) for j in R3)) - eta * Bx[i] + sum(bx[j] * dx("B", i, j) for j in R3) for i in R3],
            )
        for la, sh in [(LAPSE[0], s) for s in SHIFT] + [(x, SHIFT[1]) for x in LAPSE[1:]] if not full else itertools.product(LAPSE, SHIFT):
            if sh == "Frozen" or sh not in shifts or (la == "HarmonicSlicing" and cf == "chi"):
                continue
            got[la, sh] = gauge(BSSN_gauge_RHSs, cs, pre, m, la, sh)
        for (la, sh), (ar, vr, br) in got.items():
            cmp("lapse" + ps, la, ar, om["lapse"][la], env, memo)
            for i in R3:
                cmp(f"shift {sh}{ps}", f"vet_rhsU{i}", vr[i], shifts[sh][0][i] / Re[i], env, memo)
                cmp(f"shift {sh}{ps}", f"bet_rhsU{i}", br[i], shifts[sh][1][i] / Re[i], env, memo)
        for la in ("OnePlusLog", "Frozen"):
            ar, vr, br = gauge(BSSN_gauge_RHSs, cs, pre, m, la, "Frozen")
            cmp("lapse" + ps, la, ar, om["lapse"][la], env, memo)
            for i in R3:
                cmp("shift Frozen" + ps, f"vet_rhsU{i}", vr[i], mp.mpf(0), env, memo)
                cmp("shift Frozen" + ps, f"bet_rhsU{i}", br[i], mp.mpf(0), env, memo)
        # conditions asked for after the frozen shift must be the same
        ar, vr, br = gauge(BSSN_gauge_RHSs, cs, pre, m, "OnePlusLog", SHIFT[1])
        g0 = got["OnePlusLog", SHIFT[1]]
        lost = [mp.mpf(0)] + [Bx[i] / Re[i] for i in R3]
        lost += [(sum(bx[j] * tn.ev(Bq.GammabarUDD[i][q][j], env, memo) * Bx[q] for j in R3 for q in R3) - eta * Bx[i]) / Re[i] for i in R3]
        for a, b, less in zip([ar] + list(vr) + list(br), [g0[0]] + list(g0[1]) + list(g0[2]), lost):
            n += 1
            va, vb = tn.ev(a, env, memo), tn.ev(b, env, memo)
            if not tn.close(va, vb, DTOL):
                # the known one: B^i has become zero
                if tn.close(va, vb - less, DTOL):
                    known.add("frozen")
                else:
                    bad("history", "gauge after Frozen", va, vb)
        # scalar equations
        env, memo = S.env(), {}
        wv = tn.quiet(WaveEquationCurvilinear_RHSs, cs, pre)
        c2 = tn.value("wavespeed", {}) ** 2
        cmp("wave" + ps, "uu_rhs", wv.uu_rhs, here["vv"], env, memo)
        cmp("wave" + ps, "vv_rhs", wv.vv_rhs, c2 * o["lap"], env, memo)
        el = tn.quiet(HyperbolicRelaxationCurvilinearRHSs, cs, pre)
        src = o["lap"] + here["ADD_times_AUU"] / 8 / (here["psi_background"] + here["uu"]) ** 7
        damp = tn.value("eta_damping", {})
        cmp("elliptic" + ps, "uu_rhs", el.uu_rhs, here["vv"] - damp * here["uu"], env, memo)
        cmp("elliptic" + ps, "vv_rhs", el.vv_rhs, src * here["variable_wavespeed"] ** 2, env, memo)
        cmp("elliptic" + ps, "residual", el.residual, src, env, memo)
        d = el.NRPyElliptic_RHSs_varname_to_expr_dict
        cmp("elliptic" + ps, "uu_rhs (list)", d["uu_rhs"], here["vv"] - damp * here["uu"], env, memo)
        cmp("elliptic" + ps, "vv_rhs (list)", d["vv_rhs"], src * here["variable_wavespeed"] ** 2, env, memo)
    return probs, n, sorted(known)


def gauge(fn, cs, pre, m, la, sh):
    return tn.quiet(fn, cs, pre, m, la, sh)


# -- exact solutions -----------------------------------------------------------------------------


def numeric(exprs, coords, p):
    """Nested lists of expressions at coordinates p."""
    memo = {}
    extra = dict(zip(coords, p))
    # expressions of spherical data may use the names of the grid coordinates for (r, th, ph)
    extra.update(zip(("xx0", "xx1", "xx2"), p))

    def go(e):
        if isinstance(e, (list, tuple)):
            return [go(x) for x in e]
        return tn.ev(e, lambda nm: tn.value(nm, extra), memo)

    return {k: go(v) for k, v in exprs.items()}


def spacetime(kind, typ, cf, over, p):
    """Constraints (and stationarity) of exact initial data, in the coordinates it is given in."""
    if kind == "Cartesian":
        from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian as cl  # pylint: disable=import-outside-toplevel
        coords = ("x", "y", "z")
    else:
        from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical as cl  # pylint: disable=import-outside-toplevel
        coords = ("r", "th", "ph")
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    D = tn.quiet(cl, typ, over)
    ex = {"gamma": D.gammaDD, "K": D.KDD, "alpha": D.alpha, "beta": D.betaU, "B": D.BU}
    p = [mp.mpf(c) for c in p]
    jet = Jet(lambda q: numeric(ex, coords, q), p)
    a = adm(jet, False)
    probs, n = [], 0
    lab = f"{typ} ({cf}{', standard gauge' if over else ''})"

    def zero(what, v, scale):
        nonlocal n
        n += 1
        if not abs(v) <= DTOL * (1 + scale):
            probs.append((f"exact:{typ}:{what.split()[0]}", f"{lab} at {[mp.nstr(c, 4) for c in p]}: {what} is {mp.nstr(v, 10)}, not zero"))

    sc = max(abs(x) for r in a["R"] for x in r) + max(abs(x) for r in a["K"] for x in r)
    for i in R3:
        for j in R3:
            zero(f"asymmetry of the metric {i}{j}", a["g"][i][j] - a["g"][j][i], 0)
            zero(f"asymmetry of the curvature {i}{j}", a["K"][i][j] - a["K"][j][i], 0)
    zero("Hamiltonian constraint", a["H"], sc)
    for i in R3:
        zero(f"momentum constraint {i}", a["MU"][i], sc)
    if typ in ("StaticTrumpet", "OffsetKerrSchild") and not over:
        for i, j in itertools.combinations_with_replacement(R3, 2):
            zero(f"time derivative of the metric {i}{j}", a["gt"][i][j], sc)
            zero(f"time derivative of the curvature {i}{j}", a["Kt"][i][j], sc)
    if over or typ in ("UIUCBlackHole", "BrillLindquist"):
        ghat = {"Cartesian": mp.mpf(1)}.get(kind, p[0] ** 4 * mp.sin(p[1]) ** 2)
        w = (tn.det3(a["g"]) / ghat) ** (-mp.mpf(1) / 6)
        zero("alpha minus psi^-2", a["al"] - w, 0)
        for i in R3:
            zero(f"shift {i}", a["be"][i], 0)
    return probs, n


def waves(p):
    from nrpy.equations.wave_equation.WaveEquation_Solutions_InitialData import WaveEquation_solution_Cartesian  # pylint: disable=import-outside-toplevel

    probs, n = [], 0
    for typ in ("PlaneWave", "SphericalGaussian"):
        kw = {"default_k0": 0.7, "default_k1": -0.4, "default_k2": 1.1} if typ == "PlaneWave" else {"default_sigma": 1.3}
        w = tn.quiet(WaveEquation_solution_Cartesian, WaveType=typ, **kw)
        coords = ("xCart0", "xCart1", "xCart2", "time")
        jet = Jet(lambda q, w=w: numeric({"u": w.uu_exactsoln, "v": w.vv_exactsoln}, coords, q), [mp.mpf(c) for c in p])
        lap = sum(jet.dd(lambda f: f["u"], i, i) for i in R3)
        c2 = tn.value("wavespeed", {}) ** 2
        for what, v in (("d_t u - v", jet.d(lambda f: f["u"], 3) - jet.v(lambda f: f["v"])), ("d_t v - c^2 Laplacian u", jet.d(lambda f: f["v"], 3) - c2 * lap)):
            n += 1
            if not abs(v) < DTOL:
                probs.append((f"exact:{typ}", f"{typ} solution at {p}: {what} is {mp.nstr(v, 10)}"))
        if typ == "SphericalGaussian":
            t = mp.mpf(p[3])
            near = numeric({"u": w.uu_exactsoln, "v": w.vv_exactsoln}, coords, [mp.mpf(10) ** -14, 0, 0, t])
            at0 = numeric({"u": w.uu_exactsoln_r0, "v": w.vv_exactsoln_r0}, coords, [mp.mpf(0)] * 3 + [t])
            for q in "uv":
                n += 1
                if not tn.close(near[q], at0[q], mp.mpf(10) ** -20):
                    probs.append(("exact:SphericalGaussian:r0", f"limit of {q} at the origin is {mp.nstr(near[q], 12)}, the formula for the origin gives {mp.nstr(at0[q], 12)}"))
    return probs, n


def elliptic(cs, k):
    """Puncture data: background conformal factor and Bowen-York curvature, same scalars everywhere."""
    from nrpy.equations.nrpyelliptic import ConformallyFlat_SourceTerms as cst  # pylint: disable=import-outside-toplevel

    vals = {"P0_x": "0.3", "P0_y": "-0.2", "P0_z": "0.15", "P1_x": "-0.25", "P1_y": "0.1", "P1_z": "0.35", "S0_x": "0.12", "S0_y": "0.22", "S0_z": "-0.17", "S1_x": "0.05", "S1_y": "-0.33", "S1_z": "0.27", "bare_mass_0": "0.6", "bare_mass_1": "0.45", "zPunc": "0.9"}
    vals = {a: mp.mpf(b) for a, b in vals.items()}
    geo = tn.Geometry(cs)
    xx = tn.points(cs, k)
    pos, _J, _Re = geo.at(xx)
    psi, AA = tn.quiet(cst.compute_psi_background_and_ADD_times_AUU, cs)
    env = lambda nm: tn.value(nm, {**dict(zip(geo.names, xx)), **vals})
    P = [[vals[f"P{a}_{c}"] for c in "xyz"] for a in (0, 1)]
    S = [[vals[f"S{a}_{c}"] for c in "xyz"] for a in (0, 1)]
    cen = [[0, 0, vals["zPunc"]], [0, 0, -vals["zPunc"]]]

    def A(i, j, wrong=False):
        """Bowen-York curvature (Baumgarte & Shapiro 3.66, 3.80)."""
        t = mp.mpf(0)
        for a in (0, 1):
            x = [pos[q] - cen[a][q] for q in R3]
            r = mp.sqrt(sum(v * v for v in x))
            l = [v / r for v in x]
            lP = sum(l[q] * P[a][q] for q in R3)
            cr = [l[1] * S[a][2] - l[2] * S[a][1], l[2] * S[a][0] - l[0] * S[a][2], l[0] * S[a][1] - l[1] * S[a][0]]
            d = mp.mpf(i == j)
            t += 3 / (2 * r**2) * (P[a][i] * l[j] + P[a][j] * l[i] + lP * (l[i] * l[j] - d))
            # the sign of the spin part follows epsilon_{ikl} S^k l^l l_j
            t += -3 / r**3 * (cr[i] * l[j] + cr[j] * l[i])
            if wrong:
                # divergence of V = -(7/4) P/r - (1/4) (x.P) x/r^3: V^k_k = 3/2 (l.P)/r^2
                t += -mp.mpf(2) / 3 * (1 - 2 * d) * (mp.mpf(3) / 2 * lP / r**2)
        return t

    probs, n, known = [], 2, []
    w = 1 + sum(vals[f"bare_mass_{a}"] / (2 * mp.sqrt(sum((pos[q] - cen[a][q]) ** 2 for q in R3))) for a in (0, 1))
    v = tn.ev(psi, env)
    if not tn.close(v, w, mp.mpf(10) ** -25):
        probs.append(("elliptic:psi", f"{cs}: psi_background is {mp.nstr(v, 14)} instead of {mp.nstr(w, 14)}"))
    v = tn.ev(AA, env)
    right, wrong = (sum(A(i, j, f) ** 2 for i in R3 for j in R3) for f in (False, True))
    if tn.close(v, wrong, mp.mpf(10) ** -25) and not tn.close(right, wrong):
        known.append("bowen-york")
    elif not tn.close(v, right, mp.mpf(10) ** -25):
        probs.append(("elliptic:AA", f"{cs}: ADD_times_AUU is {mp.nstr(v, 14)} instead of {mp.nstr(right, 14)} (Bowen-York)"))
    return probs, n, known


def body(chk):
    full = chk.thorough
    confs = [(cs, cf, k, full) for cs in bhah.COORDS for cf in ("W", "phi", "chi") for k in ((0, 1) if full else (0,))]
    confs.sort(key=lambda c: "SymTP" not in c[0])
    known = {}
    for c, (probs, n, kn) in zip(confs, vf.pmap(one, confs)):
        chk.count("evaluations", n)
        chk.count("configurations")
        chk.outcome(c[:3])
        for k in kn:
            known[k] = known.get(k, 0) + 1
        for key, msg in probs:
            chk.violation(key, msg, {"configuration": c})
    pts = [("1.3", "0.9", "0.4"), ("0.45", "2.2", "-1.9"), ("4.1", "0.3", "2.8")]
    jobs = [("Spherical", t, cf, ov, p) for t in ("UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild") for cf in ("W", "phi", "chi") for ov in (False, True) for p in pts[: 3 if full else 2]]
    jobs += [("Cartesian", "BrillLindquist", cf, ov, p) for cf in ("W", "phi", "chi") for ov in (False, True) for p in pts]
    for j, (probs, n) in zip(jobs, vf.pmap(spacetime, jobs)):
        chk.count("evaluations", n)
        chk.outcome(j)
        for key, msg in probs:
            chk.violation(key, msg, {"exact": j})
    for p in [("0.3", "-0.5", "0.8", "0.35"), ("-1.2", "0.4", "0.1", "1.7")]:
        probs, n = waves(p)
        chk.count("evaluations", n)
        for key, msg in probs:
            chk.violation(key, msg, {"wave": p})
    jobs = [(cs, k) for cs in bhah.COORDS for k in (0, 1)]
    for j, (probs, n, kn) in zip(jobs, vf.pmap(elliptic, jobs)):
        chk.count("evaluations", n)
        for k in kn:
            known[k] = known.get(k, 0) + 1
        for key, msg in probs:
            chk.violation(key, msg, {"elliptic": j})
    if known.get("frozen"):
        chk.violation("gauge:frozen-history", "BSSN_gauge_RHSs() with ShiftEvolutionOption 'Frozen' sets the shared BSSN_quantities B^i to zero, so shift conditions built later in the process lose B^i", {})
    if known.get("bowen-york"):
        chk.violation("bowen-york:kronecker", "ADD_times_AUU uses an inverted Kronecker delta, so the Bowen-York curvature is neither trace-free nor divergence-free", {})
    chk.sample({"configuration": confs[0]})
    _ = sp


if __name__ == "__main__":
    vf.main("C27", "exploration", "distinct (coordinate system, conformal factor, fields) and exact solutions", body)
