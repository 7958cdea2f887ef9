"""What the functions of a BSSN thorn should compute, from textbook formulas (conversions) or from
nrpy's symbolic equations (right-hand sides, Ricci tensor, constraints), point by point."""

import math

R3 = range(3)
X = "xyz"
S2 = [(i, j) for i in R3 for j in R3 if i <= j]


def det(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in R3)


def inverse(m):
    d = det(m)
    return [[(m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3] - m[(j + 1) % 3][(i + 2) % 3] * m[(j + 2) % 3][(i + 1) % 3]) / d for j in R3] for i in R3]


def cf_from(W, cf):
    return {"W": W, "chi": W * W, "phi": -0.5 * math.log(W)}[cf]


def W_from(c, cf):
    return {"W": lambda: c, "chi": lambda: math.sqrt(c), "phi": lambda: math.exp(-2 * c)}[cf]()


def sym(v, pre, post=""):
    return [[v(f"{pre}{min(i, j)}{max(i, j)}{post}") for j in R3] for i in R3]


def symx(v, pre):
    return [[v(pre + X[min(i, j)] + X[max(i, j)]) for j in R3] for i in R3]


def adm_to_bssn(v, cf):
    g, K = symx(v, "g"), symx(v, "k")
    W = det(g) ** (-1 / 6)
    gi = inverse(g)
    tr = sum(gi[i][j] * K[i][j] for i in R3 for j in R3)
    out = {"alphaGF": v("alp"), "trKGF": tr, "cfGF": cf_from(W, cf)}
    for i, j in S2:
        out[f"hDD{i}{j}GF"] = W * W * g[i][j] - (i == j)
        out[f"aDD{i}{j}GF"] = W * W * (K[i][j] - g[i][j] * tr / 3)
    for i in R3:
        out[f"vetU{i}GF"] = v("beta" + X[i])
        out[f"betU{i}GF"] = v("dtbeta" + X[i])
    return out


def lambdaU(pt):
    """pt: symbols with derivatives; Gammabar^i_{jk} gammabar^{jk} of the conformal metric (flat reference)"""
    gb = [[float(pt(f"hDD{min(i, j)}{max(i, j)}")) + (i == j) for j in R3] for i in R3]
    gi = inverse(gb)
    d = lambda i, j, k: float(pt(f"hDD_dD{min(i, j)}{max(i, j)}{k}"))
    out = {}
    for i in R3:
        out[f"lambdaU{i}GF"] = sum(gi[j][k] * gi[i][m] * (d(m, j, k) + d(m, k, j) - d(j, k, m)) / 2 for j in R3 for k in R3 for m in R3)
    return out


def bssn_to_adm(v, cf):
    W = W_from(v("cfGF"), cf)
    out = {"alp": v("alphaGF")}
    for i, j in S2:
        g = (v(f"hDD{i}{j}GF") + (i == j)) / (W * W)
        out["g" + X[i] + X[j]] = g
        out["k" + X[i] + X[j]] = v(f"aDD{i}{j}GF") / (W * W) + g * v("trKGF") / 3
    for i in R3:
        out["beta" + X[i]] = v(f"vetU{i}GF")
        out["dtbeta" + X[i]] = v(f"betU{i}GF")
    return out


def unit_determinant(v):
    gb = [[x + (i == j) for j, x in enumerate(r)] for i, r in enumerate(sym(v, "hDD", "GF"))]
    f = det(gb) ** (-1 / 3)
    return {f"hDD{i}{j}GF": f * gb[i][j] - (i == j) for i, j in S2}


def t4uu(v, cf):
    W = W_from(v("cfGF"), cf)
    g = [[(x + (i == j)) / (W * W) for j, x in enumerate(r)] for i, r in enumerate(sym(v, "hDD", "GF"))]
    gi, al, b = inverse(g), v("alphaGF"), [v(f"vetU{i}GF") for i in R3]
    G = [[0.0] * 4 for _ in range(4)]
    G[0][0] = -1 / al**2
    for i in R3:
        G[0][i + 1] = G[i + 1][0] = b[i] / al**2
        for j in R3:
            G[i + 1][j + 1] = gi[i][j] - b[i] * b[j] / al**2
    tx = "t" + X
    T = [[v("eT" + tx[min(m, n)] + tx[max(m, n)]) for n in range(4)] for m in range(4)]
    R4 = range(4)
    return {f"T4UU{m}{n}GF": sum(G[m][p] * G[n][q] * T[p][q] for p in R4 for q in R4) for m in R4 for n in R4 if m <= n}


def expressions(kind, o):
    import contextlib
    import io
    import re

    import sympy as sp

    import nrpy.params as par

    with contextlib.redirect_stdout(io.StringIO()):
        par.set_parval_from_str("Infrastructure", o["infra"])
        from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
        from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
        from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
        from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs

        par.set_parval_from_str("register_MU_gridfunctions", True)
        if "cf" in o:
            par.set_parval_from_str("EvolvedConformalFactor_cf", o["cf"])
        T = "_T4munu" if o["T4"] else ""
        if kind == "Ricci_eval":
            B = BSSN_quantities["Cartesian"]
            return {n + "GF": e for n, e in zip(B.Ricci_varnames, B.Ricci_exprs)}
        if kind == "BSSN_constraints":
            C = BSSN_constraints["Cartesian" + T]
            return {"HGF": C.H, "MSQUAREDGF": C.Msquared, **{f"MU{i}GF": C.MU[i] for i in R3}}
        rhs = dict(BSSN_RHSs["Cartesian_RbarDD_gridfunctions" + T].BSSN_RHSs_varname_to_expr_dict)
        al, vet, bet = BSSN_gauge_RHSs(CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=o["T4"], LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"])
        H = BSSN_constraints["Cartesian_RbarDD_gridfunctions" + T].H if o["imp"] else None
    rhs["alpha_rhs"] = al
    for i in R3:
        rhs[f"vet_rhsU{i}"], rhs[f"bet_rhsU{i}"] = vet[i], bet[i]
    out = {}
    for k, e in rhs.items():
        g = re.fullmatch(r"(\w+?)_rhs(\w*)", k)
        out[g[1] + g[2]] = e
    cf = sp.Symbol("cf", real=True)
    W = {"W": cf, "chi": sp.sqrt(cf), "phi": sp.exp(-2 * cf)}[o.get("cf", "W")]
    S = lambda n: sp.Symbol(n, real=True)
    if o["KO"]:
        for n in out:
            gauge = n.startswith(("alpha", "vet", "bet"))
            if n.startswith("bet") and "2ndOrder" not in o["shift"]:
                continue
            strength = (S("diss_strength_gauge" if gauge else "diss_strength_nongauge") * W) if o["imp"] else S("diss_strength")
            g = re.fullmatch(r"([A-Za-z]+)(\d*)", n)
            for k in R3:
                out[n] += strength * S(f"{g[1]}_dKOD{g[2]}{k}")
    if o["imp"]:
        # d(phi)/dt gains -C H; the other conformal factors are functions of phi
        out["cf"] += -S("cahdprefactor") * H * {"W": -2 * cf, "chi": -4 * cf, "phi": 1}[o.get("cf", "W")]
        out["alpha"] -= W * S("SSL_Gaussian_prefactor") * (S("alpha") - W)
    return {n + "_rhsGF": e for n, e in out.items()}
