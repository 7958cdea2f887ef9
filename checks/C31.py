"""C31: ADM initial data given in any coordinates become the right evolution variables on the grid.

For every coordinate system, basis of the data (Cartesian, spherical), conformal factor and with or
without stress-energy, the generated reader runs on a small grid whose origin is shifted, with a
generic smooth set of ADM tensors as the data. Oracle: the same tensors transformed with the
Jacobian of the map to Cartesian coordinates and rescaled by its column norms; lambda^i from the
connection of the resulting metric with explicit stencils. Every exact data set the library offers
is evaluated at points all around the origin and compared with its closed form.
"""

import itertools
import math
import os

import mpmath as mp
import sympy as sp

import bhah
import tensors as tn
import vf
from kernels import Project

import nrpy.reference_metric as refmetric

R3, R4 = range(3), range(4)
SCRATCH = os.environ["VF_SCRATCH"]
SYSTEMS = [c for c in bhah.COORDS if "v2n2" not in c]  # those have no closed-form inverse map, and no reader
ORG = {"Cart_originx": 0.15, "Cart_originy": -0.25, "Cart_originz": 0.35}
S2 = [(i, j) for i in R3 for j in R3 if i <= j]


# generic data: f(n; x) = c_n + d_n sin(k_n . x + p_n)
def coef(n, base, amp):
    u = lambda q: ((n * 7919 + q * 104729 + 12345) * 2654435761 % 4294967296) / 4294967296  # noqa: E731
    return base, amp, [1.3 * (u(k) - 0.5) for k in R3], 6 * u(7)


FIELDS = {"alpha": coef(1, 0.9, 0.2)}
for _i in R3:
    FIELDS[f"beta{_i}"] = coef(2 + _i, 0.1, 0.4)
    FIELDS[f"B{_i}"] = coef(5 + _i, -0.1, 0.3)
for _n, (_i, _j) in enumerate(S2):
    FIELDS[f"g{_i}{_j}"] = coef(10 + _n, 1.4 if _i == _j else 0.05, 0.2)
    FIELDS[f"K{_i}{_j}"] = coef(20 + _n, 0.1, 0.5)
for _n, (_i, _j) in enumerate((a, b) for a in R4 for b in R4 if a <= b):
    FIELDS[f"T{_i}{_j}"] = coef(30 + _n, 0.2, 0.7)

GENERIC = "static double fld(int n, const REAL *x) { switch (n) {\n" + "".join(f"case {n}: return {b!r} + {a!r} * sin({k[0]!r} * x[0] + {k[1]!r} * x[1] + {k[2]!r} * x[2] + {p!r});\n" for n, (b, a, k, p) in enumerate(FIELDS.values())) + "} return 0; }\n"


def id_function(basis, T4):
    """C text of a data function: the tensors above, in the basis asked for"""
    names = list(FIELDS)
    F = lambda n: f"fld({names.index(n)}, x)"  # noqa: E731
    c = GENERIC + "static void generic_data(const commondata_struct *restrict cd, const params_struct *restrict pa, const REAL x[3], const ID_persist_struct *restrict pe, initial_data_struct *restrict d) {\n"
    if basis == "Spherical":
        c += "const double r = sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), th = acos(x[2]/r), ph = atan2(x[1], x[0]);\n"
        c += "const double J[3][3] = {{sin(th)*cos(ph), r*cos(th)*cos(ph), -r*sin(th)*sin(ph)}, {sin(th)*sin(ph), r*cos(th)*sin(ph), r*sin(th)*cos(ph)}, {cos(th), -r*sin(th), 0}};\n"
        c += "const double I[3][3] = {{sin(th)*cos(ph), sin(th)*sin(ph), cos(th)}, {cos(th)*cos(ph)/r, cos(th)*sin(ph)/r, -sin(th)/r}, {-sin(ph)/(r*sin(th)), cos(ph)/(r*sin(th)), 0}};\n"
    else:
        c += "const double J[3][3] = {{1,0,0},{0,1,0},{0,0,1}}, I[3][3] = {{1,0,0},{0,1,0},{0,0,1}};\n"
    c += f"d->alpha = {F('alpha')}; double v[3], t[3][3], T[4][4], L[4][4] = {{{{1}}}};\n"
    for n, m in (("beta", "betaSphorCartU"), ("B", "BSphorCartU")):
        c += "".join(f"v[{i}] = {F(n + str(i))};\n" for i in R3) + "".join(f"d->{m}{i} = I[{i}][0]*v[0] + I[{i}][1]*v[1] + I[{i}][2]*v[2];\n" for i in R3)
    for n, m in (("g", "gammaSphorCartDD"), ("K", "KSphorCartDD")):
        c += "".join(f"t[{i}][{j}] = {F(f'{n}{min(i, j)}{max(i, j)}')};\n" for i in R3 for j in R3)
        c += "".join(f"{{ double s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += J[a][{i}] * J[b][{j}] * t[a][b]; d->{m}{i}{j} = s; }}\n" for i, j in S2)
    if T4:
        c += "for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) L[a + 1][b + 1] = I[a][b];\n"
        c += "".join(f"T[{i}][{j}] = {F(f'T{min(i, j)}{max(i, j)}')};\n" for i in R4 for j in R4)
        c += "".join(f"{{ double s = 0; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) s += L[{i}][a] * L[{j}][b] * T[a][b]; d->T4SphorCartUU{i}{j} = s; }}\n" for i in R4 for j in R4 if i <= j)
    return c + "}\n"


def field(n, x):
    b, a, k, p = FIELDS[n]
    return b + a * mp.sin(sum(mp.mpf(q) * y for q, y in zip(k, x)) + mp.mpf(p))


def geometry(P):
    rfm = refmetric.reference_metric[P.cs]
    X, xx = rfm.xx_to_Cart, rfm.xx
    J = [[sp.diff(X[a], xx[i]) for i in R3] for a in R3]
    H = [[[sp.diff(J[a][i], xx[k]) for k in R3] for i in R3] for a in R3]
    return X, J, H


def oracle(P, geo, ijk, cf, T4, frame=None):
    """frame: coordinates whose basis to use (default: those of the point)"""
    X, J, _ = geo
    pt, memo = P.point(ijk), {}
    x = [tn.ev(e, pt, memo) + mp.mpf(P.par[f"Cart_origin{c}"]) for e, c in zip(X, "xyz")]
    if frame:
        pos = {f"Cart{c}": tn.ev(e, pt, {}) for e, c in zip(X, "xyz")}
        pt = P.point(ijk)
        q = [tn.ev(e, lambda s: pos[s] if s in pos else pt(s), {}) for e in frame]
        pt, memo = P.point(ijk, extra={f"xx{k}": q[k] for k in R3}), {}
    Jn = [[tn.ev(J[a][i], pt, memo) for i in R3] for a in R3]
    Im = mp.inverse(mp.matrix(Jn))
    I = [[Im[i, a] for a in R3] for i in R3]
    h = [mp.sqrt(sum(Jn[a][i] ** 2 for a in R3)) for i in R3]
    g = [[field(f"g{min(i, j)}{max(i, j)}", x) for j in R3] for i in R3]
    K = [[field(f"K{min(i, j)}{max(i, j)}", x) for j in R3] for i in R3]
    gi = mp.inverse(mp.matrix(g))
    tr = sum(gi[i, j] * K[i][j] for i in R3 for j in R3)
    W = mp.det(mp.matrix(g)) ** (-mp.mpf(1) / 6)
    low = lambda t: [[sum(Jn[a][i] * Jn[b][j] * t[a][b] for a in R3 for b in R3) for j in R3] for i in R3]  # noqa: E731
    gb = low([[W * W * g[i][j] for j in R3] for i in R3])
    Ab = low([[W * W * (K[i][j] - g[i][j] * tr / 3) for j in R3] for i in R3])
    gh = low([[mp.mpf(i == j) for j in R3] for i in R3])
    out = {"alpha": field("alpha", x), "trK": tr, "cf": {"W": W, "chi": W * W, "phi": -mp.log(W) / 2}[cf]}
    for i in R3:
        out[f"vetU{i}"] = h[i] * sum(I[i][a] * field(f"beta{a}", x) for a in R3)
        out[f"betU{i}"] = h[i] * sum(I[i][a] * field(f"B{a}", x) for a in R3)
    for i, j in S2:
        out[f"hDD{i}{j}"] = (gb[i][j] - gh[i][j]) / (h[i] * h[j])
        out[f"aDD{i}{j}"] = Ab[i][j] / (h[i] * h[j])
    if T4:
        L = [[mp.mpf(1), 0, 0, 0]] + [[0] + I[i] for i in R3]
        T = [[field(f"T{min(a, b)}{max(a, b)}", x) for b in R4] for a in R4]
        for a in R4:
            for b in R4:
                if a <= b:
                    out[f"T4UU{a}{b}"] = sum(L[a][m] * L[b][n] * T[m][n] for m in R4 for n in R4)
    return out


def connection(g, dg):
    gi = mp.inverse(mp.matrix(g))
    G = [[[sum(gi[i, l] * (dg[l][j][k] + dg[l][k][j] - dg[j][k][l]) for l in R3) / 2 for k in R3] for j in R3] for i in R3]
    return G, gi


def lambdas(P, geo, ijk):
    """Lambda^i = gbar^jk (Gammabar - Gammahat), from the stored h_ij and explicit stencils, times the scale factor"""
    _, J, H = geo
    pt = P.point(ijk, "id:")
    memo = {}
    Jn = [[tn.ev(J[a][i], pt, memo) for i in R3] for a in R3]
    Hn = [[[tn.ev(H[a][i][k], pt, memo) for k in R3] for i in R3] for a in R3]
    dot = lambda u, v: sum(a * b for a, b in zip(u, v))  # noqa: E731
    col = lambda i: [Jn[a][i] for a in R3]  # noqa: E731
    dcol = lambda i, k: [Hn[a][i][k] for a in R3]  # noqa: E731
    h = [mp.sqrt(dot(col(i), col(i))) for i in R3]
    dh = [[dot(col(i), dcol(i, k)) / h[i] for k in R3] for i in R3]
    gh = [[dot(col(i), col(j)) for j in R3] for i in R3]
    dgh = [[[dot(dcol(i, k), col(j)) + dot(col(i), dcol(j, k)) for k in R3] for j in R3] for i in R3]
    hd = lambda i, j: pt(f"hDD{min(i, j)}{max(i, j)}")  # noqa: E731
    hdd = lambda i, j, k: pt(f"hDD_dD{min(i, j)}{max(i, j)}{k}")  # noqa: E731
    gb = [[gh[i][j] + h[i] * h[j] * hd(i, j) for j in R3] for i in R3]
    dgb = [[[dgh[i][j][k] + (dh[i][k] * h[j] + h[i] * dh[j][k]) * hd(i, j) + h[i] * h[j] * hdd(i, j, k) for k in R3] for j in R3] for i in R3]
    Gb, gi = connection(gb, dgb)
    Gh, _ = connection(gh, dgh)
    return {f"lambdaU{i}": h[i] * sum(gi[j, k] * (Gb[i][j][k] - Gh[i][j][k]) for j in R3 for k in R3) for i in R3}


def ijk_of(P, ijk):
    return [P.xx[k][ijk[k]] for k in R3]


def reader(cs, d, basis, cf, T4, fd):
    P = Project(cs, d, fd, False, False, cf)
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.general_relativity import ADM_Initial_Data_Reader__BSSN_Converter as admid  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs  # pylint: disable=import-outside-toplevel

    if T4:  # registers the stress-energy gridfunctions
        _ = BSSN_RHSs["Cartesian_T4munu"]
    admid.register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN(cs, IDCoordSystem=basis, enable_T4munu=T4)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=cs)
    P.nxx = (4, 4, 4)
    P.sets = dict(ORG)
    P.prefunc = id_function(basis, T4)
    P.nan("y", "NUM_EVOL_GFS")
    P.nan("ax", "NUM_AUXEVOL_GFS")
    P.call(f"ID_persist_struct pers; memset(&pers, 0, sizeof pers); initial_data_reader__convert_ADM_{basis}_to_BSSN(&commondata, params, xx, &gd[0].bcstruct, &gd[0].gridfuncs, &pers, generic_data);")
    P.dump("y", "EVOL", "id:")
    if T4:
        P.dump("ax", [f"T4UU{a}{b}" for a in R4 for b in R4 if a <= b], "id:")
    err = P.run(add_ghost=False, bcs=True)
    if err:
        return [("run", err)], 0
    probs, n, geo = [], 0, geometry(P)
    # ghost points beyond the outer boundary in x0 are images of no other point
    g = P.ng
    inner = P.interior()
    beyond = [(i, j, k) for i in range(P.shape[0] - g, P.shape[0]) for j in range(g, P.shape[1] - g, 3) for k in range(g, P.shape[2] - g, 2)]
    frame = None
    bad = lambda name, w, ijk: not abs(P.data["id:" + name][P.at(ijk)] - float(w)) <= 1e-6 * (1 + abs(float(w)))  # noqa: E731
    if cs == "SinhSymTP" and any(bad(k, w, inner[0]) for k, w in oracle(P, geo, inner[0], cf, T4).items()):
        # the known defect of Cart_to_xx: the basis is that of another point; everything else must be right
        frame = refmetric.reference_metric[cs].Cart_to_xx
        probs.append(("reader:basis-of-Cart_to_xx", f"the data are transformed to the basis at Cart_to_xx of the position, which is not {ijk_of(P, inner[0])}"))
    for ijk in inner[::3] + beyond:
        for name, w in oracle(P, geo, ijk, cf, T4, frame).items():
            v, w = P.data["id:" + name][P.at(ijk)], float(w)
            n += 1
            if not abs(v - w) <= 1e-6 * (1 + abs(w)) * (30 if cs.startswith(("Ring", "LW", "UW")) else 1):
                return probs + [(f"reader:{name}", f"{name} = {v!r} at {ijk}, the data there give {w!r}")], n
    for ijk in inner[::3]:
        for name, w in lambdas(P, geo, ijk).items():
            v, w = P.data["id:" + name][P.at(ijk)], float(w)
            n += 1
            if not abs(v - w) <= 1e-8 * (1 + abs(w)):
                return probs + [(f"reader:{name}", f"{name} = {v!r} at {ijk}, the connection of the metric gives {w!r}")], n
    return probs, n


PTS = [(s * a, t * b, u * c) for s in (1, -1) for t in (1, -1) for u in (1, -1) for a, b, c in ((0.7, 0.4, 0.9), (1.9, 2.3, 0.31))]
SET = {"M": 1.3, "chi": 0.41, "a": 0.37, "r0": 0.6, "BH1_mass": 0.62, "BH2_mass": 0.35, "BH1_posn_x": 0.11, "BH1_posn_y": 0.21, "BH1_posn_z": 0.65, "BH2_posn_x": -0.13, "BH2_posn_y": 0.05, "BH2_posn_z": -0.8}


def exact(cs, d, basis, kind, ckpt):
    """the whole initial_data() with an exact data set, and that data set at points all around"""
    P = Project(cs, d, 4, False, False, "W")
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as w_  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical  # pylint: disable=import-outside-toplevel

    w_.register_CFunction_initial_data(cs, IDtype=kind, IDCoordSystem=basis, ID_persist_struct_str="int marker;", populate_ID_persist_struct_str="ID_persist.marker = 7;\n", free_ID_persist_struct_str="commondata->nn = ID_persist.marker;\n", enable_checkpointing=False)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=cs)
    P.nxx = (4, 4, 4)
    P.sets = dict(SET, **ORG)
    P.nan("y", "NUM_EVOL_GFS")
    P.call("commondata.nn = 0; initial_data(&commondata, gd); value(commondata.nn);")
    P.dump("y", "EVOL", "id:")
    mem = ["alpha"] + [f"{v}SphorCartU{i}" for v in ("beta", "B") for i in R3] + [f"{v}SphorCartDD{i}{j}" for v in ("gamma", "K") for i, j in S2]
    for x in PTS:
        P.call("{ REAL x[3] = {%r, %r, %r}; ID_persist_struct pe; memset(&pe, 0, sizeof pe); initial_data_struct q; memset(&q, 0x5a, sizeof q); %s(&commondata, params, x, &pe, &q); %s }" % (*x, kind, " ".join(f"value(q.{m});" for m in mem)))
    # the marker precedes the gridfunctions in the file: move it behind them
    P.body = P.body.replace(" value(commondata.nn);", "") + "  value(commondata.nn);\n"
    err = P.run(add_ghost=False, bcs=True)
    if err:
        return [("run", err)], 0
    ID = (InitialData_Cartesian if basis == "Cartesian" else InitialData_Spherical)(IDtype=kind)
    ex = {"alpha": ID.alpha}
    for i in R3:
        ex[f"betaSphorCartU{i}"], ex[f"BSphorCartU{i}"] = ID.betaU[i], ID.BU[i]
        for j in range(i, 3):
            ex[f"gammaSphorCartDD{i}{j}"], ex[f"KSphorCartDD{i}{j}"] = ID.gammaDD[i][j], ID.KDD[i][j]
    n, probs = 0, []

    def values(x):
        env = dict(P.par)
        if basis == "Cartesian":
            env.update(x=x[0], y=x[1], z=x[2])
        else:
            r = mp.sqrt(sum(mp.mpf(q) ** 2 for q in x))
            env.update(r=r, th=mp.acos(x[2] / r), ph=mp.atan2(x[1], x[0]), xx0=r, xx1=mp.acos(x[2] / r), xx2=mp.atan2(x[1], x[0]))
        memo = {}
        return {k: tn.ev(e, lambda s: mp.mpf(env[s]), memo) for k, e in ex.items()}

    for q, x in enumerate(PTS):
        val = values(x)
        for m, name in enumerate(mem):
            v, w = P.rest[q * len(mem) + m], float(mp.re(val[name]))
            n += 1
            if not abs(v - w) <= 1e-9 * (1 + abs(w)):
                return probs + [(f"exact:{kind}:{name}", f"{kind}: {name} = {v!r} at {x}, its closed form gives {w!r}")], n
    if P.rest[-1] != 7:
        probs.append((f"exact:{kind}:persist", f"the persistent data set up for {kind} does not reach its release ({P.rest[-1]})"))
    # on the grid: lapse, trace of K and conformal factor are scalars of the data at each point
    X, J, _ = geometry(P)
    for ijk in P.interior()[::5]:
        pt, memo = P.point(ijk), {}
        x = [tn.ev(e, pt, memo) + mp.mpf(P.par[f"Cart_origin{c}"]) for e, c in zip(X, "xyz")]
        val = values(x)
        g = [[mp.re(val[f"gammaSphorCartDD{min(i, j)}{max(i, j)}"]) for j in R3] for i in R3]
        K = [[mp.re(val[f"KSphorCartDD{min(i, j)}{max(i, j)}"]) for j in R3] for i in R3]
        gi, det = mp.inverse(mp.matrix(g)), mp.det(mp.matrix(g))
        if basis == "Spherical":
            r2 = sum(q * q for q in x)
            det /= r2 * (x[0] ** 2 + x[1] ** 2)  # determinant of the flat metric: r^4 sin^2(theta)
        want = {"alpha": mp.re(val["alpha"]), "trK": sum(gi[i, j] * K[i][j] for i in R3 for j in R3), "cf": det ** (-mp.mpf(1) / 6)}
        for name, w in want.items():
            v, w = P.data["id:" + name][P.at(ijk)], float(w)
            n += 1
            if not abs(v - w) <= 1e-7 * (1 + abs(w)):
                return probs + [(f"exact:{kind}:grid:{name}", f"{kind} on {cs}: {name} = {v!r} at {ijk}, the closed form gives {w!r}")], n
    return probs, n


def jobs(thorough):
    J = []
    combos = list(itertools.product(("Spherical", "Cartesian"), ("W", "chi", "phi"), (False, True)))
    for k, cs in enumerate(SYSTEMS):
        for q, (basis, cf, T4) in enumerate(combos):
            if thorough or q % 6 == k % 6:
                J.append(("reader", cs, basis, cf, T4, (2, 4)[(k + q) % 2]))
    kinds = [("Cartesian", "BrillLindquist"), ("Spherical", "UIUCBlackHole"), ("Spherical", "StaticTrumpet"), ("Spherical", "OffsetKerrSchild")]
    for k, cs in enumerate(SYSTEMS):
        for q, (basis, kind) in enumerate(kinds):
            if thorough or q == k % 4:
                J.append(("exact", cs, basis, kind, False))
    return J


def one(kind, *a):
    mp.mp.dps = 30
    return {"reader": reader, "exact": exact}[kind](*a)


def body(chk):
    J = jobs(chk.thorough)
    sel = os.environ.get("C31_ONLY")
    if sel:
        J = [j for j in J if sel in str(j)]
    args = [(j[0], j[1], f"{SCRATCH}/p{k}") + j[2:] for k, j in enumerate(J)]
    for j, (probs, n) in zip(J, vf.pmap(one, args, timeout=3000)):
        chk.count("programs")
        chk.count("values compared", n)
        chk.outcome(str(j))
        for key, msg in probs:
            chk.violation(f"{key}:{j[1]}", f"{j}: {msg}", {"job": j})
    chk.sample({"job": str(J[-1]) if J else None})


if __name__ == "__main__":
    vf.main("C31", "exploration", "distinct programs (coordinate system, basis of the data, conformal factor, sources; exact data sets)", body)
