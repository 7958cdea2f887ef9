"""C32: gravitational-wave extraction: psi4, its modes and the files they go to.

The psi4 kernels are generated for a list of coordinate systems, conformal factors and orders,
compiled and run on rough data; at every interior point the result must be the Weyl scalar
C(n,mbar,n,mbar) of the vacuum spacetime with this 3-metric and extrinsic curvature (Gauss-Codazzi
projections, 3-Riemann tensor from explicit stencils, tetrad by numerical Gram-Schmidt). The
spin-weight -2 harmonics are evaluated for every (l, m) up to a maximum and at every point of a
lattice of angles, against Wigner's d functions. The mode decomposition runs on every radius of a
list (grid points, points between, points outside the grid), order and number of calls, on rough
angular data: every column of every file is compared with the quadrature sum.
"""

import cmath
import glob
import itertools
import math
import os
import re

import mpmath as mp
import sympy as sp

import tensors as tn
import vf
from kernels import Project

import nrpy.params as par
import nrpy.reference_metric as refmetric

R3 = range(3)
SCRATCH = os.environ["VF_SCRATCH"]
S = lambda n: sp.Symbol(n, real=True)


# ---- oracle: spin-weight -2 harmonics -------------------------------------------------------------
def swsh(l, m, th, ph):
    """(-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(th) e^{i m ph}, s = -2"""
    a, b = m, 2
    if l < 2:
        return 0.0
    f = math.factorial
    pre = math.sqrt(f(l + a) * f(l - a) * f(l + b) * f(l - b))
    c, s, t = math.cos(th / 2), math.sin(th / 2), 0.0
    for k in range(max(0, b - a), min(l + b, l - a) + 1):
        t += (-1) ** (a - b + k) / (f(l + b - k) * f(k) * f(a - b + k) * f(l - a - k)) * c ** (2 * l + b - a - 2 * k) * s ** (a - b + 2 * k)
    return math.sqrt((2 * l + 1) / (4 * math.pi)) * pre * t * cmath.exp(1j * m * ph)


# ---- oracle: psi4 ---------------------------------------------------------------------------------
def total(e, k, xx, cache):
    """derivative along coordinate k of an expression in coordinates, gridfunctions and their derivatives"""
    key = (e, k)
    if key in cache:
        return cache[key]
    out = sp.Integer(0)
    for s in e.free_symbols:
        if s in xx:
            if s == xx[k]:
                out += sp.diff(e, s)
            continue
        q = re.fullmatch(r"(hDD|aDD|cf|trK)(?:_d(D))?(\d*)", s.name)
        if not q:
            continue  # a parameter
        rank = 2 if q[1].endswith("DD") else 0
        idx, der = q[3][:rank], q[3][rank:]
        d = S(f"{q[1]}_dDD{idx}{min(int(der), k)}{max(int(der), k)}" if q[2] else f"{q[1]}_dD{idx}{k}")
        out += sp.diff(e, s) * d
    cache[key] = out
    return out


class Weyl:
    def __init__(self, cs, cf):
        self.rfm = rfm = refmetric.reference_metric[cs]
        self.xx = xx = list(rfm.xx)
        c = S("cf")
        e4 = {"W": c**-2, "chi": 1 / c, "phi": sp.exp(4 * c)}[cf]
        J = sp.Matrix(3, 3, lambda a, i: sp.diff(rfm.xx_to_Cart[a], xx[i]))
        self.J = J
        h = lambda n, i, j: S(f"{n}DD{min(i, j)}{max(i, j)}")
        self.g = [[e4 * (rfm.ghatDD[i][j] + h("h", i, j) * rfm.ReDD[i][j]) for j in R3] for i in R3]
        self.K = [[e4 * h("a", i, j) * rfm.ReDD[i][j] + self.g[i][j] * S("trK") / 3 for j in R3] for i in R3]
        cache = {}
        self.dg = [[[total(self.g[i][j], k, xx, cache) for k in R3] for j in R3] for i in R3]
        self.ddg = [[[[total(self.dg[min(i, j)][max(i, j)][min(k, l)], max(k, l), xx, cache) for l in R3] for k in R3] for j in R3] for i in R3]
        self.dK = [[[total(self.K[i][j], k, xx, cache) for k in R3] for j in R3] for i in R3]
        self.pos = rfm.xx_to_Cart

    def at(self, pt):
        memo = {}
        v = lambda e: mp.re(tn.ev(e, pt, memo))
        g = mp.matrix([[v(self.g[i][j]) for j in R3] for i in R3])
        gi = g**-1
        K = [[v(self.K[i][j]) for j in R3] for i in R3]
        dg = [[[v(self.dg[i][j][k]) for k in R3] for j in R3] for i in R3]
        ddg = [[[[v(self.ddg[i][j][k][l]) for l in R3] for k in R3] for j in R3] for i in R3]
        dK = [[[v(self.dK[i][j][k]) for k in R3] for j in R3] for i in R3]
        G = [[[sum(gi[i, p] * (dg[p][j][k] + dg[p][k][j] - dg[j][k][p]) for p in R3) / 2 for k in R3] for j in R3] for i in R3]
        DK = [[[dK[i][j][k] - sum(G[p][k][i] * K[p][j] + G[p][k][j] * K[i][p] for p in R3) for k in R3] for j in R3] for i in R3]  # D_k K_ij
        Gl = lambda p, j, k: (dg[p][j][k] + dg[p][k][j] - dg[j][k][p]) / 2
        Riem = [[[[(ddg[i][l][j][k] + ddg[j][k][i][l] - ddg[i][k][j][l] - ddg[j][l][i][k]) / 2 + sum(Gl(p, j, k) * G[p][i][l] - Gl(p, j, l) * G[p][i][k] for p in R3) for l in R3] for k in R3] for j in R3] for i in R3]
        Ric = [[sum(gi[p, q] * Riem[p][j][q][l] for p in R3 for q in R3) for l in R3] for j in R3]
        trK = sum(gi[p, q] * K[p][q] for p in R3 for q in R3)
        E = [[Ric[j][l] + trK * K[j][l] - sum(K[j][p] * gi[p, q] * K[q][l] for p in R3 for q in R3) for l in R3] for j in R3]
        # tetrad
        Jn = mp.matrix([[v(self.J[a, i]) for i in R3] for a in R3])
        Ji = Jn**-1
        X = [v(e) for e in self.pos]
        up = lambda c: [sum(Ji[i, a] * c[a] for a in R3) for i in R3]
        dot = lambda a, b: sum(g[i, j] * a[i] * b[j] for i in R3 for j in R3)
        unit = lambda a: [q / mp.sqrt(dot(a, a)) for q in a]
        phi = unit(up([-X[1], X[0], mp.mpf(0)]))
        r = up(X)
        k = dot(r, phi)
        r = unit([a - k * b for a, b in zip(r, phi)])
        lo = [[1, 2], [2, 0], [0, 1]]
        # theta = phi x r (right-handed (r, theta, phi) when the coordinates are; sqrt(g) > 0 as in the code)
        cr = [mp.sqrt(mp.det(g)) * (phi[b] * r[c] - phi[c] * r[b]) for b, c in lo]
        th = unit([sum(gi[i, d] * cr[d] for d in R3) for i in R3])
        mb = [(a - 1j * b) / mp.sqrt(2) for a, b in zip(th, phi)]
        T = lambda a, b, c, d: sum(t[0] * a[i] * b[j] * c[p] * d[q] for i in R3 for j in R3 for p in R3 for q in R3 for t in [(Riem[i][j][p][q] + K[i][p] * K[j][q] - K[i][q] * K[j][p],)])
        rr = T(r, mb, r, mb)
        nn = sum(E[i][j] * mb[i] * mb[j] for i in R3 for j in R3)
        # R(r, mb, n, mb) = -(D_j K_ik - D_i K_jk) r^i mb^j mb^k
        mix = -sum((DK[i][p][j] - DK[j][p][i]) * r[i] * mb[j] * mb[p] for i in R3 for j in R3 for p in R3)
        return (rr + nn - 2 * mix) / 2


def psi4(cs, d, fd, cf, fdf, few):
    P = Project(cs, d, fd, False, False, cf)
    from nrpy.infrastructures.BHaH.general_relativity import psi4_C_codegen_library as w  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities  # pylint: disable=import-outside-toplevel

    BSSN_quantities[cs]  # registers the evolved variables  # pylint: disable=pointless-statement
    w.register_CFunction_psi4(CoordSystem=cs, OMP_collapse=2 if fdf else 1)
    w.register_CFunction_psi4_metric_deriv_quantities(CoordSystem=cs, enable_fd_functions=fdf)
    w.register_CFunction_psi4_tetrad(CoordSystem=cs)
    P.fill()
    P.nan("dg", "NUM_AUX_GFS")
    P.call("psi4(&commondata, params, xx, y, dg);")
    P.dump("dg", ["psi4_re", "psi4_im"], "out:")
    err = P.run()
    if err:
        return [("run", err)], 0
    W, n, probs = Weyl(cs, cf), 0, []
    for ijk in P.interior()[:: 4 if few else 1]:
        want = W.at(P.point(ijk))
        got = [P.data["out:psi4_re"][P.at(ijk)], P.data["out:psi4_im"][P.at(ijk)]]
        for part, v, x in (("re", got[0], float(want.real)), ("im", got[1], float(want.imag))):
            n += 1
            if not abs(v - x) <= 1e-7 * (1 + float(abs(want))):
                return [(f"psi4:{part}", f"psi4_{part} = {v!r} at {ijk}, the Weyl scalar is {x!r} (psi4 = {complex(want)})")], n
    return probs + P.untouched("psi4", ["psi4_re", "psi4_im"], "out:"), n


def modes(cs, d, fd, lgen, lmax, times, nxx):
    P = Project(cs, d, fd, False, False)
    P.nxx = nxx
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as w  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.special_functions import spin_weight_minus2_spherical_harmonics as sw  # pylint: disable=import-outside-toplevel
    import nrpy.grid as gri  # pylint: disable=import-outside-toplevel

    gri.register_gridfunctions(["psi4_re", "other", "psi4_im"], group="AUX")
    gri.register_gridfunctions(["uu"], group="EVOL")
    par.set_parval_from_str("swm2sh_maximum_l_mode_generated", lgen)
    sw.register_CFunction_spin_weight_minus2_sph_harmonics()
    w.register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids()
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=cs)
    P.sets = {"swm2sh_maximum_l_mode_to_compute": lmax}
    deg = 2 * min(2, fd // 2 + 1 - 1) if fd < 4 else 4
    ths, phs = [0.013, 0.4, 1.1, math.pi / 2, 2.2, 3.1], [-math.pi, -2.2, -0.3, 0.0, 0.9, 2.5, 5.9]
    P.call("{ const double T[] = {%s}, Q[] = {%s}; for (int l = 0; l <= %d; l++) for (int m = -l; m <= l; m++) for (int a = 0; a < %d; a++) for (int b = 0; b < %d; b++) { REAL re = NAN, im = NAN; spin_weight_minus2_sph_harmonics(l, m, T[a], Q[b], &re, &im); value(re); value(im); } }" % (", ".join(map(repr, ths)), ", ".join(map(repr, phs)), lgen, len(ths), len(phs)))
    # data: polynomial of the radial coordinate, rough in the angles
    P.call("const int N0_ = Nxx_plus_2NGHOSTS0, N1_ = Nxx_plus_2NGHOSTS1, N2_ = Nxx_plus_2NGHOSTS2;")
    P.call("for (int i2 = 0; i2 < N2_; i2++) for (int i1 = 0; i1 < N1_; i1++) for (int i0 = 0; i0 < N0_; i0++) for (int c = 0; c < 2; c++) { double v = 0, x = 1; for (int q = 0; q <= %d; q++) { v += x * (rnd(11 + 2 * q + c, i1 * 977 + i2) - 0.4); x *= xx[0][i0] / xx[0][N0_ - 1]; } dg[(c ? PSI4_IMGF : PSI4_REGF) * ntot + i0 + N0_ * (i1 + N1_ * (long)i2)] = v; }" % deg)
    P.call("for (long p = 0; p < ntot; p++) dg[OTHERGF * ntot + p] = NAN;")
    for i in range(2):
        P.call(f"put(&dg[PSI4_{('RE', 'IM')[i]}GF * ntot], ntot);")
    P.call("double X0[] = {%s}; REAL R[8]; const int nR = 5;" % ", ".join(("xx[0][NGHOSTS + 5]", "0.5 * (xx[0][NGHOSTS + 6] + xx[0][NGHOSTS + 7]) + 1e-4 * params->dxx0", "xx[0][NGHOSTS + 9] + 0.31 * params->dxx0", "xx[0][NGHOSTS + 8] - 0.44 * params->dxx0")))
    P.call("for (int q = 0; q < 4; q++) { REAL a0 = X0[q], a1 = M_PI / 2, a2 = 0, *A[3] = {&a0, &a1, &a2}, c[3]; xx_to_Cart(&commondata, params, A, 0, 0, 0, c); R[q < 2 ? q : q + 1] = c[0]; value(X0[q]); value(c[0]); } R[2] = 1e3;")
    for t in times:
        P.call(f"commondata.time = {t!r}; psi4_spinweightm2_decomposition_on_sphlike_grids(&commondata, params, dg, R, nR, {lmax}, xx);")
    err = P.run(bcs=False)
    if err:
        return [("run", err)], 0
    a, n, k = P.rest, 0, 0
    for l in range(lgen + 1):
        for m in range(-l, l + 1):
            for th, ph in itertools.product(ths, phs):
                y = complex(swsh(l, m, th, ph))
                n += 1
                v = complex(a[k], a[k + 1])
                k += 2
                if not abs(v - y) <= 1e-10 * (1 + abs(y)):
                    return [(f"harmonic:{l},{m}", f"harmonic l={l}, m={m} at theta={th}, phi={ph} is {v}, should be {y}")], n
    ntot = P.shape[0] * P.shape[1] * P.shape[2]
    re_, im_ = a[k : k + ntot], a[k + ntot : k + 2 * ntot]
    k += 2 * ntot
    radii = [(a[k + 2 * q], a[k + 2 * q + 1]) for q in range(4)]
    names, probs = set(), []
    g = P.ng
    for x0, R in radii:
        i0 = min(range(g, P.shape[0] - g), key=lambda i: abs(P.xx[0][i] - x0))
        near = range(i0 - deg // 2, i0 + deg // 2 + 1)
        lag = {i: math.prod((x0 - P.xx[0][j]) / (P.xx[0][i] - P.xx[0][j]) for j in near if j != i) for i in near}
        psi = {}
        for i1, i2 in itertools.product(range(g, P.shape[1] - g), range(g, P.shape[2] - g)):
            psi[i1, i2] = sum(c * complex(re_[P.at((i, i1, i2))], im_[P.at((i, i1, i2))]) for i, c in lag.items())
        for l in range(2, lmax + 1):
            fn = f"Rpsi4_l{l}-r{R:06.1f}.txt"
            names.add(fn)
            try:
                lines = open(os.path.join(d, fn)).read().splitlines()
            except OSError:
                return probs + [(f"modes:file:l{l}", f"no file {fn} for the radius {R}")], n
            head, rows = [ln for ln in lines if ln.startswith("#")], [ln for ln in lines if not ln.startswith("#")]
            want = ["# column 1"] + [f"# column {q}" for q in range(2, 2 + 2 * (2 * l + 1))]
            if [ln.split(":")[0] for ln in head] != want or any(f"{p}(psi4_{{l={l},m={m}}})" not in head[1 + 2 * (m + l) + q] for m in range(-l, l + 1) for q, p in enumerate(("Re", "Im"))) or not lines[0].startswith("#"):
                return probs + [(f"modes:header:l{l}", f"{fn}: header {head}")], n
            if len(rows) != len(times):
                return probs + [(f"modes:rows:l{l}", f"{fn}: {len(rows)} rows after {len(times)} calls at times {times}")], n
            for t, row in zip(times, rows):
                v = [float(q) for q in row.split()]
                w_ = [t - R]
                for m in range(-l, l + 1):
                    c = R * sum(p * complex(swsh(l, m, P.xx[1][i1], P.xx[2][i2])).conjugate() * math.sin(P.xx[1][i1]) for (i1, i2), p in psi.items()) * P.par["dxx1"] * P.par["dxx2"]
                    w_ += [c.real, c.imag]
                n += len(w_)
                sc = max(abs(q) for q in w_[1:])
                if len(v) != len(w_) or not abs(v[0] - w_[0]) <= 1e-5 * (1 + abs(w_[0])) or any(not abs(p - q) <= 1e-8 * (1 + sc) for p, q in zip(v[1:], w_[1:])):
                    return probs + [(f"modes:l{l}", f"{fn} at t={t}: {v}, the quadrature gives {w_}")], n
    got = {os.path.basename(f) for f in glob.glob(os.path.join(d, "Rpsi4*"))}
    if got != names:
        probs.append(("modes:files", f"files {sorted(got ^ names)} missing or not expected"))
    return probs, n


def jobs(thorough):
    J = [
        ("psi4", "Spherical", 2, "W", False, False),
        ("psi4", "SinhSpherical", 4, "chi", True, True),
        ("psi4", "Cartesian", 4, "W", True, False),
        ("psi4", "Cylindrical", 2, "phi", False, False),
    ]
    k = 0
    for cs in ("Spherical", "SinhSpherical"):
        for fd, lg, lm in ((4, 4, 4), (6, 3, 2), (8, 2, 2), (4, 6, 5)) if thorough else ((4, 4, 4), (6, 3, 2)):
            J.append(("modes", cs, fd, lg, lm, [[0.0, 0.5, 1.25], [0.0, 3.0, 3.5, 7.0]][k % 2], (12, 4 + k % 2, 6 - k % 2)))
            k += 1
    if thorough:
        J += [("psi4", cs, fd, cf, fdf, False) for cs in ("Spherical", "SinhSpherical", "SinhCylindrical", "SinhCartesian", "SinhSymTP", "HoleySinhSpherical") for fd, cf, fdf in ((2, "phi", False), (4, "chi", True))]
        J.append(("modes", "SinhSpherical", 4, 8, 8, [0.0, 1.0], (12, 6, 8)))
    return J


def one(kind, *a):
    mp.mp.dps = 30
    return {"psi4": psi4, "modes": modes}[kind](*a)


def body(chk):
    J = jobs(chk.thorough)
    sel = os.environ.get("C32_ONLY")
    if sel:
        J = [j for j in J if sel in str(j)]
    args = [(j[0], j[1], f"{SCRATCH}/p{k}") + j[2:] for k, j in enumerate(J)]
    for j, (probs, n) in zip(J, vf.pmap(one, args, timeout=3000)):
        chk.count("programs")
        chk.count("values compared", n)
        chk.outcome(str(j))
        for key, msg in probs:
            chk.violation(f"{key}:{j[1]}", f"{j}: {msg}", {"job": j})
    chk.sample({"job": str(J[-1]) if J else None})


if __name__ == "__main__":
    vf.main("C32", "exploration", "distinct programs (kernel, coordinate system, options)", body)
