"""C03: finite-difference kernels are the stated stencils, in every generation mode.

A kernel (with the upwind switch held fixed) is a linear functional of the grid data, so its
full impulse response decides it: a unit impulse is placed at every point of a box larger
than any stencil, in each gridfunction, and the kernel's outputs must equal the coefficients
of the unique stencil that is exact on polynomials up to the operator's order (computed here
by exact rational Lagrange interpolation).  Enumerated: operators x orders x infrastructures
x SIMD/scalar x inline/functions x precision x golden kernels x memory order x upwind signs.
"""

import itertools
import math
import os
from fractions import Fraction

import vf

import sympy as sp

import nrpy.finite_difference as fin
import nrpy.grid as gri
import nrpy.indexedexp as ixp
import nrpy.params as par
from nrpy.c_codegen import c_codegen

INVDX = [2.0, 3.0, 5.0]


# ---------------------------------------------------------------- reference stencils
def lagrange(offsets, deriv):
    """Coefficients c_k with sum c_k f(k) = f^(deriv)(0), exact for degree < len(offsets)."""
    out = []
    for k in offsets:
        poly = [Fraction(1)]  # ascending powers
        den = Fraction(1)
        for m in offsets:
            if m == k:
                continue
            poly = [Fraction(0)] + poly  # * x
            for i in range(len(poly) - 1):
                poly[i] += -m * poly[i + 1]
            den *= k - m
        c = poly[deriv] if deriv < len(poly) else Fraction(0)
        out.append(c * math.factorial(deriv) / den)
    return {k: c for k, c in zip(offsets, out) if c != 0}


def ref1d(op, n):
    h = n // 2
    if op == "dD":
        return lagrange(range(-h, h + 1), 1)
    if op == "dDD":
        return lagrange(range(-h, h + 1), 2)
    if op == "dupD":
        return lagrange(range(-h + 1, h + 2), 1)
    if op == "ddnD":
        return lagrange(range(-h - 1, h), 1)
    if op == "dfullupD":
        return lagrange(range(0, n + 1), 1)
    if op == "dfulldnD":
        return lagrange(range(-n, 1), 1)
    if op == "dKOD":
        m = n + 2
        return {k: Fraction(-((-1) ** (k % 2)) * math.comb(m, m // 2 + k), 2**m) for k in range(-m // 2, m // 2 + 1)}
    raise KeyError(op)


def ref3d(op, dirs, n):
    """{(o0,o1,o2): coefficient} including the inverse grid spacings."""
    if op == "dDD" and dirs[0] != dirs[1]:
        a = ref1d("dD", n)
        out = {}
        for (k1, c1), (k2, c2) in itertools.product(a.items(), a.items()):
            o = [0, 0, 0]
            o[dirs[0]], o[dirs[1]] = k1, k2
            out[tuple(o)] = float(c1 * c2) * INVDX[dirs[0]] * INVDX[dirs[1]]
        return out
    d = dirs[0]
    scale = INVDX[d] ** (2 if op == "dDD" else 1)
    out = {}
    for k, c in ref1d(op, n).items():
        o = [0, 0, 0]
        o[d] = k
        out[tuple(o)] = float(c) * scale
    return out


# ---------------------------------------------------------------- operators
def operators():
    ops = []
    for d in range(3):
        # dupD/ddnD are only supported through an upwind control vector (families 3-5)
        ops += [("dD", (d,)), ("dKOD", (d,))]
    for i in range(3):
        for j in range(i, 3):
            ops.append(("dDD", (i, j)))
    return ops


def symname(gf, op, dirs):
    """Name of the derivative symbol: derivative indices follow the component indices."""
    base = gf.rstrip("0123456789")
    comp = gf[len(base) :]
    return f"{base}_{op}{comp}{''.join(map(str, dirs))}"


HEAD = r"""
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define REAL %(ctype)s
#define CCTK_REAL %(ctype)s
#define CCTK_INT int
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_NOINLINE
#define NO_INLINE __attribute__((noinline))
#define restrict __restrict__
%(simdinc)s
#ifndef UPWIND_ALG
#define UPWIND_ALG(UpwindVecU) ((UpwindVecU) > 0.0 ? 1.0 : 0.0)
#endif
#define G %(G)d
#define N0 (8+2*G)
#define N1 (2*G+1)
#define N2 (2*G+1)
#define NPTS (N0*N1*N2)
#define IDX3_(i,j,k) ((i)+N0*((j)+N1*(k)))
#define IDX4(g,i,j,k) ((g)*NPTS+IDX3_(i,j,k))
#define CCTK_GFINDEX3D(cctkGH,i,j,k) IDX3_(i,j,k)
static REAL in_gfs[%(NGF)d*NPTS];
static REAL out[64*8];
#define OUT(k) out[(k)*8+(i0-G)]
struct { int I; int DI[3]; } static p = {0,{1,N0,N0*N1}};
%(gfdefs)s
%(prefunc)s
"""


def kernel_c(infra, simd, gfs, kernels, prefuncs):
    """One C function per kernel."""
    src = ""
    for k, code in enumerate(kernels):
        cst = "REAL_SIMD_ARRAY" if simd else "REAL"
        decl = "".join(f"MAYBE_U const {cst} invdxx{d} = {'ConstSIMD' if simd else ''}({INVDX[d]});\n" for d in range(3))
        step = "simd_width" if simd else "1"
        src += f"static void k{k}(void){{ const int i1=G,i2=G; {decl} for(int i0=G;i0<G+8;i0+={step}){{ p.I=IDX3_(i0,i1,i2);\n{code}\n}} }}\n"
    return src


def setup(infra, order, alt=False):
    """Gridfunctions; the alternative names contain underscores."""
    par.set_parval_from_str("Infrastructure", infra)
    par.set_parval_from_str("fd_order", order)
    gri.glb_gridfcs_dict.clear()
    u, h, v = ("my_u", "h_bDD", "v_etU") if alt else ("uu", "hDD", "vetU")
    gri.register_gridfunctions(u, group="EVOL")
    gri.register_gridfunctions_for_single_rank2(h, symmetry="sym01", group="EVOL")
    gri.register_gridfunctions_for_single_rank1(v, group="EVOL")
    return [u, h + "01", h + "22", v + "0", v + "1", v + "2"]


def gfdefs(infra, gfs):
    s = ""
    for i, g in enumerate(gfs):
        if infra == "BHaH":
            s += f"#define {g.upper()}GF {i}\n"
        elif infra == "ETLegacy":
            s += f"#define {g}GF (in_gfs+{i}*NPTS)\n"
        else:
            s += f"#define {g}GF(idx) in_gfs[{i}*NPTS+(idx)]\n"
    return s


def prefunc_dedupe(prefuncs):
    """Derivative functions of several kernels, each emitted once (identical redefinitions are dropped)."""
    return prefuncs


def job(idx, infra, simd, fdfun, order, fp, golden, mem, scratch):
    """Generate all kernels of one mode, compile, run; returns (violations, evaluations, kernels)."""
    gfs = setup(infra, order, idx % 2 == 1)
    uu, h01, h22 = gfs[:3]
    G = order // 2 + 2
    opts = dict(verbose=False, enable_fd_codegen=True, enable_simd=simd, enable_fd_functions=fdfun, fp_type=fp, enable_GoldenKernels=golden, mem_alloc_style=mem)
    probe = [uu, h01]
    kernels, spec, pre = [], [], {}

    def gen(symbols_expected, exprs, nout, **kw):
        outs = [f"OUT({j})" for j in range(nout)]
        code = c_codegen(exprs, outs, **{**opts, **kw})
        if fdfun:
            for name, f in list(fin.FDFunctions_dict.items()):
                txt = f.CFunction.full_function
                key = (name, txt)
                pre.setdefault(name, txt)
                if pre[name] != txt:
                    raise vf.RepoError(f"derivative function {name} differs between kernels of one mode", "")
        kernels.append(code)
        spec.append(symbols_expected)

    ops = operators()
    # family 1: all raw operators of two gridfunctions in one kernel (no upwinding)
    fam = [(g, op, d) for g in probe for op, d in ops]
    gen([("lin", g, op, d, None) for g, op, d in fam], [sp.Symbol(symname(*f)) for f in fam], len(fam))
    # family 2: each operator alone
    for op, d in ops:
        gen([("lin", h01, op, d, None)], [sp.Symbol(symname(h01, op, d))], 1)
    # family 3: upwinding with a control vector, which also enters the expression
    vet = [sp.Symbol(gfs[3 + d]) for d in range(3)]
    fam3 = [(g, "dupD", (d,)) for g in probe for d in range(3)]
    gen([("up", g, op, d, None) for g, op, d in fam3], [sp.Symbol(symname(*f)) + 0 * vet[0] for f in fam3], len(fam3), upwind_control_vec=vet)
    # family 4: advection-like expressions: the control vector multiplies the derivative
    gen([("adv", g, op, d, None) for g, op, d in fam3], [vet[f[2][0]] * sp.Symbol(symname(*f)) for f in fam3], len(fam3), upwind_control_vec=vet)
    # family 5: nonlinear combinations on generic data, including undifferentiated reads
    S = lambda g, op, *d: sp.Symbol(symname(g, op, d))
    nl = [
        S(uu, "dD", 0) * S(h01, "dDD", 0, 1) - 2 * S(uu, "dDD", 1, 1),
        sp.Symbol(uu) * S(uu, "dD", 1) + sp.Symbol(h22) ** 2 * S(h22, "dKOD", 2),
        S(h22, "dDD", 0, 2) / (sp.Symbol(uu) ** 2 + 2) + vet[1] * S(uu, "dupD", 1) + S(h01, "dupD", 2),
    ]
    gen([("nl", None, None, None, j) for j in range(3)], nl, 3, upwind_control_vec=vet)
    # family 6: gridfunction reads without derivatives
    gen([("nl", None, None, None, 3)], [sp.Symbol(uu) * sp.Symbol(h22) - vet[2]], 1)

    # family 7: control vectors that are expressions with numbers in them
    ctl = [-vet[0], 2 * vet[1] + sp.Rational(1, 4), sp.Rational(3, 7) * vet[2] - vet[0]]
    gen([("nl", None, None, None, 4 + j) for j in range(3)], [S(uu, "dupD", 0) - S(h01, "dD", 1) / 3, vet[1] * S(h01, "dupD", 1), S(uu, "dupD", 2) + 0 * vet[2]], 3, upwind_control_vec=ctl)

    ctype = {"double": "double", "float": "float"}[fp]
    tol = 1e-13 if fp == "double" else 2e-5
    simdinc = f'#include "{vf.REPO}/nrpy/helpers/simd_intrinsics.h"\n' if simd else ""
    simdinc += "#define MAYBE_U __attribute__((unused))\n"
    head = HEAD % dict(ctype=ctype, simdinc=simdinc, G=G, NGF=len(gfs), gfdefs=gfdefs(infra, gfs), prefunc="\n".join(pre.values()))
    src = head + kernel_c(infra, simd, gfs, kernels, pre)
    # driver: linear kernels get impulses, others generic data; results streamed as text
    nouts = [len(s) for s in spec]
    src += "static void (*K[])(void)={" + ",".join(f"k{i}" for i in range(len(kernels))) + "};\n"
    src += "static const int NO[]={" + ",".join(map(str, nouts)) + "};\n"
    src += r"""
static void emit(int k){ for(int o=0;o<NO[k];o++) for(int L=0;L<8;L++){ REAL v=out[o*8+L]; if(v!=0.0) printf("%d %d %.17g\n",o,L,(double)v);} }
static double hashv(int g,int i){ double x=sin(12.9898*(g+1)+0.0371*i)*43758.5453; return 0.5+ (x-floor(x)); }
int main(void){
  const int PG[]={0,1};
  for(int k=0;k<(int)(sizeof NO/sizeof *NO);k++){
    int lin = LIN[k];
    if(lin){
      for(int s=0;s<(lin==2?3:1);s++)   /* sign of the control vector: + - 0 */
      for(int pg=0;pg<2;pg++) for(int q=0;q<NPTS;q++){
        memset(in_gfs,0,sizeof in_gfs); for(int d=0;d<3;d++) for(int i=0;i<NPTS;i++) in_gfs[(3+d)*NPTS+i]= lin==2? (s==0?0.5+d:s==1?-0.25-d:0.0) : 0.0;
        in_gfs[PG[pg]*NPTS+q]=1.0; memset(out,0,sizeof out);
        K[k](); printf("K %d %d %d %d\n",k,s,pg,q); emit(k);
      }
      if(lin==2) /* per-direction mixed signs: impulse along each axis only */
      for(int s=3;s<9;s++) for(int q=0;q<NPTS;q++){
        int a=q%N0,b=(q/N0)%N1,c=q/(N0*N1); if(!((b==G&&c==G)||(a==G+3&&(b==G||c==G)))) continue;
        memset(in_gfs,0,sizeof in_gfs); for(int d=0;d<3;d++) for(int i=0;i<NPTS;i++) in_gfs[(3+d)*NPTS+i]= ((d==(s-3)/2) ^ ((s-3)&1)) ? 0.5 : -0.5;
        in_gfs[q]=1.0; memset(out,0,sizeof out); K[k](); printf("K %d %d %d %d\n",k,s,0,q); emit(k);
      }
    } else {
      for(int i=0;i<NGF*NPTS;i++) in_gfs[i]=hashv(i/NPTS,i%NPTS) - ((i/NPTS)>=3 ? 1.0 : 0.0);
      memset(out,0,sizeof out); K[k](); printf("K %d 0 0 0\n",k); emit(k);
    }
  }
  return 0; }
"""
    lin = [2 if s[0][0] in ("up", "adv") else 1 if s[0][0] == "lin" else 0 for s in spec]
    src = src.replace("int main(void){", f"#define NGF {len(gfs)}\nstatic const int LIN[]={{{','.join(map(str, lin))}}};\nint main(void){{", 1)
    base = os.path.join(scratch, f"c03_{idx}")
    vf.write(base + ".c", src)
    mode = f"{infra} simd={simd} fdfun={fdfun} order={order} {fp} golden={golden} mem={mem}"
    isa = ["-mavx512f", "-mavx512dq", "-mfma"] if simd and order % 4 == 0 else []
    try:
        vf.cc([base + ".c"], base, ["-O1"] + isa)
    except vf.CompileError as e:
        return [(f"compile:{mode}", f"generated kernels do not compile in mode {mode}: {str(e)[-900:]}")], 0, len(kernels)
    pr = vf.run([base])
    if pr.returncode != 0:
        return [(f"crash:{mode}", f"kernel crashed in mode {mode} (rc={pr.returncode})")], 0, len(kernels)
    bad, nev = [], 0
    N0, N1 = 8 + 2 * G, 2 * G + 1

    def hashv(g, i):
        x = math.sin(12.9898 * (g + 1) + 0.0371 * i) * 43758.5453
        v = 0.5 + (x - math.floor(x))
        return v - (1.0 if g >= 3 else 0.0)

    refs = {}

    def ref(op, d):
        if (op, d) not in refs:
            refs[(op, d)] = ref3d(op, d, order)
        return refs[(op, d)]

    def flush(k, s, pg, q, got):
        nonlocal nev
        if spec[k][0][0] == "nl":
            return flush_nl(k, got)
        a, b, c = q % N0, (q // N0) % N1, q // (N0 * N1)
        for o, (kind, g, op, d, _) in enumerate(spec[k]):
            for L in range(8):
                nev += 1
                off = (a - (G + L), b - G, c - G)
                want = 0.0
                mag = 1.0
                if g == probe[pg]:
                    if kind == "lin":
                        want = ref(op, d).get(off, 0.0)
                    else:
                        vd = (0.5 + d[0], -0.25 - d[0], 0.0)[s] if s < 3 else (0.5 if ((d[0] == (s - 3) // 2) ^ ((s - 3) & 1 == 1)) else -0.5)
                        want = ref("dupD" if vd > 0 else "ddnD", d).get(off, 0.0)
                        if kind == "adv":
                            want *= vd
                v = got.get((o, L), 0.0)
                if not abs(v - want) <= tol * 30 * max(1.0, abs(want)):
                    if len(bad) < 6:
                        bad.append((f"{mode} kernel{k} {g} {op}{d} offset{off} s={s}", f"{mode}: output {symname(g, op, d)} of kernel {k}, impulse in {probe[pg]} at offset {off}, control sign case {s}: got {v!r}, want {want!r}"))

    def deriv(g, op, d, L):
        gi = gfs.index(g)
        return sum(c * float(hashv_f(gi, (G + L + o[0]) + N0 * ((G + o[1]) + N1 * (G + o[2])))) for o, c in ref(op, d).items())

    def hashv_f(g, i):
        v = hashv(g, i)
        return v

    def flush_nl(k, got):
        nonlocal nev
        for o, (_, _, _, _, j) in enumerate(spec[k]):
            for L in range(8):
                nev += 1
                V = lambda g: hashv_f(gfs.index(g), (G + L) + N0 * (G + N1 * G))
                D = lambda g, op, *d: deriv(g, op, d, L)
                up = lambda g, dd: D(g, "dupD" if V(gfs[3 + dd]) > 0 else "ddnD", dd)
                upc = lambda g, dd, c: D(g, "dupD" if c > 0 else "ddnD", dd)
                want = [
                    lambda: D(uu, "dD", 0) * D(h01, "dDD", 0, 1) - 2 * D(uu, "dDD", 1, 1),
                    lambda: V(uu) * D(uu, "dD", 1) + V(h22) ** 2 * D(h22, "dKOD", 2),
                    lambda: D(h22, "dDD", 0, 2) / (V(uu) ** 2 + 2) + V(gfs[4]) * up(uu, 1) + up(h01, 2),
                    lambda: V(uu) * V(h22) - V(gfs[5]),
                    lambda: upc(uu, 0, -V(gfs[3])) - D(h01, "dD", 1) / 3,
                    lambda: V(gfs[4]) * upc(h01, 1, 2 * V(gfs[4]) + 0.25),
                    lambda: upc(uu, 2, 3 * V(gfs[5]) / 7 - V(gfs[3])),
                ][j]()
                v = got.get((o, L), 0.0)
                if not abs(v - want) <= tol * 3e4 * max(1.0, abs(want)):
                    if len(bad) < 6:
                        bad.append((f"{mode} combination {j}", f"{mode}: combined expression {j} lane {L}: got {v!r}, want {want!r}"))

    cur, got = None, {}
    for ln in pr.stdout.splitlines():
        f = ln.split()
        if f[0] == "K":
            if cur:
                flush(*cur, got)
            cur, got = tuple(map(int, f[1:])), {}
        else:
            got[(int(f[0]), int(f[1]))] = float(f[2])
    flush(*cur, got)
    os.unlink(base)
    os.unlink(base + ".c")
    return bad, nev, len(kernels)


def control_vec_only_in_switch(infra, simd, scratch):
    """The control vector appears nowhere but in the upwind switch: the kernel must still read it."""
    setup(infra, 4)
    vet = [sp.Symbol(f"vetU{d}") for d in range(3)]
    gfs = ["uu", "hDD01", "hDD22", "vetU0", "vetU1", "vetU2"]
    code = c_codegen([sp.Symbol("uu_dupD1")], ["OUT(0)"], verbose=False, enable_fd_codegen=True, enable_simd=simd, upwind_control_vec=vet)
    simdinc = (f'#include "{vf.REPO}/nrpy/helpers/simd_intrinsics.h"\n' if simd else "") + "#define MAYBE_U __attribute__((unused))\n"
    src = HEAD % dict(ctype="double", simdinc=simdinc, G=4, NGF=6, gfdefs=gfdefs(infra, gfs), prefunc="") + kernel_c(infra, simd, gfs, [code], {}) + "int main(void){k0();return 0;}\n"
    f = vf.write(f"{scratch}/cv_{infra}_{simd}.c", src)
    try:
        vf.cc([f], f[:-2])
    except vf.CompileError as e:
        return str(e)[-600:]
    return ""


def body(chk):
    # direct stencil tables for every operator, including the fully one-sided ones
    for n in range(2, 14 if chk.thorough else 12, 2):
        for op in ("dD", "dupD", "ddnD", "dfullupD", "dfulldnD", "dKOD"):
            for d in range(3):
                c, s = fin.compute_fdcoeffs_fdstencl(f"{op}{d}", n)
                check_table(chk, op, (d,), n, c, s)
        if n <= 12:
            for i in range(3):
                for j in range(3):
                    c, s = fin.compute_fdcoeffs_fdstencl(f"dDD{i}{j}", n)
                    check_table(chk, "dDD", (i, j), n, c, s)
    chk.note("tables done")
    modes = []
    orders = (2, 4, 6, 8, 10) if chk.thorough else (2, 4, 6)
    for order in orders:
        for infra in ("BHaH", "ETLegacy", "CarpetX"):
            for simd, fdfun, fp, golden, mem in itertools.product((False, True), (False, True), ("double", "float"), (False, True), ("210", "012")):
                if simd and fp != "double":
                    continue
                if not chk.thorough:
                    if (mem == "012" or golden) and (order != 4 or infra != "BHaH"):
                        continue
                    if fp == "float" and order != 4:
                        continue
                    if order == 6 and infra != "BHaH" and (golden or fdfun != simd):
                        continue
                if chk.thorough and order >= 8 and (mem == "012" or (golden and infra != "BHaH")):
                    continue
                modes.append((len(modes), infra, simd, fdfun, order, fp, golden, mem, chk.scratch))
    if not chk.thorough:
        modes += [(len(modes), "BHaH", False, True, 8, "double", False, "210", chk.scratch)]
    modes.sort(key=lambda m: -m[4])
    for i in ("BHaH", "ETLegacy", "CarpetX"):
        for simd in (False, True):
            err = vf.forked(control_vec_only_in_switch, i, simd, chk.scratch)
            chk.count("evaluations")
            if err:
                chk.violation(f"control-vector-unread:{i}:{simd}", f"upwind control vector that occurs only in the switch is not read from memory: {err}", {"infrastructure": i, "simd": simd})
    chk.note(f"{len(modes)} modes")
    for m, (bad, nev, nk) in zip(modes, vf.pmap(job, modes, timeout=850)):
        chk.count("evaluations", nev)
        chk.count("kernels", nk)
        chk.count("modes")
        for key, what in bad:
            chk.violation(key, what, {"mode": m[1:8], "case": key})
    chk.counters["distinct"] = chk.counters.get("kernels", 0)
    chk.sample([str(m[1:8]) for m in modes[:6]])


def check_table(chk, op, dirs, n, coeffs, stencl):
    want = {}
    if op == "dDD" and dirs[0] != dirs[1]:
        a = ref1d("dD", n)
        for (k1, c1), (k2, c2) in itertools.product(a.items(), a.items()):
            o = [0, 0, 0]
            o[dirs[0]], o[dirs[1]] = k1, k2
            want[tuple(o)] = c1 * c2
    else:
        for k, c in ref1d(op, n).items():
            o = [0, 0, 0]
            o[dirs[0]] = k
            want[tuple(o)] = c
    got = {}
    for c, s in zip(coeffs, stencl):
        got[tuple(s)] = got.get(tuple(s), Fraction(0)) + Fraction(int(c.p), int(c.q))
    got = {k: v for k, v in got.items() if v != 0}
    chk.count("evaluations", len(want))
    if got != want:
        chk.violation(f"table:{op}{dirs} order {n}", f"stencil table of {op}{dirs} at order {n}: got {got}, want {want}", {"op": op, "dirs": dirs, "order": n})


if __name__ == "__main__":
    vf.main("C03", "exploration", "kernels (mode x expression family), each decided by its complete impulse response", body)
