"""C01: every generated C kernel computes the symbolic expressions it was generated from.

Bounded-exhaustive: all expressions of three grammars x all option combinations are
passed through the real generator, the emitted C is compiled and run, and each output of
each kernel is compared on 8 points with an independent evaluator of the expression.
"""

import itertools
import math
import os

import sympy as sp

import vf
from exprspace import _WIDE, POINTS, NAMES, SKIP, evaluate, grammar_sums, grammar_trees, grammar_lists, grammar_rationals, grammar_specials

import nrpy.grid as gri
import nrpy.params as par
from nrpy.c_codegen import c_codegen

SIMD_EXTRA = r"""
#include <math.h>
typedef REAL_SIMD_ARRAY VEC;
#define VF_UN(nm, f) static inline VEC nm(VEC x) { double t[simd_width]; WriteSIMD(t, x); for(int i=0;i<simd_width;i++) t[i]=f(t[i]); return ReadSIMD(t); }
static inline double vf_sign(double x) { return (x>0)-(x<0); }
#if simd_width > 1
VF_UN(_mm512_exp_pd, exp) VF_UN(_mm512_sin_pd, sin) VF_UN(_mm512_cos_pd, cos)
VF_UN(_mm256_exp_pd, exp) VF_UN(_mm256_sin_pd, sin) VF_UN(_mm256_cos_pd, cos)
VF_UN(_mm_exp_pd, exp) VF_UN(_mm_sin_pd, sin) VF_UN(_mm_cos_pd, cos)
#endif
#ifndef CbrtSIMD
VF_UN(CbrtSIMD, cbrt)
#endif
#ifndef LogSIMD
VF_UN(LogSIMD, log)
#endif
#ifndef SignSIMD
VF_UN(SignSIMD, vf_sign)
#endif
#ifndef PowSIMD
static inline VEC PowSIMD_(VEC x, VEC y) { double t[simd_width], u[simd_width]; WriteSIMD(t, x); WriteSIMD(u, y); for(int i=0;i<simd_width;i++) t[i]=pow(t[i],u[i]); return ReadSIMD(t); }
#endif
"""

TYPES = {"double": ("double", "%.17g", 2e-15), "float": ("float", "%.9g", 1e-6), "long double": ("long double", "%.20Lg", 2e-15)}


def option_sets(thorough):
    scalar = []
    for fp in ("double", "float", "long double"):
        for cse in (True, False):
            for pre in ((False, True) if cse else (False,)):
                for prefix in (("", "q") if cse else ("",)):
                    scalar.append(dict(fp_type=fp, enable_cse=cse, enable_cse_preprocess=pre, cse_varprefix=prefix))
        scalar.append(dict(fp_type=fp, enable_GoldenKernels=True))
        scalar.append(dict(fp_type=fp, cse_sorting="none"))
    simd = []
    for subs in (False, True):
        for fma in (True, False):
            for pre in (False, True):
                simd.append(dict(enable_simd=True, simd_find_more_subs=subs, simd_find_more_FMAsFMSs=fma, enable_cse_preprocess=pre))
    simd.append(dict(enable_simd=True, enable_GoldenKernels=True, cse_varprefix="q"))
    simd.append(dict(enable_simd=True, simd_clean_NegativeOnes_after_processing=True))
    simd.append(dict(enable_simd=True, simd_clean_NegativeOnes_after_processing=True, simd_find_more_subs=True, cse_varprefix="q"))
    # expressions that read no gridfunction, in a kernel generated with finite differencing on
    scalar.append(dict(enable_fd_codegen=True))
    simd.append(dict(enable_simd=True, enable_fd_codegen=True))
    simd.append(dict(enable_simd=True, enable_fd_codegen=True, enable_cse=False))
    return scalar, simd


def codegen_batch(idx, exprlists, kw, workdir, isa_flags):
    """Generate, compile, run one batch; return list of (expr-string, what) violations + counts."""
    par.set_parval_from_str("Infrastructure", "BHaH")
    simd = kw.get("enable_simd", False)
    ctype, fmt, tol = TYPES[kw.get("fp_type", "double")]
    funcs = []
    ren = kw.get("postproc_substitution_dict", {})
    for k, exprs in enumerate(exprlists):
        syms = sorted({str(s) for e in exprs for s in e.free_symbols})
        outs = [f"o{j}" for j in range(len(exprs))]
        gen, gouts, opts = list(exprs), list(outs), dict(kw)
        if opts.pop("scalar_tmp", False):
            # T := first expression; the others refer to it by name
            T = sp.Symbol("TT", real=True)
            gen = [exprs[0]] + [e.xreplace({exprs[0]: T}) if exprs[0].free_symbols else e for e in exprs[1:]] + [T]
            gouts = ["TT"] + outs[1:] + ["o0"]
            opts.update(SCALAR_TMP_varnames=["TT"], SCALAR_TMP_sympyexprs=[T])
        fd = opts.get("enable_fd_codegen", False)
        if fd and "vfq" not in gri.glb_gridfcs_dict:
            gri.register_gridfunctions("vfq", group="EVOL")
        if fd:  # results go straight to memory
            gouts = [f"out[{j}*8+L]" for j in range(len(outs))]
        code = c_codegen(gen if len(gen) > 1 else gen[0], gouts if len(gouts) > 1 else gouts[0], verbose=len(gen) > 1, include_braces=True, **opts)
        n = len(exprs)
        if simd:
            decl = "".join(f"const REAL_SIMD_ARRAY {s}{ren.get(s,'')} = ReadSIMD(&v[{NAMES.index(s)}*8+L]);" for s in syms)
            body = f"for(int L=0;L<8;L+=simd_width){{{decl} REAL_SIMD_ARRAY {','.join(outs)};\n{code}\n" + "".join(f"WriteSIMD(&out[{j}*8+L],{o});" for j, o in enumerate(outs) if not fd) + "}"
        else:
            decl = "".join(f"const REAL {s}{ren.get(s,'')} = v[{NAMES.index(s)}*8+L];" for s in syms)
            body = f"for(int L=0;L<8;L++){{{decl} REAL {','.join(outs)};\n{code}\n" + "".join(f"out[{j}*8+L]={o};" for j, o in enumerate(outs) if not fd) + "}"
        funcs.append(f"static void f{k}(const REAL *v, REAL *out){{{body}}}\n")
    vals = ",".join(repr(POINTS[s][L]) + ("L" if ctype == "long double" else "") for s in NAMES for L in range(8))
    hdr = f"#define _GNU_SOURCE\n#define REAL {ctype}\n#include <math.h>\n#include <stdio.h>\n"
    if simd:
        hdr += f'#include "{vf.REPO}/nrpy/helpers/simd_intrinsics.h"\n' + SIMD_EXTRA
        hdr += "#ifndef PowSIMD\n#define PowSIMD(a,b) PowSIMD_(a, b)\n#endif\n"
    main = f"static const REAL V[]={{{vals}}};\nint main(void){{ REAL o[8*4];\n"
    for k, exprs in enumerate(exprlists):
        main += f'f{k}(V,o); for(int i=0;i<8*{len(exprs)};i++) printf("{fmt}\\n", o[i]);\n'
    main += "return 0;}\n"
    base = os.path.join(workdir, f"b{idx}")
    src = vf.write(base + ".c", hdr + "".join(funcs) + main)
    bad = []
    try:
        vf.cc([src], base, ["-O0", "-mfma", "-mavx512f", "-mavx512dq"] if isa_flags == "avx512" else ["-O0"] + list(isa_flags))
    except vf.CompileError as e:
        if len(exprlists) == 1:
            return [(str(exprlists[0]), kw, "generated C does not compile: " + str(e)[-600:])], 0, 0
        h = len(exprlists) // 2
        r1 = codegen_batch(f"{idx}l", exprlists[:h], kw, workdir, isa_flags)
        r2 = codegen_batch(f"{idx}r", exprlists[h:], kw, workdir, isa_flags)
        return r1[0] + r2[0], r1[1] + r2[1], r1[2] + r2[2]
    p = vf.run([base])
    os.unlink(base)
    os.unlink(src)
    if p.returncode != 0:
        return [("batch", kw, f"generated kernels crashed: rc={p.returncode}")], 0, 0
    got = p.stdout.split()
    pos = nev = nsk = 0
    for exprs in exprlists:
        for e in exprs:
            for L in range(8):
                g = float(got[pos])
                pos += 1
                r = evaluate(e, L)
                if r is SKIP:
                    nsk += 1
                    continue
                v, mag = r
                nev += 1
                if not abs(g - v) <= tol * 40 * (mag + 1e-3):
                    bad.append((str(exprs), kw, f"output {e} at lane {L}: C gives {g!r}, expression is {v!r}"))
                    break
    return bad, nev, nsk


def body(chk):
    scalar, simd = option_sets(chk.thorough)
    sums = grammar_sums(4 if chk.thorough else 3, both_orders=True)
    trees, trees_simd = grammar_trees(chk.thorough)
    lists = grammar_lists(chk.thorough)
    specials = grammar_specials()
    if not chk.thorough:
        sums4 = grammar_sums(4, both_orders=False, exact=4, shapes=("s", "st", "2s"))
        sums = sums + sums4
    sums = sums + grammar_sums(3, both_orders=False, exact=3, shapes=_WIDE) + grammar_sums(5, both_orders=chk.thorough, exact=5, shapes=("s", "st", "s/t"))
    chk.note(f"sums={len(sums)} trees={len(trees)}/{len(trees_simd)} lists={len(lists)} specials={len(specials)}")
    jobs = []
    B = 400

    def add(space, kw, isa):
        for i in range(0, len(space), B):
            jobs.append((len(jobs), space[i : i + B], kw, chk.scratch, isa))

    one = lambda L: [[e] for e in L]
    ren = {"postproc_substitution_dict": {"a": "_x", "c": "_yy"}}
    for base in ({}, {"enable_cse": False}, {"enable_simd": True}):
        add(lists, {**base, **ren}, ())
    pre = {"prestring": "const int vf_pre = 0;\n", "poststring": "(void)vf_pre;\n"}
    for base in ({}, {"enable_cse": False}, {"enable_simd": True}):
        add(lists[:40], {**base, **pre}, ())
    for base in ({}, {"fp_type": "float"}, {"enable_simd": True}):
        add(lists, {**base, "scalar_tmp": True}, ())
    rationals = grammar_rationals()
    for n, kw in enumerate(simd + scalar):
        if chk.thorough or n in (0, 3, 4, 8, 9, 11, 14, 16, 18, 22):
            add(one(rationals), kw, ())
    for n, kw in enumerate(simd):
        isa = "avx512" if n % 2 == 0 else ("-DVF_SCALAR", "-U__SSE2__")
        add(one(sums), kw, isa)
        if chk.thorough or n in (0, 3, 8, 10):
            add(one(trees_simd), kw, isa)
        add(lists if chk.thorough or n in (0, 3, 8) else lists[::3], kw, isa)
    for n, kw in enumerate(scalar):
        add(one(trees if chk.thorough or n in (0, 2, 4) else trees_simd[::3]), kw, ())
        add(one(sums if chk.thorough or n in (0, 2) else sums[::9]), kw, ())
        add(lists if chk.thorough or n in (0, 1, 2) else lists[::4], kw, ())
        add(one(specials), kw, ())
    chk.note(f"{len(jobs)} batches")
    nk = 0
    for (_, space, kw, _, _), (bad, nev, nsk) in zip(jobs, vf.pmap(codegen_batch, jobs, timeout=800)):
        chk.count("kernels", len(space))
        chk.count("evaluations", nev)
        chk.count("points_outside_domain", nsk)
        nk += len(space)
        for e, k, what in bad:
            chk.violation(f"{e} :: {sorted(k.items())}"[:300], what, {"expression": e, "options": k})
    for e in (sums[:2] + trees[:2] + trees_simd[-2:]):
        chk.sample(str(e))
    chk.counters["distinct"] = len(set(map(str, sums)) | set(map(str, trees)) | set(map(str, trees_simd))) + len(lists) + len(specials) + len(rationals)
    chk.counters["option_sets"] = len(scalar) + len(simd)
    chk.counters["states"] = nk
    chk.counters["transitions"] = chk.counters["evaluations"]


if __name__ == "__main__":
    vf.main("C01", "exploration", "distinct expressions (canonical form) compiled and evaluated at in-domain points", body)
