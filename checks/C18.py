"""C18: generated projects are complete and wrappers dispatch to the right function.

Enumerated: every parameter list of a bounded grammar (all ordered choices of up to two of eleven
kinds of parameter around the mandatory params_struct pointer, quick: up to one plus all pairs of
adjacent kinds), on pairs/triples of coordinate systems covering all of them; and every project of
a list of layouts (subdirectories x include options x executable / static / shared library).
Each project is built with its own Makefile and run; the program prints what every function
received, compared with what was passed.
"""

import itertools
import os
import re
import subprocess

import bhah
import vf

import nrpy.c_function as cfc
import nrpy.params as par
import nrpy.reference_metric as refmetric

# kind -> (declaration of NAME, expression passed by the caller, code printing what was received)
KINDS = {
    "common": ("const commondata_struct *restrict commondata", "&cd", 'printf(" cd=%d", (int)commondata->vf_id);'),
    "real": ("const REAL NAME", "3.25", 'printf(" r=%g", (double)NAME);'),
    "int": ("int NAME", "42", 'printf(" i=%d", NAME);'),
    "ptr": ("REAL *restrict NAME", "arr", 'printf(" p=%d", (int)(NAME - vf_arr));'),
    "star": ("REAL* NAME", "arr + 3", 'printf(" q=%d", (int)(NAME - vf_arr));'),
    "bare": ("REAL*NAME", "arr + 5", 'printf(" b=%d", (int)(NAME - vf_arr));'),
    "xx": ("REAL *restrict NAME[3]", "xxp", 'printf(" xx=%d,%d", (int)(NAME[0] - vf_arr), (int)(NAME[2] - vf_arr));'),
    "cart": ("const REAL NAME[3]", "cart", 'printf(" c=%g", (double)NAME[2]);'),
    "sized": ("const int NAME[NGHOSTS]", "ints", 'printf(" s=%d", NAME[1]);'),
    "mat": ("REAL NAME[2][3]", "mat", 'printf(" m=%g", (double)NAME[1][2]);'),
    "expr": ("const REAL NAME[2*vf_len]", "cart + 1", 'printf(" e=%g", (double)NAME[1]);'),
    "fn": ("void NAME(const REAL a, REAL *b)", "vf_cb", '{ REAL o; NAME(2.0, &o); printf(" f=%g", (double)o); }'),
    "fptr": ("REAL (*NAME)(const REAL a, int k)", "vf_cb2", 'printf(" g=%g", (double)NAME(1.5, 4));'),
    "char": ("char const *restrict NAME", '"a,b(c)"', 'printf(" t=%s", NAME);'),
    "struct": ("const params_struct *restrict NAME", "&pa2", 'printf(" o=%d", (int)NAME->vf_gid);'),
}
GLOBALS = """
#define vf_len 3
static REAL vf_arr_store[64];
#define vf_arr vf_arr_ptr()
REAL *vf_arr_ptr(void);
"""


def lists(thorough):
    """Parameter lists: tuples of kinds, with 'params' somewhere."""
    ks = [k for k in KINDS if k != "expr"] + ["expr"]
    out = [("params",)]
    for k in ks:
        out += [("params", k), (k, "params")]
    for i, k in enumerate(ks):
        pairs = [m for m in ks if m != k] if thorough else [ks[(i + 1) % len(ks)], ks[(i + 5) % len(ks)]]
        for m in pairs:
            out += [("params", k, m), (k, "params", m), (k, m, "params")]
    # same kind twice (two functions, two arrays, ...)
    for k in ks:
        if k != "common":
            out += [("params", k, k), (k, "params", k)]
    out += [("common", "params", "fn", "real", "fn"), ("common", "params", "fptr", "int", "fn", "xx"), ("common", "params", "xx", "real", "cart", "sized", "ptr", "mat")]
    return out


def decls(lst, style):
    d, recv, send = [], [], []
    for i, k in enumerate(lst):
        if k == "params":
            d.append("const params_struct *restrict params")
            recv.append('printf(" P=%d", (int)params->vf_gid);')
            send.append("PA")
            continue
        n = "commondata" if k == "common" else f"{k}_{i}"
        dec, val, rec = KINDS[k]
        d.append(dec.replace("NAME", n))
        recv.append(rec.replace("NAME", n))
        send.append(val)
    sep = {0: ", ", 1: ",\n    ", 2: ","}[style % 3]
    return sep.join(d), recv, send


EXPECT = {"common": " cd=7", "real": " r=3.25", "int": " i=42", "ptr": " p=0", "star": " q=3", "bare": " b=5", "xx": " xx=1,9", "cart": " c=12", "sized": " s=22", "mat": " m=6", "expr": " e=12", "fn": " f=20", "fptr": " g=6", "char": " t=a,b(c)", "struct": " o=99"}


def wrap_project(lsts, systems, d):
    """One project: function k takes parameter list k, specialised for every system."""
    bhah.start(2)
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng  # pylint: disable=import-outside-toplevel

    os.makedirs(d)
    par.register_CodeParameter("int", "vf", "vf_id", 7, commondata=True)
    par.register_CodeParameter("int", "vf", "vf_gid", 0, commondata=False)
    par.register_CodeParameter("int", "vf", "CoordSystem_hash", commondata=False, add_to_parfile=False)
    Bd.register_BHaH_defines("vf", "#define vf_len 3\nREAL *vf_arr_ptr(void);\n#define vf_arr vf_arr_ptr()\n#ifndef NGHOSTS\n#define NGHOSTS 3\n#endif\n")
    Bd.register_BHaH_defines("numerical_grids_and_timestep", "typedef struct { int dummy; } vf_dummy_struct;\n")
    _ = (MoL, ng)
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    subs = [".", "sub", "a/b", "CartesianTools"]
    calls, expect = [], []
    for k, lst in enumerate(lsts):
        dec, recv, send = decls(lst, k)
        use = systems if k % 3 else systems[: max(1, len(systems) - 1)]
        # registration order must not matter
        for cs in use if k % 2 else use[::-1]:
            cfc.register_CFunction(subdirectory=subs[k % 4], includes=inc, desc=f"f{k}", name=f"vf_f{k}", params=dec, CoordSystem_for_wrapper_func=cs, include_CodeParameters_h=False, body=f'printf("f{k} {cs}"); ' + " ".join(recv) + ' printf("\\n");')
        for gi, cs in enumerate(use):
            calls.append(f"vf_f{k}(" + ", ".join(f"&pa[{systems.index(cs)}]" if s == "PA" else s for s in send) + ");")
            expect.append(f"f{k} {cs}" + "".join(f" P={systems.index(cs)}" if q == "params" else EXPECT[q] for q in lst))
        if len(use) < len(systems):
            missing = systems.index([c for c in systems if c not in use][0])
            calls.append(f"if (argc > 1 && atoi(argv[1]) == {k}) vf_f{k}(" + ", ".join(f"&pa[{missing}]" if s == "PA" else s for s in send) + ");")
    nospec = [k for k in range(len(lsts)) if k % 3 == 0 and len(systems) > 1]
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions as rw  # pylint: disable=import-outside-toplevel

    main = "commondata_struct cd; params_struct pa[32]; params_struct pa2; memset(&cd, 0, sizeof cd); memset(pa, 0, sizeof pa); memset(&pa2, 0, sizeof pa2); cd.vf_id = 7; pa2.vf_gid = 99;\n"
    for i, cs in enumerate(systems):
        main += f"pa[{i}].vf_gid = {i}; pa[{i}].CoordSystem_hash = {cs.upper()};\n"
    main += "REAL *arr = vf_arr; REAL *xxp[3] = {arr + 1, arr + 4, arr + 9}; REAL cart[8] = {10, 11, 12, 13}; int ints[8] = {21, 22, 23}; REAL mat[2][3] = {{1, 2, 3}, {4, 5, 6}};\n"
    main += "\n".join(calls) + "\nreturn 0;\n"
    cfc.register_CFunction(includes=inc, prefunc="static REAL store[64];\nREAL *vf_arr_ptr(void) { return store; }\nstatic void vf_cb(const REAL a, REAL *b) { *b = 10 * a; }\nstatic REAL vf_cb2(const REAL a, int k) { return a * k; }\n", desc="main", cfunc_type="int", name="main", params="int argc, char *argv[]", body=main)
    before = set(cfc.CFunction_dict)
    bhah.finish(d, "vfproj")
    _ = rw
    # wrappers live where the interface says: <subdirectory>/name
    places = {k: subs[k % 4] for k in range(len(lsts))}
    missing = [f"{places[k]}/vf_f{k}.c" for k in range(len(lsts)) if not os.path.exists(os.path.join(d, places[k], f"vf_f{k}.c"))]
    return expect, nospec, sorted(before), sorted(cfc.CFunction_dict), missing


def make(d):
    return subprocess.run(["make", "-j2", "CFLAGS=-std=gnu99 -O0 -w"], cwd=d, capture_output=True, text=True, check=False)


def symbols(f):
    out = subprocess.run(["nm", "--defined-only", f], capture_output=True, text=True, check=False).stdout
    return [ln.split()[-1] for ln in out.splitlines() if len(ln.split()) == 3 and ln.split()[1] == "T"]


def one_wrap(lsts, systems, d):
    st = vf.pmap_raw(wrap_project, [(lsts, systems, d)])[0]
    if st[0] != "ok":
        return [("wrap:raise:" + str(lsts)[:80], str(st[1])[-1500:])], 0
    expect, nospec, _, names, misplaced = st[1]
    probs = []
    for m in misplaced[:2]:
        probs.append(("wrap:place", f"the wrapper is not written at {m}"))
    r = make(d)
    if r.returncode:
        bad = re.findall(r"(?m)^[^\n]*error[^\n]*", r.stderr)
        return probs + [("wrap:build:" + "|".join(sorted({re.sub(r".*vf_f(\d+).*", r"\1", b) for b in bad}))[:60], f"the project does not build: {bad[:3]} parameter lists {lsts[:3]}")], 0
    p = subprocess.run([os.path.join(d, "vfproj")], capture_output=True, text=True, check=False)
    got = p.stdout.splitlines()
    if p.returncode or got != expect:
        k = next((i for i, (a, b) in enumerate(zip(got + [""] * len(expect), expect)) if a != b), len(expect))
        probs.append((f"wrap:dispatch:{expect[k][:60] if k < len(expect) else 'extra'}", f"expected '{expect[k] if k < len(expect) else ''}', got '{got[k] if k < len(got) else ''}' (exit {p.returncode})"))
    for k in nospec:
        p = subprocess.run([os.path.join(d, "vfproj"), str(k)], capture_output=True, text=True, check=False)
        if p.returncode == 0 or "ERROR" not in p.stderr:
            probs.append((f"wrap:unknown:{k}", f"calling wrapper vf_f{k} for a grid without specialisation was not refused"))
    syms = symbols(os.path.join(d, "vfproj"))
    for n in names:
        if syms.count(n) != 1:
            probs.append((f"wrap:symbols:{n}", f"{n} is defined {syms.count(n)} times in the program"))
    return probs, len(expect) + len(nospec)


# ------------------------------------------------------------------ layouts
SUBDIRS = (".", "", "sub", "./x//y/", "a/b/c", "v1.core", "Up.Case")
DECOS = ("", "__attribute__((noinline))")


def layout_project(spec, d):
    """spec: (list of (subdir, code params, prefunc, type, deco, simd include), mode, prefix)."""
    funcs, mode, ext = spec
    bhah.start(2)
    from nrpy.infrastructures.BHaH import Makefile_helpers as Mk  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import CodeParameters as CPs  # pylint: disable=import-outside-toplevel

    os.makedirs(d)
    par.register_CodeParameter("REAL", "vf", "vf_a", 2.5, commondata=False)
    par.register_CodeParameter("int", "vf", "vf_b", 4, commondata=True)
    Bd.register_BHaH_defines("vf", "#ifndef NGHOSTS\n#define NGHOSTS 3\n#endif\n")
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    n = len(funcs)
    expect = []
    for k, (sub, cps, pre, typ, deco) in enumerate(funcs):
        body = f'printf("g{k} %g %d"' + (", (double)vf_a, vf_b" if cps else ", 0.0, 0") + ");\n"
        expect.append(f"g{k} " + ("2.5 4" if cps else "0 0") + (f" h{k}" if pre else "") + (f" t{k}" if pre > 1 else ""))
        if pre:
            body += "helper();\n"
        if pre > 1:
            body += "after();\n"
        body += 'printf("\\n");\n'
        if k + 1 < n:
            body += f"vf_g{k + 1}(commondata, params);\n"
        if typ != "void":
            body += f"return ({typ}){k + 1};\n"
        prefunc = f'static void helper(void) {{ printf(" h{k}"); }}\n' if pre else ""
        if pre > 1:
            prefunc += "static void after(void);\n"
        cfc.register_CFunction(subdirectory=sub, includes=inc + (["<errno.h>"] if pre else []), prefunc=prefunc, postfunc=f'static void after(void) {{ printf(" t{k}"); }}\n' if pre > 1 else "", desc=f"g{k}: {typ}", cfunc_decorators=deco, cfunc_type=typ, name=f"vf_g{k}", params="const commondata_struct *restrict commondata, const params_struct *restrict params", include_CodeParameters_h=cps, body=body)
    mainb = "commondata_struct cd; params_struct pa; memset(&cd, 0, sizeof cd); memset(&pa, 0, sizeof pa); commondata_struct_set_to_default(&cd); params_struct_set_to_default(&cd, &pa_wrap(&pa)[0]);\n"
    mainb = "commondata_struct cd; memset(&cd, 0, sizeof cd); params_struct pa; memset(&pa, 0, sizeof pa); cd.vf_b = 4; pa.vf_a = 2.5; vf_g0(&cd, &pa); return 0;\n"
    if mode == "exe":
        cfc.register_CFunction(includes=inc, desc="main", cfunc_type="int", name="main", params="int argc, char *argv[]", body=mainb)
    else:
        vf.write(os.path.join(d, "user", "user.c"), '#include "../BHaH_defines.h"\n#include "../BHaH_function_prototypes.h"\nint main(void) {' + mainb + "}\n")
    CPs.write_CodeParameters_h_files(project_dir=d)
    Bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False)
    Mk.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="vfproj", exec_or_library_name={"exe": "", "static": "libvf", "shared": "libvf.so"}[mode], create_lib=mode != "exe", static_lib=mode == "static", src_code_file_ext=ext, CC="g++" if ext != "c" else "autodetect", addl_CFLAGS=["-DVF=1"])
    return expect, sorted(cfc.CFunction_dict)


def one_layout(spec, d):
    st = vf.pmap_raw(layout_project, [(spec, d)])[0]
    if st[0] != "ok":
        return [("layout:raise:" + str(spec)[:100], str(st[1])[-1500:])], 0
    expect, names = st[1]
    funcs, mode, _ext = spec
    key = f"{mode}:{[f[0] for f in funcs]}"
    r = subprocess.run(["make", "-j2"], cwd=d, capture_output=True, text=True, check=False)
    if r.returncode:
        return [("layout:build:" + key, f"make fails for {spec}: {(r.stdout + r.stderr)[-600:]}")], 0
    art = {"exe": "vfproj", "static": "libvf.a", "shared": "libvf.so"}[mode]
    exe = os.path.join(d, "vfproj")
    if mode != "exe":
        exe = vf.cc([os.path.join(d, "user", "user.c"), os.path.join(d, art)], os.path.join(d, "user", "u"), base=["-std=gnu99", "-w"], flags=["-Wl,-rpath," + d])
    syms = symbols(os.path.join(d, art))
    probs = [(f"layout:symbols:{key}:{n}", f"{n} is defined {syms.count(n)} times in {art}") for n in names if syms.count(n) != 1]
    p = subprocess.run([exe], capture_output=True, text=True, check=False)
    if p.returncode or p.stdout.splitlines() != expect:
        probs.append(("layout:run:" + key, f"{spec}: expected {expect}, got {p.stdout.splitlines()} (exit {p.returncode})"))
    return probs, len(expect)


def layouts(thorough):
    out = []
    typ = ("void", "int", "double")
    # each subdirectory with each option, as a chain of three functions in different places
    for i, s in enumerate(SUBDIRS):
        for j, t in enumerate(SUBDIRS):
            if not thorough and (i + j) % 3:
                continue
            fs = [(s, bool(j % 2), i % 3, typ[(i + j) % 3], DECOS[j % 2]), (t, True, j % 3, typ[i % 3], DECOS[i % 2]), (s, False, 2, "void", "")]
            for mode in ("exe", "static", "shared") if thorough else (("exe", "static", "shared")[(i + 2 * j) % 3],):
                out.append((fs, mode, "c"))
    if thorough:
        for opts in itertools.product((False, True), (0, 1, 2), typ, DECOS):
            out.append(([("deep/er", *opts), (".", *opts)], "exe", "c"))
    return out


def body(chk):
    systems = list(bhah.COORDS)
    extra = [c for c in refmetric.supported_CoordSystems if c not in systems] if hasattr(refmetric, "supported_CoordSystems") else []
    systems += extra
    ls = lists(chk.thorough)
    jobs = []
    step = 24
    for n, i in enumerate(range(0, len(ls), step)):
        k = 3 if not chk.thorough else 5
        sy = [systems[(n * k + m) % len(systems)] for m in range(k)]
        jobs.append((one_wrap, ls[i : i + step], sy, os.path.join(chk.scratch, f"p{n}")))
    jobs.append((one_wrap, [("common", "params", "xx", "real"), ("params", "ptr"), ("common", "params", "cart", "fn")], systems, os.path.join(chk.scratch, "all")))
    covered = set(itertools.chain.from_iterable(j[2] for j in jobs))
    if not set(systems) <= covered:
        raise vf.HarnessError("coordinate systems left out")
    for n, spec in enumerate(layouts(chk.thorough)):
        jobs.append((one_layout, spec, os.path.join(chk.scratch, f"l{n}")))
    for j, (probs, nexp) in zip(jobs, vf.pmap(dispatch, jobs, timeout=900)):
        for key, what in probs:
            chk.violation(key, what, {"job": str(j[1])[:600]})
        chk.count("states")
        chk.count("transitions", nexp)
        chk.outcome((j[0].__name__, str(j[1])[:300], nexp))
        chk.sample({"kind": j[0].__name__, "spec": str(j[1])[:200], "calls_checked": nexp})
    chk.cov["bounds"] = f"{len(ls)} parameter lists x {len(systems)} coordinate systems, {len(layouts(chk.thorough))} layouts"


def dispatch(fn, *a):
    try:
        return fn(*a)
    except vf.CompileError as e:
        return [("compile", str(e)[-800:])], 0


if __name__ == "__main__":
    vf.main("C18", "exploration", "every parameter list of the grammar, every coordinate system, every layout", body)
