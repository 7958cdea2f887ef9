"""C15: code parameters reach generated code with their registered values.

Every type x scope x header flag x parameter-file flag x default is registered, alone, in all pairs
of a smaller alphabet, and all together; the generated structs, default setters and accessor headers
are compiled and every parameter is read back, on several grids, through every header.
"""

import itertools
import math
import os
import shutil

import vf

import nrpy.c_function as cfc
import nrpy.params as par

import bhah

STRS = ["cheese", "", 'q"uote', "50% of %d", "back\\slash", "elevenchars", "tab\\t", "//", "/*x*/", "#if"]


def items():
    """All supported registrations, as (type, default, commondata, parfile, header, adjusted default or None)."""
    out = []
    for cd, pf, hd in itertools.product((False, True), repeat=3):
        for df in (1, -2.5, 0.1, 1e-300, "M_PI", "1.0/3.0", "unset"):
            out.append(("REAL", df, cd, pf, hd, None))
        for df in (7, -12, 2**31 - 1, "unset"):
            out.append(("int", df, cd, pf, hd, None))
        for df in (True, False, "unset"):
            out.append(("bool", df, cd, pf, hd, None))
        for df in STRS:
            out.append(("char[12]", df, cd, pf, hd, None))
        out.append(("size_t", 5, cd, pf, hd, None))
        out.append(("REAL", 3.25, cd, pf, hd, 4.75))
        out.append(("int", 3, cd, pf, hd, -4))
        out.append(("char[12]", "old", cd, pf, hd, "new"))
    for pf in (False, True):
        for df in (0.5, -3, "M_PI", "unset"):
            out.append(("REAL[3]", df, True, pf, False, None))
        for df in (4, -1, "unset"):
            out.append(("int[2]", df, True, pf, False, None))
        out.append(("REAL[1]", 0.5, True, pf, False, 0.25))
    for df in (0, 17, -2.5):
        out.append(("#define", df, False, False, False, None))
    return [x for x in out if not (x[1] == "unset" and x[3])]  # a parameter in the parameter file needs a default


def cval(ct, v):
    if ct.startswith("char"):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, str):
        return f"({v})"
    return repr(v)


def program(spec, scratch, fp, only):
    """Register spec, generate, compile, read back."""
    d = os.path.join(scratch, f"q{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "intrinsics"))
    shutil.copy(os.path.join(vf.REPO, "nrpy/helpers/simd_intrinsics.h"), os.path.join(d, "intrinsics"))
    bhah.start(2, fp)
    par.glb_code_params_dict.clear()
    par.register_CodeParameter("int", "gridmod", "NUMGRIDS", 1, commondata=True)
    names = []
    for k, (ct, df, cd, pf, hd, adj) in enumerate(spec):
        n = ["xy", "Xy", "p_", "zz", "XY"][k % 5] + str(k)  # names differing only by case as well
        names.append(n)
        kw = {} if df == "unset" else {"defaultvalue": df}
        if ct == "#define":
            par.register_CodeParameter(ct, "mod" + str(k % 2), n, **kw)
        else:
            par.register_CodeParameter(ct, "mod" + str(k % 2), n, commondata=cd, add_to_parfile=pf, add_to_set_CodeParameters_h=hd, description=["", "Some text; x = 3", "line one\nline two"][k % 3], **kw)
        if adj is not None:
            par.adjust_CodeParam_default(n, adj)
    live = [(n, *s) for n, s in zip(names, spec) if s[0] != "#define"]

    def ref(n, cd):
        return f"cd.{n}" if cd else f"gd[g].params.{n}"

    # readers: the parameter headers must give each name the current value; names they must not
    # declare refer to file-scope sentinels
    sent, rd, rds = "", "", ""
    for n, ct, df, cd, pf, hd, adj in live:
        shown = hd and not (only and not cd)
        arr = "[" in ct
        base = ct.split("[")[0]
        if not shown:
            sent += f"static const int {n} = 987654;\n"
            rd += f'if ({n} != 987654) bad("{n} is declared although it should not be");\n'
            rds += f'if ({n} != 987654) bad("{n} is declared although it should not be");\n'
            continue
        src = ("C" if cd else "P") + "(" + n + ")"
        if base == "char":
            rd += f'if (strcmp({n}, {src})) bad("{n}");\n'
            rds += f'{{ extern int sentinel_{n}; }}\n'
        elif arr:
            raise vf.HarnessError("array in a header")
        else:
            rd += f'if ({n} != {src}) bad("{n}");\n'
            if ct == "REAL":
                rds += f'if (NOSIMD{n} != {src}) bad("NOSIMD{n}"); {{ double t[16]; WriteSIMD(t, {n}); for (int q = 0; q < simd_width; q++) if (t[q] != {src}) bad("{n}"); }}\n'
            else:
                rds += f'if ({n} != {src}) bad("{n}");\n'
    common = "#include <string.h>\nvoid bad(const char *);\n" + sent
    prm = "const commondata_struct *restrict commondata" + ("" if only else ", const params_struct *restrict params")
    cfc.register_CFunction(name="read_plain", desc="r", params=prm, includes=["BHaH_defines.h"], prefunc=common + "#define C(x) commondata->x\n#define P(x) params->x\n", include_CodeParameters_h=True, body=rd or ";")
    cfc.register_CFunction(
        name="read_dot", desc="r", includes=["BHaH_defines.h"], prefunc=common + "#define C(x) commondata.x\n#define P(x) params.x\n",
        params="const commondata_struct commondata" + ("" if only else ", const params_struct params"),
        include_CodeParameters_h=False, body='#include "set_CodeParameters-nopointer.h"\n' + (rd or ";"),
    )
    simd = fp == "double"
    if simd:
        cfc.register_CFunction(name="read_simd", desc="r", params=prm, includes=["BHaH_defines.h"], prefunc=common + "#define C(x) commondata->x\n#define P(x) params->x\n", include_CodeParameters_h=True, enable_simd=True, body=rds or ";")
    # the real thing, except that griddata is only declared when grids are wanted
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import CodeParameters as CPs  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import Makefile_helpers as Mk  # pylint: disable=import-outside-toplevel

    for _ in range(2):  # writing again changes nothing
        CPs.write_CodeParameters_h_files(project_dir=d, set_commondata_only=only)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    Bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=simd, enable_rfm_precompute=False)
    Mk.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="q", create_lib=True, static_lib=True)
    chk, setv, nread = "", "", 0
    for n, ct, df, cd, pf, hd, adj in live:
        df = df if adj is None else adj
        r = ref(n, cd)
        base = ct.split("[")[0]
        size = int(ct.split("[")[1][:-1]) if "[" in ct else 0
        nread += 1
        if df != "unset":
            if base == "char":
                chk += f'if (strcmp({r}, {cval(ct, df)})) bad("default of {n}");\n'
            elif size:
                chk += f'for (int q = 0; q < {size}; q++) if ({r}[q] != ({base}){cval(ct, df)}) bad("default of {n}");\n'
            else:
                chk += f'if ({r} != ({ct}){cval(ct, df)}) bad("default of {n}");\n'
        h = sum(map(ord, n)) % 97 + nread
        if base == "char":
            setv += f'snprintf({r}, {size}, "v%d_%d", {h}, g);\n'
        elif base == "bool":
            setv += f"{r} = ({h} + g) % 2;\n"
        elif not size:
            setv += f"{r} = ({ct})({h} + 1000 * g" + (" + 0.3" if ct == "REAL" else "") + ");\n"
    for n, (ct, df, *_) in zip(names, spec):
        if ct == "#define":
            chk += f'if ({n} != {cval(ct, df)}) bad("#define {n}");\n'
    drv = f"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static commondata_struct cd; static griddata_struct gd[4]; static int g;
void bad(const char *w) {{ printf("BAD %s (grid %d)\\n", w, g); exit(0); }}
int main(void) {{
  for (int round = 0; round < 2; round++) for (int ng = 1; ng <= 3; ng++) {{
    memset(&cd, 0x5a, sizeof cd); memset(gd, 0x5a, sizeof gd);
    commondata_struct_set_to_default(&cd);
    if (cd.NUMGRIDS != 1) bad("NUMGRIDS");
    cd.NUMGRIDS = ng;
    params_struct_set_to_default(&cd, gd);
    for (g = 0; g < ng; g++) {{
{chk}
    }}
    {{ /* grids that do not exist stay alone */
      const unsigned char *p = (const unsigned char *)&gd[ng]; for (size_t k = 0; k < sizeof gd[0]; k++) if (p[k] != 0x5a) bad("default setter wrote beyond the grids"); }}
    for (g = 0; g < ng; g++) {{
{setv}
    }}
    for (g = 0; g < ng; g++) {{ {setv}
      read_plain(&cd{"" if only else ", &gd[g].params"}); read_dot(cd{"" if only else ", gd[g].params"}); {"read_simd(&cd" + ("" if only else ", &gd[g].params") + ");" if simd else ""}
    }}
  }}
  printf("OK\\n");
  return 0;
}}
"""
    src = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c")]
    try:
        exe = bhah.compile_project(d, src, drv, flags=("-mavx2", "-mfma") if simd else (), opt="-O0")
    except vf.CompileError as e:
        return 0, f"does not compile: {str(e)[-800:]}"
    p = vf.run([exe])
    shutil.rmtree(d)
    if not p.stdout.startswith("OK"):
        return 0, (p.stdout or p.stderr)[:300] or f"died {p.returncode}"
    return nread, None


def body(chk):
    al = items()
    progs = [(al, fp, only) for fp in ("double", "float") for only in (False, True)]
    # alone
    for x in al:
        progs.append(([x], "double", False))
    # all pairs of one representative per (type, scope, header)
    rep = {}
    for x in al:
        rep.setdefault((x[0], x[2], x[4], x[1] == "unset"), x)
    reps = list(rep.values())
    pairs = list(itertools.combinations_with_replacement(reps, 2))
    if not chk.thorough:
        small = [x for x in reps if x[1] != "unset" and (x[4] or "[" in x[0] or x[0] == "#define") and x[0] != "size_t"]
        pairs = list(itertools.combinations_with_replacement(small, 2))
        progs = progs[:4] + [p for p in progs[4:] if p[0][0][1] == "unset" and p[0][0][2]]
    for p in pairs:
        progs.append((list(p), "double", False))
    if chk.thorough:
        for x in reps:
            progs.append(([x], "float", True))
    for (spec, fp, only), (n, err) in zip(progs, vf.pmap(program, [(s, chk.scratch, f, o) for s, f, o in progs])):
        chk.count("programs")
        chk.count("evaluations", max(1, n))
        chk.outcome(repr(spec)[:400])
        if err:
            chk.violation(f"{fp}:{only}:{repr(spec)[:150]}:{len(spec)}", f"{err}", {"parameters": spec, "fp": fp, "set_commondata_only": only})
    chk.sample({"parameters": al[:6]})


if __name__ == "__main__":
    vf.main("C15", "exploration", "one program per parameter set; one evaluation per parameter read back (three grids, every header)", body)
