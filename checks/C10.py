"""C10: generated loops visit each grid point of their region exactly once.

Every option set of every loop generator is compiled once with run-time bounds and then executed
for every small grid shape, lower bound, ghost-zone count and tile size; the visits recorded by the
loop body are compared with the requested region.
"""

import itertools
import os
import re
import shutil

import vf

import nrpy.helpers.loop as lp
import nrpy.reference_metric as refmetric
from nrpy.infrastructures.BHaH import simple_loop as bl
from nrpy.infrastructures.CarpetX import simple_loop as cl
from nrpy.infrastructures.ETLegacy import simple_loop as el

OMPENV = {"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "passive"}


def build(d, name, src, flags=(), cxx=False):
    f = vf.write(os.path.join(d, name + (".cpp" if cxx else ".c")), src)
    try:
        vf.cc([f], os.path.join(d, name), flags=list(flags), base=["-std=c++17" if cxx else "-std=gnu99", "-O1", "-w"], compiler="g++" if cxx else "gcc")
    except vf.CompileError as e:
        return str(e)[-700:]
    return None


# ------------------------------------------------------------------ generic nested loops
def generic(case, scratch):
    """case = (dim, increments, tiles or None, threads). Returns (evaluations, error)."""
    dim, inc, tile, omp = case
    d = os.path.join(scratch, f"g{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    idx = [f"q{k}" for k in range(dim)]
    body = "#pragma omp atomic\ncnt[" + "+".join([f"(q{k}+2)*{[1, 16, 256][k]}" for k in range(dim)]) + "]++;\n"
    if not omp:
        body += "if (seq < 65536) order[seq++] = " + "+".join([f"(q{k}+2)*{[1, 16, 256][k]}" for k in range(dim)]) + ";\n"
    prag = ["#pragma omp parallel for" if omp and k == 0 else "" for k in range(dim)]
    args = [idx, [f"L{k}" for k in range(dim)], [f"U{k}" for k in range(dim)], [str(x) for x in inc], prag]
    if dim == 1 and not tile:  # the scalar calling convention
        args = [a[0] for a in args]
    kw = {} if tile is None else {"tile_size": [str(t) for t in tile]}
    whole = lp.loop(*args, loop_body=body, **kw)
    hdr, ftr = lp.loop(*args, **kw)
    decl = "".join(f"for (int L{k}=-2;L{k}<=1;L{k}++) for (int U{k}=-2;U{k}<={9 if dim == 1 else 5 if dim == 2 else 3};U{k}++) " for k in range(dim))
    cond = " && ".join(f"q{k}>=L{k} && q{k}<U{k} && (q{k}-L{k})%{inc[k]}==0" for k in range(dim))
    each = "".join(f"for (int q{k}=-2;q{k}<14;q{k}++) " for k in range(dim))
    idxs = "+".join([f"(q{k}+2)*{[1, 16, 256][k]}" for k in range(dim)])
    bounds = ", ".join(f"L{k}, U{k}" for k in range(dim))
    fmt = " ".join("[%d,%d)" for _ in range(dim))
    src = f"""
#include <stdio.h>
#include <string.h>
#define MIN(A, B) (((A) < (B)) ? (A) : (B))
static int cnt[4096]; static int order[65536]; static int seq;
static long nev;
int main(void) {{
  {decl} for (int v = 0; v < 2; v++) {{
    memset(cnt, 0, sizeof cnt); seq = 0;
    if (v == 0) {{
{whole}
    }} else {{
{hdr}
{body}
{ftr}
    }}
    nev++;
    int n = 0;
    {each} {{
      const int want = ({cond}) ? 1 : 0;
      if (cnt[{idxs}] != want) {{ printf("BAD v%d {fmt} point %d visited %d times, want %d\\n", v, {bounds}, {idxs}, cnt[{idxs}], want); return 0; }}
    }}
    {"" if omp or tile else "{ int k = 0; " + each + "if (" + cond + ") { if (order[k++] != " + idxs + ") { printf(\"BAD v%d " + fmt + " order\\n\", v, " + bounds + "); return 0; } } }"}
  }}
  printf("OK %ld\\n", nev);
  return 0;
}}
"""
    e = build(d, "t", src, ["-fopenmp"] if omp else [])
    if e:
        return 0, "does not compile: " + e
    out = vf.run([os.path.join(d, "t")], env=OMPENV).stdout
    shutil.rmtree(d)
    if not out.startswith("OK"):
        return 0, out[:300] or "died"
    return int(out.split()[1]), None


# ------------------------------------------------------------------ BHaH
REGIONS = ("all points", "interior", "interior plus one upper")


def bhah(case, scratch):
    region, simd, read, coord, collapse, omp, simdflag, custom = case
    d = os.path.join(scratch, f"b{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "intrinsics"))
    kw = {"enable_simd": simd, "loop_region": region, "enable_OpenMP": omp, "OMP_collapse": collapse}
    if custom:
        kw["OMP_custom_pragma"] = "#pragma omp parallel for schedule(dynamic)"
    if read == "xx":
        kw["read_xxs"] = True
    elif read == "rfm":
        kw.update(enable_rfm_precompute=True, CoordSystem=coord)
    probe = bl.simple_loop("/*BODY*/", **kw)
    names = sorted(set(re.findall(r"rfmstruct->(\w+)\s*\[", probe)))
    body = "\n#pragma omp atomic\ncnt[IDX3(i0,i1,i2)]++;\n"
    if read == "xx":
        body += "if (xx0 != xx[0][i0] || xx1 != xx[1][i1] || xx2 != xx[2][i2]) bad++;\n"

    def value(k, at):
        dims = [int(c) for c in re.findall(r"xx(\d)", names[k].split("__")[0])]
        return f"({k + 1} * 10000.0 + " + " + ".join(f"{13 ** j if j == 0 else 100} * ({at(dm)})" for j, dm in enumerate(dims)) + ")"

    for k, nm in enumerate(names):
        if simd:
            body += f"{{ REAL t[8]; WriteSIMD(t, {nm}); for (int w = 0; w < simd_width; w++) if (t[w] != {value(k, lambda dm: 'i0+w' if dm == 0 else f'i{dm}')}) bad++; }}\n"
        else:
            body += f"if ({nm} != {value(k, lambda dm: f'i{dm}')}) bad++;\n"
    code = bl.simple_loop(body, **kw)
    struct = "typedef struct { " + " ".join(f"REAL *{n};" for n in names) + " int dummy; } rfm_struct;\n"
    fill = ""
    for k, nm in enumerate(names):
        dims = [int(c) for c in re.findall(r"xx(\d)", nm.split("__")[0])]
        sz = "*".join(f"Nxx_plus_2NGHOSTS{dm}" for dm in dims)
        idx = f"a{dims[0]}" if len(dims) == 1 else f"a{dims[0]}+Nxx_plus_2NGHOSTS{dims[0]}*a{dims[1]}"
        loops = "".join(f"for (int a{dm}=0;a{dm}<Nxx_plus_2NGHOSTS{dm};a{dm}++) " for dm in dims)
        fill += f"rfmstruct->{nm} = malloc(sizeof(REAL)*({sz}+8)); {loops} rfmstruct->{nm}[{idx}] = {value(k, lambda dm: f'a{dm}')};\n"
        if simd and 0 in dims:
            fill += f"for (int a0=0;a0<8;a0++) rfmstruct->{nm}[{sz}+a0] = {value(k, lambda dm: f'Nxx_plus_2NGHOSTS{dm}+a0')};\n"
    if simd:
        shutil.copy(os.path.join(vf.REPO, "nrpy", "helpers", "simd_intrinsics.h"), os.path.join(d, "intrinsics", "simd_intrinsics.h"))
    lo, hi = {"all points": ("0", "N%d"), "interior": ("G", "N%d-G"), "interior plus one upper": ("G", "N%d-G+1")}[region]
    inr = " && ".join(f"i{k}>={lo} && i{k}<{hi % k}" for k in range(3))
    step = "simd_width" if simd else "1"
    n0 = "for (int n0=1;n0<=9;n0++)" if simd else "for (int n0=1;n0<=3;n0++)"
    src = f"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define REAL double
#define MAYBE_UNUSED __attribute__((unused))
{'#include "intrinsics/simd_intrinsics.h"' if simd else ''}
#define IDX3(i, j, k) ((i) + PX*((j) + PY*(k)))
{struct}
enum {{ PX = 40, PY = 16 }};
static int cnt[PX*PY*16];
static volatile int bad;
static void run(const int NGHOSTS, const int Nxx0, const int Nxx1, const int Nxx2, REAL *xx[3], rfm_struct *rfmstruct) {{
  const int Nxx_plus_2NGHOSTS0 = Nxx0+2*NGHOSTS, Nxx_plus_2NGHOSTS1 = Nxx1+2*NGHOSTS, Nxx_plus_2NGHOSTS2 = Nxx2+2*NGHOSTS;
{code}
}}
int main(void) {{
  REAL *xx[3]; for (int k = 0; k < 3; k++) {{ xx[k] = malloc(64*sizeof(REAL)); for (int i = 0; i < 64; i++) xx[k][i] = 1000*k+i; }}
  long nev = 0;
  for (int G={1 if "upper" in region else 0};G<=3;G++) {n0} for (int n1=1;n1<=3;n1++) for (int n2=1;n2<=3;n2++) {{
    memset(cnt, 0, sizeof cnt); bad = 0;
    const int N0=n0+2*G, N1=n1+2*G, N2=n2+2*G;
    const int Nxx_plus_2NGHOSTS0 = N0, Nxx_plus_2NGHOSTS1 = N1, Nxx_plus_2NGHOSTS2 = N2;
    rfm_struct rs, *rfmstruct = &rs;
{fill}
    run(G, n0, n1, n2, xx, rfmstruct);
    {" ".join(f"free(rfmstruct->{n});" for n in names)}
    nev++;
    if (bad) {{ printf("BAD G=%d N=%d,%d,%d wrong coordinate or precomputed value\\n", G, n0, n1, n2); return 0; }}
    for (int i2=0;i2<16;i2++) for (int i1=0;i1<PY;i1++) for (int i0=0;i0<PX;i0++) {{
      const int want = ({inr}) && (i0-({lo})) % {step} == 0;
      if (cnt[IDX3(i0,i1,i2)] != want) {{ printf("BAD G=%d N=%d,%d,%d point %d,%d,%d visited %d times, want %d\\n", G, n0, n1, n2, i0, i1, i2, cnt[IDX3(i0,i1,i2)], want); return 0; }}
    }}
  }}
  printf("OK %ld\\n", nev);
  return 0;
}}
"""
    fl = ["-fopenmp"] if omp or custom else []
    e = build(d, "t", src, fl + ([simdflag] if simdflag else []))
    if e:
        return 0, "does not compile: " + e
    out = vf.run([os.path.join(d, "t")], env=OMPENV).stdout
    shutil.rmtree(d)
    if not out.startswith("OK"):
        return 0, out[:300] or "died"
    return int(out.split()[1]), None


# ------------------------------------------------------------------ ETLegacy
def et(case, scratch):
    region, simd, collapse, omp = case
    d = os.path.join(scratch, f"e{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    code = el.simple_loop("#pragma omp atomic\ncnt[i0+16*(i1+16*i2)]++;\n", enable_simd=simd, loop_region=region, enable_OpenMP=omp, OMP_collapse=collapse)
    lo, hi = ("0", "cctk_lsh[%d]") if region == "all points" else ("cctk_nghostzones[%d]", "cctk_lsh[%d]-cctk_nghostzones[%d]")
    inr = " && ".join(f"i{k}>={lo.replace('%d', str(k))} && i{k}<{hi.replace('%d', str(k))}" for k in range(3))
    src = f"""
#include <stdio.h>
#include <string.h>
static int cnt[4096];
enum {{ simd_width = 4 }};
int main(void) {{
  long nev = 0;
  for (int g0=0;g0<=2;g0++) for (int g1=0;g1<=2;g1++) for (int g2=0;g2<=2;g2++) for (int n0=1;n0<=6;n0++) for (int n1=1;n1<=3;n1++) for (int n2=1;n2<=3;n2++) {{
    const int cctk_lsh[3] = {{n0+2*g0, n1+2*g1, n2+2*g2}}; const int cctk_nghostzones[3] = {{g0,g1,g2}};
    memset(cnt, 0, sizeof cnt);
{code}
    nev++;
    for (int i2=0;i2<16;i2++) for (int i1=0;i1<16;i1++) for (int i0=0;i0<16;i0++) {{
      const int want = ({inr}) && (i0-({lo.replace('%d', '0')})) % {"simd_width" if simd else "1"} == 0;
      if (cnt[i0+16*(i1+16*i2)] != want) {{ printf("BAD ghosts %d,%d,%d N=%d,%d,%d point %d,%d,%d visited %d times, want %d\\n", g0,g1,g2,n0,n1,n2,i0,i1,i2,cnt[i0+16*(i1+16*i2)],want); return 0; }}
    }}
  }}
  printf("OK %ld\\n", nev);
  return 0;
}}
"""
    e = build(d, "t", src, ["-fopenmp"] if omp else [])
    if e:
        return 0, "does not compile: " + e
    out = vf.run([os.path.join(d, "t")], env=OMPENV).stdout
    shutil.rmtree(d)
    return (int(out.split()[1]), None) if out.startswith("OK") else (0, out[:300] or "died")


# ------------------------------------------------------------------ CarpetX
def cx(scratch):
    """All options in one C++ program against a stand-in for CarpetX's grid descriptor."""
    d = os.path.join(scratch, f"x{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    tests = ""
    n = 0
    for region, dev in itertools.product(("all points", "interior"), (True, False)):
        for cen in list(itertools.product((0, 1), repeat=3)) + [None]:
            code = cl.simple_loop("visit(p);", loop_region=region, loop_centering=list(cen) if cen is not None else None, run_on_device=dev)
            c = cen or (0, 0, 0)
            code_ = c[0] + 2 * c[1] + 4 * c[2] + (8 if region == "interior" else 0) + (16 if dev else 0)
            tests += f'  tag = -1; nvis = 0; ngh = 0; {{ {code} }}\n  if (tag != {code_} || nvis != 1 || !ngh) {{ printf("BAD region {region} device {dev} centering {c}: ran loop %d, want {code_}, visits %d\\n", tag, nvis); return 0; }}\n'
            n += 1
    src = f"""
#include <cstdio>
static int tag, nvis, ngh;
namespace Loop {{ struct PointDesc {{ int i; }}; }}
static void visit(const Loop::PointDesc &p) {{ nvis += p.i; }}
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
struct Grid {{ int nghostzones = 7;
#define L(NAME, BASE) template <int a, int b, int c, class F> void NAME(int g, F f) const {{ tag = BASE + a + 2*b + 4*c; ngh = g == 7; f(Loop::PointDesc{{1}}); }}
L(loop_all, 0) L(loop_int, 8) L(loop_all_device, 16) L(loop_int_device, 24)
}};
int main() {{ Grid grid;
{tests}
  std::printf("OK {n}\\n"); return 0; }}
"""
    e = build(d, "t", src, cxx=True)
    if e:
        return 0, "does not compile: " + e
    out = vf.run([os.path.join(d, "t")]).stdout
    shutil.rmtree(d)
    return (n, None) if out.startswith("OK") else (0, out[:300] or "died")


def refusals():
    bad = []
    for f, what in (
        (lambda: lp.loop(["i", "j"], ["0"], ["1", "2"], ["1", "1"], ["", ""]), "lists of different length"),
        (lambda: lp.loop1D(lower_bound=0), "a non-string bound"),
        (lambda: bl.simple_loop("x", loop_region="everything"), "BHaH: an unknown region"),
        (lambda: bl.simple_loop("x", loop_region="interior", read_xxs=True, enable_simd=True), "BHaH: read_xxs with SIMD"),
        (lambda: bl.simple_loop("x", loop_region="interior", read_xxs=True, enable_rfm_precompute=True), "BHaH: read_xxs with rfm_precompute"),
        (lambda: el.simple_loop("x", loop_region="everything"), "ETLegacy: an unknown region"),
        (lambda: cl.simple_loop("x", loop_region="everything"), "CarpetX: an unknown region"),
        (lambda: cl.simple_loop("x", loop_region="interior", loop_centering=[0, 0, 2]), "CarpetX: an unknown centering"),
        (lambda: cl.simple_loop("x", loop_region="interior", enable_simd=True), "CarpetX: SIMD"),
    ):
        try:
            f()
            bad.append(what)
        except ValueError:
            pass
    if bl.simple_loop("BODY;") != "BODY;":
        bad.append("BHaH: an empty region must return the body alone")
    return bad


def body(chk):
    T = chk.thorough
    cases = []
    for dim in (1, 2, 3):
        incs = list(itertools.product((1, 2, 3), repeat=dim)) if dim < 3 or T else [(1, 1, 1), (1, 2, 3), (2, 1, 1)]
        for inc in incs:
            cases.append((dim, inc, None, False))
            if inc == (1,) * dim:
                cases.append((dim, inc, None, True))
            tl = list(itertools.product((1, 2, 3, 6), repeat=dim)) if T or dim == 1 else [(1,) * dim, (2,) * dim, (6, 3, 2)[:dim], (3, 1, 6)[:dim]]
            for tile in tl:
                if all(t % i == 0 for t, i in zip(tile, inc)):
                    cases.append((dim, inc, tile, False))
    for c, (n, e) in zip(cases, vf.pmap(generic, [(c, chk.scratch) for c in cases])):
        chk.count("evaluations", n)
        chk.count("loops")
        chk.outcome(("generic",) + c)
        if e:
            chk.violation(f"generic:{c}", f"{c[0]}D loop, increments {c[1]}, tiles {c[2]}, OpenMP {c[3]}: {e}", {"case": c})
    chk.note(f"generic loops done {chk.counters}")
    coords = ["Spherical", "SinhSymTP", "Cartesian", "SinhCylindrical"] + (["SinhSpherical", "SymTP", "SinhCartesian", "Cylindrical", "HoleySinhSpherical"] if T else [])
    for cs in coords:  # set up once, inherited by every child
        refmetric.reference_metric[cs + "_rfm_precompute"]  # pylint: disable=pointless-statement
    bc = []
    for region, collapse, omp in itertools.product(REGIONS, (1, 2, 3), (True, False)):
        bc.append((region, False, "", "", collapse, omp, "", False))
        bc.append((region, False, "xx", "", collapse, omp, "", False))
        bc.append((region, True, "", "", collapse, omp, "-mavx2", False))
        for cs in coords if omp or T else coords[1:2]:
            bc.append((region, False, "rfm", cs, collapse, omp, "", False))
            for fl in ("-mavx2", "-msse2", "") if T else ("-mavx2",):
                bc.append((region, True, "rfm", cs, collapse, omp, fl, False))
        bc.append((region, False, "xx", "", 1, omp, "", True))
    for c, (n, e) in zip(bc, vf.pmap(bhah, [(c, chk.scratch) for c in bc])):
        chk.count("evaluations", n)
        chk.count("loops")
        chk.outcome(("BHaH",) + c)
        if e:
            chk.violation(f"BHaH:{c}", f"BHaH loop (region, simd, reads, coordinates, collapse, OpenMP) {c}: {e}", {"case": c})
    ec = list(itertools.product(("all points", "interior"), (False, True), (1, 2, 3), (True, False)))
    for c, (n, e) in zip(ec, vf.pmap(et, [(c, chk.scratch) for c in ec])):
        chk.count("evaluations", n)
        chk.count("loops")
        chk.outcome(("ET",) + c)
        if e:
            chk.violation(f"ETLegacy:{c}", f"ETLegacy loop (region, simd, collapse, OpenMP) {c}: {e}", {"case": c})
    n, e = vf.forked(cx, chk.scratch)
    chk.count("evaluations", n)
    chk.count("loops", n)
    if e:
        chk.violation("CarpetX", f"CarpetX loop: {e}", {})
    for b in vf.forked(refusals):
        chk.violation("refusal:" + b, f"accepted: {b}", {})
    chk.sample({"BHaH": bc[3], "generic": cases[5]})


if __name__ == "__main__":
    vf.main("C10", "exploration", "distinct loop generator option sets; each executed for every small grid", body)
