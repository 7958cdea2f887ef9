"""C21: the division of a grid among superB chares covers it exactly once.

For every coordinate system, ghost width, grid shape and division up to a bound, the generated set-up functions
(numerical_grids_chare and everything it calls) are run for all chares, and every entry of every map, coordinate array,
boundary list, send and receive list and slice is compared with the undivided grid.
"""

import glob
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import vf

import bhah
import C22
import sbgen

SYSTEMS = [c for c in bhah.COORDS if "Wedge" not in c]  # superB has no diagnostics for wedges


def shapes(cs, ng, thorough):
    big = [ng, 2 * ng, 3 * ng + (ng % 2), 4 * ng] if thorough else [ng, 2 * ng, 4 * ng]
    other = [ng, 2 * ng, 2 * ng + 1, 3 * ng] if thorough else [2 * ng, 2 * ng + 1]
    even = sorted({2 * max(1, (k * ng + 1) // 2) for k in ((1, 2, 3, 4) if thorough else (1, 2, 4))})
    fam = bhah.family(cs)
    if fam == "cartesian":
        return big, other, other
    if fam == "cylindrical":
        return (big if thorough else other), even, other + [4 * ng]
    return (big if thorough else [2 * ng, 3 * ng]), other, even


def config(cs, ng, nq, rfm, sh, maxch):
    t = C22.targets(cs)
    o = ["#define HASH %s" % cs.upper(), f"#define MAXCH {maxch}", f"#define NQ {nq}", "#define RFM(x) %s" % ("x" if rfm else "")]
    for k, s in enumerate(sh):
        o.append(f"static const int S{k}[] = {{{', '.join(map(str, s))}}};")
    o.append("static void slices(const params_struct *params, slice *S) {")
    for w, name in enumerate(("y", "z", "xy", "yz")):
        v = t.get(name)
        extra = int(bhah.family(cs) == "symtp" and name == "z")
        if v is None:
            o.append(f'  S[{w}] = slice{{"{name}", false, false, false, 0, {{}}}};')
        else:
            o.append(f'  S[{w}] = slice{{"{name} {"plane" if len(name) == 2 else "axis"}", true, {extra}, {int(len(name) == 1)}, {"xyz".index(name[0])}, {C22.dirs(v)}}};')
    o.append("}")
    return "\n".join(o) + "\n"


def one(root, cs, ng, nq, rfm, add, thorough, san):
    """Returns (counts, error)."""
    d = os.path.join(root, f"{cs}-{ng}-{nq}-{int(rfm)}")
    sbgen.generate(d, {"kind": "maps", "cs": cs, "fd": 2 * (ng - int(add)), "rfm": rfm, "nq": nq, "add": add})
    vf.write(os.path.join(d, "maps_cfg.h"), config(cs, ng, nq, rfm, shapes(cs, ng, thorough), 64 if thorough else 32))
    srcs = sorted(glob.glob(os.path.join(d, "**", "*.cpp"), recursive=True)) + [os.path.join(sbgen.CSRC, "vfcharm.cpp"), os.path.join(sbgen.CSRC, "maps.cpp")]
    flags = ["-std=c++17", "-O1", "-g0", "-fpermissive", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-DVF_NO_MAIN", "-I" + d, "-I" + sbgen.CSRC, *san]

    def comp(k):
        return subprocess.run(["g++", *flags, "-c", srcs[k], "-o", os.path.join(d, f"m{k}.o")], capture_output=True, text=True), srcs[k]

    srcs = [s for s in srcs if not s.endswith("vfcharm.cpp")]
    with ThreadPoolExecutor(2) as ex:
        for r, s in ex.map(comp, range(len(srcs))):
            if r.returncode:
                if s.endswith("maps.cpp"):
                    raise vf.HarnessError(r.stderr[-2000:])
                return None, f"{os.path.basename(s)} does not compile: {r.stderr[-900:]}"
    stub = vf.write(os.path.join(d, "stub.cpp"), '#include "charm++.h"\nnamespace Ck { namespace IO { void write(Session, const char *, size_t, size_t) {} } }\nnamespace vf { void fail(const char *, ...) {} }\n')
    r = subprocess.run(["g++", *flags, stub, *[os.path.join(d, f"m{k}.o") for k in range(len(srcs))], "-lm", "-o", os.path.join(d, "maps")], capture_output=True, text=True)
    if r.returncode:
        return None, "link: " + r.stderr[-1500:]
    r = subprocess.run([os.path.join(d, "maps")], capture_output=True, text=True, timeout=800 if not thorough else 6000, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    bad = [x[4:] for x in r.stdout.splitlines() if x.startswith("BAD ")]
    ok = [x for x in r.stdout.splitlines() if x.startswith("OK ")]
    if bad:
        return None, bad[0]
    if r.returncode or not ok:
        return None, f"the program ends with status {r.returncode}: {r.stderr[:900]}"
    for f in glob.glob(os.path.join(d, "*.o")):
        os.remove(f)
    return list(map(int, ok[0].split()[1:])), ""


def body(chk):
    san = ("-fsanitize=address,bounds", "-fno-sanitize-recover=bounds")
    cases = [(cs, 2, 2, True, False, san if k % 3 == 0 else ()) for k, cs in enumerate(SYSTEMS)]
    cases += [("SinhSpherical", 3, 1, False, True, ()), ("Cartesian", 1, 3, False, False, ())]
    if chk.thorough:
        cases += [(cs, g, 3 if g == 1 else 1, False, False, ()) for cs in SYSTEMS for g in (1, 3)]
    jobs = [(chk.scratch, *c[:5], chk.thorough, c[5]) for c in cases]
    for c, (n, e) in zip(cases, vf.pmap(one, jobs, 8, timeout=8000 if chk.thorough else 850)):
        if e:
            chk.violation(f"{c[0]}:{c[1]}", f"{c[0]}, {c[1]} ghost zones, {e}", {"case": c})
            continue
        for k, v in zip(("divisions", "chares", "map entries", "boundary points", "slice points"), n):
            chk.count(k, v)
        chk.outcome((c[:5], tuple(n)))
    chk.sample({"system": cases[0][0], "shapes": shapes(cases[0][0], 2, chk.thorough)})


if __name__ == "__main__":
    vf.main("C21", "exploration", "distinct (coordinate system, ghost width, number of quantities, totals)", body)
