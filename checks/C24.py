"""C24: Einstein Toolkit thorns declare what their code uses, and their code does what they declare.

A stand-in for Cactus (checks/cactus.py, csrc/cactus) reads the generated .ccl files with a strict
grammar, resolves every name, builds the headers the flesh would build from the declarations alone,
compiles every source file and runs every scheduled function on small grids.
 * registries: every subset of an alphabet of gridfunctions, of parameters per function and of
   schedule bins per function, compared with what was registered;
 * the WaveToy examples and BSSN thorns with the options of the Baikal examples: for every scheduled
   function, all memory outside the declared READS is filled with two different patterns (the
   results in the declared WRITES must not differ) and memory outside the declared WRITES must stay
   as it was; the values are compared with the equations evaluated on explicit stencils.
"""

import itertools
import json
import math
import os
import subprocess
import sys

import cactus
import etreg
import examples
import vf
from stencil import Point

HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = os.environ["VF_SCRATCH"]


# ---- part A: registries -------------------------------------------------------------------------
def arrangement_problems(a):
    return [(f"{t}:{k}", f"thorn {t}: {m}") for t, k, m in a.problems]


def lines(r):
    return [x.split() for x in r.stdout.splitlines() if x.split()]


def gf_case(infra, names, runit, d):
    etreg.gridfunctions(infra, names, d)
    x = infra == "CarpetX"
    a = cactus.Arrangement(d, x)
    probs = []
    if a.problems:
        return arrangement_problems(a)
    I = a.thorns["T"]["interface"]
    G = lambda k: sorted(c + "GF" for n in names if etreg.GROUP[n] == k for c, _ in etreg.components(n))
    want = {"evol_variables": G("EVOL"), "evol_variables_rhs": sorted(c[:-2] + "_rhsGF" for c in G("EVOL"))}
    if G("AUXEVOL"):
        want["auxevol_variables"] = G("AUXEVOL")
    if G("AUX"):
        want["aux_variables"] = G("AUX")
    got = {g: sorted(q["vars"]) for g, q in I["groups"].items()}
    if got != want:
        probs.append(("groups", f"declared groups {got}, registered {want}"))
    if any(q["access"] != "public" for q in I["groups"].values()):
        probs.append(("groups:access", "a group is not public, though other thorns inherit it"))
    if a.thorns["U"]["interface"]["groups"]:
        probs.append(("groups:inherited", "the thorn that only inherits the gridfunctions declares groups"))
    par_ = {c + "GF": s for n in names for c, s in etreg.components(n)}
    if x:
        for g, q in I["groups"].items():
            tags = cactus.tags(q["tags"])
            if g == "evol_variables" and tags.get("rhs") != "evol_variables_rhs":
                probs.append(("tags:rhs", f"{g} names {tags.get('rhs')} as its right-hand sides"))
            if "parities" in tags:
                v = [int(s) for s in tags["parities"].split()]
                if v != [s for n in q["vars"] for s in par_.get(n, (9, 9, 9))]:
                    probs.append(("tags:parities", f"{g}: parities {v} for {q['vars']}"))
            elif g in ("evol_variables", "aux_variables"):
                probs.append(("tags:parities", f"{g} has no parities"))
    if not runit or probs:
        return probs
    exe = a.build(d + "/bld")
    if exe is None:
        return arrangement_problems(a)
    fns = sorted(a.thorns["T"]["fn"])
    script = "grid 5 1 0 1 4 1 0 1 3 1 0 1\npar T FD_order 6\n" if not x else "grid 5 1 0 1 4 1 0 1 3 1 0 1\n"
    script += "".join(f"fill T::{v} all 1 1 {k}\n" for k, v in enumerate(sum(want.values(), []))) + "save before\n"
    script += "".join(f"say {f}\ncall {f}\nsave {f}.bin\n" for f in fns)
    r = a.execute(exe, script, d)
    if r.returncode:
        return [("run", f"status {r.returncode}: {r.stdout[-200:]}")]
    out, cur = {f: [] for f in fns}, None
    for w in lines(r):
        if w[0] == "SAY":
            cur = w[1]
        else:
            out[cur].append(w)
    comp = {c: n for n in names for c, _ in etreg.components(n)}
    ev = [c for c in comp if etreg.GROUP[comp[c]] == "EVOL"]
    ax = [c for c in comp if etreg.GROUP[comp[c]] == "AUX"]

    def param(tab, c):
        v = tab[comp[c]]
        return v[[q for q, _ in etreg.components(comp[c])].index(c)] if isinstance(v, list) else v

    w = sorted(["NEWRAD", f"T::{c}GF", f"T::{c}_rhsGF", "%.17g" % param(etreg.FINF, c), "%.17g" % param(etreg.WS, c), "1"] for c in ev)
    seen = []
    for f, ls in out.items():
        g = sorted(l for l in ls if l[0] == "NEWRAD")
        if g:
            seen.append(f)
            if g != w:
                probs.append(("newrad", f"{f}: {[l for l in g if l not in w][:3]} instead of {[l for l in w if l not in g][:3]}"))
        for l in ls:
            if l[0] == "ERROR" or "UNKNOWN" in l:
                probs.append(("run:" + f, f"{f} reports {l}"))
    if len(seen) != 1:
        probs.append(("newrad", f"outgoing boundary conditions set by {seen}"))
    if not x:
        sym = [l for ls in out.values() for l in ls if l[0] == "SYM"]
        w = sorted(["SYM", f"T::{c}GF"] + [str(s) for s in par_[c + "GF"]] for c in comp)
        if sorted(sym) != w:
            probs.append(("symmetry", f"{[l for l in sorted(sym) if l not in w][:3]} instead of {[l for l in w if l not in sym][:3]}"))
        mol = [l for ls in out.values() for l in ls if l[0] == "MOL"]
        if mol != [["MOL", "t::evol_variables", "t::evol_variables_rhs"]]:
            probs.append(("mol", f"{mol}"))
        bc = sorted(l for ls in out.values() for l in ls if l[0] == "DRIVERBC")
        w = [["DRIVERBC", f"T::{c}GF", l, n, k] for cs, n, k in ((ev, "1", "none"), (ax, "4", "flat")) for c in cs for l in {b[2] for b in bc}]
        if bc != sorted(w):
            probs.append(("driver-bc", f"{[l for l in bc if l not in w][:3]} instead of {[l for l in w if l not in bc][:3]}"))
        bc = sorted(l for ls in out.values() for l in ls if l[0] == "BOUNDARYBC")
        w = [["BOUNDARYBC", f"T::{c}GF", l, n, k] for cs, n, k in ((ev, "1", "none"), (ax, "4", "flat")) for c in cs for l in {b[2] for b in bc}]
        if bc != sorted(w):
            probs.append(("boundary-bc", f"{[l for l in bc if l not in w][:3]} instead of {[l for l in w if l not in bc][:3]}"))
    # right-hand sides are zeroed everywhere, and nothing else changes (outgoing conditions act on their ghosts)
    last, z = cactus.load(d + "/before", len(a.vars)), [f for f in fns if f.endswith("zero_rhss")]
    for f in fns:
        after = cactus.load(f"{d}/{f}.bin", len(a.vars))
        for v, k in a.vars.items():
            rhs = v.split("::")[1] in want["evol_variables_rhs"]
            if f in seen and rhs:
                continue
            if (f in z and rhs and any(after[k])) or (not (f in z and rhs) and after[k] != last[k]):
                probs.append(("zero_rhss" if f in z else "changes:" + f, f"{v} after {f}"))
                break
        last = after
    if len(z) != 1:
        probs.append(("zero_rhss", "no function sets the right-hand sides to zero"))
    return probs


def many(kind, infra, cases, d):
    """run a chunk of cases; returns problems with their case"""
    out = []
    for k, c in enumerate(cases):
        w = f"{d}/{k}"
        os.makedirs(w)
        if kind == "gf":
            ps = gf_case(infra, *c, w)
        elif kind == "par":
            ps = par_case(infra, c, w)
        else:
            ps = sched_case(infra, c, w)
        out += [(key, msg, c) for key, msg in ps]
        subprocess.run(["rm", "-rf", w], check=True)
    return out


def par_case(infra, sets, d):
    etreg.params(infra, sets, d)
    probs = []
    a = cactus.Arrangement(d, infra == "CarpetX")
    if a.problems:
        return arrangement_problems(a)
    for th, ss in (("T", sets[:2]), ("U", sets[2:])):
        got = a.thorns[th]["param"]["params"]
        want = {etreg.PARAMS[k] for s in ss for k in s}
        if set(got) != {n for _, n, _ in want}:
            probs.append(("params", f"thorn {th} declares {sorted(got)}, its functions use {sorted(n for _, n, _ in want)}"))
            continue
        for t, n, v in want:
            q = got[n]
            ty = "INT" if "INT" in t else "REAL"
            if q["type"] != ty or float(q["default"]) != v:
                probs.append((f"params:{n}", f"{n} declared as {q['type']} = {q['default']}, registered as {t} = {v}"))
            if not cactus.in_range(q, v):
                probs.append((f"params:{n}:range", f"default {v} of {n} is outside its declared range"))
    return probs


def sched_case(infra, c, d):
    want = etreg.schedule(infra, c[:3], c[3], d)
    a = cactus.Arrangement(d, infra == "CarpetX")
    if a.problems:
        return arrangement_problems(a)
    probs = []
    for th in ("T", "U"):
        got = sorted((e["name"], e["bin"], e["mods"][1]) for e in a.thorns[th]["schedule"]["items"])
        if got != sorted(want[th]):
            probs.append(("schedule", f"thorn {th} schedules {got}, registered {sorted(want[th])}"))
        fs = {"T": ["f.c", "g.c"], "U": ["h.c"]}[th]
        if sorted(x.rsplit(".", 1)[0] for x in a.thorns[th]["srcs"]) != [x[0] for x in fs]:
            probs.append(("srcs", f"thorn {th} compiles {a.thorns[th]['srcs']}"))
    return probs


def registries(chk):
    jobs = []
    sub = lambda xs: [list(s) for n in range(len(xs) + 1) for s in itertools.combinations(xs, n)]
    for infra in ("ETLegacy", "CarpetX"):
        E, R = sub(etreg.EVOL)[1:], sub(etreg.REST)
        cases = [(e + r, chk.thorough or (e in (["phi"], etreg.EVOL) and len(r) in (0, 1, 5)) or r in ([], etreg.REST)) for e in E for r in R]
        jobs += [("gf", infra, cases[k::24]) for k in range(24)]
        P = sub(range(3))
        cases = list(itertools.product(P, repeat=3))
        jobs += [("par", infra, cases[k::4]) for k in range(4)]
        cases = list(itertools.product(*[range(len(etreg.BINS))] * 3, range(len(etreg.EXTRA))))
        jobs += [("sched", infra, cases[k::8]) for k in range(8)]
    args = [j + (f"{SCRATCH}/a{k}",) for k, j in enumerate(jobs)]
    for j, probs in zip(jobs, vf.pmap(many, args)):
        chk.count("registries", len(j[2]))
        if j[0] == "gf":
            chk.count("registries compiled and run", sum(1 for c in j[2] if c[1]))
        for c in j[2]:
            chk.outcome((j[0], j[1], str(c)))
        for key, msg, c in probs:
            chk.violation(f"{j[1]}:{j[0]}:{key}", f"{j[1]} {c}: {msg}", {"infra": j[1], "kind": j[0], "case": c})


# ---- running the functions of a thorn -----------------------------------------------------------
def ghost_mask(shape, ng):
    n = []
    for k in range(shape[2]):
        for j in range(shape[1]):
            for i in range(shape[0]):
                n.append(any(p < ng or p >= s - ng for p, s in zip((i, j, k), shape)))
    return n


def region_run(a, exe, d, grid, base, fn, th):
    """problems of one scheduled function with respect to its declared READS and WRITES"""
    f = a.thorns[th]["fn"][fn]
    shape, ng, head = grid
    gm = ghost_mask(shape, ng)
    probs = []
    script = head
    for run in (0, 1):
        for v in a.vars:
            b, amp = base(v)
            script += f"fill {v} all {b} {amp} 1\n"
            if v.startswith("Grid::"):
                continue
            r = f["reads"].get(v, "nowhere")
            if r == "nowhere":
                script += f"fill {v} all {b} {amp} {5 + run}\n"
            elif r == "interior":
                script += f"fill {v} ghost {b} {amp} {5 + run}\n"
            elif r == "boundary":
                script += f"fill {v} interior {b} {amp} {5 + run}\n"
        if "Grid::x" in a.vars:
            script += "coords Grid::x Grid::y Grid::z\n"
        script += f"save {fn}.b{run}\ncall {fn}\nsave {fn}.a{run}\n"
    r = a.execute(exe, script, d)
    if r.returncode:
        return [(f"run:{fn}", f"{fn} fails: status {r.returncode} {r.stdout[-200:]}")], None
    for w in lines(r):
        if w[0] == "ERROR":
            probs.append((f"run:{fn}", f"{fn}: {w}"))
    S = {k: cactus.load(f"{d}/{fn}.{k}", len(a.vars)) for k in ("b0", "b1", "a0", "a1")}
    for v, k in a.vars.items():
        w = f["writes"].get(v, "nowhere")
        for p, g in enumerate(gm):
            may = w not in ("nowhere",) and (w in ("everywhere", None) or (w == "interior") == (not g))
            must = may and (w is not None or not g)
            if not may and (S["a0"][k][p] != S["b0"][k][p]):
                probs.append((f"writes:{fn}:{v.split('::')[1]}", f"{fn} changes {v} {'in the ghost zones' if g else 'in the interior'}, declared WRITES {w}"))
                break
            if must and not (S["a0"][k][p] == S["a1"][k][p]):
                probs.append((f"reads:{fn}:{v.split('::')[1]}", f"{v}, written by {fn}, depends on memory that is not among its READS, at point {p} ({'ghost' if g else 'interior'}): {S['a0'][k][p]} / {S['a1'][k][p]}"))
                break
    return probs, (S["b0"], S["a0"])


# ---- part B: WaveToy ----------------------------------------------------------------------------
NEWRAD = "CCTK_INT FUNCTION NewRad_Apply(CCTK_POINTER_TO_CONST IN cctkGH, CCTK_REAL ARRAY IN var, CCTK_REAL ARRAY INOUT rhs, CCTK_REAL IN var0, CCTK_REAL IN v0, CCTK_INT IN radpower)\nREQUIRES FUNCTION NewRad_Apply\n"


def undeclared_newrad(proj):
    """Reports sources that call NewRad_Apply although their thorn does not require it, and adds the declaration so that
    the rest of the thorn can be checked."""
    import glob  # pylint: disable=import-outside-toplevel
    import re  # pylint: disable=import-outside-toplevel

    probs = []
    for ccl in sorted(glob.glob(proj + "/**/interface.ccl", recursive=True)):
        t = open(ccl, encoding="utf-8").read()
        th = os.path.dirname(ccl)
        if "NewRad_Apply" not in t and any("NewRad_Apply" in open(c, encoding="utf-8").read() for c in glob.glob(th + "/src/*.c")):
            probs.append((f"NewRad-undeclared:{os.path.basename(th)}", f"thorn {os.path.basename(th)} calls NewRad_Apply, which its interface.ccl does not require"))
            vf.write(ccl, re.sub(r"(?m)^public:", NEWRAD + "\npublic:", t, count=1))
    return probs


def wavetoy(infra, d):
    undeclared = []
    ps, n = wavetoy_(infra, d, undeclared)
    return undeclared + ps, n


def wavetoy_(infra, d, undeclared):
    x = infra == "CarpetX"
    s = "X" if x else ""
    proj = examples.generate(("carpetx" if x else "carpet") + "_wavetoy_thorns", d)
    if not x:
        undeclared += undeclared_newrad(proj)
    a = cactus.Arrangement(proj, x)
    exe = a.build(d + "/bld") if not a.problems else None
    if exe is None or a.problems:
        return arrangement_problems(a), 0
    E, ID, DG = "WaveToyNRPy" + s, "IDWaveToyNRPy" + s, "diagWaveToyNRPy" + s
    ng = 5
    shape, sp, org = (8 + 2 * ng, 3 + 2 * ng, 2 + 2 * ng), (0.11, 0.13, 0.17), (-0.83, -0.71, -0.4)
    head = "grid " + " ".join(f"{n} {ng} {o} {h}" for n, o, h in zip(shape, org, sp)) + "\ntime 0.37\n"
    head += f"par {ID} sigma 1.3\npar {ID} wavespeed 1.6\n"
    probs, n = [], 0
    base = lambda v: (0.3, 0.5)
    for th in a.thorns:
        for fn in a.thorns[th]["fn"]:
            p, _ = region_run(a, exe, d, (shape, ng, head), base, fn, th)
            probs += p
            n += 1
    if probs:
        return probs, n
    # the equations: polynomials on which the stencils are exact
    fns = {f: th for th in a.thorns for f in a.thorns[th]["fn"]}
    rhs = [f for f in fns if fns[f] == E and f.endswith("rhs_eval")]
    uu = [(1.5, 0, 0, 0), (0.7, 1, 2, 0), (-0.4, 4, 0, 0), (0.9, 0, 3, 1), (0.35, 0, 0, 4), (0.21, 2, 2, 0), (-0.6, 1, 1, 1), (0.8, 0, 4, 0), (1.1, 2, 0, 0)]
    vv = [(0.25, 1, 1, 1), (-2.0, 0, 2, 0), (0.5, 3, 0, 0)]
    P = lambda t: f"{len(t)} " + " ".join(f"{c} {i} {j} {k}" for c, i, j, k in t)
    script = head + f"poly {E}::uuGF {P(uu)}\npoly {E}::vvGF {P(vv)}\ncoords Grid::x Grid::y Grid::z\n"
    script += "".join(f"call {f}\n" for f in rhs) + "save rhs\n"
    r = a.execute(exe, script, d)
    gm = ghost_mask(shape, ng)
    if r.returncode or len(rhs) != 1:
        return [("run:rhs", r.stdout[-200:])], n
    S = cactus.load(d + "/rhs", len(a.vars))
    val = lambda t, X: sum(c * X[0] ** i * X[1] ** j * X[2] ** k for c, i, j, k in t)

    def lap(t):
        out = []
        for c, *e in t:
            for q in range(3):
                if e[q] > 1:
                    g = list(e)
                    g[q] -= 2
                    out.append((c * e[q] * (e[q] - 1), *g))
        return out

    P3 = [(i, j, k) for k in range(shape[2]) for j in range(shape[1]) for i in range(shape[0])]
    for p, ijk in enumerate(P3):
        if gm[p]:
            continue
        X = [o + h * q for o, h, q in zip(org, sp, ijk)]
        for v, want in (("uu_rhsGF", val(vv, X)), ("vv_rhsGF", 1.6**2 * val(lap(uu), X))):
            got = S[a.vars[f"{E}::{v}"]][p]
            if not abs(got - want) <= 1e-9 * (1 + abs(want)):
                return [(f"value:{v}", f"{v} = {got} at {X}, the equation gives {want}")], n
        n += 1
    # the exact solution solves the wave equation and starts from the initial data
    idf = [f for f in fns if fns[f] == ID]
    dgf = [f for f in fns if fns[f] == DG]
    aux = [v for v in a.thorns[E]["interface"]["groups"]["aux_variables"]["vars"]]
    dt = 1e-3
    script = head
    for k, t in enumerate((0.37 - dt, 0.37, 0.37 + dt, 0.0)):
        script += f"time {t!r}\ncoords Grid::x Grid::y Grid::z\n" + "".join(f"call {f}\n" for f in (idf if k == 3 else []) + dgf) + f"save ex{k}\n"
    r = a.execute(exe, script, d)
    if r.returncode:
        return [("run:exact", r.stdout[-200:])], n
    T = [cactus.load(f"{d}/ex{k}", len(a.vars)) for k in range(4)]
    ue, ve = sorted(aux)
    u, v = a.vars[f"{E}::{ue}"], a.vars[f"{E}::{ve}"]
    for p, ijk in enumerate(P3):
        for e, q in ((u, "uuGF"), (v, "vvGF")):
            if T[3][a.vars[f"{E}::{q}"]][p] != T[3][e][p]:
                return [("value:initial", f"initial {q} = {T[3][a.vars[f'{E}::{q}']][p]}, exact solution at time 0 {T[3][e][p]}")], n
        w = (T[2][u][p] - T[0][u][p]) / (2 * dt)
        if not abs(w - T[1][v][p]) <= 1e-4 * (1 + abs(w)):
            return [("value:exact-vv", f"vv = {T[1][v][p]}, time derivative of uu {w} at {ijk}")], n
        if gm[p]:
            continue
        acc = (T[2][v][p] - T[0][v][p]) / (2 * dt)
        L = 0.0
        for q in range(3):
            st = (1, shape[0], shape[0] * shape[1])[q]
            L += sum(c * T[1][u][p + o * st] for o, c in zip(range(-4, 5), (-1 / 560, 8 / 315, -1 / 5, 8 / 5, -205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560))) / sp[q] ** 2
        if not abs(acc - 1.6**2 * L) <= 2e-4 * (1 + abs(acc)):
            return [("value:exact-pde", f"exact solution at {ijk}: d2u/dt2 = {acc}, c^2 Laplacian = {1.6 ** 2 * L}")], n
        n += 1
    return probs, n


# ---- part C: BSSN thorns ------------------------------------------------------------------------
GRBASE = {"alpha": (0.8, 0.4), "cf": (0.7, 0.2), "vetU": (-0.3, 0.6), "gxx": (1.1, 0.3), "gyy": (1.2, 0.3), "gzz": (1.3, 0.3), "gxy": (-0.1, 0.3), "gxz": (-0.1, 0.3), "gyz": (-0.1, 0.3), "alp": (0.6, 0.4)}


def gr_base(v):
    n = v.split("::")[1]
    for k, b in GRBASE.items():
        if n in (k, k + "GF") or (n.startswith(k) and n[len(k):] in ("0GF", "1GF", "2GF")):
            return b
    if n.startswith("hDD"):
        return (-0.05, 0.12)
    return (-0.2, 0.5)


def gr_generate(o, d):
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, XDG_CACHE_HOME=os.path.join(d, "cache"), PYTHONHASHSEED="0")
    o = dict(o, proj=d + "/thorns")
    os.makedirs(o["proj"])
    r = subprocess.run([sys.executable, os.path.join(HERE, "etgen.py"), json.dumps(o)], cwd=d, env=env, capture_output=True, text=True, timeout=880)
    if r.returncode:
        tb = r.stderr[-6000:]
        if not vf.touches_repo(tb):
            raise vf.HarnessError(tb[-1500:])
        return tb.strip().splitlines()[-1][-400:]
    return None


PARVALS = {"eta": 1.7, "diss_strength": 0.31, "diss_strength_gauge": 0.23, "diss_strength_nongauge": 0.41, "C_CAHD": 0.19, "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors": 0.43, "SSL_h": 0.7, "SSL_sigma": 3.0, "lapse_floor": 0.91}


def gr_run(o, d):
    """build and run one BSSN thorn; leaves the states for gr_values; returns (problems, cases)"""
    err = gr_generate(o, d)
    if err:
        return [("generate", err)], 0
    a = cactus.Arrangement(d + "/thorns", o["infra"] == "CarpetX", [o["thorn"]])
    exe = a.build(d + "/bld") if not a.problems else None
    if exe is None or a.problems:
        return arrangement_problems(a), 0
    th = o["thorn"]
    ng = max(o["fd"]) // 2 + 1
    shape, sp, org = (8 + 2 * ng, 2 + 2 * ng, 2 + 2 * ng), (0.21, 0.23, 0.29), (-0.83, -0.71, -0.4)
    head = "grid " + " ".join(f"{n} {ng} {q} {h}" for n, q, h in zip(shape, org, sp)) + "\ntime 0.77\n"
    have = a.thorns[th]["param"]["params"]
    pv = {}
    for k, v in PARVALS.items():
        if k in have:
            head += f"par {th} {k} {v}\n"
            pv[k] = v
    probs, n, rec = [], 0, {}
    for fn in a.thorns[th]["fn"]:
        if "RegisterSlicing" in fn:
            r = a.execute(exe, f"call {fn}\n", d)
            if r.returncode or not any(w[:2] == ["SLICING", th] for w in lines(r)):
                probs.append(("slicing", r.stdout[-200:]))
            continue
        p, st = region_run(a, exe, d, (shape, ng, head), gr_base, fn, th)
        probs += p
        n += 1
        if st:
            rec[fn] = st
    if probs:
        return probs, n
    ps, m = gr_values(o, a, rec, shape, ng, sp, pv)
    return ps, n + m


def gr_values(o, a, rec, shape, ng, sp, pv):
    import tensors as tn  # pylint: disable=import-outside-toplevel
    import etoracle  # pylint: disable=import-outside-toplevel

    th = o["thorn"]
    imp = {v.split("::")[1]: k for v, k in a.vars.items()}
    strides = (1, shape[0], shape[0] * shape[1])
    inner = [(i, j, k) for k in range(ng, shape[2] - ng) for j in range(ng, shape[1] - ng) for i in range(ng, shape[0] - ng)]
    every = [(i, j, k) for k in range(shape[2]) for j in range(shape[1]) for i in range(shape[0])]
    at = lambda ijk: sum(s * q for s, q in zip(strides, ijk))
    probs, n = [], 0

    def compare(fn, ijk, want, after, tol=1e-9):
        nonlocal n
        for v, w in want.items():
            got = after[imp[v]][at(ijk)]
            n += 1
            if not abs(got - float(w)) <= tol * (1 + abs(float(w))):
                probs.append((f"value:{fn.replace(th + '_', '')}:{v}", f"{fn}: {v} = {got!r} at {ijk}, expected {float(w)!r}"))
                return

    for fn, (before, after) in rec.items():
        raw = lambda v, ijk: before[imp[v]][at(ijk)]

        def point(ijk, src, fd, extra=None):
            def get(name, off):
                return src[imp[name + "GF"]][at([p + q for p, q in zip(ijk, off)])]

            return Point(get, fd, sp, lambda q: src[imp[f"vetU{q}GF"]][at(ijk)], dict({"PI": math.pi}, **pv, **(extra or {})))

        kind = fn[len(th) + 1:]
        fd = int(kind.rsplit("_", 1)[1]) if "_order_" in kind else 0
        if kind.startswith("ADM_to_BSSN"):
            for ijk in every[::7]:
                compare(fn, ijk, etoracle.adm_to_bssn(lambda v: raw(v, ijk), o.get("cf", "W")), after)
            for ijk in inner:  # the conformal connection functions come from differences of the new metric
                compare(fn, ijk, etoracle.lambdaU(point(ijk, after, fd)), after, 1e-8)
            ex = [w for w in a.thorns[th]["fn"]]
            _ = ex
        elif kind == "BSSN_to_ADM":
            for ijk in every[::7]:
                compare(fn, ijk, etoracle.bssn_to_adm(lambda v: raw(v, ijk), o.get("cf", "W")), after)
        elif kind == "floor_the_lapse":
            for ijk in every:
                compare(fn, ijk, {"alphaGF": max(raw("alphaGF", ijk), pv["lapse_floor"])}, after, 0)
        elif kind == "enforce_detgammahat_constraint":
            for ijk in every[::3]:
                compare(fn, ijk, etoracle.unit_determinant(lambda v: raw(v, ijk)), after, 1e-12)
        elif kind == "T4DD_to_T4UU":
            for ijk in every[::7]:
                compare(fn, ijk, etoracle.t4uu(lambda v: raw(v, ijk), o.get("cf", "W")), after)
        elif kind.startswith("Ricci") or kind.startswith("rhs_eval") or kind.startswith("BSSN_constraints"):
            exprs = etoracle.expressions(kind.split("_order_")[0], o)
            extra = {"cahdprefactor": pv.get("C_CAHD", 0) * pv.get("CFL_FACTOR__ignore_repeats_Carpet_timeref_factors", 0) * min(sp), "SSL_Gaussian_prefactor": pv.get("SSL_h", 0) * math.exp(-0.77 * 0.77 / (2 * pv.get("SSL_sigma", 1) ** 2))}
            for ijk in inner[:: max(1, len(inner) // 6)]:
                env = point(ijk, before, fd, extra)
                memo = {}
                compare(fn, ijk, {v: tn.ev(e, env, memo) for v, e in exprs.items()}, after, 1e-8)
        elif "zero_rhss" in kind or "BoundaryConditions" in kind or "registration" in kind:
            pass
        else:
            probs.append((f"unknown:{kind}", f"{fn} is not a function this check knows"))
    return probs, n


def configs(thorough):
    base = dict(simd=False, T4=False, imp=0, con=1, KO=True, lapse="OnePlusLog", shift="GammaDriving2ndOrder_NoCovariant", fd=[2])
    c = [dict(base, infra="ETLegacy", thorn="BaikalVac", simd=True), dict(base, infra="CarpetX", thorn="BaikalMatX", T4=True, con=0), dict(base, infra="ETLegacy", thorn="BaikalImp", simd=True, T4=True, imp=1), dict(base, infra="CarpetX", thorn="BaikalImpX", imp=1)]
    if thorough:
        c += [dict(base, infra="ETLegacy", thorn="BaikalC", simd=True, T4=True), dict(base, infra="CarpetX", thorn="BaikalCX", T4=False, fd=[4]), dict(base, infra="ETLegacy", thorn="BaikalS", T4=True, KO=False), dict(base, infra="ETLegacy", thorn="BaikalM", fd=[2, 4], simd=True), dict(base, infra="CarpetX", thorn="BaikalCov", T4=True, shift="GammaDriving2ndOrder_Covariant", KO=False), dict(base, infra="ETLegacy", thorn="BaikalHarm", lapse="HarmonicSlicing", simd=True, con=0), dict(base, infra="ETLegacy", thorn="BaikalImpN", T4=False, imp=1, fd=[4]), dict(base, infra="ETLegacy", thorn="BaikalChi", cf="chi", simd=True), dict(base, infra="CarpetX", thorn="BaikalPhi", cf="phi", T4=True)]
    return c


def body(chk):
    jobs = [("gr", c) for c in configs(chk.thorough)] + [("wave", "ETLegacy"), ("wave", "CarpetX")]
    sel = os.environ.get("C24_ONLY")
    if not sel or "A" in sel:
        registries(chk)
    if sel:
        jobs = [j for j in jobs if (j[0] == "wave" and "B" in sel) or (j[0] == "gr" and ("C" in sel or j[1]["thorn"] == sel))]

    args = [(k, j[1], f"{SCRATCH}/p{i}") for i, (k, j) in enumerate(zip([j[0] for j in jobs], jobs))]
    for j, (probs, n) in zip(jobs, vf.pmap(one, args, nproc=6, timeout=3000)):
        chk.count("scheduled functions and values", n)
        chk.outcome(str(j))
        name = j[1] if j[0] == "wave" else j[1]["thorn"]
        for key, msg in probs:
            chk.violation(f"{j[0]}:{name}:{key}", f"{name}: {msg}", {"job": j})
    chk.sample({"job": str(jobs[-1]) if jobs else None})


def one(kind, c, d):
    return wavetoy(c, d) if kind == "wave" else gr_run(c, d)


if __name__ == "__main__":
    vf.main("C24", "exploration", "distinct registries, example thorns and BSSN thorn options", body)
