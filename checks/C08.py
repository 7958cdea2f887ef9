"""C08: gridfunction registration yields consistent indices, tables and access macros.

Explicit-state search over sequences of registrations on the real registry (reset between
sequences), against a reference model of what must be registered; every sequence up to the
compile depth is turned into a real BHaH_defines.h, compiled, and its macros, tables and access
expressions are read back at run time.
"""

import itertools
import os
import shutil

import sympy as sp

import vf

import nrpy.finite_difference  # noqa: F401  pylint: disable=unused-import
import nrpy.grid as gri
import nrpy.infrastructures.BHaH.BHaH_defines_h as Bd
import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
import nrpy.params as par
import nrpy.c_function as cfc


def comps(base, rank, dim, sym=None):
    """Independent components of a tensor, in component order, as (name, indices)."""
    out = []
    for ix in itertools.product(range(dim), repeat=rank):
        keep = True
        for s in (sym or "").split("_"):
            if not s or s == "nosym":
                continue
            a, b = int(s[-2]), int(s[-1])
            if ix[a] > ix[b] or (s.startswith("anti") and ix[a] == ix[b]):
                keep = False
        if keep:
            out.append((base + "".join(map(str, ix)), ix))
    return out


def parity(rank, dim, ix):
    """Parity type: 0 scalar, 1-3 vector components, 4-9 symmetric pairs 00 01 02 11 12 22."""
    if rank == 0:
        return 0
    sp_ix = [i - (1 if dim == 4 else 0) for i in ix]
    s = [i for i in sp_ix if i >= 0]
    if not s:
        return 0
    if len(s) == 1:
        return s[0] + 1
    if len(s) == 2:
        return {(0, 0): 4, (0, 1): 5, (0, 2): 6, (1, 1): 7, (1, 2): 8, (2, 2): 9}[tuple(sorted(s))]
    return None


class Op:
    """One registration: what is called and what it must add."""

    def __init__(self, label, call, adds=(), refused=False):
        self.label, self.call, self.adds, self.refused = label, call, adds, refused


def S(names, group="EVOL", finf=0.0, ws=1.0):
    nl = names if isinstance(names, list) else [names]
    adds = [(n, group, 0, 3, finf[i] if isinstance(finf, list) else finf, ws[i] if isinstance(ws, list) else ws, ()) for i, n in enumerate(nl)]
    return Op(f"scalar {names} {group} finf={finf} ws={ws}", lambda: gri.register_gridfunctions(names, group=group, f_infinity=finf, wavespeed=ws), adds)


def V(base, dim=3, group="EVOL", finf=0.0, ws=1.0):
    cs = comps(base, 1, dim)
    adds = [(n, group, 1, dim, finf[i] if isinstance(finf, list) else finf, ws[i] if isinstance(ws, list) else ws, ix) for i, (n, ix) in enumerate(cs)]
    return Op(f"vector {base} dim={dim} {group}", lambda: gri.register_gridfunctions_for_single_rank1(base, dimension=dim, group=group, f_infinity=finf, wavespeed=ws), adds)


def T2(base, sym, dim=3, group="EVOL", finf=0.0, ws=1.0):
    cs = comps(base, 2, dim, sym)
    adds = [(n, group, 2, dim, finf[i] if isinstance(finf, list) else finf, ws[i] if isinstance(ws, list) else ws, ix) for i, (n, ix) in enumerate(cs)]
    return Op(f"tensor {base} {sym} dim={dim} {group}", lambda: gri.register_gridfunctions_for_single_rank2(base, symmetry=sym, dimension=dim, group=group, f_infinity=finf, wavespeed=ws), adds)


def TN(base, rank, sym, dim=3, group="EVOL", finf=0.0):
    cs = comps(base, rank, dim, sym)
    adds = [(n, group, rank, dim, finf[i] if isinstance(finf, list) else finf, 1.0, ix) for i, (n, ix) in enumerate(cs)]
    return Op(f"rankN {base} rank={rank} {sym} dim={dim} {group}", lambda: gri.register_gridfunctions_for_single_rankN(base, rank=rank, symmetry=sym, dimension=dim, group=group, f_infinity=finf), adds)


def R(label, call):
    return Op("refused " + label, call, refused=True)


OPS = [
    S("uu", finf=2.5, ws=0.5),
    S("ZZ"),
    S(["ab", "Aa", "b_c"], finf=[1.0, -2.0, 3.0], ws=[0.25, 4.0, 1.5]),
    S("uu", group="AUX"),  # repeated name: the first registration stands
    S(["MSQ", "Hc"], group="AUX"),
    S(["aux_e", "zauxe"], group="AUXEVOL"),
    V("vU", finf=[0.5, 1.5, 2.5], ws=[1.0, 2.0, 3.0]),
    V("BU", group="AUXEVOL"),
    V("V4U", dim=4),
    V("w2D", dim=2, group="AUX"),
    T2("hDD", "sym01", finf=[float(i) for i in range(6)]),
    T2("hDU", "nosym", group="AUX"),
    T2("FUU", "anti01", group="AUXEVOL"),
    T2("T4UU", "sym01", dim=4, group="AUXEVOL"),
    TN("qDD", 2, "sym01", finf=[float(10 * i) for i in range(6)]),
    TN("pD", 1, None, group="AUX"),
    TN("eDD", 2, "anti01", dim=4),
    R("group", lambda: gri.register_gridfunctions("badg", group="NOSUCH")),
    R("digit", lambda: gri.register_gridfunctions("bad7")),
    R("empty", lambda: gri.register_gridfunctions("")),
    R("rank", lambda: gri.register_gridfunctions_for_single_rankN("bb", rank=5)),
]
RANK3 = [
    TN("GUDD", 3, "sym12", group="AUX"),
    TN("cDDD", 3, "sym01"),
    TN("RDDDD", 4, "sym01_sym23", dim=2),
    TN("xDDD", 3, "anti12", dim=2),
    T2("mUU", "nosym", dim=4),
    TN("nDU", 2, "nosym", dim=4, group="AUXEVOL"),
    TN("kDU", 2, "nosym"),
]


def reset(infra):
    gri.glb_gridfcs_dict.clear()
    par.glb_extras_dict.clear()
    cfc.CFunction_dict.clear()
    par.set_parval_from_str("Infrastructure", infra)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


GROUPS = {"BHaH": ("EVOL", "AUX", "AUXEVOL"), "ETLegacy": ("EVOL", "AUX", "AUXEVOL"), "CarpetX": ("EVOL", "AUX", "AUXEVOL")}


def attrs(g):
    return (g.name, g.group, g.rank, g.dimension, float(g.f_infinity), float(g.wavespeed))


def run_seq(seq, infra, ops):
    """Returns (error, model) for one sequence of operation indices."""
    reset(infra)
    model = {}
    for i in seq:
        op = ops[i]
        before = {k: attrs(v) for k, v in gri.glb_gridfcs_dict.items()}
        if op.refused:
            try:
                op.call()
                return f"{op.label}: accepted", model
            except (ValueError, TypeError):
                pass
            if {k: attrs(v) for k, v in gri.glb_gridfcs_dict.items()} != before:
                return f"{op.label}: a refused registration changed the registry", model
            continue
        ret = op.call()
        for a in op.adds:
            model.setdefault(a[0], a)
        syms = [s for s in flat(ret) if isinstance(s, sp.Symbol)]
        if set(map(str, syms)) != {a[0] for a in op.adds}:
            return f"{op.label}: returned symbols {sorted(set(map(str, syms)))}, components are {[a[0] for a in op.adds]}", model
        got = {k: attrs(v) for k, v in gri.glb_gridfcs_dict.items()}
        want = {k: tuple(m[:6]) for k, m in model.items()}
        if got != want:
            d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            return f"{op.label}: after {[ops[j].label for j in seq[:seq.index(i)]]}: registry has {[(k, got.get(k)) for k in d[:4]]}, want {[(k, want.get(k)) for k in d[:4]]}", model
    # lists
    ev, au, ae = gri.GridFunction.gridfunction_lists()
    for lst, g in ((ev, "EVOL"), (au, "AUX"), (ae, "AUXEVOL")):
        want = sorted(n for n, m in model.items() if m[1] == g)
        if sorted(lst) != want:
            return f"gridfunction_lists {g}: {lst} want the names {want}", model
        ok = [n for n in lst if parity(model[n][2], model[n][3], model[n][6]) is not None and model[n][3] in (3, 4)]
        pt = gri.GridFunction.set_parity_types(ok)
        wantp = [parity(model[n][2], model[n][3], model[n][6]) for n in ok]
        if pt != wantp:
            return f"parity types of {ok}: {pt} want {wantp}", model
    # access expressions: one distinct expression per gridfunction and offset
    seen = {}
    for n, g in gri.glb_gridfcs_dict.items():
        for off in ((0, 0, 0), (1, -2, 3), (0, 0, -1)):
            e = g.read_gf_from_memory_Ccode_onept(*off)
            if e in seen:
                return f"{infra}: {n} at {off} and {seen[e]} are read by the same expression {e}", model
            seen[e] = (n, off)
    return None, model


def compile_seq(seq, ops, scratch):
    """Generate the real header for a sequence, compile, and read everything back."""
    e, model = run_seq(seq, "BHaH", ops)
    if e:
        return e
    has_par = all(parity(m[2], m[3], m[6]) is not None and m[3] in (3, 4) for m in model.values())
    d = os.path.join(scratch, f"c{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    par.set_parval_from_str("fd_order", 2)
    if has_par:
        cbc.register_BHaH_defines_h(set_parity_on_aux=True, set_parity_on_auxevol=True)
    Bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False)
    pr = []
    for n, m in model.items():
        g = gri.glb_gridfcs_dict[n]
        U = n.upper() + "GF"
        pr.append(f'printf("I {n} %d\\n", (int){U});')
        if m[1] == "EVOL":
            pr.append(f'printf("F {n} %.17g %.17g\\n", (double)gridfunctions_f_infinity[{U}], (double)gridfunctions_wavespeed[{U}]);')
        if has_par:
            pr.append(f'printf("P {n} %d\\n", (int){m[1].lower()}_gf_parity[{U}]);')
        for k, off in enumerate(((0, 0, 0), (1, -2, 3))):
            a = g.read_gf_from_memory_Ccode_onept(*off)
            b = gri.BHaHGridFunction.access_gf(n, *off, gf_array_name=g.gf_array_name)
            pr.append(f'printf("A {n} {k} %ld %ld\\n", (long)(&{a}-{g.gf_array_name}), (long)(&{b}-{g.gf_array_name}));')
    src = (
        '#include "BHaH_defines.h"\n#include <stdio.h>\nint main(void){const int Nxx_plus_2NGHOSTS0=7,Nxx_plus_2NGHOSTS1=11,Nxx_plus_2NGHOSTS2=13;\n'
        "const int i0=3,i1=4,i2=5; static REAL in_gfs[1<<20], aux_gfs[1<<20], auxevol_gfs[1<<20];\n"
        'printf("N %d %d %d\\n", NUM_EVOL_GFS, NUM_AUX_GFS, NUM_AUXEVOL_GFS);\n' + "\n".join(pr) + "\nreturn 0;}\n"
    )
    c = vf.write(os.path.join(d, "t.c"), src)
    try:
        vf.cc([c], os.path.join(d, "t"), base=["-std=gnu99", "-O0", "-w", "-I", d])
    except vf.CompileError as ex:
        shutil.rmtree(d)
        return "the generated header does not compile: " + str(ex)[-500:]
    out = vf.run([os.path.join(d, "t")]).stdout
    shutil.rmtree(d)
    cnt = {g: sum(1 for m in model.values() if m[1] == g) for g in GROUPS["BHaH"]}
    idx = {}
    vals = {}
    for ln in out.splitlines():
        w = ln.split()
        if w[0] == "N":
            if [int(x) for x in w[1:]] != [cnt["EVOL"], cnt["AUX"], cnt["AUXEVOL"]]:
                return f"NUM_*_GFS are {w[1:]}, registered {cnt}"
        elif w[0] == "I":
            idx[w[1]] = int(w[2])
        elif w[0] == "F":
            m = model[w[1]]
            if abs(float(w[2]) - m[4]) > 1e-12 * max(1, abs(m[4])) or abs(float(w[3]) - m[5]) > 1e-12 * max(1, abs(m[5])):
                return f"{w[1]}: f_infinity, wavespeed in the tables are {w[2:]}, registered {m[4:6]}"
        elif w[0] == "P":
            m = model[w[1]]
            if int(w[2]) != parity(m[2], m[3], m[6]):
                return f"{w[1]}: parity {w[2]} in the table, want {parity(m[2], m[3], m[6])}"
        elif w[0] == "A":
            vals[(w[1], int(w[2]))] = (int(w[3]), int(w[4]))
    for g in GROUPS["BHaH"]:
        got = sorted(idx[n] for n, m in model.items() if m[1] == g)
        if got != list(range(cnt[g])):
            return f"indices of group {g} are {got}, want 0..{cnt[g] - 1}"
    for (n, k), (a, b) in vals.items():
        i0, i1, i2 = ((3, 4, 5), (4, 2, 8))[k]
        want = i0 + 7 * (i1 + 11 * (i2 + 13 * idx[n]))
        if a != want or b != want:
            return f"{n}: access reaches element {a} / {b}, want {want}"
    return None


def batch(seqs, infra, which):
    ops = OPS if which == 0 else RANK3
    bad = []
    for s in seqs:
        e, _ = run_seq(s, infra, ops)
        if e:
            bad.append((s, e))
            if len(bad) > 3:
                break
    return bad


def collide(a, b, ga, gb):
    """Names that would share an index macro must not both be usable silently."""
    reset("BHaH")
    try:
        gri.register_gridfunctions(a, group=ga)
        gri.register_gridfunctions(b, group=gb)
        t = gri.BHaHGridFunction.gridfunction_defines()
    except ValueError:
        return None
    defs = [ln.split()[1] for ln in t.splitlines() if ln.startswith("#define")]
    if len(defs) != len(set(defs)):
        return f"{a} ({ga}) and {b} ({gb}) share one index macro"
    return None


def attributes(group, array, sync, kind):
    """What a registration of one scalar, vector or tensor was given is what its gridfunctions have."""
    reset("BHaH")
    kw = dict(group=group)
    if array:
        kw["gf_array_name"] = array
    if sync != "unset":
        kw["sync_gf_in_superB"] = sync
    {"s": gri.register_gridfunctions, "v": gri.register_gridfunctions_for_single_rank1, "t": lambda n, **k: gri.register_gridfunctions_for_single_rank2(n, symmetry="sym01", **k), "n": lambda n, **k: gri.register_gridfunctions_for_single_rankN(n, rank=2, symmetry="sym01", **k)}[kind]("nmDD" if kind in "tn" else "nmU" if kind == "v" else "nm", **kw)
    gfs = list(gri.glb_gridfcs_dict.values())
    if len(gfs) != {"s": 1, "v": 3}.get(kind, 6):
        return f"{len(gfs)} gridfunctions registered"
    warr = array or {"EVOL": "in_gfs", "AUX": "aux_gfs", "AUXEVOL": "auxevol_gfs"}[group]
    wsync = (group == "EVOL") if sync in ("unset", None) else sync
    for g in gfs:
        if bool(g.sync_gf_in_superB) != wsync:
            return f"{g.name} ({group}, sync_gf_in_superB={sync}) has sync_gf_in_superB={g.sync_gf_in_superB}"
        for o in ((0, 0, 0), (-1, 2, 0)):
            e = g.read_gf_from_memory_Ccode_onept(*o)
            x = g.read_gf_from_memory_Ccode_onept(*o, gf_array_name="other_gfs")
            v = g.read_gf_from_memory_Ccode_onept(*o, enable_simd=True)
            if not e.startswith(warr + "[") or not x.startswith("other_gfs[") or e[len(warr):] != x[len("other_gfs"):] or "&" + e not in v:
                return f"{g.name} ({group}, array {array}): accessed by {e}, {x}, {v}"
    return None


def body(chk):
    T = chk.thorough
    for c in itertools.product(GROUPS["BHaH"], (None, "my_gfs"), ("unset", None, True, False), "svtn"):
        e = vf.forked(attributes, *c)
        chk.count("evaluations")
        if e:
            chk.violation("attributes:" + str(c), e, {"group, array, sync, kind": c})
    depth = {"BHaH": 4 if T else 3, "ETLegacy": 3 if T else 2, "CarpetX": 3 if T else 2}
    n = len(OPS)
    for infra, dep in depth.items():
        seqs = [s for d in range(dep + 1) for s in itertools.product(range(n), repeat=d)]
        # a longer sequence extends every shorter one; sequences are checked at their end state
        chunks = [(seqs[i::64], infra, 0) for i in range(64)]
        for bad in vf.pmap(batch, chunks, timeout=900):
            for s, e in bad:
                chk.violation(f"{infra}:{e[:80]}", f"{infra}, sequence {[OPS[i].label for i in s]}: {e}", {"infrastructure": infra, "sequence": [OPS[i].label for i in s]})
        chk.count("states", len(seqs))
        chk.count("transitions", sum(len(s) for s in seqs))
        s3 = [s for d in range(3) for s in itertools.product(range(len(RANK3)), repeat=d)]
        for bad in vf.pmap(batch, [(s3, infra, 1)]):
            for s, e in bad:
                chk.violation(f"{infra}:{e[:80]}", f"{infra}, sequence {[RANK3[i].label for i in s]}: {e}", {"infrastructure": infra, "sequence": [RANK3[i].label for i in s]})
        chk.count("states", len(s3))
        chk.count("transitions", sum(len(s) for s in s3))
    chk.note(f"{chk.counters}")
    cs = [(s, OPS, chk.scratch) for d in range((3 if T else 2) + 1) for s in itertools.combinations([i for i in range(n) if not OPS[i].refused], d)]
    cs += [(s[::-1], OPS, chk.scratch) for s, _, _ in list(cs) if len(s) == 2]
    cs += [(tuple(i for i in range(n) if not OPS[i].refused), OPS, chk.scratch)]
    cs += [(s, RANK3, chk.scratch) for d in (1, 2) for s in itertools.permutations(range(len(RANK3)), d)]
    for c, e in zip(cs, vf.pmap(compile_seq, cs)):
        chk.count("compiled_headers")
        chk.count("evaluations")
        chk.outcome((c[0], c[1] is OPS))
        if e:
            lab = [c[1][i].label for i in c[0]]
            chk.violation("header:" + e[:80], f"sequence {lab}: {e}", {"sequence": lab})
    pairs = [("uu", "UU"), ("Ab", "aB")]
    for (a, b), ga, gb in itertools.product(pairs, GROUPS["BHaH"], GROUPS["BHaH"]):
        e = vf.forked(collide, a, b, ga, gb)
        chk.count("evaluations")
        if e:
            chk.violation("collision:" + e, e, {"names": [a, b], "groups": [ga, gb]})
    chk.sample({"operations": [o.label for o in OPS]})


if __name__ == "__main__":
    vf.main("C08", "model_checking", "distinct compiled registration sequences", body)
