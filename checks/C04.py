"""C04: generated code does not depend on history or on the hash seed.

Explicit exploration of all sequences (to a depth) of generation calls on the real generator:
each node of the sequence tree is a forked process that inherits the exact state (registries,
derivative-function table, caches) left by its prefix; each output must equal the output of the
same call in a fresh process, and no call may change the caller's arguments or the registries.
Whole example projects are regenerated under different hash seeds and cache states and compared
byte for byte.
"""

import hashlib
import os
import sys

import vf

import gencalls as g


def one(name):
    return hashlib.sha256(g.MENU[name]().encode()).hexdigest()


def diff(name, ref_text):
    new = g.MENU[name]()
    return next((f"{n!r} vs fresh {o!r}" for n, o in zip(new.splitlines(), ref_text.splitlines()) if n != o), "length differs")


def step(name, ref, argsnap, regsnap):
    """Run one call in the current process; None or what is wrong."""
    try:
        h = one(name)
    except Exception as e:  # pylint: disable=broad-except
        import traceback

        return f"raised {type(e).__name__}: {e} ({traceback.format_exc().strip().splitlines()[-3].strip()})"
    if h != ref[name]:
        return "text differs from that of a fresh process"
    if g.args_snapshot() != argsnap:
        return "the caller's arguments were modified"
    if g.registry_snapshot() != regsnap:
        return "a registry was modified"
    return None


def node(prefix, nexts, depth, ref, argsnap, regsnap):
    """Explore below prefix (already known good); returns (bad, transitions)."""
    g.setup()
    for n in prefix:
        err = step(n, ref, argsnap, regsnap)
        if err:
            return [(prefix, err)], 1
    bad, nt = [], 1
    if len(prefix) < depth:
        items = [(prefix + (n,), len(prefix) + 1) for n in nexts]

        def leaf(pre, _):
            return step(pre[-1], ref, argsnap, regsnap)

        # children inherit this process's state through fork
        for (pre, _), (st, val) in zip(items, vf.pmap_raw(leaf, items, nproc=1)):
            nt += 1
            if st != "ok":
                bad.append((pre, f"{st}: {val}"))
            elif val:
                bad.append((pre, val))
    return bad, nt


def fresh(name):
    g.setup()
    t = g.MENU[name]()
    return hashlib.sha256(t.encode()).hexdigest(), len(t)


SEEDSRC = """
import hashlib, json, sys
import gencalls as g
g.setup()
print(json.dumps({n: hashlib.sha256(g.MENU[n]().encode()).hexdigest() for n in (g.names() if %d else g.names()[::-1])}))
"""


def seeds(seed, rev):
    p = vf.run([sys.executable, "-c", SEEDSRC % rev], env={"PYTHONHASHSEED": str(seed)})
    return p.returncode, p.stdout, p.stderr[-1500:]


def tree_digest(root, skip=("c", "log")):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in sorted(ds) if not (d == root and x in skip)]
        for f in fs:
            if d == root and f in skip:
                continue
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()
    return out


def project(example, seed, cache, scratch, tag):
    d = os.path.join(scratch, f"proj_{example}_{tag}")
    os.makedirs(d)
    p = vf.run([sys.executable, os.path.join(vf.REPO, "nrpy", "examples", example + ".py")], cwd=d, env={"PYTHONHASHSEED": str(seed), "XDG_CACHE_HOME": cache}, timeout=800)
    dig = tree_digest(d)
    import shutil

    shutil.rmtree(d)
    return p.returncode, dig, (p.stdout + p.stderr)[-1500:]


def body(chk):
    T = chk.thorough
    names = g.names()
    ref = {}
    for n, (h, ln) in zip(names, vf.pmap(fresh, [(n,) for n in names])):
        ref[n] = h
        if ln < 10:
            raise vf.HarnessError(f"empty output of {n}")
    g.setup()
    argsnap, regsnap = g.args_snapshot(), g.registry_snapshot()
    core = g.CORE
    items = [((m,), names, 2, ref, argsnap, regsnap) for m in names]
    if T:
        items += [((m, n), names, 3, ref, argsnap, regsnap) for m in names for n in names]
        items += [((m, n, o), core, 4, ref, argsnap, regsnap) for m in core for n in core for o in core]
    else:
        items += [((m, n), core, 3, ref, argsnap, regsnap) for m in core for n in core]
    chk.count("states", len(items))
    for it, (bad, nt) in zip(items, vf.pmap(node, items, timeout=880)):
        chk.count("transitions", nt)
        for pre, what in bad:
            chk.violation(f"history:{pre[-1]}:{what[:60]}", f"after generating {pre[:-1]}, {pre[-1]}: {what}", {"sequence": pre})
    chk.count("evaluations", chk.counters["transitions"])
    chk.note(f"histories done {chk.counters}")
    ss = [(s, s % 2) for s in (range(1, 33) if T else range(1, 9))]
    for (s, rev), (rc, out, err) in zip(ss, vf.pmap(seeds, ss)):
        chk.count("seeds")
        if rc != 0:
            chk.violation(f"seed-fails:{err.strip().splitlines()[-1][:80] if err.strip() else rc}", f"generation fails under PYTHONHASHSEED={s}: {err}", {"seed": s})
            continue
        import json

        for n, h in json.loads(out).items():
            chk.count("evaluations")
            if h != ref[n]:
                chk.violation(f"seed:{n}", f"{n}: text under PYTHONHASHSEED={s} differs from that under seed 0", {"seed": s, "call": n})
    ex = ["wave_equation_cartesian", "wave_equation_curvilinear", "carpet_wavetoy_thorns", "carpetx_wavetoy_thorns"]
    if T:
        ex += ["wave_equation_multicoord_wavetoy", "nrpyelliptic_conformally_flat", "superB_nrpyelliptic_conformally_flat", "hydro_without_hydro", "tovola_neutron_star", "seobnrv5_aligned_spin_inspiral", "nrpypn_quasicircular_momenta"]
    for e in ex:
        cdir = [os.path.join(chk.scratch, f"pc_{e}_{k}") for k in range(3)]
        runs = [(e, 11, cdir[0], chk.scratch, "a"), (e, 23, cdir[1], chk.scratch, "b"), (e, 37, cdir[2], chk.scratch, "c")]
        res = vf.pmap(project, runs, timeout=850)
        res += vf.pmap(project, [(e, 41, cdir[0], chk.scratch, "warm")], timeout=850)
        base = res[0]
        if base[0] != 0 or len(base[1]) < 3:
            raise vf.RepoError(f"example {e}", f"{vf.REPO}/nrpy/examples/{e}.py failed: {base[2]}")
        for tag, r in zip(("seed 23", "seed 37", "seed 41, warm cache"), res[1:]):
            chk.count("evaluations", len(r[1]))
            chk.count("projects")
            if r[0] != 0:
                chk.violation(f"project-fails:{e}:{tag}", f"{e} fails with {tag}: {r[2]}", {"example": e, "run": tag})
            elif r[1] != base[1]:
                dif = sorted(k for k in set(r[1]) | set(base[1]) if r[1].get(k) != base[1].get(k))
                chk.violation(f"project:{e}", f"project {e} with {tag} differs from seed 11 in {dif[:5]}", {"example": e, "run": tag, "files": dif})
        for p in cdir:
            import shutil

            shutil.rmtree(p, ignore_errors=True)
    chk.counters["distinct"] = len(set(ref.values()))
    chk.sample(names)


if __name__ == "__main__":
    vf.main("C04", "model_checking", "distinct generation calls; every call sequence is a path of the explored tree", body)
