"""C28: superB evolutions do not depend on the division of the grid or on the order of messages.

Generated superB projects (the timestepping chare, boundary conditions, grids and output of the
library) are run on a stand-in for the Charm++ runtime that delivers messages in an order chosen by
the checker; Charm++ promises no order at all, not even between two chares. Every division of
the grid is run under fair and unfair scheduling policies, and from these executions all message
orders that differ by up to a bounded number of reversals (for few chares: all message orders) are
explored. Every execution has to end (no deadlock), produce the same files, and leave the same
bits in every chare (ghost zones included) as the same evolution with the BHaH infrastructure.
"""

import itertools
import json
import os
import shutil
import subprocess

import vf

import sbexplore
import sbgen


def w(cs, nxx, fd, mol, outer, simd=False, rad=2):
    return {"kind": "wave", "cs": cs, "Nxx": list(nxx), "fd": fd, "mol": mol, "outer": outer, "simd": simd, "rad": rad}


def e(cs, nxx, fd, mol, outer, simd, rad=2):
    return {"kind": "elliptic", "cs": cs, "Nxx": list(nxx), "fd": fd, "mol": mol, "outer": outer, "simd": simd, "rad": rad}


# (configuration, largest number of chares whose message orders are explored, ... completely)
QUICK = [
    (w("SinhSpherical", (12, 6, 6), 2, "RK3", "radiation"), 8, 3),
    (w("Spherical", (6, 6, 6), 4, "RK4", "extrapolation"), 4, 2),
    (w("SinhCylindrical", (6, 6, 12), 2, "SSPRK3", "extrapolation"), 4, 2),
    (w("SinhSymTP", (12, 6, 6), 2, "RK2 Heun", "radiation"), 4, 2),
    (w("Cartesian", (9, 6, 6), 2, "Euler", "radiation"), 4, 2),
    (e("SinhSpherical", (8, 8, 8), 4, "RK4", "radiation", True), 2, 2),
]
THOROUGH = QUICK + [
    (w("SinhSpherical", (16, 8, 8), 4, "RK4", "radiation", True, 4), 8, 4),
    (w("SinhSpherical", (8, 8, 8), 4, "RK4", "extrapolation"), 8, 4),
    (w("SinhSphericalv2n2", (8, 4, 8), 2, "RK3 Ralston", "radiation"), 8, 3),
    (w("SinhCylindricalv2n2", (8, 8, 8), 4, "RK4", "radiation", False, 4), 8, 3),
    (w("Cylindrical", (8, 4, 8), 2, "RK3 Heun", "extrapolation"), 8, 3),
    (w("SymTP", (8, 8, 8), 4, "RK4", "extrapolation"), 8, 3),
    (w("SinhCartesian", (8, 8, 8), 4, "DP5", "radiation"), 8, 3),
    (w("Cartesian", (8, 8, 8), 4, "RK2 MP", "extrapolation"), 8, 3),
    (w("SinhCylindrical", (8, 8, 8), 2, "CK5", "radiation"), 8, 3),
    (w("Spherical", (12, 6, 6), 6, "L6", "radiation"), 4, 2),
    (w("SinhSymTP", (8, 8, 8), 2, "DP6", "extrapolation"), 4, 2),
    (e("SinhSymTP", (8, 8, 8), 4, "RK4", "radiation", True), 4, 2),
    (e("SinhCylindricalv2", (8, 8, 8), 4, "RK4", "extrapolation", False), 4, 2),
]


def name(cfg):
    return f"{cfg['kind']} {cfg['cs']} {'x'.join(map(str, cfg['Nxx']))} fd{cfg['fd']} {cfg['mol']} {cfg['outer']}{' simd' if cfg['simd'] else ''}"


def divisions(cfg):
    """All divisions of the grid that leave each chare, in each direction that is divided, the NGHOSTS points it sends to its neighbours
    and the points that the boundary conditions extrapolate from or differentiate."""
    ng = max(cfg["fd"] // 2, 3, cfg["rad"])
    per = [[n for n in range(1, N + 1) if N % n == 0 and (n == 1 or N // n >= ng)] for N in cfg["Nxx"]]
    return sorted(itertools.product(*per), key=lambda t: (t[0] * t[1] * t[2], t))


def prepare(root, k, cfg, nproc):
    d = os.path.join(root, f"p{k}")
    sbgen.build(sbgen.generate(d, cfg), {"run": os.path.join(sbgen.CSRC, "run.cpp")}, nproc)
    b = None
    if cfg["kind"] == "wave":
        b = os.path.join(root, f"b{k}")
        sbgen.build_bhah(sbgen.generate(b, dict(cfg, kind="wavebhah")), nproc)
    return d, b


def one(root, k, cfg, explore_to, complete_to, thorough, nproc):
    """Returns ({counter: n}, outcomes, caps, violations)."""
    cnt, outcomes, caps, bad = {}, set(), [], []
    label = name(cfg)

    def count(what, n=1):
        cnt[what] = cnt.get(what, 0) + n

    try:
        d, b = prepare(root, k, cfg, nproc)
    except vf.CompileError as x:
        return cnt, outcomes, caps, [(f"{label}:build", f"{label}: the generated project does not compile: {x}", None)]
    work = os.path.join(d, "w")
    os.makedirs(work, exist_ok=True)
    extra = {"nn_max": 100000} if cfg["kind"] == "elliptic" else {}

    def par(nc, t_final, every, tag):
        v = dict(extra, Nchare0=nc[0], Nchare1=nc[1], Nchare2=nc[2], t_final=repr(t_final))
        if every is not None:
            v["diagnostics_output_every"] = every
        return sbgen.parfile(d, os.path.join(work, f"{tag}.par"), **v)

    def report(nc, steps, item, what):
        bad.append((f"{label}:{nc}", f"{label}, {nc[0]}x{nc[1]}x{nc[2]} chares, {steps} steps: {what}", {"config": cfg, "chares": nc, "steps": steps, "policy": item[:2] if item else None, "schedule": item[2] if item else None}))

    first = sbexplore.execute(os.path.join(d, "run"), par((1, 1, 1), 1e-9, None, "dt"), work, "dt")
    if first.fail or first.blocked:
        report((1, 1, 1), 1, None, first.fail or first.blocked)
        return cnt, outcomes, caps, bad
    dt = first.dt
    for steps, every in ((1, None), (3, (2 * dt) if cfg["kind"] == "wave" else 2)):
        t_final = (steps - 0.5) * dt
        ref = os.path.join(work, f"ref{steps}")
        if b:
            p = sbgen.parfile(b, os.path.join(b, "ref.par"), t_final=repr(t_final))
            r = subprocess.run([os.path.join(b, "ref"), p, ref], capture_output=True, text=True, timeout=300)
            if r.returncode or not os.path.exists(ref) or f"NN {steps}" not in r.stdout:
                bad.append((f"{label}:bhah", f"{label}: the BHaH evolution ends with status {r.returncode} {r.stdout[-200:]} {r.stderr[-200:]}", {"config": cfg}))
                return cnt, outcomes, caps, bad
        base = sbexplore.execute(os.path.join(d, "run"), par((1, 1, 1), t_final, every, "one"), work, "one", ref=ref)
        count("executions")
        for what in (base.fail, base.blocked, base.diff and f"differs from the BHaH evolution: {base.diff}", base.nn != steps and f"{base.nn} steps", not base.files and "no output"):
            if what:
                report((1, 1, 1), steps, None, what)
        if bad:
            return cnt, outcomes, caps, bad
        if "NONFINITE 0" not in base.state:
            raise vf.HarnessError(f"{label}: not finite: {base.state}")
        want = sorted(base.files)
        for nc in divisions(cfg)[1:]:
            n = nc[0] * nc[1] * nc[2]
            if n > 32 and not thorough or n > 64:
                continue
            p = par(nc, t_final, every, "run")

            def judge(r, item, nc=nc, steps=steps):
                outcomes.add((cfg["cs"], nc, steps, r.outcome()[:5]))
                what = None
                if r.fail:
                    what = r.fail
                elif r.blocked:
                    what = "deadlock: " + r.blocked
                elif r.nn != steps:
                    what = f"{r.nn} steps"
                elif r.diff:
                    what = f"the result depends on {'the order of messages' if item[2] or item[0] or item[1] else 'the division'}: {r.diff}"
                elif sorted(r.files) != want:
                    what = "the output differs from that of one chare: " + str([f for f in sorted(r.files) if f not in want][:2])
                elif not r.exits:
                    what = "the program does not end"
                if what:
                    report(nc, steps, item, what)
                return what is not None

            pol = [(0, 0), (0, 1)]
            if n <= 8 or thorough:
                pol += [(i, 0) for i in range(1, 2 * n + 1)]
            if n <= complete_to and steps == 1:
                depth, limit = 10**6, 40000 if thorough else 1500
            elif n <= explore_to and (steps == 1 or n <= 2 or thorough):
                depth, limit = (2 if thorough and n <= 4 else 1), 6000 if thorough else 60
            else:
                depth, limit = 0, 0
            tot, traces, events, complete = sbexplore.explore(os.path.join(d, "run"), p, work, ref, depth, pol, limit, judge, nproc)
            count("executions", tot)
            count("distinct message orders", traces)
            count("message deliveries", events)
            count("divisions x durations")
            if depth > 100:
                count("divisions with all message orders" if complete else "divisions capped")
            if not complete and not bad:
                caps.append(f"{label} {nc} {steps} steps: not more than {limit} schedules per level")
            if len(bad) >= 3:
                return cnt, outcomes, caps, bad
    shutil.rmtree(d, ignore_errors=True)
    if b:
        shutil.rmtree(b, ignore_errors=True)
    return cnt, outcomes, caps, bad


def body(chk):
    cfgs = THOROUGH if chk.thorough else QUICK
    jobs = [(chk.scratch, k, c, a, b, chk.thorough, 3 if chk.thorough else 4) for k, (c, a, b) in enumerate(cfgs)]
    jobs.sort(key=lambda j: j[2]["kind"] != "elliptic")
    for cnt, outs, caps, bad in vf.pmap(one, jobs, 4 if chk.thorough else 6, timeout=20000 if chk.thorough else 850):
        for k, v in cnt.items():
            chk.count(k, v)
        chk.count("projects")
        for o in outs:
            chk.outcome(o)
        for c in caps:
            chk.cap(c)
        for key, what, replay in bad:
            chk.violation(key, what, replay)
    chk.sample({"configurations": [json.dumps(c) for c, _, _ in cfgs][:6]})


if __name__ == "__main__":
    vf.main("C28", "exploration", "For every project, division of the grid and explored message order: no deadlock, and result and files as on one chare and as in BHaH.", body)
