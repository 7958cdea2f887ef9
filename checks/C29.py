"""C29: a superB run restarted from any of its Charm++ checkpoints continues as the uninterrupted run.

Generated superB projects with Charm++ checkpointing run on the stand-in for the Charm++ runtime of C28.
A checkpoint is requested before every time step. At every non-empty choice of checkpoints (all
subsets of the checkpoints of the run), all chares are packed, everything their class declares
and everything it points to is forgotten, and they are unpacked again; then the run goes on. This
is done for all divisions of the grid, under fair and unfair schedules, and for up to a bounded number of
reversals of messages. Every run has to end with the state (bits of all gridfunctions, compared with
the same evolution with the BHaH infrastructure) and the files of the uninterrupted run, and
no message that is received after a checkpoint may have been under way when it was taken.
"""

import json
import os
import shutil
import subprocess

import vf

import C28
import sbexplore
import sbgen

w, e = C28.w, C28.e
# (configuration, largest number of chares, ... with reversals of messages)
QUICK = [
    (w("SinhSpherical", (6, 6, 6), 2, "RK4", "radiation"), 8, 2),
    (w("SinhCylindrical", (6, 6, 6), 2, "SSPRK3", "extrapolation"), 4, 0),
    (w("SinhSymTP", (6, 6, 6), 2, "RK3", "radiation", True), 4, 0),
    (w("Cartesian", (6, 6, 6), 4, "RK2 Heun", "extrapolation"), 4, 0),
    (e("SinhSpherical", (8, 8, 8), 2, "RK4", "radiation", False), 2, 2),
]
THOROUGH = QUICK + [
    (w("SinhSpherical", (16, 8, 8), 4, "RK4", "radiation", True, 4), 16, 4),
    (w("Spherical", (12, 6, 6), 6, "DP5", "extrapolation"), 8, 2),
    (w("SinhCylindricalv2n2", (8, 8, 8), 4, "RK4", "radiation", False, 4), 8, 4),
    (w("SymTP", (8, 8, 8), 2, "Euler", "extrapolation"), 8, 4),
    (w("SinhCartesian", (8, 8, 8), 4, "L6", "radiation"), 8, 2),
    (e("SinhSymTP", (8, 8, 8), 4, "RK4", "extrapolation", False), 8, 2),
]
STEPS = 3


def one(root, k, cfg, nmax, nrev, thorough, nproc):
    """Returns ({counter: n}, outcomes, caps, violations)."""
    cfg = dict(cfg, pup=True)
    cnt, outcomes, caps, bad = {}, set(), [], []
    label = C28.name(cfg)

    def count(what, n=1):
        cnt[what] = cnt.get(what, 0) + n

    try:
        d, b = C28.prepare(root, k, cfg, nproc)
    except vf.CompileError as x:
        return cnt, outcomes, caps, [(f"{label}:build", f"{label}: the generated project does not compile: {x}", None)]
    work = os.path.join(d, "w")
    os.makedirs(work, exist_ok=True)
    extra = {"nn_max": 100000} if cfg["kind"] == "elliptic" else {}
    exe = os.path.join(d, "run")

    def report(nc, mask, item, what):
        at = ", ".join(str(i) for i in range(STEPS) if mask >> i & 1)
        bad.append((f"{label}:{nc}", f"{label}, {nc[0]}x{nc[1]}x{nc[2]} chares, {'restarted from checkpoint ' + at if at else 'uninterrupted, with checkpoints'}: {what}", {"config": cfg, "chares": nc, "restart": mask, "policy": item[:2] if item else None, "schedule": item[2] if item else None}))

    env = {"MALLOC_PERTURB_": "85"}
    first = sbexplore.execute(exe, sbgen.parfile(d, os.path.join(work, "dt.par"), Nchare0=1, Nchare1=1, Nchare2=1, t_final="1e-9", **extra), work, "dt", env=env)
    if first.fail or first.blocked:
        report((1, 1, 1), 0, None, first.fail or first.blocked)
        return cnt, outcomes, caps, bad
    dt = first.dt
    t_final = (STEPS - 0.5) * dt
    every = 2 * dt if cfg["kind"] == "wave" else 2
    ref = os.path.join(work, "ref")
    if b:
        p = sbgen.parfile(b, os.path.join(b, "ref.par"), t_final=repr(t_final))
        r = subprocess.run([os.path.join(b, "ref"), p, ref], capture_output=True, text=True, timeout=300)
        if r.returncode or not os.path.exists(ref) or f"NN {STEPS}" not in r.stdout:
            bad.append((f"{label}:bhah", f"{label}: the BHaH evolution ends with status {r.returncode} {r.stdout[-200:]} {r.stderr[-200:]}", {"config": cfg}))
            return cnt, outcomes, caps, bad
    want = None
    for nc in C28.divisions(cfg):
        n = nc[0] * nc[1] * nc[2]
        if n > nmax:
            continue
        p = sbgen.parfile(d, os.path.join(work, "run.par"), Nchare0=nc[0], Nchare1=nc[1], Nchare2=nc[2], t_final=repr(t_final), checkpoint_every=repr(dt), diagnostics_output_every=every, **extra)
        if want is None:
            base = sbexplore.execute(exe, p, work, "one", ref=ref, env=env)
            count("executions")
            if base.fail or base.blocked or base.diff or base.nn != STEPS:
                report(nc, 0, None, base.fail or base.blocked or base.diff or f"{base.nn} steps")
                return cnt, outcomes, caps, bad
            if "NONFINITE 0" not in base.state:
                raise vf.HarnessError(f"{label}: not finite: {base.state}")
            want = sorted(base.files)
        for mask in range(1 << STEPS):

            def judge(r, item, nc=nc, mask=mask):
                outcomes.add((cfg["cs"], nc, r.outcome()[:5]))
                what = None
                if r.fail:
                    what = r.fail
                elif r.blocked:
                    what = "deadlock: " + r.blocked
                elif r.nn != STEPS:
                    what = f"{r.nn} steps"
                elif r.checkpoints != STEPS:
                    what = f"{r.checkpoints} checkpoints in {STEPS} steps"
                elif r.diff:
                    what = f"other results than without a restart: {r.diff}"
                elif sorted(r.files) != want:
                    what = "other output than without a restart: " + str([f for f in sorted(r.files) if f not in want][:2])
                elif not r.exits:
                    what = "the program does not end"
                if what:
                    report(nc, mask, item, what)
                return what is not None

            pol = [(0, 0), (0, 1)]
            if thorough or mask == (1 << STEPS) - 1 and n <= 4:
                pol += [(i, 0) for i in range(1, 2 * n + 1)]
            depth, limit = (1, 4000 if thorough else 60) if n <= nrev and 1 < n and mask in (1, (1 << STEPS) - 1) else (0, 0)
            tot, traces, events, complete = sbexplore.explore(exe, p, work, ref, depth, pol, limit, judge, nproc, env=dict(env, VF_RESTART=str(mask)))
            count("executions", tot)
            count("distinct message orders", traces)
            count("message deliveries", events)
            count("divisions x sets of restarts")
            if not complete and not bad:
                caps.append(f"{label} {nc}: not more than {limit} schedules with reversals")
            if len(bad) >= 3:
                return cnt, outcomes, caps, bad
    shutil.rmtree(d, ignore_errors=True)
    if b:
        shutil.rmtree(b, ignore_errors=True)
    return cnt, outcomes, caps, bad


def body(chk):
    cfgs = THOROUGH if chk.thorough else QUICK
    jobs = [(chk.scratch, k, c, a, b, chk.thorough, 3 if chk.thorough else 4) for k, (c, a, b) in enumerate(cfgs)]
    jobs.sort(key=lambda j: j[2]["kind"] != "elliptic")
    for cnt, outs, caps, bad in vf.pmap(one, jobs, 4 if chk.thorough else 5, timeout=20000 if chk.thorough else 850):
        for k, v in cnt.items():
            chk.count(k, v)
        chk.count("projects")
        for o in outs:
            chk.outcome(o)
        for c in caps:
            chk.cap(c)
        for key, what, replay in bad:
            chk.violation(key, what, replay)
    chk.sample({"configurations": [json.dumps(c) for c, _, _ in cfgs][:6]})


if __name__ == "__main__":
    vf.main("C29", "fault_enumeration", "For every project, division of the grid, set of restarts and explored message order: no deadlock, and result and files as without a restart and as in BHaH.", body)
