"""C16: a crash during checkpointing never loses the run.

A complete program (generated main, parameter parser, grids, MoL, checkpointing) runs with every
file operation of its working directory under the explorer's control. Enumerated: a kill at every
file operation and after every torn prefix of a write (and a second kill during the restarted
run), every failing operation, every truncation of a checkpoint file, every checkpoint interval of
a list, every time-integration method. Oracle: the uninterrupted run's data, step by step.
"""

import os
import re
import shutil

import bhah
import shim
import vf

if __name__ == "__main__":
    shim.reexec()

import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par

OMPENV = {"OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive"}
DT = 0.1
NSTEP = 7

RHS = r"""
  const int ntot = params->Nxx_plus_2NGHOSTS0 * params->Nxx_plus_2NGHOSTS1 * params->Nxx_plus_2NGHOSTS2;
  for (int gf = 0; gf < NUM_EVOL_GFS; gf++) for (int i = 0; i < ntot; i++) {
    const int g2 = (gf + 1) % NUM_EVOL_GFS, j = (i + 1) % ntot;
    rhs[gf * ntot + i] = 0.3 * in[g2 * ntot + i] - 0.2 * in[gf * ntot + j] + 0.01 * in[gf * ntot + i] * in[g2 * ntot + j];
  }
"""
INITIAL = r"""
  commondata->dt = %(dt)s;
%(bah)s
  if (!getenv("VF_NOREAD") && read_checkpoint(commondata, griddata)) return;
  for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
    const params_struct *p = &griddata[grid].params;
    const int n = NUM_EVOL_GFS * p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
    unsigned s = 12345 + 77 * grid;
    for (int i = 0; i < n; i++) { s = s * 1103515245u + 12345u; griddata[grid].gridfuncs.y_n_gfs[i] = ((s >> 8) %% 10000) / 10000.0 - 0.3; }
  }
"""
BAH_DEFS = r"""
typedef struct { REAL *prev_horizon_m1, *prev_horizon_m2, *prev_horizon_m3; REAL t_m1; int which_horizon; REAL extra[5]; } bhahaha_params_and_data_struct;
"""
BAH_INIT = r"""
  commondata->bah_num_horizons = 2;
  for (int h = 0; h < 2; h++) {
    bhahaha_params_and_data_struct *b = &commondata->bhahaha_params_and_data[h];
    memset(b, 0, sizeof *b); b->t_m1 = 3.5 + h; b->which_horizon = h + 1;
    REAL **m[3] = {&b->prev_horizon_m1, &b->prev_horizon_m2, &b->prev_horizon_m3};
    for (int k = 0; k < 3; k++) { *m[k] = malloc(sizeof(REAL) * 64 * 32); for (int i = 0; i < 64 * 32; i++) (*m[k])[i] = 0.25 * i + 1000 * k + 7 * h; }
  }
"""
DIAG = r"""
  unsigned long h = 1469598103934665603ul; double mx = 0;
#define MIX(p, n) do { const unsigned char *q = (const unsigned char *)(p); for (size_t ii = 0; ii < (size_t)(n); ii++) { h ^= q[ii]; h *= 1099511628211ul; } } while (0)
  for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
    const params_struct *p = &griddata[grid].params;
    const int n = NUM_EVOL_GFS * p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
    MIX(griddata[grid].gridfuncs.y_n_gfs, sizeof(REAL) * n); MIX(&n, sizeof n); MIX(&p->grid_physical_size, sizeof(REAL)); MIX(&p->CoordSystem_hash, sizeof(int));
    for (int i = 0; i < n; i++) if (!(fabs((double)griddata[grid].gridfuncs.y_n_gfs[i]) <= mx)) mx = fabs((double)griddata[grid].gridfuncs.y_n_gfs[i]);
  }
  MIX(&commondata->NUMGRIDS, sizeof(int)); MIX(&commondata->dt, sizeof(REAL)); MIX(commondata->vf_tag, strlen(commondata->vf_tag));
%(bah)s
  printf("STEP %%d %%.17g %%lx %%g\n", commondata->nn, (double)commondata->time, h, mx); fflush(stdout);
"""
BAH_DIAG = r"""
  for (int w = 0; w < commondata->bah_num_horizons; w++) {
    bhahaha_params_and_data_struct *b = &commondata->bhahaha_params_and_data[w];
    MIX(b->prev_horizon_m1, sizeof(REAL) * 64 * 32); MIX(b->prev_horizon_m2, sizeof(REAL) * 64 * 32); MIX(b->prev_horizon_m3, sizeof(REAL) * 64 * 32);
    MIX(&b->t_m1, sizeof(REAL)); MIX(b->extra, sizeof b->extra); MIX(&b->which_horizon, sizeof(int));
  }
"""
BAH_POST = r"""
  for (int w = 0; w < commondata.bah_num_horizons; w++) {
    bhahaha_params_and_data_struct *b = &commondata.bhahaha_params_and_data[w];
    b->t_m1 += 0.5; b->extra[2] += 1.0; b->prev_horizon_m2[5] += 1.0; b->prev_horizon_m3[64 * 32 - 1] -= 1.0; // evolves with the run
  }
"""
MARK = '{ char mk[64]; snprintf(mk, 64, "MARK@%d", commondata.nn); access(mk, 0); }'


def build(case, d):
    """case: dict(cs, method, fp, bah, rfm). Returns (exe, asan exe)."""
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import CodeParameters as CPs  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import checkpointing, griddata_commondata, main_c, rfm_wrapper_functions  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel

    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bah = case["bah"]
    bhah.start(2, case["fp"])
    gri.register_gridfunctions(["ya", "yb", "yc"], group="EVOL")
    gri.register_gridfunctions(["qa"], group="AUXEVOL")
    par.register_CodeParameter("char[20]", "vf", "vf_tag", "tag of the run", commondata=True)
    if bah:
        par.register_CodeParameter("int", "vf", "bah_num_horizons", 2, commondata=True)
        Bd.register_BHaH_defines("after_general", BAH_DEFS)
        griddata_commondata.register_griddata_commondata("vf", "bhahaha_params_and_data_struct bhahaha_params_and_data[3]", "stub", is_commondata=True)
    MoL.register_CFunctions(MoL_method=case["method"], rhs_string="vf_rhs(commondata, params, RK_INPUT_GFS, RK_OUTPUT_GFS);", post_rhs_string="", enable_curviBCs=True)
    bhah.grid_and_bcs(case["cs"], bcs=True, mol_done=True)
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    cd = "commondata_struct *restrict commondata, griddata_struct *restrict griddata"
    cfc.register_CFunction(includes=inc, desc="rhs", name="vf_rhs", params="const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL *restrict in, REAL *restrict rhs", body=RHS)
    cfc.register_CFunction(includes=inc, desc="id", name="initial_data", params=cd, body=INITIAL % {"dt": DT, "bah": BAH_INIT if bah else ""})
    cfc.register_CFunction(includes=inc, desc="diag", name="diagnostics", params=cd, body=DIAG % {"bah": BAH_DIAG if bah else ""})
    kw = {"filename_tuple": case["fname"]} if case.get("fname") else {}
    checkpointing.register_CFunctions(default_checkpoint_every=2 * DT, enable_bhahaha=bah, **kw)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=["checkpoint_every", "t_final"])
    main_c.register_CFunction_main_c(post_MoL_step_forward_in_time=BAH_POST if bah else "", MoL_method=case["method"], pre_MoL_step_forward_in_time=f'if (!getenv("VF_NOCP")) {{ {MARK.replace("@", "b")} write_checkpoint(&commondata, griddata); {MARK.replace("@", "e")} }}\n')
    griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=False, enable_CurviBCs=True, enable_bhahaha=bah)
    src = bhah.finish(d, defaults=False, wrappers=False)
    base = ["-std=gnu99", "-w", "-ffp-contract=off"]
    try:
        exe = vf.cc(src, os.path.join(d, "t"), flags=["-O0", "-I" + d, "-fopenmp"], base=base, libs=["-lm"])
        asan = vf.cc(src, os.path.join(d, "ta"), flags=["-O0", "-I" + d, "-fopenmp", "-fsanitize=address"], base=base, libs=["-lm"])
    except vf.CompileError as e:
        return None, str(e)[-800:]
    return exe, asan


LINE = re.compile(r"^STEP (\d+) (\S+) (\S+) (\S+)$", re.M)


def parse(out):
    return [(int(a), float(b), h) for a, b, h, _ in LINE.findall(out)]


def nearest(every):
    """Steps at which a checkpoint is due."""
    return [n for n in range(NSTEP) if abs(round(n * DT / every) * every - n * DT) < 0.5 * DT]


class Runner:
    def __init__(self, exe, work, every):
        self.exe, self.work, self.every = exe, work, every
        self.args = [exe, repr(every), repr(DT * (NSTEP - 0.5))]
        self.n = 0

    def clear(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        vf.write(os.path.join(self.work, "proj.par"), "checkpoint_every = 0.2\n")

    def proc(self):
        return shim.Proc(self.work, cmd=self.args, cwd=self.work, env=OMPENV)

    def plain(self, env=None, exe=None):
        self.n += 1
        return vf.run([exe or self.exe] + self.args[1:], cwd=self.work, env=dict(OMPENV, **(env or {})), timeout=60)


def compare(ref, got, first_ok):
    """None, or what is wrong with the steps a (re)started run printed."""
    if not got:
        return "no step was taken"
    if first_ok is not None and got[0][0] not in first_ok:
        return f"the run resumed at step {got[0][0]}, not at one of {sorted(first_ok)}"
    want = {n: (t, h) for n, t, h in ref}
    for k, (n, t, h) in enumerate(got):
        if n != got[0][0] + k:
            return f"step {n} follows step {got[k - 1][0]}"
        if n not in want:
            return f"step {n} does not exist in the uninterrupted run"
        if abs(t - want[n][0]) > 1e-6:
            return f"step {n} is at time {t!r}, uninterrupted run {want[n][0]!r}"
        if h != want[n][1]:
            return f"data at step {n} differ from the uninterrupted run"
    return None


def scan(r):
    """Dry run under control: operations, and for each its (completed checkpoints before it, the one in progress)."""
    r.clear()
    p = r.proc()
    ops, comp, cur, info, used = [], [], None, [], False
    while not p.done:
        o = p.pending
        m = re.match(r"/MARK([be])(\d+)$", o[2])
        if m and m.group(1) == "b":
            cur, used = int(m.group(2)), False
        elif m:
            if used:
                comp.append(cur)
            cur = None
        elif cur is not None and shim.mutating(o[0]):
            used = True
        ops.append(o)
        info.append((list(comp), cur if used else None))
        p.step("g")
    return ops, info, comp, p.result


def resumed(r, ref, allowed, label, bad, key, env=None):
    p = r.plain(env)
    got = parse(p.stdout)
    why = f"exit status {p.returncode}" if p.returncode != 0 else compare(ref, got, allowed) or (None if got[-1][0] == NSTEP - 1 else f"the run ended after step {got[-1][0]}")
    if why:
        bad.append((key, f"{label}: restarted, {why}: {(p.stdout + p.stderr)[-200:]!r}"))
        return None
    return got[0][0]


def one(case, scratch, level, thorough):
    tag = f"{'+'.join(case['cs'])}_{case['method']}_{case['fp']}{'_bah' if case['bah'] else ''}{'_name' if case.get('fname') else ''}"
    d = os.path.join(scratch, re.sub(r"\W", "_", tag))
    exe, asan = build(case, d)
    if exe is None:
        return {}, [(f"uncompilable:{tag}", f"{tag}: the generated program does not compile: {asan}")]
    cnt = {"crash_points": 0, "runs": 0, "faults": 0, "truncations": 0, "operations": 0}
    bad = []
    work = os.path.join(d, "w")
    r = Runner(exe, work, 2 * DT)
    r.clear()
    p = r.plain({"VF_NOCP": "1", "VF_NOREAD": "1"})
    ref = parse(p.stdout)
    if p.returncode != 0 or [x[0] for x in ref] != list(range(NSTEP)) or "nan" in p.stdout:
        raise vf.HarnessError(f"{tag}: reference run: {p.returncode} {(p.stdout + p.stderr)[-600:]}")
    everies = [DT, 2 * DT, 2.5 * DT, 3 * DT, 1e9] if level > 0 or thorough else [2 * DT]
    for every in everies:
        r.every, r.args[1] = every, repr(every)
        ops, info, comp, res = scan(r)
        cnt["operations"] += len(ops)
        why = compare(ref, parse(res[2]), {0}) if res[1] == 0 else f"exit status {res[1]}"
        if why:
            bad.append((f"plain:{tag}:{every}", f"{tag}, checkpoint every {every}: the run itself: {why}: {res[2][-200:]!r}"))
            return cnt, bad
        if comp != nearest(every):
            bad.append((f"schedule:{tag}:{every}", f"{tag}, checkpoint every {every}: checkpoints written at steps {comp}, due at {nearest(every)}"))
            return cnt, bad
        # the run is over: a restart resumes from the last checkpoint
        if resumed(r, ref, {comp[-1]}, f"{tag}, checkpoint every {every}, run finished", bad, f"restart:{tag}") is None:
            return cnt, bad
        pa = r.plain(exe=asan, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77"})
        if pa.returncode != 0:
            bad.append((f"memory:{tag}", f"{tag}: restarting under the address sanitizer: {pa.returncode} {pa.stderr[-400:]!r}"))
            return cnt, bad
        if level == 0 or (every != 2 * DT and not thorough):
            continue
        # ---- kill at every operation
        pts = []
        for i, o in enumerate(ops):
            if shim.mutating(o[0]):
                pts.append((i, "k"))
                if o[0] == "write":
                    n = o[1]
                    torn = range(1, n, max(1, n // (40 if thorough else 6))) if n > 8 else range(1, n)
                    pts += [(i, f"t{k}") for k in sorted({*torn, n - 1} - {0, n})]
        pts.append((len(ops) - 1, "k"))
        states = []
        for i, rep in pts:
            r.clear()
            r.proc().run(i, rep)
            cnt["crash_points"] += 1
            done, cur = info[i]
            allowed = ({done[-1]} if done else {0}) | ({cur} if cur is not None else set())
            label = f"{tag}, checkpoint every {every}, killed at operation {i} ({ops[i][0]} {ops[i][2]}, {rep})"
            if level > 1:
                save = work + ".save"
                shutil.rmtree(save, ignore_errors=True)
                shutil.copytree(work, save)
            got = resumed(r, ref, allowed, label, bad, f"crash:{tag}:{ops[i][0]}:{ops[i][2]}")
            if got is None:
                if len(bad) >= 3:
                    return cnt, bad
                continue
            if level > 1 and (thorough or rep == "k"):
                states.append((i, rep, got, label))
                # second kill, during the first checkpoints of the restarted run
                shutil.rmtree(work)
                shutil.copytree(save, work)
                ops2, comp2, cur2, used2, info2 = [], [], None, False, []
                p2 = r.proc()
                while not p2.done:
                    o = p2.pending
                    m = re.match(r"/MARK([be])(\d+)$", o[2])
                    if m and m.group(1) == "b":
                        cur2, used2 = int(m.group(2)), False
                    elif m:
                        if used2:
                            comp2.append(cur2)
                        cur2 = None
                    elif cur2 is not None and shim.mutating(o[0]):
                        used2 = True
                    ops2.append(o)
                    info2.append((list(comp2), cur2 if used2 else None))
                    p2.step("g")
                pts2 = [(j, "k") for j, o in enumerate(ops2) if shim.mutating(o[0])] + [(j, f"t{o[1] // 2}") for j, o in enumerate(ops2) if o[0] == "write" and o[1] > 1]
                for j, rep2 in pts2 if thorough else pts2[:: max(1, len(pts2) // 10)]:
                    shutil.rmtree(work)
                    shutil.copytree(save, work)
                    r.proc().run(j, rep2)
                    cnt["crash_points"] += 1
                    dn, cr = info2[j]
                    al = ({dn[-1]} if dn else {got}) | ({cr} if cr is not None else set())
                    if resumed(r, ref, al, f"{label}, restarted and killed again at operation {j} ({ops2[j][0]} {ops2[j][2]}, {rep2})", bad, f"crash2:{tag}:{ops2[j][0]}") is None and len(bad) >= 3:
                        return cnt, bad
        # ---- failing operations
        for i, o in enumerate(ops):
            if not shim.mutating(o[0]):
                continue
            for err in (28, 5) if thorough else (28,):
                r.clear()
                res = r.proc().run(i, f"e{err}")
                cnt["faults"] += 1
                got = parse(res[2])
                done, cur = info[i]
                label = f"{tag}, checkpoint every {every}, errno {err} at operation {i} ({o[0]} {o[2]})"
                why = compare(ref, got, {0})
                if why or res[1] < 0:
                    bad.append((f"fault:{tag}:{o[0]}", f"{label}: the run: exit status {res[1]}, {why}"))
                    if len(bad) >= 3:
                        return cnt, bad
                    continue
                if res[1] == 0 and got[-1][0] == NSTEP - 1:
                    k = comp.index(cur) if cur in comp else -1
                    allowed = {comp[-1]} if k < len(comp) - 1 else {comp[-1], comp[-2] if len(comp) > 1 else 0}
                else:
                    allowed = ({done[-1]} if done else {0}) | ({cur} if cur is not None else set())
                if resumed(r, ref, allowed, label, bad, f"fault:{tag}:{o[0]}") is None and len(bad) >= 3:
                    return cnt, bad
        # ---- truncated checkpoints
        r.clear()
        r.plain()
        files = [f for f in os.listdir(work) if f != "proj.par"]
        if not files:
            raise vf.HarnessError(f"{tag}: no checkpoint file found")
        for f in files:
            with open(os.path.join(work, f), "rb") as fh:
                data = fh.read()
            n = len(data)
            lens = range(n) if thorough else sorted({*range(0, 40), *range(n - 40, n), *range(0, n, max(1, n // 250))})
            for ln in lens:
                with open(os.path.join(work, f), "wb") as fh:
                    fh.write(data[:ln])
                p = r.plain(exe=asan if ln % 5 == 0 else None, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77"})
                cnt["truncations"] += 1
                got = parse(p.stdout)
                fresh = p.returncode == 0 and compare(ref, got, {0}) is None and got[-1][0] == NSTEP - 1
                rejected = p.returncode > 0 and p.returncode != 77 and not got
                if not (fresh or rejected):
                    bad.append((f"truncated:{tag}", f"{tag}: a checkpoint of {n} bytes cut to {ln} is not rejected: exit status {p.returncode}, steps {[x[0] for x in got]}, {compare(ref, got, None)}, {p.stderr[-150:]!r}"))
                    break
            with open(os.path.join(work, f), "wb") as fh:
                fh.write(data)
    cnt["runs"] = r.n
    return cnt, bad


def body(chk):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables  # pylint: disable=import-outside-toplevel

    shim.build(chk.scratch)
    T = chk.thorough
    methods = [m for m, t in generate_Butcher_tables().items() if t[0][-1][0] == ""]
    mk = lambda cs, m, fp="double", bah=False, **kw: dict(cs=cs, method=m, fp=fp, bah=bah, **kw)
    jobs = [
        (mk(["Cartesian"], "RK4"), 2),
        (mk(["Spherical", "Cartesian"], "RK4"), 1),
        (mk(["Cartesian"], "Euler"), 1),
        (mk(["Cartesian"], "SSPRK3", "float"), 1),
        (mk(["Cylindrical"], "RK4", bah=True), 1),
        (mk(["Cartesian"], "RK3 Heun", fname=("cp_%s_%.1f.dat", "commondata->vf_tag, commondata->convergence_factor")), 1),
    ]
    jobs += [(mk(["Cartesian"], m), 0) for m in methods if m not in ("RK4", "Euler")]
    if T:
        jobs = [(c, 2) for c, _ in jobs]
    for (case, level), (cnt, bad) in zip(jobs, vf.pmap(one, [(c, chk.scratch, lv, T) for c, lv in jobs], timeout=3000 if T else 800)):
        for k, v in cnt.items():
            chk.count(k, v)
        chk.count("evaluations", cnt.get("crash_points", 0) + cnt.get("faults", 0) + cnt.get("truncations", 0) + 1)
        chk.outcome((str(case), level, cnt))
        for key, what in bad[:3]:
            chk.violation(key, what, {"case": case, "what": what})
    chk.sample({"configurations": [str(c) for c, _ in jobs[:6]]})


if __name__ == "__main__":
    vf.main("C16", "fault_enumeration", "kills at every file operation and torn prefix, failing operations and truncated checkpoints of complete generated programs, each judged against the uninterrupted run", body)
