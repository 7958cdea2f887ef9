"""C06: parallel code generation equals serial code generation for every schedule.

Stateless exploration of all completion orders of the real process pool: each task holds its
result until the controller releases it; the controller enumerates every order a pool of k
workers can complete n tasks in, for pools of 1..n workers (with fewer workers than tasks a
worker's process-global registries carry over from one task to the next).  Oracle: the registries
after running the same tasks serially in a fresh process, and everything generated from them.
"""

import hashlib
import itertools
import os
import re
import shutil
import sys
import threading
import time

import vf

import c06tasks as tk
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par

BSSN = ("hydro_without_hydro",)
IGN = ("parallel_codegen_enable", "parallel_codegen_stage")


def canon():
    def attrs(o):
        return tuple(sorted((k, str(v)) for k, v in vars(o).items()))

    return {
        "params": {k: attrs(v) for k, v in par.glb_params_dict.items() if k not in IGN},
        "code_params": {k: attrs(v) for k, v in par.glb_code_params_dict.items()},
        "gridfunctions": {k: (type(v).__name__,) + attrs(v) for k, v in gri.glb_gridfcs_dict.items()},
        "C functions": {k: (v.full_function, v.function_prototype, v.subdirectory, v.CoordSystem_for_wrapper_func) for k, v in cfc.CFunction_dict.items()},
        "extras": {a: {b: [str(x) if isinstance(x, (str, int)) else str(vars(x)) for x in (c if isinstance(c, list) else [c])] for b, c in d.items()} for a, d in par.glb_extras_dict.items()},
    }


def headers(scratch):
    """Files generated from the registries; byte-for-byte comparable."""
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bd
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    import nrpy.infrastructures.BHaH.Makefile_helpers as Mk

    d = os.path.join(scratch, f"hdr{os.getpid()}")
    os.makedirs(d)
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    par.glb_extras_dict.setdefault("griddata_struct", {})
    Bd.output_BHaH_defines_h(project_dir=d, enable_rfm_precompute=False)
    cfc.CFunction_dict["main"] = cfc.CFunction(name="main", desc="m", cfunc_type="int", params="", body="return 0;")
    Mk.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="p", exec_or_library_name="p")
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), "rb") as fh:
                out[os.path.relpath(os.path.join(root, f), d)] = hashlib.sha256(fh.read()).hexdigest()
    shutil.rmtree(d)
    return out


def serial(tasks, want_headers, scratch):
    par.set_parval_from_str("parallel_codegen_enable", False)
    for i, w in enumerate(tasks):
        tk.submit(i, w, i, False)
    c = canon()
    return c, headers(scratch) if want_headers else None


def parallel(tasks, order, workers, want_headers, scratch):
    """One controlled schedule. Returns (error text or None, canonical state, headers)."""
    d = os.path.join(scratch, f"gate{os.getpid()}")
    os.makedirs(d)
    tk.GATE["dir"] = d
    os.cpu_count = lambda: workers
    proxies = []
    real_manager = getattr(pcg, "Manager", None)
    if real_manager is not None:

        def spy(*a, **k):
            m = real_manager(*a, **k)
            rd = m.dict

            def mk(*aa, **kk):
                p = rd(*aa, **kk)
                proxies.append(p)
                return p

            m.dict = mk
            return m

        pcg.Manager = spy
    stop = threading.Event()

    def control():
        done = 0
        for i in order:
            t0 = time.time()
            while not os.path.exists(os.path.join(d, f"start{i}")) and time.time() - t0 < 15 and not stop.is_set():
                time.sleep(0.002)
            open(os.path.join(d, f"go{i}"), "w").close()
            done += 1
            # wait until the result has arrived before releasing the next one
            t0 = time.time()
            while time.time() - t0 < (0.25 if proxies and not tasks[i].startswith("failing") else 0.06) and not stop.is_set():
                try:
                    if proxies and len(proxies[0]) >= done:
                        break
                except Exception:  # pylint: disable=broad-except
                    pass
                time.sleep(0.003)

    th = threading.Thread(target=control, daemon=True)
    par.set_parval_from_str("parallel_codegen_enable", True)
    err = None
    for i, w in enumerate(tasks):
        if tk.submit(i, w, i, False) is not None:
            return "a task ran during the registration phase", None, None
    th.start()
    try:
        pcg.do_parallel_codegen()
    except Exception as e:  # pylint: disable=broad-except
        err = f"{type(e).__name__}: {e}"
    stop.set()
    th.join(timeout=5)
    to = os.path.exists(os.path.join(d, "timeout"))
    shutil.rmtree(d, ignore_errors=True)
    if to:
        return "HARNESS: gate timeout", None, None
    if err:
        return err, None, None
    return None, canon(), headers(scratch) if want_headers else None


def orders(n, workers):
    """All completion orders a FIFO pool of ``workers`` can produce."""
    out = []

    def rec(done, running, nxt):
        while len(running) < workers and nxt < n:
            running = running + [nxt]
            nxt += 1
        if not running:
            out.append(tuple(done))
            return
        for r in running:
            rec(done + [r], [x for x in running if x != r], nxt)

    rec([], [], 0)
    return out


def differences(a, b):
    bad = []
    for sec in a:
        for k in sorted(set(a[sec]) | set(b[sec])):
            if a[sec].get(k) != b[sec].get(k):
                bad.append(f"{sec}[{k}]: {'missing' if k not in b[sec] else 'extra' if k not in a[sec] else 'differs'}")
    return bad


def dup_job():
    """Registering the same call twice is refused; a disabled generator ignores do_parallel_codegen."""
    par.set_parval_from_str("parallel_codegen_enable", True)
    tk.submit(0, "synth0", 0, False)
    try:
        tk.submit(0, "synth0", 0, False)
        return "a task registered twice was accepted"
    except ValueError:
        pass
    tk.submit(0, "synth0", 1, False)
    if len(pcg.ParallelCodeGen_dict) != 2:
        return f"{len(pcg.ParallelCodeGen_dict)} tasks registered, want 2 (same function, different arguments)"
    par.set_parval_from_str("parallel_codegen_enable", False)
    before = canon()
    pcg.do_parallel_codegen()
    if canon() != before:
        return "do_parallel_codegen with parallel codegen disabled changed the registries"
    return None


def example(name, mode, scratch):
    d = os.path.join(scratch, f"ex_{name}_{mode}")
    os.makedirs(d)
    pre = ""
    if mode == "serial":
        pre = (
            "import nrpy.params as par\n_s = par.set_parval_from_str\n"
            "par.set_parval_from_str = lambda n, v: _s(n, False if n == 'parallel_codegen_enable' else v)\n"
        )
    else:
        pre = f"import os\nos.cpu_count = lambda: {mode}\n"
    src = pre + f"import runpy, sys\nimport nrpy.helpers.parallel_codegen\nsys.argv=['x']\nrunpy.run_path({os.path.join(vf.REPO, 'nrpy', 'examples', name + '.py')!r}, run_name='__main__')\n"
    p = vf.run([sys.executable, "-c", src], cwd=d, timeout=600, env={"XDG_CACHE_HOME": os.path.join(d, ".cache")})
    shutil.rmtree(os.path.join(d, ".cache"), ignore_errors=True)
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), "rb") as fh:
                out[os.path.relpath(os.path.join(root, f), d)] = hashlib.sha256(fh.read()).hexdigest()
    shutil.rmtree(d)
    return p.returncode, out, (p.stdout + p.stderr)[-1500:]


def body(chk):
    T = chk.thorough
    sets = [("synth0", "synth1", "synth2", "synth3"), ("synth0", "synth_none", "synth2", "synth1")]
    # "Sph"/"Cart" reference metrics label the same CodeParameters with different modules, so for
    # this set the serial run is no reference; every schedule must still give the same result.
    mixed = ("wave_rhs", "wave_exact", "wave_xx", "wave_rhs2")
    real = [("wave_rhs", "wave_exact", "wave_xxS"), mixed]
    if T:
        sets += [("synth3", "synth2", "synth1", "synth0", "synth_none"), ("synth1",), ("synth2", "synth3")]
    jobs = []
    for s in sets + real:
        hd = s in real or s is sets[0]
        for w in range(1, min(len(s), 8) + 1) if T or s in sets[:1] else (2, len(s)):
            for o in orders(len(s), w):
                jobs.append((s, o, w, hd, chk.scratch))
    refs = {s: vf.forked(serial, s, s in real or s is sets[0], chk.scratch) for s in sets + real if s is not mixed}
    for s in sets[:1]:
        if len(refs[s][0]["C functions"]) < 5:
            raise vf.HarnessError("serial reference registered too little")
    chk.note(f"{len(jobs)} schedules")
    chk.count("states", sum(len(j[1]) + 1 for j in jobs))
    for j, (st, res) in zip(jobs, vf.pmap_raw(parallel, jobs, nproc=6, timeout=120)):
        chk.count("schedules")
        chk.count("transitions", len(j[0]))
        chk.count("evaluations")
        where = f"tasks {j[0]} completing in order {j[1]} on {j[2]} worker(s)"
        if st != "ok":
            if st == "exc" and not vf.touches_repo(res):
                raise vf.HarnessError(res)
            chk.violation(f"schedule-fails:{j[0]}:{st}", f"{where}: {st} {str(res)[-500:]}", {"tasks": j[0], "order": j[1], "workers": j[2]})
            continue
        err, c, h = res
        if err and err.startswith("HARNESS"):
            raise vf.HarnessError(f"{where}: {err}")
        if err:
            chk.violation(f"schedule-raises:{j[0]}", f"{where}: raised {err[:500]}", {"tasks": j[0], "order": j[1], "workers": j[2]})
            continue
        chk.outcome((j[0], j[1], j[2]))
        if j[0] not in refs:  # mixed: the first schedule is the reference for the others
            refs[j[0]] = (c, h)
        bad = differences(refs[j[0]][0], c)
        if bad:
            chk.violation(f"differs:{j[0]}:{bad[0]}", f"{where}: {bad[:6]}", {"tasks": j[0], "order": j[1], "workers": j[2], "differences": bad})
        elif h is not None and h != refs[j[0]][1]:
            dif = sorted(k for k in set(h) | set(refs[j[0]][1]) if h.get(k) != refs[j[0]][1].get(k))
            chk.violation(f"files:{j[0]}:{dif[:2]}", f"{where}: generated files differ from the reference run: {dif[:6]}", {"tasks": j[0], "order": j[1], "workers": j[2], "files": dif})
    chk.note(f"schedules done {chk.counters}")
    # failing tasks: always reported, wherever they complete
    fj = []
    for f in ("failing_value", "failing_runtime", "failing_type", "failing_own"):
        for pos in range(3):
            t = ["synth0", "synth1"]
            t.insert(pos, f)
            os_ = list(itertools.permutations(range(3)))
            for o in os_ if T or f == "failing_value" else [os_[0], os_[3]]:
                fj.append((tuple(t), o, 3, False, chk.scratch))
    for j, (st, res) in zip(fj, vf.pmap_raw(parallel, fj, nproc=6, timeout=60)):
        chk.count("schedules")
        chk.count("evaluations")
        where = f"tasks {j[0]} completing in order {j[1]}"
        if st == "exc" and not vf.touches_repo(res):
            raise vf.HarnessError(res)
        if st != "ok":
            chk.violation(f"failing-hangs:{j[0]}", f"{where}: {st} {str(res)[-300:]}", {"tasks": j[0], "order": j[1]})
        elif res[0] is None:
            chk.violation(f"failure-dropped:{j[0]}", f"{where}: the failing task was not reported", {"tasks": j[0], "order": j[1]})
    e = vf.forked(dup_job)
    chk.count("evaluations")
    if e:
        chk.violation("registration:" + e[:60], e, {})
    exs = ["wave_equation_cartesian", "wave_equation_curvilinear"] + (["wave_equation_multicoord_wavetoy", "nrpyelliptic_conformally_flat", "carpet_wavetoy_thorns", "hydro_without_hydro"] if T else [])
    runs = [(x, m, chk.scratch) for x in exs for m in (() if x in BSSN else ("serial",)) + (1, 3, 5)]
    res = dict(zip(((x, m) for x, m, _ in runs), vf.pmap(example, runs, nproc=4, timeout=700)))
    for x in exs:
        # BSSN sets up its expressions differently once its gridfunctions are registered (same
        # values, different text), so there the reference is the one-worker run.
        ref = 1 if x in BSSN else "serial"
        base = res[(x, ref)]
        if base[0] != 0 or len(base[1]) < 3:
            raise vf.RepoError(f"example {x} serially", base[2])
        for m in (1, 3, 5):
            if m == ref:
                continue
            r = res[(x, m)]
            chk.count("evaluations", len(r[1]))
            if r[0] != 0 or r[1] != base[1]:
                dif = sorted(k for k in set(r[1]) | set(base[1]) if r[1].get(k) != base[1].get(k))
                chk.violation(f"example:{x}:{m}", f"example {x} with {m} worker(s) differs from the {ref} run: rc={r[0]} {dif[:6]} {r[2][-300:] if r[0] else ''}", {"example": x, "workers": m, "files": dif})


if __name__ == "__main__":
    vf.main("C06", "model_checking", "distinct (task set, completion order, pool size) schedules", body)
