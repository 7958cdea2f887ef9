"""C26: generated programs compute the same whatever the threads do and whatever memory held.

Generated programs (a wave-equation program on every coordinate system, and whole example
programs) are compiled with -fsanitize=thread and linked against csrc/vfomp.c, an OpenMP runtime
whose threads run in an order the explorer chooses and which sees every memory access. Two accesses
of one byte by different threads between the same two barriers, one of them a write, are a race:
without one every interleaving of a phase is equivalent to the one executed, so one execution per
order of the threads and number of threads covers all schedules of that execution. Every output is
compared with the one-thread run, and with a run in which malloc returns poisoned memory.
"""

import glob
import itertools
import os
import re
import shutil

import bhah
import examples
import vf
import wave

WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memset", "memmove"))


def build(srcs, d, inc, exe="ts", opt="-O1", omp_o=None, libs=("-lm", "-lgsl", "-lgslcblas")):
    jobs = []
    for k, s in enumerate(srcs):
        jobs.append((s, os.path.join(d, f"ts{k}.o"), inc, opt))
    for st, res in vf.pmap_raw(compile_one, jobs):
        if st != "ok":
            raise vf.HarnessError(res)
        if res:
            raise vf.CompileError(res)
    vf.cc([j[1] for j in jobs] + [omp_o], os.path.join(d, exe), base=["-no-pie", WRAP], libs=libs)
    return os.path.join(d, exe)


def compile_one(s, o, inc, opt):
    try:
        vf.cc([s], o, base=["-std=gnu99", "-w", "-g1", opt, "-march=native", "-ffp-contract=off", "-fopenmp", "-fsanitize=thread", "-I" + inc, "-c"], libs=[])
        return None
    except vf.CompileError as e:
        return str(e)


def outputs(d):
    """name -> text of every text file written (checkpoints hold pointers: C16's business)."""
    out = {}
    for f in sorted(glob.glob(os.path.join(d, "**"), recursive=True)):
        if os.path.isfile(f):
            b = open(f, "rb").read()
            if b"\0" not in b:
                out[os.path.relpath(f, d)] = b.decode(errors="replace")
    return out


def compare(ref, got, tol):
    """None, or a description of the first difference."""
    if sorted(ref) != sorted(got):
        return f"files differ: {sorted(set(ref) ^ set(got))}"
    for name in ref:
        if ref[name] == got[name]:
            continue
        a, b = ref[name].split(), got[name].split()
        if len(a) != len(b):
            return f"{name}: {len(a)} words, {len(b)} words"
        for k, (x, y) in enumerate(zip(a, b)):
            if x == y:
                continue
            try:
                u, v = float(x), float(y)
            except ValueError:
                return f"{name}: word {k}: {x} / {y}"
            if tol is None or not abs(u - v) <= tol * max(1.0, abs(u), abs(v)):
                return f"{name}: word {k}: {x} / {y}"
    return None


def execute(exe, d, order, pars, poison=False, args=(), timeout=600):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = {"VF_OMP_ORDER": order, "VF_OMP_STATS": "1"}
    if poison:
        env["VF_POISON"] = "1"
    cmd = [exe]
    if pars:
        shutil.copy(pars, os.path.join(d, "run.par"))
        cmd += ["run.par", *args]
    p = vf.run(cmd, cwd=d, env=env, timeout=timeout)
    races = re.findall(r"RACE .*", p.stdout)
    m = re.search(r"OMPSTATS regions=(\d+) phases=(\d+) accesses=(\d+) races=(\d+)", p.stdout)
    where = []
    if races:
        pcs = sorted(set(re.findall(r"0x[0-9a-f]+", " ".join(r.split(" pc ")[1] for r in races))))
        a = vf.run(["addr2line", "-f", "-s", "-e", exe, *pcs]).stdout.split()
        where = sorted(set(a[0::2]))
    out = outputs(d)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out, races[:3], where, tuple(int(x) for x in m.groups()) if m else None, p.stderr[-500:]


def explore(tag, exe, d, pars, orders, tol, args=()):
    """Returns (problems, counts)."""
    probs, cnt = [], {"runs": 0, "regions": 0, "phases": 0, "accesses": 0, "files": 0}
    rc, ref, _, _, st, err = execute(exe, os.path.join(d, "r0"), "0", pars, args=args)
    if rc or not st:
        return [(f"{tag}:fails", f"the one-thread run ended with {rc}: {err}")], cnt
    if not ref:
        return [(f"{tag}:silent", "the program wrote nothing")], cnt
    cnt["files"] = len(ref)
    cnt["accesses"] += st[2]
    rc, got, _, _, st, err = execute(exe, os.path.join(d, "rp"), "0", pars, poison=True, args=args)
    diff = f"exit status {rc}: {err}" if rc else compare(ref, got, None)
    if diff:
        probs.append((f"{tag}:poison", f"the result depends on what fresh memory holds: {diff}"))
    for o in orders:
        rc, got, races, where, st, err = execute(exe, os.path.join(d, "r" + o), o, pars, args=args)
        cnt["runs"] += 1
        if st:
            cnt["regions"] += st[0]
            cnt["phases"] += st[1]
            cnt["accesses"] += st[2]
        if races:
            probs.append((f"{tag}:race:{','.join(where)}", f"{len(o)} threads, order {o}: data race in {where}: {races}"))
        diff = f"exit status {rc}: {err}" if rc or not st else compare(ref, got, tol)
        if diff:
            probs.append((f"{tag}:threads", f"{len(o)} threads, order {o}: result differs from one thread: {diff}"))
        if st and not st[0]:
            probs.append((f"{tag}:serial", "no parallel region was entered"))
        if probs:
            break
    return probs, cnt


def perms(n):
    return ["".join(map(str, p)) for p in itertools.permutations(range(n))]


def wave_case(case, omp_o, d):
    cs, precompute, simd, ko, fd, method, collapse, orders, opt = case
    tag = "wave:" + ":".join(map(str, (cs, precompute, simd, ko, fd, method, collapse)))
    nx = {cs: [max(fd + (2 if ko else 0), n) if k == 0 else n for k, n in enumerate(wave.NXX[bhah.family(cs)])]}
    srcs = vf.forked(wave.project, d, cs, precompute, simd, ko, fd, method, collapse, False, nx)
    exe = build(srcs, d, d, omp_o=omp_o, opt=opt)
    probs, tot = [], {}
    for bc in ("radiation", "extrapolation"):
        pars = examples.parfile(d, os.path.join(d, "par_" + bc, "run.par"), outer_bc_type=f'"{bc}"', t_final="0.05")
        text = open(pars).read()
        ps, c = explore(f"{tag}:{bc}", exe, d, pars, orders, 1e-11)
        probs += ps
        for k, v in c.items():
            tot[k] = tot.get(k, 0) + v
        assert bc in text
    shutil.rmtree(d, ignore_errors=True)
    return probs, tot


def example_case(name, values, orders, tol, omp_o, d, opt):
    proj = examples.generate(name, d)
    exe = build(examples.sources(proj), d, proj, omp_o=omp_o, opt=opt)
    pars = examples.parfile(proj, os.path.join(d, "run.par"), **values)
    res = explore("example:" + name, exe, d, pars, orders, tol)
    shutil.rmtree(d, ignore_errors=True)
    return res


def guarded(fn, *args):
    try:
        return fn(*args)
    except vf.CompileError as e:
        return [("compile", "the generated program does not compile: " + str(e)[-1500:])], {}


def body(chk):
    omp_o = os.path.join(chk.scratch, "vfomp.o")
    vf.cc([os.path.join(vf.VERIF, "csrc", "vfomp.c")], omp_o, base=["-O2", "-fno-builtin", "-w", "-c"], libs=[])
    few, t3 = ["01", "210"], perms(2) + perms(3)
    jobs = []
    B = chk.thorough
    # whole example programs
    ex = [
        ("blackhole_spectroscopy", {"convergence_factor": 0.13, "t_final": 0.01, "TP_npoints_A": 6, "TP_npoints_B": 6, "initial_p_t": 0.1, "mass_ratio": 1.3, "checkpoint_every": 0.0}, ["01"] if not B else few, 1e-8),
        ("two_blackholes_collide", {"convergence_factor": 0.2, "t_final": 0.01}, few if not B else t3, 1e-9),
        ("nrpyelliptic_conformally_flat", {"convergence_factor": 0.125, "nn_max": 3}, few if not B else t3, 1e-9),
        ("wave_equation_multicoord_wavetoy", {"convergence_factor": 0.25, "t_final": 0.01}, few if not B else t3, 1e-10),
    ]
    if B:
        ex += [
            ("wave_equation_cartesian", {"convergence_factor": 0.12, "t_final": 0.5}, t3, 1e-10),
            ("wave_equation_curvilinear", {"convergence_factor": 0.25, "t_final": 0.01}, t3, 1e-10),
            ("spinning_blackhole", {"convergence_factor": 0.2, "t_final": 0.01}, few, 1e-9),
            ("hydro_without_hydro", {"convergence_factor": 0.25, "t_final": 0.01}, few, 1e-9),
            ("tovola_neutron_star", {"convergence_factor": 0.25, "t_final": 0.01}, few, 1e-9),
        ]
    for n, v, o, tol in ex:
        jobs.append((example_case, n, v, o, tol, omp_o, os.path.join(chk.scratch, n), "-O1"))
    k = 0
    for cs in bhah.COORDS:
        var = [(False, False, False, 4, "RK4", 1), (True, True, True, 2, "Euler", 2)]
        if B:
            var += [(True, False, False, 6, "DP5", 3), (False, True, True, 4, "RK3 Ralston", 1), (True, True, False, 8, "RK2 MP", 2)]
        else:
            k += 1
            var = [var[k % 2]] if cs not in ("Cartesian", "Spherical") else var
        for v in var:
            jobs.append((wave_case, (cs, *v, few if not B else t3, "-O1"), omp_o, os.path.join(chk.scratch, f"w{len(jobs)}")))
    for (fn, *rest), res in zip(jobs, vf.pmap(guarded, jobs, timeout=3000)):
        probs, cnt = res
        for key, what in probs:
            chk.violation(key, what, {"case": [str(x) for x in rest[:4]]})
        chk.count("programs")
        chk.count("schedules", cnt.get("runs", 0))
        chk.count("states", cnt.get("phases", 0))
        chk.count("transitions", cnt.get("accesses", 0))
        chk.count("traces", cnt.get("runs", 0))
        chk.count("output_files_compared", cnt.get("files", 0))
        chk.outcome((rest[0] if isinstance(rest[0], str) else rest[0][:7], cnt.get("phases"), cnt.get("accesses")))
        chk.sample({"program": str(rest[0])[:120], **cnt})
    chk.cov["bounds"] = "2 and 3 threads; every order of the threads (quick: a representative of each); race check exact per barrier phase, covering every interleaving of the phase"


if __name__ == "__main__":
    vf.main("C26", "model_checking", "every thread count x thread order x program; exact race detection per barrier phase", body)
