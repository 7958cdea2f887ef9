"""C05: the on-disk expression cache is transparent under crashes, faults, concurrency and reuse.

The real cache code runs in processes whose file operations below the cache directory are under
the explorer's control (csrc/shim.c).  Enumerated: every crash point and torn write of every
caching operation (also two crashes in a row), every failing operation, every interleaving of
two operations (three with a preemption bound), and all operation histories to a depth.
Oracle: the uncached value.
"""

import hashlib
import itertools
import os
import shutil
import subprocess

import shim
import vf

if __name__ == "__main__":
    shim.reexec()

import sympy as sp

import nrpy.helpers.cached_functions as cf
import nrpy.params as par
from nrpy.helpers.generic import clang_format

x, y = sp.symbols("x y")
xr = sp.Symbol("x", real=True)
xp = sp.Symbol("x", positive=True)
E = {
    "trig": sp.sin(x) ** 2 + sp.cos(x) ** 2 + x,
    "trigy": sp.sin(y) ** 2 + sp.cos(y) ** 2 + y,
    "root": sp.sqrt(x**2) + 1,
    "root_real": sp.sqrt(xr**2) + 1,
    "root_pos": sp.sqrt(xp**2) + 1,
    "frac": (x**2 - 1) / (x - 1),
}
# expressions that print alike and simplify differently
for _n, _s in (("plain", x), ("real", xr), ("pos", xp)):
    E[f"uneval_root_{_n}"] = sp.Pow(sp.Pow(_s, 2, evaluate=False), sp.Rational(1, 2), evaluate=False)
    E[f"uneval_abs_{_n}"] = sp.Abs(_s, evaluate=False) + 1
E["sum"], E["sum_name"] = x + y, sp.Symbol("x + y")
E["call"], E["call_name"] = sp.Function("f")(x) * 2, sp.Symbol("f(x)") * 2
OPT2 = "-style={BasedOnStyle: LLVM, ColumnLimit: 20}"
CODE = {"c1": "int  f( int a ){return a+1+a*a*a+12345 ;}", "c2": "int  f( int a ){return a+2+a*a*a+12345 ;}"}


def ref_format(code, opts=None):
    return subprocess.run(["clang-format", opts or "-style={BasedOnStyle: LLVM, ColumnLimit: 150}"], input=code, stdout=subprocess.PIPE, text=True, check=True).stdout


def tag(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def canon(v):
    if isinstance(v, sp.Basic):
        return sp.srepr(v) + "|" + repr(sorted((s.name, sorted(s.assumptions0.items())) for s in v.free_symbols))
    return repr(v)


def build_ops():
    """name -> (callable doing the cached operation, canonical uncached value)."""
    ops = {}
    for n, e in E.items():
        ops[f"simplify:{n}"] = (lambda e=e: canon(cf.cached_simplify(e)), canon(sp.simplify(e)))
    ops["simplify:zero"] = (lambda: canon(cf.cached_simplify(sp.sympify(0))), canon(sp.sympify(0)))

    def memo(uid, data):
        if cf.is_cached(uid):
            return canon(cf.read_cached(uid))
        cf.write_cached(uid, data)
        return canon(data)

    for uid, data in (("id1", {"a": [1, 2, "x" * 40]}), ("id2", ("b", 2.5, b"\0" * 30)), ("id1 ", {"a": 0}), ("ID1", [3]), ("p" * 300 + "a", [4]), ("p" * 300 + "b", [5]), ("k/é\n\0", "six")):
        ops[f"memo:{uid}"] = (lambda uid=uid, data=data: memo(uid, data), canon(data))
    for n, c in CODE.items():
        ops[f"format:{n}"] = (lambda c=c: canon(clang_format(c)), canon(ref_format(c)))
    ops["format:c1:narrow"] = (lambda: canon(clang_format(CODE["c1"], clang_format_options=OPT2)), canon(ref_format(CODE["c1"], OPT2)))
    return ops


OPS = {}


def fresh(d, mode):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if mode == "empty":
        os.makedirs(os.path.join(d, "nrpy"))


def call(d, name):
    os.environ["XDG_CACHE_HOME"] = d
    return OPS[name][0]()


def recover(d, name, others=()):
    """Run the operation twice (and the others once) with no interference."""
    out = []
    for n in [name, name, *others]:
        st, val = vf.pmap_raw(call, [(d, n)], nproc=1)[0]
        out.append((n, st, val))
    return out


def torn_points(thorough):
    def f(n):
        if thorough or n <= 24:
            return list(range(0, n))
        return sorted({0, 1, 2, n // 4, n // 2, 3 * n // 4, n - 2, n - 1, *range(0, n, max(1, n // 12))})
    return f


def crash_job(name, init, thorough, scratch, depth2):
    d = os.path.join(scratch, f"cr_{tag(name)}_{init}_{depth2}")
    mk = lambda: shim.Proc(d, fn=lambda: call(d, name))
    ref = OPS[name][1]
    bad, n = [], 0

    def judge(label):
        nonlocal n
        for who, st, val in recover(d, name):
            n += 1
            if st == "exc" and not vf.touches_repo(val):
                raise vf.HarnessError(val)
            if st != "ok" or val != ref:
                bad.append((f"crash:{name}:{label}", f"{who} from cache state '{init}', killed {label}: afterwards {st} {str(val)[-300:]!r}, want {ref[:200]!r}"))
                return False
        return True

    fresh(d, init)
    pts = shim.crash_points(mk, (lambda m: [m // 3]) if depth2 and not thorough else torn_points(thorough))
    npts = len(pts)
    for i, reply, label in pts:
        fresh(d, init)
        mk().run(i, reply)
        if depth2:
            # second crash while redoing the operation after the first one
            save = d + ".save"
            shutil.rmtree(save, ignore_errors=True)
            shutil.copytree(d, save)
            pts2 = shim.crash_points(mk, torn_points(False) if thorough else (lambda m: [0, m // 2]))
            for j, r2, l2 in pts2:
                shutil.rmtree(d)
                shutil.copytree(save, d)
                mk().run(j, r2)
                npts += 1
                if not judge(f"{label}, then {l2}"):
                    break
        elif not judge(label):
            continue
    # failing operations: the call may raise OSError, but must not return a wrong value or poison the cache
    fresh(d, init)
    p = mk()
    ops = []
    while not p.done:
        ops.append(p.pending)
        p.step("g")
    if not depth2:
        for i, o in enumerate(ops):
            if not (shim.mutating(o[0])):
                continue
            for err in (28, 13):  # ENOSPC, EACCES
                if o[0] == "mkdir" and err == 13:
                    continue
                fresh(d, init)
                res = mk().run(i, f"e{err}")
                npts += 1
                n += 1
                if res[0] == "ok" and res[1] != ref:
                    bad.append((f"fault:{name}:{o[0]}:{err}", f"{name}: errno {err} at op {i} {o[0]}: returned {res[1][:200]!r}, want {ref[:200]!r}"))
                judge(f"errno {err} at op {i} {o[0]}")
    return bad, n, npts, len(ops)


def inter_job(names, init, bound, scratch):
    d = os.path.join(scratch, f"il_{tag(names)}_{init}")
    bad, outcomes = [], set()

    def reset():
        fresh(d, init)
        return [lambda nm=nm: shim.Proc(d, fn=lambda: call(d, nm)) for nm in names]

    def check(procs, choices):
        outcomes.add(tuple(tuple(o.split()[0] for o in p.log) for p in procs))
        for nm, p in zip(names, procs):
            if not p.done:
                bad.append((f"deadlock:{names}", f"{names}: deadlock under schedule {choices}"))
                return
            st, val = p.result
            if st != "ok" or val != OPS[nm][1]:
                bad.append((f"schedule:{names}:{nm}:{st}", f"{names} under schedule {choices}: {nm} gave {st} {str(val)[-300:]!r}; operations: {[q.log for q in procs]}"))
                return

    n = shim.explore(reset, check, bound)
    # after the last schedule the cache must still be right
    for who, st, val in recover(d, names[0], names[1:]):
        if st != "ok" or val != OPS[who][1]:
            bad.append((f"after:{names}:{who}", f"after concurrent {names}: {who} gives {st} {str(val)[-200:]!r}"))
    return bad, n, len(outcomes)


def history_job(first, names, depth, scratch):
    d = os.path.join(scratch, f"h_{tag(first)}")
    bad, n = [], 0
    for tail in itertools.product(names, repeat=depth - 1):
        seq = (first,) + tail
        fresh(d, "absent")
        os.environ["XDG_CACHE_HOME"] = d
        for k, nm in enumerate(seq):
            n += 1
            val = OPS[nm][0]()
            if val != OPS[nm][1]:
                bad.append((f"history:{nm}:{seq[:k]}", f"after {seq[:k]}, {nm} returned {val[:200]!r}, uncached value {OPS[nm][1][:200]!r}"))
                return bad, n
    return bad, n


def hashseed_job(seed, d):
    """Entries written by this process are read by an interpreter with another hash seed."""
    src = (
        "import os,sys; sys.path[:0]=%r\nimport C05 as m\nm.OPS=m.build_ops()\n"
        "print([n for n,(f,r) in m.OPS.items() if m.call(%r,n)!=r])" % ([os.path.join(vf.VERIF, "checks"), os.path.join(vf.VERIF, "lib"), vf.REPO], d)
    )
    import sys as _s

    p = vf.run([_s.executable, "-c", src], env={"PYTHONHASHSEED": str(seed), "LD_PRELOAD": ""})
    return p.returncode, p.stdout.strip(), p.stderr[-1500:]


def body(chk):
    global OPS
    OPS = build_ops()
    T = chk.thorough
    one = ["simplify:trig", "memo:id1", "format:c1"]
    jobs = [(n, i, T, chk.scratch, False) for n in one for i in ("absent", "empty")]
    jobs += [(n, "absent", T, chk.scratch, True) for n in (one if T else one[:2])]
    for j, (bad, n, npts, nops) in zip(jobs, vf.pmap(crash_job, jobs, timeout=800)):
        chk.count("evaluations", n)
        chk.count("crash_points", npts)
        chk.count("operations_logged", nops)
        chk.outcome(("crash", j[0], j[1], nops))
        if nops < 2:
            raise vf.HarnessError(f"{j}: no file operations intercepted")
        for key, what in bad[:3]:
            chk.violation(key, what, {"case": j[:2], "what": what})
    chk.note(f"crash points done: {chk.counters}")
    il = [(n, n2) for n, n2 in [("simplify:trig",) * 2, ("simplify:trig", "simplify:root"), ("memo:id1",) * 2, ("memo:id1", "memo:id2"), ("format:c1",) * 2, ("simplify:trig", "memo:id1")]]
    jobs = [(p, i, None if T else 2, chk.scratch) for p in il for i in ("empty",)]
    if T:
        jobs += [(p, "absent", None, chk.scratch) for p in il]
    jobs += [((n,) * 3, "empty", 3 if T else 1, chk.scratch) for n in one]
    for j, (bad, n, no) in zip(jobs, vf.pmap(inter_job, jobs, timeout=800)):
        chk.count("schedules", n)
        chk.count("evaluations", n)
        chk.sample(f"{j[0]} from {j[1]}: {n} schedules, {no} distinct operation traces")
        chk.outcome(("il", j[0], n))
        for key, what in bad[:3]:
            chk.violation(key, what, {"case": j[:3], "what": what})
    chk.note(f"interleavings done: {chk.counters}")
    names = list(OPS)
    depth = 3 if T else 2
    for bad, n in vf.pmap(history_job, [(f, names, depth, chk.scratch) for f in names], timeout=800):
        chk.count("evaluations", n)
        chk.count("histories", n // depth)
        for key, what in bad[:3]:
            chk.violation(key, what, {"what": what})
    # same entries, other hash seeds
    d = os.path.join(chk.scratch, "seeds")
    for seed in (1, 2) if not T else range(1, 9):
        rc, out, err = hashseed_job(seed, d)
        chk.count("evaluations", len(OPS))
        if rc != 0 or out != "[]":
            chk.violation("hashseed", f"entries read back under PYTHONHASHSEED={seed}: rc={rc} wrong={out} {err}", {"seed": seed})


if __name__ == "__main__":
    vf.main("C05", "fault_enumeration", "crash points, failing operations, schedules and operation histories of the cache, each judged against the uncached value", body)
