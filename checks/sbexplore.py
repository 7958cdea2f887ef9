"""Stateless exploration of the message orders of a superB program (csrc/charm/run.cpp)."""

import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import vf


class Run:
    """One complete execution."""

    def __init__(self, text):
        self.fail = self.blocked = self.diff = None
        self.files, self.ev, self.races, self.infeasible = [], [], [], False
        for line in text.splitlines():
            k, _, v = line.partition(" ")
            if k == "E":
                self.ev.append(tuple(map(int, v.split())))
            elif k == "R":
                self.races.append(tuple(map(int, v.split())))
            elif k == "FAIL":
                self.fail = v
            elif k == "BLOCKED":
                self.blocked = v
            elif k == "DIFF":
                self.diff = v
            elif k == "FILE":
                self.files.append(v)
            elif k == "STATE":
                self.state = v
            elif k == "DT":
                self.dt = float(v)
            elif k == "NN":
                self.nn = int(v)
            elif k == "CHECKPOINTS":
                self.checkpoints = int(v)
            elif k == "EXITS":
                self.exits = int(v)
            elif k == "NCH":
                self.nch = tuple(map(int, v.split()))
            elif k == "INFEASIBLE":
                self.infeasible = True
        self.seqs = {}
        for c, *m in self.ev:
            self.seqs.setdefault(c, []).append(tuple(m))

    def trace(self):
        return tuple(sorted((c, tuple(s)) for c, s in self.seqs.items()))

    def outcome(self):
        return (self.state, tuple(sorted(self.files)), self.blocked, self.fail, self.diff and self.diff.split()[0], self.nn)

    def children(self):
        """Schedules that deliver, at one event, another message that could have arrived first."""
        for c, n, *rest in self.races:
            m, vc = tuple(rest[:4]), rest[4:]
            pre = {}
            for j, k in enumerate(vc):
                s = self.seqs.get(j, [])[: n if j == c else k]
                if j == c:
                    s = s + [m]
                if s:
                    pre[j] = s
            yield tuple(sorted((j, tuple(s)) for j, s in pre.items()))


def execute(exe, par, work, tag, policy=0, newest=0, schedule=(), ref="-", timeout=120, env=None):
    d = os.path.join(work, str(tag))
    os.makedirs(d, exist_ok=True)
    sched = "-"
    if schedule:
        sched = vf.write(os.path.join(d, "sched"), "".join(f"{c} {a} {b} {q} {e}\n" for c, s in schedule for a, b, q, e in s))
    out = os.path.join(d, "out")
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run([exe, par, out, str(policy), str(newest), sched, ref], cwd=d, capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **env) if env else None)
    except subprocess.TimeoutExpired:
        r = subprocess.CompletedProcess([], "none (it does not end)", "", "")
    if r.returncode:
        x = Run("")
        x.fail, x.state, x.nn, x.exits, x.checkpoints = f"the program ends with status {r.returncode}: {(r.stderr or r.stdout)[-300:]}", "", -1, 0, 0
        return x
    return Run(open(out).read())


def explore(exe, par, work, ref, depth, policies, limit, judge, nproc=8, env=None):
    """All executions reachable with at most `depth` reversals from the base executions. judge(run, how) is called on
    each; returns (executions, distinct message orders, events, complete?)."""
    seen_sched, seen_trace = set(), set()
    level = [(p, n, ()) for p, n in policies]
    total = events = 0
    complete = True
    tags = iter(range(10**9))
    import queue

    slots = queue.Queue()
    for i in range(nproc):
        slots.put(i)

    def one(item):
        p, n, s = item
        t = slots.get()
        try:
            return item, execute(exe, par, work, f"w{t}", p, n, s, ref, env=env)
        finally:
            slots.put(t)

    del tags
    for d in range(depth + 1):
        nxt = []
        with ThreadPoolExecutor(nproc) as ex:
            for item, r in ex.map(one, level):
                total += 1
                events += len(r.ev)
                if r.infeasible:
                    raise vf.HarnessError(f"schedule not feasible: {item}")
                stop = judge(r, item)
                tr = r.trace()
                if stop:
                    return total, len(seen_trace) + 1, events, False
                if tr in seen_trace:
                    continue
                seen_trace.add(tr)
                if d < depth:
                    for s in r.children():
                        if s not in seen_sched:
                            if len(nxt) >= limit:
                                complete = False
                                break
                            seen_sched.add(s)
                            nxt.append((item[0], item[1], s))
        level = nxt
    return total, len(seen_trace), events, complete
