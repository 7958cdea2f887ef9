"""Controller side of csrc/shim.c: crash, fault and schedule exploration of real processes.

Every file operation of a controlled process below a directory stops and asks; the controller
lets it go, kills the process there (optionally after a torn write), makes it fail, or schedules
another process first.
"""

import ctypes
import os
import pickle
import subprocess
import sys
import traceback
from typing import Any, Callable, Dict, List, Optional, Sequence, Tuple

import vf

SO = None


def build(scratch: str) -> str:
    global SO
    if SO is None:
        SO = os.path.join(scratch, "shim.so")
        if not os.path.exists(SO):
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", os.path.join(vf.VERIF, "csrc", "shim.c"), "-o", SO, "-ldl"], check=True)
    return SO


def reexec() -> None:
    """Restart this check with the shim preloaded (inactive until vf_start)."""
    scratch = os.environ["VF_SCRATCH"]
    so = build(scratch)
    if os.environ.get("VF_PRELOADED") != "1":
        os.environ["VF_PRELOADED"] = "1"
        os.environ["LD_PRELOAD"] = so
        os.execv(sys.executable, [sys.executable, "-u"] + sys.argv)
    os.environ.pop("LD_PRELOAD", None)


class Proc:
    """A controlled process: a forked Python function, or an external program."""

    def __init__(self, root: str, fn: Optional[Callable[[], Any]] = None, cmd: Optional[Sequence[str]] = None, cwd: Optional[str] = None, env: Optional[Dict[str, str]] = None):
        self.op_r, op_w = os.pipe()
        cmd_r, self.cmd_w = os.pipe()
        self.res_r, res_w = os.pipe()
        self.buf = b""
        self.pending: Optional[Tuple[str, int, str]] = None
        self.done = False
        self.result: Any = None
        self.log: List[str] = []
        self.ext = cmd is not None
        if fn is not None:
            sys.stdout.flush()
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    os.close(self.op_r)
                    os.close(self.cmd_w)
                    os.close(self.res_r)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    lib = ctypes.CDLL(None)
                    lib.vf_start(root.encode(), cmd_r, op_w)
                    try:
                        res = ("ok", fn())
                    except BaseException:  # pylint: disable=broad-except
                        res = ("exc", traceback.format_exc())
                    lib.vf_stop()
                    os.write(res_w, pickle.dumps(res))
                finally:
                    os._exit(0)
        else:
            e = dict(os.environ)
            e.update(env or {})
            e.update(VF_SHIM_DIR=root, VF_SHIM_R=str(cmd_r), VF_SHIM_W=str(op_w), LD_PRELOAD=SO or "")
            self.out = open(os.devnull, "wb") if True else None
            self.p = subprocess.Popen(list(cmd or []), cwd=cwd, env=e, pass_fds=(cmd_r, op_w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            self.pid = self.p.pid
        for fd in (op_w, cmd_r, res_w):
            os.close(fd)
        self._advance()

    def _advance(self) -> None:
        """Wait for the next operation request or the end of the process."""
        while b"\n" not in self.buf:
            chunk = os.read(self.op_r, 65536)
            if not chunk:
                self._end()
                return
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        op, n, name = line.decode().split(" ", 2)
        self.pending = (op, int(n), name)

    def _end(self) -> None:
        self.done = True
        self.pending = None
        data = b""
        while True:
            chunk = os.read(self.res_r, 65536)
            if not chunk:
                break
            data += chunk
        if self.ext:
            out = self.p.stdout.read().decode(errors="replace") if self.p.stdout else ""
            self.p.wait()
            if self.p.stdout:
                self.p.stdout.close()
            self.out.close()
            self.result = ("exit", self.p.returncode, out)
        else:
            os.waitpid(self.pid, 0)
            self.result = pickle.loads(data) if data else ("killed", None)
        for fd in (self.op_r, self.cmd_w, self.res_r):
            os.close(fd)

    def step(self, reply: str = "g") -> None:
        assert self.pending is not None
        self.log.append(f"{self.pending[0]} {self.pending[2]} {self.pending[1]}{'' if reply == 'g' else ' <' + reply + '>'}")
        try:
            os.write(self.cmd_w, (reply + "\n").encode())
        except BrokenPipeError:
            pass
        self.pending = None
        self._advance()

    def run(self, stop_at: int = -1, reply: str = "k") -> Any:
        """Run to the end; the stop_at-th operation (0-based) gets ``reply`` instead of go."""
        i = 0
        while not self.done:
            self.step(reply if i == stop_at else "g")
            i += 1
        return self.result

    def kill(self) -> None:
        if not self.done:
            self.step("k")


MUT = ("write", "rename", "unlink", "truncate", "mkdir", "link", "fsync")


def mutating(op: str) -> bool:
    return op in MUT or op.startswith("openW")


def crash_points(make: Callable[[], Proc], torn: Callable[[int], List[int]]) -> List[Tuple[int, str, str]]:
    """All (operation index, reply, label) crash points of one run of make(), from a dry run."""
    p = make()
    ops = []
    while not p.done:
        ops.append(p.pending)
        p.step("g")
    pts = []
    for i, o in enumerate(ops):
        assert o is not None
        if not mutating(o[0]):
            continue
        pts.append((i, "k", f"before op {i} {o[0]} {o[2]}"))
        if o[0] == "write":
            for n in torn(o[1]):
                pts.append((i, f"t{n}", f"after {n}/{o[1]} bytes of op {i} write {o[2]}"))
    pts.append((len(ops), "k", "after the last operation"))
    return pts


def explore(reset: Callable[[], List[Callable[[], Proc]]], check: Callable[[List[Proc], List[int]], None], bound: Optional[int] = None, prefix: Sequence[int] = (), count: Optional[List[int]] = None) -> int:
    """Stateless exploration of all interleavings (or all with at most ``bound`` preemptions)."""
    n = 0
    stack: List[List[int]] = [list(prefix)]
    while stack:
        pre = stack.pop()
        procs = [mk() for mk in reset()]
        choices: List[int] = []
        points: List[Tuple[List[int], int, int]] = []
        cur = -1
        pre_used = 0
        waiting: set = set()
        while True:
            live = [i for i, p in enumerate(procs) if not p.done]
            if not live:
                break
            en = [i for i in live if i not in waiting]
            if not en:
                check(procs, choices)  # deadlock: result None is left for the caller to see
                for i in live:
                    procs[i].kill()
                break
            en.sort(key=lambda i: (i != cur, i))
            k = len(choices)
            c = pre[k] if k < len(pre) else 0
            if c >= len(en):
                raise vf.HarnessError(f"replay divergence at {k} of {pre}")
            points.append((en, pre_used, cur))
            if c > 0 and en[0] == cur:
                pre_used += 1
            cur = en[c]
            choices.append(c)
            before = procs[cur].pending
            procs[cur].step("g")
            waiting.discard(cur)
            if procs[cur].pending and procs[cur].pending[0] == "wait":
                waiting.add(cur)
            elif before is not None:
                waiting.clear()
        n += 1
        if all(p.done for p in procs):
            check(procs, choices)
        for k in range(len(choices) - 1, len(pre) - 1, -1):
            en, used, was = points[k]
            for alt in range(1, len(en)):
                cost = used + (1 if en[0] == was else 0)
                if bound is not None and cost > bound:
                    continue
                stack.append(choices[:k] + [alt])
        if count is not None:
            count[0] = n
    return n
