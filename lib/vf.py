"""Common machinery of the checks: evidence, violations, isolation, compilation.

A check module builds a ``Check``, explores, calls ``chk.violation`` for every
property violation found, and ends with ``chk.finish()``.
"""

import hashlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Dict, Iterable, List, Optional, Sequence, Tuple

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NPROC = max(1, min(8, os.cpu_count() or 1))


class Check:
    """State of one run of one check."""

    def __init__(self, pid: str, level: str, rule: str = ""):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.scratch = os.environ.get("VF_SCRATCH") or tempfile.mkdtemp(prefix="vf_")
        self.t0 = time.time()
        self.violations: List[Dict[str, Any]] = []
        self.known: List[str] = []
        self.cov: Dict[str, Any] = {}
        self.counters: Dict[str, int] = {}
        self.distinct: set = set()
        self.samples: List[Any] = []
        self.exhaustive = True
        self.caps: List[str] = []
        self.findings = load_findings(pid)
        self.reported_keys: set = set()
        self.max_reports = 20

    # -- coverage bookkeeping -------------------------------------------------
    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, x: Any) -> None:
        """Record a distinct observed outcome (hash of a canonical form)."""
        self.distinct.add(hashlib.sha1(repr(x).encode()).hexdigest()[:16])

    def sample(self, x: Any) -> None:
        if len(self.samples) < 12:
            self.samples.append(x)

    def cap(self, what: str) -> None:
        self.exhaustive = False
        self.caps.append(what)

    def note(self, msg: str) -> None:
        print(f"[{self.pid} {time.time()-self.t0:7.1f}s] {msg}", flush=True)

    # -- violations -----------------------------------------------------------
    def violation(self, key: str, what: str, replay: Any = None) -> None:
        """Report that the property fails; ``key`` identifies the failing input/history."""
        for f in self.findings:
            if f["key"] == key:
                if key not in self.reported_keys:
                    self.reported_keys.add(key)
                    line = f"KNOWN-FINDING: property={self.pid} {f['what']}"
                    self.known.append(line)
                    print(line, flush=True)
                return
        if key in self.reported_keys:
            return
        self.reported_keys.add(key)
        if len(self.violations) >= self.max_reports:
            self.violations.append({"key": key})
            return
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(key.encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{self.pid}_{h}.json")
        with open(path, "w") as fh:
            json.dump(
                {"property": self.pid, "key": key, "what": what, "replay": replay,
                 "how": f"bash {VERIF}/run.sh {self.pid} {self.tier}"},
                fh, indent=1, default=str,
            )
        self.violations.append({"key": key, "what": what, "replay": path})
        print(f"--- {self.pid}: {key}: {what}"[:2000], flush=True)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    # -- end ------------------------------------------------------------------
    def write_evidence(self) -> None:
        cov: Dict[str, Any] = dict(self.cov)
        c = dict(self.counters)
        cov.setdefault("exhaustive", self.exhaustive)
        if self.level == "model_checking":
            cov.setdefault("states", c.get("states", 0))
            cov.setdefault("transitions", c.get("transitions", 0))
            cov.setdefault("traces_validated_against_impl", c.get("traces", c.get("transitions", 0)))
            cov.setdefault("samples", self.samples)
        cov.setdefault("evaluations", c.get("evaluations") or c.get("transitions") or max([v for v in c.values() if isinstance(v, int)], default=0))
        cov.setdefault("distinct_nontrivial", len(self.distinct) or c.get("distinct", 0))
        cov.setdefault("rule", self.rule)
        cov.setdefault("samples", self.samples)
        cov["counters"] = c
        if self.caps:
            cov["caps"] = self.caps
        if self.known:
            cov["known_findings"] = self.known
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))

    def finish(self) -> None:
        self.write_evidence()
        self.note(f"counters={self.counters} distinct={len(self.distinct)} violations={len(self.violations)}")
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_findings(pid: str) -> List[Dict[str, str]]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get("known", []) if f["property"] == pid]


def touches_repo(tb: str) -> bool:
    """True when the code under test raised, or the C it generated did not compile."""
    if any(ln.startswith(("vf.CompileError", "CompileError")) for ln in tb.splitlines()):
        return True
    files = [ln for ln in tb.splitlines() if ln.strip().startswith("File ")]
    return any(f'"{REPO}/' in ln for ln in files)


def main(pid: str, level: str, rule: str, body: Callable[[Check], None]) -> None:
    """Run ``body``; an exception out of the code under test is a violation, any other an error."""
    sys.setrecursionlimit(20000)
    chk = Check(pid, level, rule)
    try:
        body(chk)
    except SystemExit:
        raise
    except RepoError as e:
        chk.violation(f"exception:{e.where}", f"the code under test raised on a valid input: {e.tb[-1500:]}", {"where": e.where, "traceback": e.tb})
    except BaseException:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        print(tb, flush=True)
        if touches_repo(tb):
            chk.violation("uncaught:" + tb.strip().splitlines()[-1][:200], "the code under test raised on a valid input", {"traceback": tb})
        else:
            chk.write_evidence()
            sys.exit(2)
    chk.finish()


class RepoError(Exception):
    """The code under test raised where it should not."""

    def __init__(self, where: str, tb: str):
        super().__init__(where + "\n" + tb)
        self.where = where
        self.tb = tb


class HarnessError(Exception):
    """The check itself failed."""


# --------------------------------------------------------------------------
# Isolation by fork
# --------------------------------------------------------------------------
def _child(fn: Callable[..., Any], args: Sequence[Any], wfd: int, quiet: bool) -> None:
    try:
        os.setpgid(0, 0)
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
        try:
            res = ("ok", fn(*args))
        except BaseException:  # pylint: disable=broad-except
            tb = traceback.format_exc()
            res = ("exc", tb)
        try:
            data = pickle.dumps(res)
        except Exception:  # pylint: disable=broad-except
            data = pickle.dumps(("exc", "unpicklable result: " + traceback.format_exc()))
        with os.fdopen(wfd, "wb") as fh:
            fh.write(len(data).to_bytes(8, "little") + data)
    finally:
        os._exit(0)


def _killpg(pid: int) -> None:
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def pmap_raw(fn: Callable[..., Any], items: Iterable[Sequence[Any]], nproc: int = 0, timeout: float = 600.0, quiet: bool = True) -> List[Tuple[str, Any]]:
    """Run fn(*item) for each item, each in its own forked child of this process.

    Returns, in order, ("ok", value) | ("exc", traceback) | ("died", text).
    """
    items = list(items)
    nproc = nproc or NPROC
    results: List[Any] = [None] * len(items)
    live: Dict[int, Tuple[int, int, float, bytearray]] = {}
    nxt = 0
    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(items) or live:
        while nxt < len(items) and len(live) < nproc:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(fn, items[nxt], w, quiet)
            os.close(w)
            live[r] = (nxt, pid, time.time(), bytearray())
            nxt += 1
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            idx, pid, _, buf = live[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf.extend(chunk)
                if len(buf) < 8 or len(buf) < 8 + int.from_bytes(buf[:8], "little"):
                    continue
            os.close(fd)
            del live[fd]
            _, st = os.waitpid(pid, 0)
            _killpg(pid)  # helpers the child left behind
            try:
                results[idx] = pickle.loads(bytes(buf[8:]))
            except Exception:  # pylint: disable=broad-except
                results[idx] = ("died", f"wait status {st}")
        now = time.time()
        for fd, (idx, pid, t0, _) in list(live.items()):
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                _killpg(pid)
                os.close(fd)
                del live[fd]
                results[idx] = ("died", f"timeout {timeout}s")
    return results


def pmap(fn: Callable[..., Any], items: Iterable[Sequence[Any]], nproc: int = 0, timeout: float = 600.0, quiet: bool = True) -> List[Any]:
    """pmap_raw, raising RepoError / HarnessError when a child failed."""
    items = list(items)
    out = []
    for it, (st, val) in zip(items, pmap_raw(fn, items, nproc, timeout, quiet)):
        if st == "ok":
            out.append(val)
        elif st == "exc" and touches_repo(val):
            raise RepoError(f"{fn.__name__}{tuple(it)!r}"[:300], val)
        else:
            raise HarnessError(f"{fn.__name__}{tuple(it)!r}: {st}: {val}"[:4000])
    return out


def forked(fn: Callable[..., Any], *args: Any, timeout: float = 600.0) -> Any:
    return pmap(fn, [args], nproc=1, timeout=timeout)[0]


# --------------------------------------------------------------------------
# C compilation
# --------------------------------------------------------------------------
CC = "gcc"
BASE_CFLAGS = ["-std=gnu99", "-O1", "-w", "-ffp-contract=off"]


class CompileError(Exception):
    """Generated C did not compile."""


def cc(sources: Sequence[str], out: str, flags: Sequence[str] = (), libs: Sequence[str] = ("-lm",), base: Optional[Sequence[str]] = None, compiler: str = "", cwd: Optional[str] = None) -> str:
    cmd = [compiler or CC] + list(BASE_CFLAGS if base is None else base) + list(flags) + list(sources) + ["-o", out] + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, check=False)
    if p.returncode != 0:
        raise CompileError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return out


def run(cmd: Sequence[str], cwd: Optional[str] = None, timeout: float = 300.0, env: Optional[Dict[str, str]] = None, stdin: Optional[str] = None) -> subprocess.CompletedProcess:
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(list(cmd), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e, check=False, input=stdin)


def limit_mem(gb: float) -> None:
    b = int(gb * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (b, b))


def write(path: str, text: str) -> str:
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "w") as fh:
        fh.write(text)
    return path
