"""C17: conditional file updates are exact and minimal, and failures are recoverable.

Explicit-state search over update histories on the real ConditionalFileUpdater: state = the file
on disk (absent or its content); events = updates with every content of an alphabet (plain,
formatted, nochange mode, verbose mode, str/Path names), writers failing after every number of
writes, and process kills at every file operation with every torn write.
"""

import io
import os
import shutil
from contextlib import redirect_stdout

import shim
import vf

if __name__ == "__main__":
    shim.reexec()

from pathlib import Path

import nrpy.helpers.conditional_file_updater as cfu
from nrpy.helpers.generic import clang_format

OLD = 1_000_000_000


class Boom(Exception):
    pass


def contents(T):
    c = [[""], ["a\n"], ["a"], ["b\n"], ["a\n", "b\n"], ["a b\n"], ["\n", "a\n"], ["int f( ){return 1 ;}\n"], ["int f() { return 1; }\n"], ["é µ\n"], ["x" * 9000 + "\n", "tail\n"]]
    if T:
        c += [["a\n\n"], ["  a\n"], ["A\n"], ["a\n", "c\n"], ["int f( ){return 2 ;}\n"], ["x" * 9000 + "\n", "tail2\n"], ["\t\n"]]
    return c


def apply(path, parts, do_format=False, enc="utf-8", fail_after=None, exc=Boom, as_path=False, nochange=False, verbose=False):
    """One use of the updater. Returns (exception class name or None, captured output)."""
    cfu.nochange, cfu.verbose = nochange, verbose
    out = io.StringIO()
    try:
        with redirect_stdout(out):
            with cfu.ConditionalFileUpdater(Path(path) if as_path else path, encoding=enc, do_format=do_format) as fd:
                for i, p in enumerate(parts):
                    if fail_after == i:
                        raise exc("injected")
                    fd.write(p)
                if fail_after == len(parts):
                    raise exc("injected")
        return None, out.getvalue()
    except (Boom, KeyError, KeyboardInterrupt, SystemExit) as e:
        return type(e).__name__, out.getvalue()
    finally:
        cfu.nochange, cfu.verbose = False, False


def events(T):
    ev = []
    for i, c in enumerate(contents(T)):
        ev.append((f"write{i}", dict(parts=c)))
        ev.append((f"format{i}", dict(parts=c, do_format=True)))
        for k in range(len(c) + 1):
            ev.append((f"fail{i}@{k}", dict(parts=c, fail_after=k)))
    ev += [("nochange", dict(parts=["b\n"], nochange=True)), ("verbose", dict(parts=["b\n"], verbose=True)), ("path", dict(parts=["a\n"], as_path=True)),
           ("defaultenc", dict(parts=["é µ\n"], enc=None)), ("failfmt", dict(parts=["int f( ){return 1 ;}\n"], do_format=True, fail_after=1)),
           ("failkey", dict(parts=["b\n", "c"], fail_after=1, exc=KeyError)), ("failint", dict(parts=["b\n", "c"], fail_after=1, exc=KeyboardInterrupt)), ("failexit", dict(parts=["b\n", "c"], fail_after=1, exc=SystemExit))]
    return ev


def put(path, state):
    if os.path.lexists(path):
        os.unlink(path)
    if state is not None:
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(state)
        os.utime(path, (OLD, OLD))


def get(path):
    if not os.path.exists(path):
        return None
    with open(path, encoding="utf-8", newline="", errors="surrogateescape") as fh:
        return fh.read()


def expand(state, T, scratch):
    """All transitions out of one state. Returns [(event, next state, error or None)]."""
    d = os.path.join(scratch, f"s{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "f.txt")
    res = []
    for name, kw in events(T):
        put(path, state)
        before = os.stat(path) if state is not None else None
        exc, _ = apply(path, **kw)
        after = get(path)
        new = "".join(kw["parts"])
        err = None
        if kw.get("fail_after") is not None:
            want = state
            if exc is None:
                err = "the writer's exception was swallowed"
        else:
            if kw.get("do_format"):
                new = clang_format(new)
            same = new.strip() == (state or "").strip()
            want = state if same or kw.get("nochange") else new
            if exc is not None:
                err = f"raised {exc}"
        if err is None and after != want:
            err = f"file holds {after!r:.120}, want {want!r:.120}"
        if err is None and want == state and state is not None:
            st = os.stat(path)
            if (st.st_mtime_ns, st.st_ino) != (before.st_mtime_ns, before.st_ino):
                err = "file was rewritten although nothing changed"
        extra = sorted(set(os.listdir(d)) - {"f.txt"})
        if err is None and extra:
            err = f"left extra files {extra}"
        for f in extra:
            os.unlink(os.path.join(d, f))
        res.append((name, after, err))
    shutil.rmtree(d)
    return res


def crash(state, name, kw, T, scratch):
    d = os.path.join(scratch, f"c{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = os.path.join(d, "f.txt")
    torn = lambda n: list(range(n)) if n <= 64 else sorted({0, 1, n // 2, n - 2, n - 1})
    mk = lambda: shim.Proc(d, fn=lambda: apply(path, **kw))
    put(path, state)
    pts = shim.crash_points(mk, torn)
    want = "".join(kw["parts"])
    if kw.get("do_format"):
        want = clang_format(want)
    bad, n = [], 0
    for i, reply, label in pts:
        put(path, state)
        mk().run(i, reply)
        n += 1
        mid = get(path)
        exc, _ = apply(path, **kw)
        got = get(path)
        ok = exc is None and (got == want or (got is not None and got.strip() == want.strip() and got == mid) or (got is None and want.strip() == ""))
        if not ok:
            bad.append((f"crash:{name}:{label}", f"update {name} over {state!r:.60}, killed {label}, then repeated: file holds {got!r:.120}, want {want!r:.120}"))
        for f in os.listdir(d):
            if f != "f.txt":
                os.unlink(os.path.join(d, f))
    shutil.rmtree(d)
    return bad, n


def body(chk):
    T = chk.thorough
    os.makedirs(os.environ["XDG_CACHE_HOME"], exist_ok=True)
    for c in contents(T):
        clang_format("".join(c))  # warm the cache: the search is about the updater
    seen = {None}
    frontier = [None]
    # non-initial states: files someone edited by hand
    for s in ["a\r\n"[:1] + "\n", "b", " int f() { return 1; }\n\n", "zzz\n", ""]:
        if s not in seen:
            seen.add(s)
            frontier.append(s)
    depth = 0
    while frontier:
        nxt = []
        for state, res in zip(frontier, vf.pmap(expand, [(s, T, chk.scratch) for s in frontier])):
            for name, after, err in res:
                chk.count("transitions")
                chk.count("evaluations")
                chk.outcome((state, name, after))
                if err:
                    kind = name.rstrip("0123456789@") if "@" in name else name
                    chk.violation(f"update:{kind}:{'absent' if state is None else 'present'}", f"{name} on file {state!r:.60}: {err}", {"state": state, "event": name})
                elif after not in seen:
                    seen.add(after)
                    nxt.append(after)
        frontier = nxt
        depth += 1
    chk.count("states", len(seen))
    chk.note(f"states={len(seen)} depth={depth}")
    jobs = []
    for state in [None, "b\n", "old\n" * 30]:
        for name, kw in events(T):
            if name.startswith("write") or name.startswith("format"):
                jobs.append((state, name, kw, T, chk.scratch))
    for bad, n in vf.pmap(crash, jobs):
        chk.count("crash_points", n)
        chk.count("evaluations", n)
        for key, what in bad[:2]:
            chk.violation(key, what, {"what": what})
    if chk.counters["crash_points"] < len(jobs) * 2:
        raise vf.HarnessError("too few crash points: file operations not intercepted")


if __name__ == "__main__":
    vf.main("C17", "fault_enumeration", "transitions of the update state graph and crash points, each compared with the reference model", body)
