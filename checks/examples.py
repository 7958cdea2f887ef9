"""Runs nrpy's example scripts and builds the programs they write."""

import glob
import os
import re
import subprocess
import sys

import vf


def generate(name, d):
    """Run nrpy.examples.<name> in d; returns the project directory."""
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, XDG_CACHE_HOME=os.path.join(d, "cache"), PYTHONHASHSEED="0")
    r = subprocess.run([sys.executable, "-m", "nrpy.examples." + name], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise vf.RepoError("example " + name, r.stderr[-3000:])
    (proj,) = glob.glob(os.path.join(d, "project", "*", ""))
    return proj


def sources(proj):
    return sorted(glob.glob(os.path.join(proj, "**", "*.c"), recursive=True))


def parfile(proj, out, **values):
    """Copy the project's default parameter file to out with some values replaced."""
    (f,) = glob.glob(os.path.join(proj, "*.par"))
    text = open(f).read()
    for k, v in values.items():
        text, n = re.subn(rf"(?m)^{k}\s*=\s*[^#\n]*", f"{k} = {v} ", text)
        if not n:
            raise vf.HarnessError(f"no parameter {k}")
    return vf.write(out, text)
