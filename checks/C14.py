"""C14: parameter files and command lines set exactly the parameters they name.

For several sets of registered parameters (every non-empty subset of the parameter types, plus
sets with awkward defaults) the parser and its default parameter file are generated and compiled
with sanitizers. Every file of up to two (thorough: three) lines over an alphabet of well-formed
and malformed lines, combined with every form of command line, is parsed in a fresh process image;
the resulting values, or the refusal, are compared with a reference parser.
"""

import itertools
import os
import re
import shutil
import struct

import vf

import nrpy.params as par

import bhah

ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77"}
PROJ = "proj"

# name: (type, default)
KINDS = {
    "REAL": [("rr", "REAL", 0.5), ("Rr2", "REAL", -3)],
    "int": [("ii", "int", 7), ("i_2", "int", -12)],
    "bool": [("bb", "bool", True), ("b2", "bool", False)],
    "char": [("ss", "char[12]", "radiation"), ("s2", "char[200]", "x" * 150)],
    "REAL[]": [("ra", "REAL[3]", 0.25), ("rb", "REAL[1]", -1.0), ("rc", "REAL[40]", 0.0625)],
    "int[]": [("ia", "int[2]", 4), ("ib", "int[1]", 0)],
}
AWKWARD = ["a#b", "a=b", "#", "=", 'q"q', "back\\slash", "tail\\", "50%d", " pad ", "", "{1,2}", '"', "a,b", "'", "\\\"", "x]", "two words", "%s%n", "ends#", "=="]


# ------------------------------------------------------------------ reference
class Refused(Exception):
    pass


def strip_comment(line):
    q = False
    k = 0
    while k < len(line):
        c = line[k]
        if q and c == "\\" and line[k + 1 : k + 2] in ('"', "\\"):
            k += 1
        elif c == '"':
            q = not q
        elif c == "#" and not q:
            return line[:k]
        k += 1
    return line


def conv(ctype, text):
    """Value of one scalar, or Refused."""
    t = text.strip()
    if ctype == "int":
        if not re.fullmatch(r"[+-]?\d+", t) or not -(2**31) <= int(t) < 2**31:
            raise Refused
        return int(t)
    if ctype == "REAL":
        if not re.fullmatch(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", t) or float(t) in (float("inf"), float("-inf")):
            raise Refused
        return float(t)
    if ctype == "bool":
        if t.lower() in ("true", "1"):
            return 1
        if t.lower() in ("false", "0"):
            return 0
        raise Refused
    m = re.fullmatch(r"char\[(\d+)\]", ctype)
    if t.startswith('"'):
        mm = re.fullmatch(r'"((?:\\["\\]|[^"\\]|\\(?!["\\]))*)"', t)
        if not mm:
            raise Refused
        t = re.sub(r'\\(["\\])', r"\1", mm.group(1))
    if len(t.encode()) >= int(m.group(1)):
        raise Refused
    return t


def reference(params, cmdline, lines, args):
    """params: name -> (ctype, default); lines: lines of the file read; args: overriding values or None.
    Returns (values, names reported as unknown) or raises Refused."""
    val, unknown, seen = {}, [], set()
    for n, (ct, df) in params.items():
        m = re.fullmatch(r"(REAL|int)\[(\d+)\]", ct)
        val[n] = [df] * int(m.group(2)) if m else (int(df) if ct == "bool" else df)
    for ln in lines:
        if len(ln) >= 1023:
            raise Refused
        ln = strip_comment(ln).strip()
        if not ln:
            continue
        if "=" not in ln:
            raise Refused
        name, text = (x.strip() for x in ln.split("=", 1))
        if not name or not text:
            raise Refused
        m = re.fullmatch(r"(\w*)\[\s*(\d+)\s*\]", name, re.A)
        size = 0
        if m:
            name, size = m.group(1), int(m.group(2))
            if size == 0:
                raise Refused
        elif not re.fullmatch(r"\w+", name, re.A):
            raise Refused
        if text.startswith("{"):
            if not text.endswith("}"):
                raise Refused
            items = text[1:-1].split(",")
        else:
            items = [text]
        if name not in params:
            unknown.append(name)
            continue
        if name in seen:
            raise Refused
        seen.add(name)
        ct = params[name][0]
        m = re.fullmatch(r"(REAL|int)\[(\d+)\]", ct)
        if m:
            if size != int(m.group(2)) or len(items) != size:
                raise Refused
            val[name] = [conv(m.group(1), x) for x in items]
        else:
            if size or len(items) != 1:
                raise Refused
            val[name] = conv(ct, items[0])
    if args is not None:
        for n, a in zip(cmdline, args):
            ct = params[n][0]
            if ct in ("int", "REAL", "bool") and a != a.strip():
                raise Refused
            val[n] = conv(ct, a)
    return val, unknown


# ------------------------------------------------------------------ program
def fmt(v):
    if isinstance(v, list):
        return "[" + ",".join(fmt(x) for x in v) + "]"
    if isinstance(v, str):
        return "s" + v.encode().hex()
    if isinstance(v, float):
        return "d" + struct.pack(">d", v).hex()
    return "i" + str(v)


def expected(params, val):
    out = []
    for n, (ct, _) in params.items():
        v = val[n]
        if ct.startswith("REAL"):
            v = [float(x) for x in v] if isinstance(v, list) else float(v)
        out.append(n + "=" + fmt(v))
    return ";".join(out)


def driver(params):
    pr = ""
    for n, (ct, _) in params.items():
        m = re.fullmatch(r"(REAL|int|char)\[(\d+)\]", ct)
        pr += f'printf("{n}=");\n'
        if m and m.group(1) == "char":
            pr += f'printf("s"); for (int k = 0; k < {m.group(2)} && cd.{n}[k]; k++) printf("%02x", (unsigned char)cd.{n}[k]);\n'
        elif m:
            one = "pd" if m.group(1) == "REAL" else "pi"
            pr += f'printf("["); for (int k = 0; k < {m.group(2)}; k++) {{ if (k) printf(","); {one}(cd.{n}[k]); }} printf("]");\n'
        else:
            pr += ("pd" if ct == "REAL" else "pi") + f"(cd.{n});\n"
        pr += 'printf(";");\n'
    return (
        r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static void pd(double x) { unsigned long long u; memcpy(&u, &x, 8); printf("d%016llx", u); }
static void pi(int x) { printf("i%d", x); }
/* cases.txt: one case per line, "dir\targ\targ..." with arguments in hex */
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); size_t cap = 0; ssize_t n;
  char **all = NULL; int nall = 0;
  for (;;) { char *line = NULL; cap = 0; if ((n = getline(&line, &cap, f)) <= 0) break; if (line[n - 1] == '\n') line[--n] = 0; all = realloc(all, (nall + 1) * sizeof *all); all[nall++] = line; }
  fclose(f); /* before forking: a child's exit() would move the shared file offset */
  for (int ic = 0; ic < nall; ic++) {
    char *line = all[ic];
    const char *av[32]; int ac = 0;
    char *sp, *dir = strtok_r(line, "\t", &sp), *a;
    av[ac++] = strdup("./proj");
    while ((a = strtok_r(NULL, "\t", &sp))) { /* exact-size buffers, so that overreads are seen */
      size_t L = strlen(a + 1) / 2; char *b = malloc(L + 1);
      for (size_t k = 0; k < L; k++) { unsigned v; sscanf(a + 1 + 2 * k, "%2x", &v); b[k] = v; }
      b[L] = 0; av[ac++] = b;
    }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int e = open("stderr.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(e, 2);
      if (chdir(dir)) _exit(99);
      static commondata_struct cd;
      memset(&cd, 0x5a, sizeof cd);
      commondata_struct_set_to_default(&cd);
      cmdline_input_and_parfile_parser(&cd, ac, av);
"""
        + pr
        + r"""
      fflush(stdout);
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    for (int k = 0; k < ac; k++) free((void *)av[k]);
    FILE *e = fopen("stderr.txt", "r"); char buf[400]; size_t r = e ? fread(buf, 1, 399, e) : 0; if (e) fclose(e);
    for (size_t k = 0; k < r; k++) if (buf[k] == '\n' || buf[k] == '\t') buf[k] = ' ';
    buf[r] = 0;
    printf("\t%d\t%d\t%s\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), (int)r, buf);
  }
  return 0;
}
"""
    )


def program(spec, scratch, depth):
    """spec = (list of (name, type, default), list of command-line parameters, alphabet)."""
    plist, cmdline, alphabet = spec
    d = os.path.join(scratch, f"p{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bhah.start(2)
    from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar  # pylint: disable=import-outside-toplevel

    par.glb_code_params_dict.clear()
    params = {}
    for k, (n, ct, df) in enumerate(plist):
        arr = re.fullmatch(r"(REAL|int)\[\d+\]", ct)
        par.register_CodeParameter(ct, f"mod{k % 3}", n, df, commondata=True, add_to_parfile=True, add_to_set_CodeParameters_h=not arr, description=["", "Some text", "a = 3 # more \"text\"", "two\nlines = 4"][k % 4])
        params[n] = (ct, df)
    par.register_CodeParameter("REAL", "mod0", "hidden", 1.5, commondata=True, add_to_parfile=False)
    par.register_CodeParameter("REAL", "mod0", "pergrid", 2.5, commondata=False, add_to_parfile=True)
    cmdpar.generate_default_parfile(project_dir=d, project_name=PROJ)
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=PROJ, cmdline_inputs=list(cmdline))
    src = bhah.finish(d, wrappers=False)
    src = [s for s in src if os.path.basename(s) in ("cmdline_input_and_parfile_parser.c", "commondata_struct_set_to_default.c")]
    try:
        exe = bhah.compile_project(d, src, driver(params), flags=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined") if depth == 1 else (), opt="-O0")
    except vf.CompileError as e:
        return 0, [("uncompilable", f"the parser does not compile: {str(e)[-700:]}")], 0
    with open(os.path.join(d, PROJ + ".par"), encoding="utf-8") as fh:
        default = fh.read()
    files = [("default", default), ("none", None), ("empty", "")]
    files += [("doubled default", default + default)]
    for n in range(1, depth + 1):
        for c in itertools.product(alphabet, repeat=n):
            files.append((c, "\n".join(c) + "\n"))
            if n == 1:
                files.append((c + ("<no newline>",), c[0]))
    lines, meta = [], []
    scalars = {"REAL": ["2.5", "-1e-3", "x", "", "1 "], "int": ["42", "-1", "4.5", "3000000000"], "bool": ["false", "TRUE", "0", "yes"], "char": ["abc", '"q r"', "", "y" * 199, '"' + "y" * 150 + '"', '"', "z" * 300]}

    def key(ct):
        return "char" if ct.startswith("char") else ct

    full = list(itertools.islice(itertools.product(*[scalars[key(params[n][0])] for n in cmdline]), 400)) if cmdline else []
    for k, (label, text) in enumerate(files):
        dd = os.path.join(d, f"f{k}")
        os.makedirs(dd)
        if text is not None:
            for nm in (PROJ + ".par", "other.par"):
                with open(os.path.join(dd, nm), "w", encoding="utf-8") as fh:
                    fh.write(text)
        short = isinstance(label, tuple) and len(label) > 1
        forms = [[], ["other.par"]]
        if not short:
            forms += [["-h"], ["--help"], ["missing.par"], ["other.par", "1", "2", "3", "4", "5"]]
        good = [[{"REAL": "2.5", "int": "42", "bool": "false", "char": "abc"}[key(params[n][0])] for n in cmdline]] if cmdline else []
        if cmdline:
            for a in full if not short and len(alphabet) < 10 and k < 12 else good:
                forms += [list(a), ["other.par"] + list(a)]
        for f in forms:
            lines.append("\t".join([f"f{k}"] + ["x" + a.encode().hex() for a in f]))
            meta.append((label, text, f))
    vf.write(os.path.join(d, "cases.txt"), "\n".join(lines) + "\n")
    p = vf.run([exe, "cases.txt"], cwd=d, env=ENV, timeout=850)
    outs = p.stdout.split("\n")
    if len(outs) != len(lines) + 1:
        raise vf.HarnessError(f"driver: {len(outs)} results for {len(lines)} cases, rc {p.returncode}: {p.stderr[:500]}")
    bad = []
    nc = len(cmdline)
    nref = 0
    for (label, text, f), o in zip(meta, outs):
        vals, rc, nerr, err = o.rsplit("\t", 3) if o.count("\t") == 3 else o.split("\t", 3)
        rc = int(rc)
        case = f"file {label!r:.160} args {f}"

        def rep(kind, msg, case=case):
            if len(bad) < 6:
                bad.append((f"{kind}:{case}"[:200], f"{case}: {msg}"[:900]))

        if rc >= 1000 or rc == 77 or rc == 99:
            rep("crash", f"the parser crashed ({rc}): {err}")
            continue
        if f in (["-h"], ["--help"]):
            if rc != 0 or vals or int(nerr) == 0:
                rep("help", f"help: exit {rc}")
            continue
        # which file, which overrides
        try:
            over = None
            if not f:
                content = text
            elif len(f) == 1 and f[0] == "other.par" and text is not None:
                content = text
            elif len(f) == nc:
                content, over = text, f
            elif len(f) == nc + 1 and f[0] == "other.par":
                content, over = text, f[1:]
            else:
                raise Refused
            if content is None:
                raise Refused
            val, unknown = reference(params, cmdline, content.split("\n"), over)
            want = expected(params, val) + ";"
        except Refused:
            nref += 1
            if rc == 0:
                rep("accepted", f"malformed input was accepted: {vals[:300]}")
            elif int(nerr) == 0:
                rep("silent", "refused without a message")
            continue
        if label == "default" and not f and expected(params, val) != expected(params, {n: ([df] * int(re.search(r"\[(\d+)\]", ct).group(1)) if re.match(r"(REAL|int)\[", ct) else int(df) if ct == "bool" else df) for n, (ct, df) in params.items()}):
            rep("default", "the default parameter file does not contain the defaults: " + default[:300])
        if rc != 0:
            rep("refused", f"valid input was refused: {err[:200]}")
        elif vals != want:
            diff = [(a, b) for a, b in zip(vals.split(";"), want.split(";")) if a != b]
            rep("value", f"parsed {diff[0][0][:120]}, want {diff[0][1][:120]}" if diff else f"{vals} vs {want}")
        elif unknown and int(nerr) == 0:
            rep("unknown", f"unknown names {unknown} not reported")
    shutil.rmtree(d)
    return len(lines), bad, nref


GENERIC = ["", "   ", "# only a comment = 3", "unknown_name = 3", "unk[3] = {1,2,3}", "rr", "= 3", "hidden = 9", "pergrid = 9", "b@d = 1"]
ALPHA = {
    "REAL": ["rr = 1.25", "rr=-1e-3 # c", "rr = 1,5", "rr = 2 = 3", "rr = ", "Rr2 = 5", "  Rr2\t=\t.5  ", "rr[1] = 1.0", "rr = 1.0x", "RR = 3", "rr = 1e999", "rr = {1,2}", "rr == 3"],
    "int": ["ii = 5", "ii = 5.0", "ii = 4294967301", "i_2 = +8", "ii = 2147483648", "ii = -2147483648", "i_2 = 0x10", "i i = 4", "ii = 1 2", "ii[2] = {1,2}", "ii = 99999999999999999999"],
    "bool": ["bb = false", "bb = False", "b2 = TRUE", "bb = 2", "b2 = 1", "b2 = truex"],
    "char": ['ss = "abc"', "ss = plain", 'ss = "a#b"', 'ss = "a=b"', 'ss = "open', "ss = \"a\\\"b\\\\\" # c", 'ss = "12345678901"', 'ss = "123456789012"', 'ss = ""', 'ss = "a" "b"', "s2 = \"" + "k" * 199 + "\"", "s2 = \"" + "k" * 200 + "\"", 'ss = "two words"'],
    "REAL[]": ["ra[3] = {1, 2.5,3}", "ra[3] = { 1, 2 }", "ra[3] = {1,,2}", "ra[3] = {1,2,3,4}", "ra = {1,2,3}", "ra[2] = {1,2}", "ra[3] = {1,2,3", "ra[0] = {}", "ra[00000000000000000000000003] = {1,2,3}", "ra[3x] = {1,2,3}", "ra[3]y = {1,2,3}", "rb[1] = {9}", "ra[3 = {1,2,3}", "ra[-3] = {1,2,3}", "ra[3] = {" + ",".join(["1"] * 120) + "}", "rc[40] = {" + ",".join(["1.0625"] * 40) + "}", "ra[3] = {1,2,x}"],
    "int[]": ["ia[2] = {3,-4}", "ia[2] = {3, 4.5}", "ia[2] = {3}", "ia[2] = {}", "ib[1] = { 6 }", "ia[2] = {1,2147483648}", "ia[99999999999] = {1,2}"],
}
LONG = ["rr = 1.5 # " + "c" * 1030 + " ii = 3", "#" + "c" * 1021 + "ii = 3", "rr = 1.5 " + " " * 1000, "rr = 1.5 #" + "c" * 1000]


def body(chk):
    specs = []
    types = list(KINDS)
    # every non-empty subset of the types, single lines
    for r in range(1, len(types) + 1):
        for sub in itertools.combinations(types, r):
            pl = [x for t in sub for x in KINDS[t]]
            scal = [KINDS[t][0][0] for t in sub if not t.endswith("[]")]
            specs.append(((pl, scal[:2], GENERIC + [a for t in sub for a in ALPHA[t]]), 1))
    # every pair of lines over the whole alphabet
    allp = [x for t in types for x in KINDS[t]]
    alla = GENERIC + [a for t in types for a in ALPHA[t]] + LONG
    specs.append(((allp, ["rr", "ss"], alla), 2))
    if chk.thorough:
        small = [GENERIC[1], GENERIC[2], GENERIC[3]] + [a for t in types for a in ALPHA[t][:3]]
        specs.append(((allp, ["bb", "ii"], small), 3))
        specs.append(((allp, ["s2"], alla), 2))
    # command-line choices
    for c in [()] + [(a,) for a in ("rr", "ii", "bb", "ss", "s2")] + list(itertools.permutations(("rr", "ii", "bb", "ss"), 2)) + [("rr", "ii", "bb")]:
        specs.append(((allp, c, ["rr = 1.25", "ii = 5", "nope = 1", 'ss = "abc"', "bb = false", ""]), 1))
    # names that extend, shorten or differ in case from one another
    rel = [("mass", "REAL", 1.0), ("mass_ratio", "REAL", 2.0), ("mas", "REAL", 3.0), ("Mass", "REAL", 4.0), ("s_mass", "REAL", 5.0), ("massive", "int", 6), ("m", "REAL[2]", 7.0)]
    names = ["ma", "mas", "mass", "mass_", "mass_r", "mass_ratio", "mass_ratios", "Mass", "MASS", "ass", "s_mass", "massiv", "massive", "m", "M", "mass1", "masses"]
    lines = [f"{n} = {k + 11}" for k, n in enumerate(names)] + ["m[2] = {1,2}", "mass[1] = 3", "ma[2] = {1,2}"]
    for k in range(len(rel)):
        specs.append(((rel[k:] + rel[:k], ("mass",) if k % 2 else ("mass_ratio", "mas"), lines), 2 if k == 0 or chk.thorough else 1))
    for k in range(len(rel) - 1):
        for j in range(len(rel)):
            if j != k:
                specs.append((([rel[k], rel[j]], (), lines), 1))
    # awkward string defaults
    for a in AWKWARD:
        specs.append((([("ss", "char[30]", a), ("rr", "REAL", 1e-5)], (), ["rr = 1.25"]), 1))
    for v in (0, -0.0, 1e-300, 1e300, 123456789.123456789, 5e-324 if chk.thorough else 1e-10):
        specs.append((([("rr", "REAL", v), ("ra", "REAL[3]", v)], ("rr",), ["ra[3] = {1,2,3}"]), 1))
    for v in (2**31 - 1, -(2**31) + 1, 0):
        specs.append((([("ii", "int", v), ("ia", "int[2]", v)], ("ii",), ["ia[2] = {1,2}"]), 1))
    specs.sort(key=lambda s: -(len(s[0][2]) ** s[1]))
    for (spec, depth), (n, bad, nref) in zip(specs, vf.pmap(program, [(s, chk.scratch, dp) for s, dp in specs], timeout=880)):
        chk.count("programs")
        chk.count("evaluations", n)
        chk.count("refused", nref)
        chk.outcome((repr(spec)[:300], n, nref))
        for k, m in bad:
            chk.violation(k, f"parameters {[p[:2] for p in spec[0]]!r:.200} steerable {spec[1]}: {m}", {"parameters": spec[0], "cmdline": spec[1]})
    chk.sample({"alphabet": alla[:20]})


if __name__ == "__main__":
    vf.main("C14", "exploration", "one evaluation per (parameter set, parameter file, command line) parsed by the compiled program", body)
