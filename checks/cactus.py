"""A stand-in for Cactus: reads a thorn's .ccl files the way the flesh would, builds the headers it
would build from them, and compiles and runs the thorn's functions on a small grid."""

import array
import os
import re
import shlex
import shutil

import vf

SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "csrc", "cactus")
FLESH_HEADERS = {"cctk.h", "cctk_Arguments.h", "cctk_Parameters.h", "cctk_Functions.h", "cctk_Faces.h", "util_Table.h"}
SYSTEM_HEADERS = {"math.h", "stdio.h", "stdlib.h", "string.h", "cmath", "algorithm", "stdint.h", "stdbool.h"}
THORN_HEADERS = {"Symmetry.h", "Slicing.h", "Boundary.h", "loop_device.hxx", "newradx.hxx"}


class CCLError(Exception):
    pass


def strip(text):
    """Remove comments and join continued lines."""
    out = []
    for line in text.splitlines():
        q = None
        for i, c in enumerate(line):
            if q:
                if c == q:
                    q = None
            elif c in "\"'":
                q = c
            elif c == "#":
                line = line[:i]
                break
        out.append(line)
    return re.sub(r"\\[ \t]*\n", " ", "\n".join(out) + "\n")


GRIDTYPES = {"gf"}


def parse_interface(text):
    t = strip(text)
    r = dict(implements=None, inherits=[], groups={}, functions={}, access={}, includes=set(), order=[])
    pos = 0
    block = "private"
    protos = {}

    def m(rx):
        nonlocal pos
        g = re.compile(rx, re.I).match(t, pos)
        if g:
            pos = g.end()
        return g

    while True:
        m(r"\s+")
        if pos >= len(t):
            break
        g = m(r"implements[ \t]*:[ \t]*(\w+)[ \t]*\n")
        if g:
            if r["implements"]:
                raise CCLError("two implements lines")
            r["implements"] = g[1]
            continue
        g = m(r"(inherits|friend)[ \t]*:[ \t]*([\w \t,]*)\n")
        if g:
            r["inherits"] += re.split(r"[ \t,]+", g[2].strip()) if g[2].strip() else []
            continue
        g = m(r"uses[ \t]+include(?:s)?(?:[ \t]+(?:header|source))?[ \t]*:[ \t]*([\w./ \t]+)\n")
        if g:
            r["includes"] |= set(g[1].split())
            continue
        g = m(r"(public|private|protected)[ \t]*:[ \t]*\n")
        if g:
            block = g[1].lower()
            continue
        g = m(r"(requires|uses|provides)[ \t]+function[ \t]+(\w+)")
        if g:
            if g[2] in r["access"]:
                raise CCLError(f"function {g[2]} used twice")
            r["access"][g[2]] = g[1].lower()
            continue
        g = m(r"(void|CCTK_\w+)[ \t]+function[ \t]+(\w+)\s*\(([^()]*)\)")
        if g:
            args = []
            for a in g[3].split(","):
                ag = re.fullmatch(r"\s*(CCTK_\w+)\s+(?:(ARRAY)\s+)?(IN|OUT|INOUT)\s+(?:(ARRAY)\s+)?(\w+)\s*", a, re.I)
                if not ag:
                    raise CCLError(f"bad argument {a!r} of function {g[2]}")
                arr = ag[2] or ag[4]
                ty = ag[1]
                if arr or ag[3].upper() != "IN":
                    ty = ("const " if ag[3].upper() == "IN" else "") + ty + " *"
                args.append(f"{ty} {ag[5]}")
            if g[2] in protos:
                raise CCLError(f"function {g[2]} declared twice")
            protos[g[2]] = f"{g[1]} {g[2]}({', '.join(args)});"
            continue
        g = m(r"(?:CCTK_)?(REAL|INT)[ \t]+(\w+)((?:[ \t]+\w+[ \t]*=[ \t]*(?:'[^'\n]*'|\"[^\"\n]*\"|[\w]+))*)\s*\{([^{}]*)\}[ \t]*(\"[^\"\n]*\")?")
        if g:
            attrs = {}
            for k, v in re.findall(r"(\w+)[ \t]*=[ \t]*('[^'\n]*'|\"[^\"\n]*\"|\w+)", g[3]):
                attrs[k.lower()] = v[1:-1] if v[0] in "'\"" else v
            names = [x for x in re.split(r"[\s,]+", g[4].strip()) if x]
            bad = [x for x in names if not re.fullmatch(r"[A-Za-z_]\w*", x)]
            if bad or not names:
                raise CCLError(f"bad variable list in group {g[2]}: {g[4]!r}")
            if attrs.get("type", "").lower() != "gf":
                raise CCLError(f"group {g[2]} is not of type GF: {attrs}")
            if g[2].lower() in {x.lower() for x in r["groups"]}:
                raise CCLError(f"group {g[2]} declared twice")
            tl = attrs.get("timelevels", "1")
            if not tl.isdigit() or int(tl) < 1:
                raise CCLError(f"timelevels of {g[2]}: {tl}")
            r["groups"][g[2]] = dict(vars=names, tl=int(tl), tags=attrs.get("tags", ""), access=block)
            continue
        raise CCLError(f"interface.ccl: cannot parse {t[pos:pos + 80]!r}")
    allv = [v.lower() for g in r["groups"].values() for v in g["vars"]]
    dup = {v for v in allv if allv.count(v) > 1}
    if dup:
        raise CCLError(f"variables declared more than once: {sorted(dup)}")
    for f in r["access"]:
        if f not in protos:
            raise CCLError(f"function {f} is used without a prototype")
        r["functions"][f] = protos[f]
    if not r["implements"]:
        raise CCLError("no implements line")
    return r


NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eEdD][-+]?\d+)?"


def parse_param(text):
    t = strip(text)
    r = dict(params={}, uses=[])
    pos = 0
    block, shared = None, None

    def m(rx):
        nonlocal pos
        g = re.compile(rx, re.I).match(t, pos)
        if g:
            pos = g.end()
        return g

    while True:
        m(r"\s+")
        if pos >= len(t):
            break
        g = m(r"(restricted|private|global)[ \t]*:[ \t]*\n")
        if g:
            block, shared = g[1].lower(), None
            continue
        g = m(r"shares[ \t]*:[ \t]*(\w+)[ \t]*\n")
        if g:
            block, shared = "shares", g[1]
            continue
        g = m(r"(uses|extends)?[ \t]*(?:CCTK_)?(REAL|INT|BOOLEAN|KEYWORD|STRING)[ \t]+(\w+)(?:[ \t]+(\"[^\"\n]*\"))?")
        if g:
            if block is None:
                raise CCLError(f"parameter {g[3]} outside any block")
            kind = (g[1] or "").lower()
            ty = g[2].upper()
            b = m(r"\s*\{([^{}]*)\}")
            if kind:
                if block != "shares":
                    raise CCLError(f"{kind} outside shares: block")
                r["uses"].append((shared, g[3], ty))
                continue
            if block == "shares":
                raise CCLError(f"new parameter {g[3]} in shares block")
            if not b or not g[4]:
                raise CCLError(f"parameter {g[3]} lacks description or range")
            rng = b[1].strip()
            if ty in ("REAL", "INT") and not re.match(r"^[\[\(]?[-+.\w*]*:[-+.\w*]*", rng):
                raise CCLError(f"range {rng!r} of {ty} {g[3]}")
            if ty == "BOOLEAN" and rng:
                raise CCLError(f"range {rng!r} of BOOLEAN {g[3]}")
            if ty in ("KEYWORD",) and "*:*" in rng:
                raise CCLError(f"range {rng!r} of {ty} {g[3]}")
            d = m(r"[ \t]*(\"[^\"\n]*\"|[^\s\"]+)[ \t]*\n")
            if not d:
                raise CCLError(f"parameter {g[3]} has no default")
            v = d[1]
            ok = {"REAL": NUMBER, "INT": r"[-+]?\d+", "BOOLEAN": r"\"?(yes|no|true|false|on|off|0|1)\"?"}.get(ty, r"\".*\"")
            if not re.fullmatch(ok, v, re.I):
                raise CCLError(f"default {v!r} of {ty} parameter {g[3]}")
            if g[3].lower() in {x.lower() for x in r["params"]}:
                raise CCLError(f"parameter {g[3]} declared twice")
            r["params"][g[3]] = dict(type=ty, default=v, range=rng, access=block)
            continue
        raise CCLError(f"param.ccl: cannot parse {t[pos:pos + 80]!r}")
    return r


def parse_list(text):
    """READS/WRITES/SYNC list -> [(name, region or None)]"""
    out = []
    for part in re.split(r"[\s,]+(?![^(]*\))", text.strip()):
        if not part:
            continue
        g = re.fullmatch(r"([\w:]+)(?:\(\s*(\w+)\s*\))?", part)
        if not g or (g[2] and g[2].lower() not in ("everywhere", "interior", "boundary", "all", "in", "ghost")):
            raise CCLError(f"bad list entry {part!r}")
        reg = g[2].lower() if g[2] else None
        out.append((g[1], {"all": "everywhere", "in": "interior"}.get(reg, reg)))
    return out


OPTS = ("LANG", "LANGUAGE", "OPTIONS", "READS", "WRITES", "SYNC", "TRIGGERS", "STORAGE", "TAGS")


def parse_schedule(text):
    t = strip(text)
    storage, items, conds = [], [], []
    pos = 0

    def m(rx):
        nonlocal pos
        g = re.compile(rx, re.I).match(t, pos)
        if g:
            pos = g.end()
        return g

    while True:
        m(r"\s+")
        if pos >= len(t):
            break
        g = m(r"storage[ \t]*:[ \t]*([^\n]*)\n")
        if g:
            for x in re.split(r"[\s,]+", g[1].strip()):
                sg = re.fullmatch(r"([\w:]+)(?:\[(\w+)\])?", x)
                if not sg:
                    raise CCLError(f"bad STORAGE entry {x!r}")
                storage.append((sg[1], sg[2]))
            continue
        g = m(r"if[ \t]*\(([^{}\n]*)\)\s*\{")
        if g:
            conds.append(g[1])
            continue
        g = m(r"\}")
        if g:
            if not conds:
                raise CCLError("unbalanced }")
            conds.pop()
            continue
        g = m(r"schedule[ \t]+(?:(group)[ \t]+)?(\w+)(?:[ \t]+as[ \t]+\w+)?[ \t]+(at|in)[ \t]+(\w+)((?:[ \t\n]+(?:as|before|after|while|if)[ \t]+(?:\w+|\([\w \t]+\)))*)\s*\{([^{}]*)\}[ \t]*(\"[^\"\n]*\")?")
        if g:
            body = g[6]
            if not g[7]:
                raise CCLError(f"schedule entry for {g[2]} has no description")
            opts = {}
            parts = re.split(r"(?mi)^[ \t]*(" + "|".join(OPTS) + r")[ \t]*:", "\n" + body)
            if parts[0].strip():
                raise CCLError(f"schedule entry for {g[2]}: {parts[0]!r}")
            for k, v in zip(parts[1::2], parts[2::2]):
                opts.setdefault(k.upper(), []).append(v.strip())
            e = dict(group=bool(g[1]), name=g[2], at=g[3].lower(), bin=g[4], mods=g[5].split(), opts=opts, cond=list(conds))
            e["reads"] = [x for v in opts.get("READS", []) for x in parse_list(v)]
            e["writes"] = [x for v in opts.get("WRITES", []) for x in parse_list(v)]
            e["sync"] = [x[0] for v in opts.get("SYNC", []) for x in parse_list(v)]
            if not e["group"] and not (opts.get("LANG") or opts.get("LANGUAGE")):
                raise CCLError(f"schedule entry for {g[2]} has no LANG")
            items.append(e)
            continue
        raise CCLError(f"schedule.ccl: cannot parse {t[pos:pos + 80]!r}")
    if conds:
        raise CCLError("unbalanced {")
    return dict(storage=storage, items=items)


def parse_make(text):
    t = strip(text)
    g = re.fullmatch(r"\s*SRCS\s*=\s*([^\n]*)\s*", t)
    if not g:
        raise CCLError(f"make.code.defn: {t!r}")
    return g[1].split()


# Thorns of the toolkit that generated thorns build on.
XYZ = "xyz"
SYM2 = [a + b for i, a in enumerate(XYZ) for b in XYZ[i:]]


def toolkit(x):
    """implementation -> groups; x: the CarpetX variants."""
    s = "X" if x else ""
    adm = {"metric": ["g" + c for c in SYM2], "curv": ["k" + c for c in SYM2], "lapse": ["alp"], "shift": ["beta" + c for c in XYZ], "dtlapse": ["dtalp"], "dtshift": ["dtbeta" + c for c in XYZ]}
    tm = {"stress_energy_scalar": ["eTtt"], "stress_energy_vector": ["eTt" + c for c in XYZ], "stress_energy_tensor": ["eT" + c for c in SYM2]}
    if x:
        tm |= {"eTtt": ["eTtt"], "eTti": ["eTt" + c for c in XYZ], "eTij": ["eT" + c for c in SYM2]}
    return {
        "Grid": {"coordinates": ["x", "y", "z", "r"]},
        "ADMBase" + s: adm,
        "TmunuBase" + s: tm,
        "Boundary": {},
        "MethodofLines": {},
        "NewRad" + s: {},
        "CarpetX": {},
        "ODESolvers": {},
        "CoordinatesX": {},
    }


KEYWORDS = {"ADMBase": ["evolution_method", "lapse_evolution_method", "shift_evolution_method", "dtshift_evolution_method", "dtlapse_evolution_method", "initial_data", "initial_lapse", "initial_shift"]}
KEYWORDS["ADMBaseX"] = KEYWORDS["ADMBase"]


class Arrangement:
    """Some thorns read from the directory proj, resolved against each other and the toolkit."""

    def __init__(self, proj, x, thorns=None):
        self.x = x
        self.proj = proj
        self.problems = []
        self.thorns = {}
        self.tk = toolkit(x)
        for n in sorted(os.listdir(proj)):
            d = os.path.join(proj, n)
            if not os.path.isdir(d) or (thorns is not None and n not in thorns):
                continue
            th = dict(dir=d)
            try:
                th["interface"] = parse_interface(open(f"{d}/interface.ccl").read())
                th["param"] = parse_param(open(f"{d}/param.ccl").read())
                th["schedule"] = parse_schedule(open(f"{d}/schedule.ccl").read())
                th["srcs"] = parse_make(open(f"{d}/src/make.code.defn").read())
            except (CCLError, OSError) as e:
                self.problems.append((n, "ccl", f"{e}"))
                continue
            self.thorns[n] = th
        self.vars = {}  # "Impl::var" -> index
        self.groups = {}
        for imp, gs in self.tk.items():
            for g, vs in gs.items():
                self._group(imp, g, vs)
        for n, th in self.thorns.items():
            imp = th["interface"]["implements"]
            for g, d in th["interface"]["groups"].items():
                self._group(imp, g, d["vars"])
        self._resolve()

    def _group(self, imp, g, vs):
        self.groups[f"{imp}::{g}".lower()] = [f"{imp}::{v}" for v in vs]
        for v in vs:
            self.vars.setdefault(f"{imp}::{v}", len(self.vars))

    def _lookup(self, n, name):
        """variables meant by name in thorn n, or None"""
        th = self.thorns[n]
        imp = th["interface"]["implements"]
        low = {v.lower(): v for v in self.vars}
        if "::" in name:
            if name.split("::")[0].lower() not in [imp.lower(), n.lower()] + [i.lower() for i in th["interface"]["inherits"]]:
                return None
            q = name.lower()
        else:
            for i in [imp] + th["interface"]["inherits"]:
                q = f"{i}::{name}".lower()
                if q in self.groups or q in low:
                    break
        if q in self.groups:
            return self.groups[q]
        return [low[q]] if q in low else None

    def _resolve(self):
        """check every name in the .ccl files; fill in the variables of each scheduled function"""
        impls = {th["interface"]["implements"].lower(): n for n, th in self.thorns.items()}
        known = set(impls) | {k.lower() for k in self.tk}
        for n, th in self.thorns.items():
            P = lambda what, msg: self.problems.append((n, what, msg))
            for i in th["interface"]["inherits"]:
                if i.lower() not in known:
                    P("inherits", f"inherits from unknown {i}")
            anc, todo = [], list(th["interface"]["inherits"])
            while todo:
                i = impls.get(todo.pop().lower())
                if i and i not in anc:
                    anc.append(i)
                    todo += self.thorns[i]["interface"]["inherits"]
            for i in anc:
                if i == n:
                    P("inherits", "inherits from itself")
                    continue
                for g, gd in self.thorns[i]["interface"]["groups"].items():
                    for h, hd in th["interface"]["groups"].items():
                        if g.lower() == h.lower() or {v.lower() for v in gd["vars"]} & {v.lower() for v in hd["vars"]}:
                            P("duplicate:" + h, f"declares group {h} ({', '.join(hd['vars'])}), although it inherits {g} from {i}")
            for imp, p, ty in th["param"]["uses"]:
                own = impls.get(imp.lower())
                if own:
                    q = {k.lower(): v for k, v in self.thorns[own]["param"]["params"].items()}
                    if p.lower() not in q or q[p.lower()]["type"] != ty or q[p.lower()]["access"] == "private":
                        P("param", f"uses {ty} {imp}::{p}, which {own} does not offer")
                elif p not in KEYWORDS.get(imp, []):
                    P("param", f"uses unknown parameter {imp}::{p}")
            have = {p.lower() for p in th["param"]["params"]} | {p.lower() for _, p, _ in th["param"]["uses"]}
            th["fn"] = {}
            for g, tl in th["schedule"]["storage"]:
                vs = self._lookup(n, g)
                if vs is None:
                    P("storage:" + g, f"STORAGE for unknown group {g}")
                elif tl and tl.isdigit():
                    for gd in th["interface"]["groups"].items():
                        if gd[0].lower() == g.lower() and int(tl) > gd[1]["tl"]:
                            P("storage:" + g, f"STORAGE {g}[{tl}] but the group has {gd[1]['tl']} timelevels")
            for e in th["schedule"]["items"]:
                for c in e["cond"]:
                    for w in re.findall(r"[A-Za-z_]\w*", re.sub(r'"[^"]*"|CCTK_EQUALS', "", c)):
                        if w.lower() not in have:
                            P("if:" + w, f"schedule condition ({c}) uses {w}, which is no parameter of the thorn")
                for s in e["sync"]:
                    if self._lookup(n, s) is None:
                        P("sync:" + s, f"{e['name']}: SYNC of unknown group {s}")
                if e["group"]:
                    continue
                f = th["fn"].setdefault(e["name"], dict(reads={}, writes={}, entries=0))
                f["entries"] += 1
                for key in ("reads", "writes"):
                    for name, reg in e[key]:
                        vs = self._lookup(n, name)
                        if vs is None:
                            P(f"{key}:{name}", f"{e['name']}: {key.upper()} unknown {name}")
                            continue
                        for v in vs:
                            f[key][v] = reg
            for s in th["srcs"]:
                if not os.path.exists(f"{th['dir']}/src/{s}"):
                    P("srcs:" + s, f"make.code.defn lists {s}, which does not exist")
            onlyfiles = {s for s in os.listdir(f"{th['dir']}/src") if s.endswith((".c", ".cc", ".cxx"))}
            for s in onlyfiles - set(th["srcs"]):
                P("srcs:" + s, f"{s} is not listed in make.code.defn")
            if len(set(th["srcs"])) != len(th["srcs"]):
                P("srcs", "a source file is listed twice")

    # ---- building -------------------------------------------------------------------------
    def headers(self, d):
        """write the per-thorn headers and the tables; d: build directory"""
        os.makedirs(d, exist_ok=True)
        impls = {th["interface"]["implements"].lower(): n for n, th in self.thorns.items()}
        ctype = {"REAL": "CCTK_REAL", "INT": "CCTK_INT", "BOOLEAN": "CCTK_INT", "KEYWORD": "CCTK_STRING", "STRING": "CCTK_STRING"}
        pd, pt, proto, calls = [], [], [], []
        for n, th in self.thorns.items():
            inc = f"{d}/inc_{n}"
            os.makedirs(inc, exist_ok=True)
            for h in set().union(*(t["interface"]["includes"] for t in self.thorns.values())) & THORN_HEADERS:
                shutil.copy(f"{SRC}/{h}", inc)
            for h in ("cctk.h", "cctk_Faces.h", "util_Table.h"):
                shutil.copy(f"{SRC}/{h}", inc)
            vf.write(f"{inc}/vf_functions.h", "".join("VF_C " + p + "\n" for p in th["interface"]["functions"].values()))
            vf.write(f"{inc}/cctk_Functions.h", '#include "cctk.h"\n')
            ext, loc = [], []

            def use(owner, p, ty):
                ext.append(f"VF_C {ctype[ty]} vfpar_{owner}_{p};")
                loc.append(f"const {ctype[ty]} {p} CCTK_ATTRIBUTE_UNUSED = vfpar_{owner}_{p};")

            for p, q in th["param"]["params"].items():
                use(n, p, q["type"])
                val = q["default"]
                if q["type"] == "BOOLEAN":
                    val = "1" if val.strip('"').lower() in ("yes", "true", "on", "1") else "0"
                pd.append(f"{ctype[q['type']]} vfpar_{n}_{p} = {val};")
                pt.append(f'{{"{p}", "{n}", {1 if q["type"] == "REAL" else 2}, &vfpar_{n}_{p}}},')
            for imp, p, ty in th["param"]["uses"]:
                own = impls.get(imp.lower(), imp)
                use(own, p, ty)
            ext = [x.replace("VF_C ", "extern " if not self.x else 'extern "C" ') for x in ext]
            vf.write(f"{inc}/cctk_Parameters.h", '#include "cctk.h"\n' + "\n".join(ext) + "\n#define DECLARE_CCTK_PARAMETERS " + " ".join(loc) + "\n")
            a = ['#include "cctk.h"']
            for f, q in th["fn"].items():
                base = "const int *restrict const cctk_lsh CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_lsh; const int *restrict const cctk_gsh CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_gsh; const int *restrict const cctk_nghostzones CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_nghostzones; const CCTK_REAL cctk_time CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_time; const CCTK_REAL cctk_delta_time CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_delta_time; const int cctk_iteration CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_iteration;"
                p, px = [], ["const Loop::GridDescBaseDevice grid CCTK_ATTRIBUTE_UNUSED(cctkGH);"]
                for v in list(q["reads"]) + [v for v in q["writes"] if v not in q["reads"]]:
                    c = "" if v in q["writes"] else "const "
                    s = v.split("::")[1]
                    p.append(f"{c}CCTK_REAL *restrict const {s} CCTK_ATTRIBUTE_UNUSED = vf_var({self.vars[v]});")
                    px.append(f"const Loop::GF3D2<{c}CCTK_REAL> {s} CCTK_ATTRIBUTE_UNUSED = {{vf_var({self.vars[v]}), cctkGH}};")
                a.append(f"#define DECLARE_CCTK_ARGUMENTS_{f} {base} {' '.join(p)} (void)cctkGH")
                if self.x:
                    a.append(f"#define DECLARE_CCTK_ARGUMENTSX_{f} {base} {' '.join(px)} (void)cctkGH")
                startup = all(e["bin"].upper() in ("STARTUP", "CCTK_STARTUP") for e in th["schedule"]["items"] if e["name"] == f)
                a.append(f"VF_C {'int' if startup else 'void'} {f}({'void' if startup else 'CCTK_ARGUMENTS'});")
                proto.append(f"extern void {f}();")
                calls.append(f'{{"{f}", (void *){f}}},')
            vf.write(f"{inc}/cctk_Arguments.h", "\n".join(a) + "\n")
        names = sorted(self.vars, key=self.vars.get)
        kw = [f"CCTK_STRING vfpar_{imp}_{p} = \"\";" for imp in KEYWORDS for p in KEYWORDS[imp]]
        vf.write(
            f"{d}/vf_tables.h",
            f"#define VF_NVAR {len(names)}\nstatic const char *vf_names[] = {{{', '.join(chr(34) + v + chr(34) for v in names)}, 0}};\n"
            + "static const char *vf_groups[] = {" + ", ".join('"' + g + '"' for g in self.groups) + ", 0};\n"
            + "\n".join(pd + kw) + "\nstatic struct { const char *name, *thorn; int type; void *ptr; } vf_params[] = {" + "".join(pt) + "{0, 0, 0, 0}};\n"
            + "\n".join(proto) + "\nstatic struct { const char *name; void *fn; } vf_calls[] = {" + "".join(calls) + "{0, 0}};\n",
        )
        vf.write(f"{d}/vf_functions.h", "")

    def build(self, d, opt="-O0"):
        """compile everything; returns the binary or None (problems recorded)"""
        self.headers(d)
        objs = [f"{d}/flesh.o"]
        r = vf.run(["gcc", "-std=gnu99", "-O1", "-w", f"-I{d}", f"-I{SRC}", "-c", f"{SRC}/flesh.c", "-o", objs[0]])
        if r.returncode:
            raise vf.HarnessError("flesh: " + r.stderr[-2000:])
        jobs = []
        for n, th in self.thorns.items():
            for s in th["srcs"]:
                src = f"{th['dir']}/src/{s}"
                if not os.path.exists(src):
                    continue
                self._includes(n, th, src)
                o = f"{d}/{n}_{s}.o"
                cc = ["g++", "-std=c++17"] if s.endswith((".cc", ".cxx")) else ["gcc", "-std=gnu99", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=discarded-qualifiers"]
                jobs.append((n, s, cc + [opt, "-fopenmp", f"-I{d}/inc_{n}", f"-I{th['dir']}/src", "-c", src, "-o", o]))
                objs.append(o)
        ok = True
        for n, s, cmd in jobs:
            r = vf.run(cmd)
            if r.returncode:
                err = [x for x in r.stderr.splitlines() if "error" in x]
                self.problems.append((n, "compile:" + s, f"{s} does not compile: {err[0] if err else r.stderr[-300:]}"))
                ok = False
        if not ok:
            return None
        exe = f"{d}/thorns"
        r = vf.run(["g++", "-fopenmp", "-o", exe] + objs + ["-lm"])
        if r.returncode:
            for f in sorted(set(re.findall(r"undefined reference to [`']([\w:]+)", r.stderr))) or ["?"]:
                self.problems.append(("link", "link:" + f, f"undefined {f}" if f != "?" else r.stderr[-400:]))
            return None
        return exe

    def _includes(self, n, th, src):
        d = f"{th['dir']}/src"
        for h in re.findall(r'(?m)^\s*#\s*include\s*["<]([^">]+)[">]', open(src).read()):
            if h in FLESH_HEADERS or h in SYSTEM_HEADERS or os.path.exists(f"{d}/{h}"):
                continue
            if not any(h in t["interface"]["includes"] for t in self.thorns.values()):
                self.problems.append((n, "include:" + h, f"{os.path.basename(src)} includes {h}, which no interface.ccl names"))
            elif h not in THORN_HEADERS:
                raise vf.HarnessError(f"unknown header {h}")

    def execute(self, exe, script, d):
        """run commands; returns (lines printed, {name: array})"""
        r = vf.run([exe], stdin=script, cwd=d, timeout=300)
        return r


def load(path, n):
    """saved state -> list of n arrays"""
    a = array.array("d")
    with open(path, "rb") as f:
        a.frombytes(f.read())
    m = len(a) // n
    return [a[i * m:(i + 1) * m] for i in range(n)]


def tags(text):
    """'key=value key="value" key={value}' -> dict"""
    out, rest = {}, text
    while rest.strip():
        g = re.match(r"\s*(\w+)\s*=\s*(?:\"([^\"]*)\"|\{([^{}]*)\}|([^\s\"{}]+))", rest)
        if not g:
            raise CCLError(f"tags {text!r}")
        out[g[1]] = next(x for x in g.groups()[1:] if x is not None)
        rest = rest[g.end():]
    return out


def in_range(param, v):
    """whether v is inside one of the declared ranges"""
    for r in param["range"].splitlines():
        r = r.split("::")[0]
        g = re.fullmatch(r"\s*([(\[]?)\s*([^:\s()\[\]]*)\s*(?::\s*([^:\s()\[\]]*)\s*)?([)\]]?)\s*(?::\s*\S+)?\s*", r)
        if not g:
            raise CCLError(f"range {r!r}")
        lo, hi = g[2], g[3]
        if hi is None:
            if lo == "*" or float(lo) == v:
                return True
            continue
        if lo not in ("*", "") and (v < float(lo) or (g[1] == "(" and v == float(lo))):
            continue
        if hi not in ("*", "") and (v > float(hi) or (g[4] == ")" and v == float(hi))):
            continue
        return True
    return False
