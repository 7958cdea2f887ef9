"""Translates a Charm++ interface file (.ci) with structured-dagger code to C++ for the stand-in runtime in csrc/charm."""

import re

import vf


def strip_comments(t):
    return re.sub(r'("(?:\\.|[^"\\])*")|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or " ", t, flags=re.S)


def match(t, i):
    """t[i] opens a bracket; index just after the one that closes it."""
    close = {"(": ")", "{": "}", "[": "]"}[t[i]]
    op, depth = t[i], 0
    while i < len(t):
        c = t[i]
        if c in "\"'":
            j = i + 1
            while t[j] != c:
                j += 2 if t[j] == "\\" else 1
            i = j
        elif c == op:
            depth += 1
        elif c == close:
            depth -= 1
            if not depth:
                return i + 1
        i += 1
    raise vf.HarnessError("unbalanced brackets in .ci file")


def ws(t, i):
    while i < len(t) and t[i].isspace():
        i += 1
    return i


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            depth += 1
        if c in ")]}>":
            depth -= 1
        if c == "," and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [a.strip() for a in out]


class Param:
    def __init__(self, s):
        m = re.fullmatch(r"(.*?)\s*([A-Za-z_]\w*)?\s*\[(.*)\]", s, re.S)
        if m:
            self.kind, self.type, self.name, self.len = "array", m.group(1).strip(), m.group(2), m.group(3)
            return
        m = re.fullmatch(r"(.*?)\s*\*\s*(\w+)?", s, re.S)
        if m:
            self.kind, self.type, self.name = "ptr", m.group(1).strip(), m.group(2) or "m"
            return
        m = re.fullmatch(r"(.*?)\s*(&)?\s*\b([A-Za-z_]\w*)", s, re.S)
        self.kind, self.type, self.name = "val", m.group(1).replace("const ", "").strip(), m.group(3)


class Entry:
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, [Param(p) for p in split_args(params) if p != "void"], body

    @property
    def isptr(self):
        return len(self.params) == 1 and self.params[0].kind == "ptr"


def parse(text):
    """{chare class: (kind, {entry name: Entry}, constructor params)}"""
    t = strip_comments(text)
    out = {}
    for m in re.finditer(r"\b(mainchare|chare|group|array\s*\[\s*\dD\s*\])\s+(\w+)[^{;]*\{", t):
        end = match(t, m.end() - 1)
        body, ents, i = t[m.end() : end - 1], {}, 0
        while True:
            i = ws(body, i)
            if i >= len(body):
                break
            if body[i] == ";":
                i += 1
                continue
            h = re.compile(r"entry\s*(\[[^\]]*\])?\s*([^(;{]*?)(\w+)\s*\(").match(body, i)
            if not h:
                raise vf.HarnessError("cannot parse .ci near: " + body[i : i + 80])
            j = match(body, h.end() - 1)
            params = body[h.end() : j - 1]
            j = ws(body, j)
            code = None
            if j < len(body) and body[j] == "{":
                k = match(body, j)
                code = body[j + 1 : k - 1]
                j = k
            ents[h.group(3)] = Entry(h.group(3), params, code)
            i = j
        out[m.group(2)] = (re.sub(r"\s", "", m.group(1)), ents)
    return out


def sdag(t, ents, cls):
    """Structured-dagger statements to C++."""
    out, i = [], 0
    while True:
        i = ws(t, i)
        if i >= len(t):
            return "\n".join(out)
        if t[i] == ";":
            i += 1
            continue
        if t[i] == "{":
            j = match(t, i)
            out.append("{" + sdag(t[i + 1 : j - 1], ents, cls) + "}")
            i = j
            continue
        m = re.compile(r"(serial|atomic)\b\s*(\"[^\"]*\")?\s*\{").match(t, i)
        if m:
            j = match(t, m.end() - 1)
            out.append("{" + t[m.end() : j - 1] + "}")
            i = j
            continue
        m = re.compile(r"(if|while|for)\s*\(").match(t, i)
        if m:
            j = match(t, m.end() - 1)
            out.append(t[i:j])
            code, i = one(t, j, ents, cls)
            out.append("{" + code + "}")
            continue
        m = re.compile(r"else\b").match(t, i)
        if m:
            code, i = one(t, m.end(), ents, cls)
            out.append("else {" + code + "}")
            continue
        m = re.compile(r"when\b").match(t, i)
        if m:
            j, pre = m.end(), ""
            while True:
                w = re.compile(r"\s*(\w+)\s*(\[)?").match(t, j)
                name, j, ref = w.group(1), w.end(), None
                if w.group(2):
                    k = match(t, j - 1)
                    ref, j = t[j : k - 1], k
                j = ws(t, j)
                k = match(t, j)
                e = Entry(name, t[j + 1 : k - 1], None)
                if name not in ents:
                    raise vf.RepoError(f"timestepping.ci: when {name}: no such entry method", "")
                pre += unpack(e, ents[name], f"vf::wait(vfep_{cls}_{name}, {'true, ' + ref if ref else 'false, 0'})")
                j = ws(t, k)
                if j < len(t) and t[j] == ",":
                    j += 1
                    continue
                break
            if j < len(t) and t[j] != ";":
                code, j = one(t, j, ents, cls)
            else:
                code, j = "", j + 1
            out.append("{" + pre + code + "}")
            i = j
            continue
        raise vf.HarnessError("structured-dagger construct not supported near: " + t[i : i + 80])


def one(t, i, ents, cls):
    """The single statement at i (with an else branch if there is one); (code, next index)."""
    i = ws(t, i)
    j = stmt_end(t, i)
    return sdag(t[i:j], ents, cls), j


def stmt_end(t, i):
    i = ws(t, i)
    if t[i] == ";":
        return i + 1
    if t[i] == "{":
        return match(t, i)
    m = re.compile(r"(serial|atomic)\b\s*(\"[^\"]*\")?\s*").match(t, i)
    if m:
        return match(t, m.end())
    m = re.compile(r"(if|while|for)\s*").match(t, i)
    if m:
        j = stmt_end(t, match(t, m.end()))
        if m.group(1) == "if":
            e = re.compile(r"\s*else\b").match(t, j)
            if e:
                j = stmt_end(t, e.end())
        return j
    m = re.compile(r"when\b").match(t, i)
    if m:
        j = m.end()
        while t[j] not in "{;":
            j = match(t, j) if t[j] in "([" else j + 1
            k = ws(t, j)
            if re.compile(r"(serial|if|while|for|when)\b").match(t, k):
                return stmt_end(t, k)
        return stmt_end(t, j)
    raise vf.HarnessError("structured-dagger construct not supported near: " + t[i : i + 80])


_n = [0]


def unpack(used, decl, expr):
    """C++ that waits for a message and declares the names of `used` from the fields of `decl`."""
    _n[0] += 1
    v = f"vfm{_n[0]}"
    if decl.isptr:
        p = used.params[0]
        return f"auto *{v} = (vf::PtrMsg *){expr}; {p.type} *{p.name} = ({p.type} *){v}->obj; (void){p.name};\n"
    s = f"auto *{v} = (VfMsg_{decl.name} *){expr}; (void){v};\n"
    for a, b in zip(used.params, decl.params):
        s += f"{a.type} *{a.name} = {v}->{b.name}.data();\n" if b.kind == "array" else f"{b.type} {a.name} = {v}->{b.name}; (void){a.name};\n"
    return s


def generate(cis):
    """cis: text of the .ci files. Returns {file name: text} of the .decl.h and .def.h files plus "vfeps.cpp"."""
    mods = {}
    for text in cis:
        name = re.search(r"\b(?:main)?module\s+(\w+)", strip_comments(text)).group(1)
        mods[name] = (text, parse(text))
    files, epnames = {}, []
    waited = set()
    for text, classes in mods.values():
        for kind, ents in classes.values():
            for e in ents.values():
                for w in re.findall(r"\bwhen\b([^{;]*)", e.body or ""):
                    waited |= set(re.findall(r"(\w+)\s*(?:\[[^\]]*\])?\s*\(", w))
    for mod, (text, classes) in mods.items():
        incs = re.findall(r'^\s*include\s+"([^"]+)"\s*;', strip_comments(text), re.M)
        decl = f"#ifndef VF_{mod}_DECL\n#define VF_{mod}_DECL\n#include \"vfcharm.h\"\n" + "".join(f'#include "{h}"\n' for h in incs)
        defs = ""
        for cls, (kind, ents) in classes.items():
            main = kind == "mainchare"
            decl += f"class {cls};\nenum {{\n"
            for e in ents.values():
                if e.name == cls:
                    continue
                decl += f"  vfep_{cls}_{e.name} = {len(epnames)},\n"
                epnames.append((cls, e, main))
            decl += "};\n"
            proxy = ""
            for e in ents.values():
                if e.name == cls:
                    continue
                if not e.isptr:
                    decl += f"struct VfMsg_{e.name} : vf::Msg {{" + " ".join(f"std::vector<{p.type}> {p.name};" if p.kind == "array" else f"{p.type} {p.name};" for p in e.params) + "};\n"
                    names = {p.name for p in e.params}
                    sig = ", ".join(f"const {p.type} *{p.name}" if p.kind == "array" else f"{p.type} {p.name}" for p in e.params)
                    fill = f"auto *vfm = new VfMsg_{e.name}; vfm->ep = vfep_{cls}_{e.name};"
                    first = [p for p in e.params if p.kind == "val" and p.type in ("int", "long", "unsigned", "short")]
                    if e.params and first and first[0] is e.params[0]:
                        fill += f" vfm->ref = (long){first[0].name};"
                    for p in e.params:
                        fill += f" vfm->{p.name}.assign({p.name}, {p.name} + ({p.len}));" if p.kind == "array" else f" vfm->{p.name} = {p.name};"
                    del names
                    proxy += f"  void {e.name}({sig}) const {{ for (int vfd : vf_dests()) {{ {fill} vf::post(vfd, vfm); }} }}\n"
                else:
                    p = e.params[0]
                    proxy += f"  void {e.name}({p.type} *{p.name}) const {{ for (int vfd : vf_dests()) {{ auto *vfm = new vf::PtrMsg; vfm->ep = vfep_{cls}_{e.name}; vfm->obj = {p.name} ? new {p.type}(*{p.name}) : nullptr; vf::post(vfd, vfm); }} }}\n"
            if main:
                decl += f"struct CProxy_{cls} {{ std::vector<int> vf_dests() const {{ return {{-1}}; }}\n{proxy}}};\n"
                decl += f"class CBase_{cls} {{ public: CProxy_{cls} thisProxy; void pup(PUP::er &) {{}} }};\n"
            else:
                decl += f"struct CProxyElement_{cls} {{ int vfi; std::vector<int> vf_dests() const {{ return {{vfi}}; }}\n{proxy}}};\n"
                ctor = ents[cls].params
                decl += f"struct CProxy_{cls} {{ std::vector<int> vf_dests() const {{ std::vector<int> v; for (int i = 0; i < vf::nch; i++) v.push_back(i); return v; }}\n"
                decl += f"  static int vfcheck(int x, int y, int z) {{ if (x < 0 || y < 0 || z < 0 || x >= vf::N0 || y >= vf::N1 || z >= vf::N2) {{ vf::fail(\"message to chare (%d, %d, %d), which does not exist\", x, y, z); return 0; }} return vf::lin(x, y, z); }}\n"
                decl += f"  CProxyElement_{cls} operator[](const CkArrayIndex3D &i) const {{ return {{vfcheck(i.x, i.y, i.z)}}; }}\n  CProxyElement_{cls} operator()(int x, int y, int z) const {{ return {{vfcheck(x, y, z)}}; }}\n"
                decl += f"  static CProxy_{cls} ckNew({ctor[0].type} &obj, int a, int b, int c);\n{proxy}}};\n"
                decl += f"class CBase_{cls} {{ public: vfIndex thisIndex; CProxy_{cls} thisProxy; CBase_{cls}() {{ thisIndex = {{vf::creating[0], vf::creating[1], vf::creating[2]}}; }} CBase_{cls}(CkMigrateMessage *) {{ thisIndex = {{vf::creating[0], vf::creating[1], vf::creating[2]}}; }} void pup(PUP::er &) {{}} virtual ~CBase_{cls}() {{}}\n"
                decl += "  void contribute(const std::vector<double> &d, CkReduction::R op, const CkCallback &cb) { vf_contribute(vf::lin(thisIndex.x, thisIndex.y, thisIndex.z), d, op, cb); }\n  void contribute(const CkCallback &cb) { vf_contribute(vf::lin(thisIndex.x, thisIndex.y, thisIndex.z), std::vector<double>(), CkReduction::nop, cb); } };\n"
            decl += f"struct CkIndex_{cls} {{\n" + "".join(f"  template <class... A> static int {e.name}(A...) {{ return vfep_{cls}_{e.name}; }}\n" for e in ents.values() if e.name != cls) + "};\n"
            sd = [e for e in ents.values() if e.body is not None]
            if not main:
                decl += f"#define {cls}_SDAG_CODE public: void __sdag_pup(PUP::er &) {{}} " + " ".join(f"void vfentry_{e.name}(vf::Msg *vfmsg);" for e in sd) + "\n"
                for e in sd:
                    defs += f"void {cls}::vfentry_{e.name}(vf::Msg *vfmsg) {{ (void)vfmsg;\n{unpack(e, e, 'vfmsg')}{sdag(e.body, ents, cls)}\n}}\n"
                defs += f"std::vector<{cls} *> vf_chares;\nCProxy_{cls} CProxy_{cls}::ckNew({ents[cls].params[0].type} &obj, int a, int b, int c) {{ vf_create(obj, a, b, c); return CProxy_{cls}(); }}\n"
                for e in ents.values():
                    if e.name == cls:
                        continue
                    if e.body is not None:
                        defs += f"void vfrun_{cls}_{e.name}(int c, vf::Msg *m) {{ vf_chares[c]->vfentry_{e.name}(m); }}\n"
                    elif e.name not in waited:  # an ordinary entry method
                        defs += f"void vfrun_{cls}_{e.name}(int c, vf::Msg *vfmsg) {{ (void)vfmsg; {unpack(e, e, 'vfmsg')} vf_chares[c]->{e.name}({', '.join(q.name for q in e.params)}); }}\n"
                T = ents[cls].params[0].type
                decl += f"void vf_create({T} &obj, int a, int b, int c);\n"
            else:
                for e in ents.values():
                    if e.name != cls:
                        defs += f"extern {cls} *vf_main;\nvoid vfrun_{cls}_{e.name}(int, vf::Msg *) {{ vf_main->{e.name}(); }}\n"
        decl += "#endif\n"
        files[mod + ".decl.h"] = decl
        files[mod + ".def.h"] = defs
    s = '#include "vfcharm.h"\n'
    rows = ""
    for cls, e, main in epnames:
        spawn = main or e.body is not None or e.name not in waited
        if spawn:
            s += f"void vfrun_{cls}_{e.name}(int, vf::Msg *);\n"
        rows += f'  {{"{e.name}", {"true" if spawn else "false"}, {"vfrun_" + cls + "_" + e.name if spawn else "nullptr"}}},\n'
    s += f"static vf::EpInfo table[] = {{\n{rows}}};\nvf::EpInfo *vf::eps = table;\nint vf::neps = {len(epnames)};\n"
    files["vfeps.cpp"] = s
    return files
