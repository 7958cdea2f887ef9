"""C07: parameter registries behave as a typed store under any operation sequence.

All operation sequences up to a depth over an alphabet of registrations, assignments, reads and
refused operations run on the real nrpy.params; after every operation the complete observable
state (every registered parameter, every attribute, every returned symbol) is compared with a
small reference model.  Also every combination of the arguments of a single registration (type,
form, defaults, assumption, the four flags, descriptions) on several prior registries.
"""

import itertools

import vf

import sympy as sp

import nrpy.params as par

SAVED_P = dict(par.glb_params_dict)
SAVED_C = dict(par.glb_code_params_dict)
SAVED_V = {k: v.value for k, v in SAVED_P.items()}


def P(t, m, n, v, d=None):
    return ("regp", t, m, n, v, d)


def cp(form, t, names, default="unset", mod="m", **kw):
    return ("regc", form, t, tuple(names), default, mod, tuple(sorted(kw.items())))


def alphabet(T):
    ev = [
        P(int, "m1", "p", 1), P(str, "m2", "p", "one", "desc"), P(bool, "m1", "q", False), P(float, "m2", "q", 0.0), P(list, "m1", "p", []), P(int, "m1", "p", 0),
        ("setp", "p", 7), ("setp", "p", 0), ("setp", "q", "str"), ("setp", "nope", 3), ("setp", "Infrastructure", "ETLegacy"),
        cp("one", "REAL", ["a"], 1.5), cp("one", "int", ["a"], 3, mod="n", commondata=True, description="dd"), cp("one", "REAL", ["a"]),
        cp("one", "REAL", ["a"], add_to_parfile=False), cp("one", "REAL", ["b"], 0, assumption="RealPositive"), cp("one", "REAL", ["a"], 1, assumption="Imag"),
        cp("one", "REAL[3]", ["b"], 2.0), cp("one", "REAL[3]", ["b"], 2.0, commondata=True, add_to_set_CodeParameters_h=False),
        cp("one", "#define", ["b"], 4), cp("one", "char[20]", ["a"], "txt", add_to_set_CodeParameters_h=False),
        cp("one", "REAL", ["a"], 9, add_to_glb_code_params_dict=False),
        cp("many", "REAL", ["a", "b"], 2.5), cp("many", "int", ["b", "a"], (10, 20), mod="k", descriptions=("x", "y")), cp("many", "int", ["a", "b"], (1, 2, 3)),
        cp("many", "REAL", [], 1), cp("many", "bool", ["a", "b"], (True, False), descriptions=("only",)), cp("many", "bool", ["a"], True, descriptions="text"),
        cp("many", "REAL", ["a", "b"], 3.5, add_to_glb_code_params_dict=False), cp("many", "int[2]", ["a", "b"], 1, commondata=True), cp("many", "REAL", ["a", "b"], "unset"),
        ("adj", "a", 42), ("adj", "b", 0), ("adj", "zz", 1),
    ]
    if T:
        ev += [P(str, "m3", "a", "same name as a code parameter"), ("setp", "a", "v"), cp("many", "REAL", ["a"], 0.0, assumption="RealPositive", commondata=True), cp("one", "TIMEVAR", ["b"], 6, add_to_parfile=False, add_to_set_CodeParameters_h=False)]
    return ev


def reset():
    par.glb_params_dict.clear()
    par.glb_params_dict.update(SAVED_P)
    for k, v in SAVED_V.items():
        SAVED_P[k].value = v
    par.glb_code_params_dict.clear()
    par.glb_code_params_dict.update(SAVED_C)


# ----------------------------------------------------------------------- reference model
class Model:
    def __init__(self):
        self.p = {k: (v.py_type, v.module, SAVED_V[k], v.description) for k, v in SAVED_P.items()}
        self.c = {k: attrs(v) for k, v in SAVED_C.items()}

    def do(self, ev):
        """Returns ("ok", value) or ("refused",)."""
        if ev[0] == "regp":
            _, t, m, n, v, d = ev
            if t not in (bool, int, float, str):
                return ("refused",)
            self.p.setdefault(n, (t, m, v, d or ""))
            return ("ok", None)
        if ev[0] == "setp":
            if ev[1] not in self.p:
                return ("refused",)
            o = self.p[ev[1]]
            self.p[ev[1]] = (o[0], o[1], ev[2], o[3])
            return ("ok", None)
        if ev[0] == "adj":
            if ev[1] not in self.c:
                return ("refused",)
            o = self.c[ev[1]]
            self.c[ev[1]] = o[:2] + (ev[2],) + o[3:]
            return ("ok", None)
        _, form, t, names, default, mod, kwt = ev
        kw = dict(kwt)
        if not names:
            return ("refused",)
        defs = list(default) if isinstance(default, tuple) else [default] * len(names)
        if len(defs) != len(names):
            return ("refused",)
        if form == "many":
            ds = kw.get("descriptions", "")
            if ds == "":
                ds = [""] * len(names)
            elif isinstance(ds, str) or len(ds) != len(names):
                return ("refused",)
        else:
            ds = [kw.get("description", "")]
        syms = []
        for n, dv, de in zip(names, defs, ds):
            common = kw.get("commondata", False)
            seth = kw.get("add_to_set_CodeParameters_h", True)
            parf = kw.get("add_to_parfile", True)
            if "[" in t and (t.startswith("REAL") or t.startswith("int")) and not (common and not seth):
                return ("refused",)
            if t == "#define":
                parf = seth = False
            if parf and dv == "unset":
                return ("refused",)
            asm = kw.get("assumption", "Real")
            if asm not in ("Real", "RealPositive"):
                return ("refused",)
            if kw.get("add_to_glb_code_params_dict", True) and (form == "many" or n not in self.c):
                self.c[n] = (t, mod, dv, asm, common, parf, seth, de)
            syms.append(sp.Symbol(n, real=True, positive=True) if asm == "RealPositive" else sp.Symbol(n, real=True))
        return ("ok", syms if form == "many" else syms[0])


def attrs(c):
    return (c.cparam_type, c.module, c.defaultvalue, c.assumption, c.commondata, c.add_to_parfile, c.add_to_set_CodeParameters_h, c.description)


def real_do(ev):
    try:
        if ev[0] == "regp":
            _, t, m, n, v, d = ev
            return ("ok", par.register_param(t, m, n, v, **({} if d is None else {"description": d})))
        if ev[0] == "setp":
            return ("ok", par.set_parval_from_str(ev[1], ev[2]))
        if ev[0] == "adj":
            return ("ok", par.adjust_CodeParam_default(ev[1], ev[2]))
        _, form, t, names, default, mod, kwt = ev
        kw = {k: (list(v) if isinstance(v, tuple) else v) for k, v in kwt}
        if form == "one":
            return ("ok", par.register_CodeParameter(t, mod, names[0], defaultvalue=default, **kw))
        return ("ok", par.register_CodeParameters(t, mod, list(names), defaultvalues=list(default) if isinstance(default, tuple) else default, **kw))
    except (ValueError, TypeError):
        return ("refused",)


def observe():
    p = {k: (v.py_type, v.module, v.value, v.description) for k, v in par.glb_params_dict.items()}
    c = {k: attrs(v) for k, v in par.glb_code_params_dict.items()}
    return p, c


def typed(d):
    return {k: tuple((type(x), x) for x in v) for k, v in d.items()}


def compare(model, ev, got, want):
    """None or a description of the first disagreement."""
    if got[0] != want[0]:
        return f"operation was {got[0]}, model says {want[0]}"
    if got[0] == "ok" and got[1] != want[1]:
        return f"returned {got[1]!r}, want {want[1]!r}"
    p, c = observe()
    if typed(p) != typed(model.p):
        diff = {k: (p.get(k), model.p.get(k)) for k in set(p) | set(model.p) if p.get(k) != model.p.get(k) or type((p.get(k) or [0, 0, 0])[2]) != type((model.p.get(k) or [0, 0, 0])[2])}
        return f"NRPy parameters differ from model (got, want): {diff}"
    if typed(c) != typed(model.c):
        diff = {k: (c.get(k), model.c.get(k)) for k in set(c) | set(model.c) if c.get(k) != model.c.get(k)}
        return f"code parameters differ from model (got, want): {diff}"
    for n in ("p", "q", "nope", "Infrastructure"):
        for q in (n, "anymodule::" + n):
            try:
                v = ("ok", par.parval_from_str(q))
            except ValueError:
                v = ("refused",)
            w = ("ok", model.p[n][2]) if n in model.p else ("refused",)
            if v != w or type(v[-1]) != type(w[-1]):
                return f"parval_from_str({q!r}) gave {v}, want {w}"
    for k, v in par.glb_code_params_dict.items():
        if v.name != k or str(v.symbol) != k:
            return f"code parameter stored under {k} is named {v.name}"
        if v.symbol != (sp.Symbol(k, real=True, positive=True) if v.assumption == "RealPositive" else sp.Symbol(k, real=True)):
            return f"symbol of {k} has the wrong assumptions"
    return None


def job(first, depth, T):
    ev = alphabet(T)
    bad, states, nt = {}, set(), 0
    for tail in itertools.product(range(len(ev)), repeat=depth - 1):
        seq = (first,) + tail
        reset()
        m = Model()
        for k, i in enumerate(seq):
            want = m.do(ev[i])
            got = real_do(ev[i])
            # sequences sharing a prefix: full comparison at the end, and once per prefix
            if k < len(seq) - 1 and any(tail[k:]):
                if got[0] != want[0]:
                    break
                continue
            nt += 1
            err = compare(m, ev[i], got, want)
            states.add(hash((tuple(sorted((k, str(v)) for k, v in m.p.items())), tuple(sorted((k, str(v)) for k, v in m.c.items())))))
            if err:
                bad.setdefault(f"{ev[i]}", ([ev[j] for j in seq[: k + 1]], err))
                break
    return bad, nt, states


PRIOR = ((), (cp("one", "REAL", ["a"], 1.5),), (cp("many", "int", ["b", "a"], (10, 20), mod="k", commondata=True, descriptions=("x", "y")),), (cp("one", "char[9]", ["b"], "s", add_to_parfile=False, commondata=True), P(int, "m", "a", 5)))


def product(form, t):
    """Every combination of the arguments of one registration, on every prior registry of PRIOR."""
    bad, nt, states = {}, 0, set()
    B = (False, True)
    defaults = ("unset", 3, 0, "txt", -1.5) if form == "one" else ("unset", 3, (7, 8), ("u", "unset"), (1,), (0, 0.5))
    descs = ("", "words") if form == "one" else ("", ("first", "second"), ("",), "text")
    for dv, asm, com, parf, seth, glb, de, pr, nm in itertools.product(defaults, ("Real", "RealPositive", "Complex"), B, B, B, B, descs, PRIOR, (["a"],) if form == "one" else (["a", "b"], ["b", "b"])):
        ev = cp(form, t, nm, dv, mod="mm", assumption=asm, commondata=com, add_to_parfile=parf, add_to_set_CodeParameters_h=seth, add_to_glb_code_params_dict=glb, **{"description" if form == "one" else "descriptions": de})
        reset()
        m = Model()
        for e in pr:
            m.do(e)
            real_do(e)
        for e in (ev, ("adj", "a", "new"), ("adj", "b", 6)):
            want, got = m.do(e), real_do(e)
            nt += 1
            err = compare(m, e, got, want)
            if err:
                bad.setdefault(f"{form}:{t}:{e[0]}", ([*pr, ev] + ([e] if e != ev else []), err))
                break
        states.add(hash(str(sorted(m.c.items()))))
    return bad, nt, states


def body(chk):
    T = chk.thorough
    ev = alphabet(T)
    states = set()
    for bad, nt, st in vf.pmap(product, [(f, t) for f in ("one", "many") for t in ("REAL", "int", "bool", "char[8]", "REAL[2]", "int[2]", "#define", "TIMEVAR")], timeout=880):
        chk.count("transitions", nt)
        states |= st
        for key, (seq, err) in bad.items():
            chk.violation(f"product:{key}", f"after {seq[:-1]}, {seq[-1]}: {err}", {"sequence": seq})
    for depth in (1, 2, 3, 4):
        for bad, nt, st in vf.pmap(job, [(i, depth, T) for i in range(len(ev))], timeout=880):
            chk.count("transitions", nt)
            states |= st
            for key, (seq, err) in bad.items():
                chk.violation(f"op:{key}", f"after {seq[:-1]}, {seq[-1]}: {err}", {"sequence": seq})
        chk.note(f"depth {depth}: {chk.counters['transitions']} transitions, {len(states)} states")
        if chk.violations:
            break
    chk.count("states", len(states))
    chk.count("evaluations", chk.counters["transitions"])
    chk.count("distinct", len(states))
    chk.sample([str(e) for e in ev[:8]])


if __name__ == "__main__":
    vf.main("C07", "model_checking", "distinct registry states reached", body)
