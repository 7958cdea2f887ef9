"""C11: inner boundary points copy the right interior point with the right parity.

The generated bcstruct_set_up() and apply_bcs_inner_only() run for every supported coordinate
system, ghost-zone width and small grid shape; the reference finds each ghost point's twin by
comparing Cartesian positions, and its parities from the tensor basis.
"""

import vf
import bcs
import bhah


def one(case, thorough, scratch):
    cs, ng, fp, flags, threads = case
    return bcs.run(cs, ng, fp, 2, "inner", thorough, scratch, flags=flags, threads=threads)


def body(chk):
    cases = []
    for cs in bhah.COORDS:
        for ng in (1, 2, 3) if not chk.thorough else (1, 2, 3, 4):
            cases.append((cs, ng, "double", (), "3"))
    for cs in ("Spherical", "Cylindrical", "Cartesian", "SymTP"):
        cases.append((cs, 2, "float", (), "1"))
        cases.append((cs, 2, "double", ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), "2"))
    for c, (n, pts, e) in zip(cases, vf.pmap(one, [(c, chk.thorough, chk.scratch) for c in cases])):
        chk.count("grids", n)
        chk.count("points", pts)
        chk.outcome(c)
        if e:
            chk.violation(f"{c[0]}:{c[1]}:{c[2]}", f"{c[0]}, {c[1]} ghost zones, {c[2]}{' (sanitizers)' if c[3] else ''}: {e}", {"case": c})
    chk.sample({"case": cases[0], "sizes": bcs.sizes(cases[0][0], cases[0][1], False)[:4]})


if __name__ == "__main__":
    vf.main("C11", "exploration", "distinct (coordinate system, ghost width, precision, build)", body)
