"""C12: outer boundary updates fill every outer ghost point with the prescribed value.

The generated bcstruct_set_up(), apply_bcs_outerextrap_and_inner() and
apply_bcs_outerradiation_and_inner() run for every supported coordinate system, ghost-zone width,
stencil order and small grid shape. Ghost points start as NaN, so that reading an unfilled one shows.
"""

import vf
import bcs
import bhah


def one(case, thorough, scratch):
    cs, ng, fp, rad, flags, threads = case
    return bcs.run(cs, ng, fp, rad, "outer", thorough, scratch, flags=flags, threads=threads)


def body(chk):
    cases = []
    for cs in bhah.COORDS:
        for ng in (1, 2, 3) if not chk.thorough else (1, 2, 3, 4):
            rads = [r for r in (2, 4, 6) if r <= 2 * ng]
            for r in rads if chk.thorough else rads[-1:]:
                cases.append((cs, ng, "double", r, (), "3"))
    for cs in ("Spherical", "Cylindrical", "Cartesian"):
        cases.append((cs, 2, "float", 2, (), "1"))
        cases.append((cs, 2, "double", 2, ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), "2"))
    for c, (n, pts, e) in zip(cases, vf.pmap(one, [(c, chk.thorough, chk.scratch) for c in cases])):
        chk.count("grids", n)
        chk.count("points", pts)
        chk.outcome(c)
        if e:
            chk.violation(f"{c[0]}:{c[1]}:{c[2]}:{c[3]}", f"{c[0]}, {c[1]} ghost zones, radiation order {c[3]}, {c[2]}{' (sanitizers)' if c[4] else ''}: {e}", {"case": c})
    chk.sample({"case": cases[0], "sizes": bcs.sizes(cases[0][0], cases[0][1], False)[:4]})


if __name__ == "__main__":
    vf.main("C12", "exploration", "distinct (coordinate system, ghost width, radiation order, precision, build)", body)
