"""Generates, compiles and runs BHaH kernels on small grids filled with rough data. Call only in a fresh forked child."""

import array
import os
import re

import mpmath as mp
import sympy as sp

import bhah
import tensors as tn
import vf
from stencil import Point

import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.generic as gen
import nrpy.params as par
import nrpy.reference_metric as refmetric

R3 = range(3)
NXX = {"spherical": (4, 3, 2), "symtp": (4, 3, 2), "ring": (4, 3, 2), "cylindrical": (4, 2, 3), "cartesian": (4, 3, 2), "wedge": (4, 3, 2)}
# ranges of the data: base + amplitude * [0, 1)
RANGE = {"alpha": (0.8, 0.4), "cf": (0.7, 0.2), "trK": (-0.2, 0.5), "vetU": (-0.3, 0.6), "hDD": (-0.05, 0.12), "psi_background": (1.1, 0.4), "ADD_times_AUU": (0.2, 0.9), "variable_wavespeed": (0.5, 0.8), "uu": (-0.3, 0.5)}

DRIVER = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static commondata_struct commondata; static griddata_struct gd[MAXNUMGRIDS]; static FILE *out; static long ntot;
static double rnd(unsigned s, unsigned p) { unsigned u = 2654435761u * (p * 31u + s * 7919u + 17u); u ^= u >> 13; u *= 1274126177u; u ^= u >> 16; u *= 2246822519u; u ^= u >> 15; return (u & 0xffffff) / 16777216.0; }
static void fill(REAL *g, unsigned s, double base, double amp) { for (long p = 0; p < ntot; p++) g[p] = base + amp * rnd(s, (unsigned)p); }
static void put(const REAL *g, long n) { for (long p = 0; p < n; p++) { const double d = g[p]; fwrite(&d, 8, 1, out); } }
static void value(double d) { fwrite(&d, 8, 1, out); }
%(pre)s
int main(void) {
  commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1; commondata.convergence_factor = 1.0;
  params_struct_set_to_default(&commondata, gd); params_struct *params = &gd[0].params;
  params->CoordSystem_hash = %(hash)s; params->grid_physical_size = 4.0;
  int Nx[3] = {%(nxx)s}; REAL **xx = gd[0].xx;
  numerical_grid_params_Nxx_dxx_xx(&commondata, params, xx, Nx, true);
%(set)s
  const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
  ntot = (long)Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2;
  out = fopen("out.bin", "wb"); value(Nxx_plus_2NGHOSTS0); value(Nxx_plus_2NGHOSTS1); value(Nxx_plus_2NGHOSTS2); value(NGHOSTS);
  put(xx[0], Nxx_plus_2NGHOSTS0); put(xx[1], Nxx_plus_2NGHOSTS1); put(xx[2], Nxx_plus_2NGHOSTS2);
%(pars)s
%(rfm)s
  REAL *y = malloc(sizeof(REAL) * (ntot + 16) * (NUM_EVOL_GFS + 1)), *ax = malloc(sizeof(REAL) * (ntot + 16) * (NUM_AUXEVOL_GFS + 1)), *dg = malloc(sizeof(REAL) * (ntot + 16) * (NUM_EVOL_GFS + NUM_AUXEVOL_GFS + 20)), *rh = malloc(sizeof(REAL) * (ntot + 16) * (NUM_EVOL_GFS + 1));
  gd[0].gridfuncs.y_n_gfs = y; gd[0].gridfuncs.auxevol_gfs = ax; gd[0].gridfuncs.diagnostic_output_gfs = dg;
%(body)s
  fclose(out); return 0;
}
"""


class Project:
    def __init__(self, cs, d, fd, precompute, simd, cf=None):
        self.cs, self.d, self.fd, self.pre, self.simd = cs, d, fd, precompute, simd
        self.fills, self.sets, self.puts, self.body, self.prefunc = [], {}, [], "", ""
        os.makedirs(d)
        bhah.start(fd)
        par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
        if cf:
            import nrpy.equations.general_relativity.BSSN_quantities  # noqa: F401  pylint: disable=import-outside-toplevel,unused-import

            par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
        self.fam = bhah.family(cs)
        self.nxx = ((8,) + NXX[self.fam][1:]) if simd else NXX[self.fam]  # vectors need whole rows

    def gfs(self, group):
        return [n for n, g in gri.glb_gridfcs_dict.items() if g.group == group]

    def fill(self):
        """Rough data in every evolved and auxiliary evolved gridfunction, recorded."""
        for arr, group in (("y", "EVOL"), ("ax", "AUXEVOL")):
            for n in self.gfs(group):
                b, a = RANGE.get(re.sub(r"\d+$", "", n), (-0.2, 0.5))
                s = 1 + sum(ord(c) * (k + 3) for k, c in enumerate(n)) % 9973
                self.body += f"  fill(&{arr}[{n.upper()}GF * ntot], {s}, {b}, {a});\n"
        self.dump("y", "EVOL", "in:")
        self.dump("ax", "AUXEVOL", "in:")

    def dump(self, arr, group, pre):
        for n in self.gfs(group) if isinstance(group, str) else group:
            self.body += f"  put(&{arr}[{n.upper()}GF * ntot], ntot);\n"
            self.puts.append(pre + n)

    def call(self, text):
        self.body += "  " + text + "\n"

    def nan(self, arr, n):
        self.body += f"  for (long p = 0; p < ntot * ({n}); p++) {arr}[p] = NAN;\n"

    def run(self, add_ghost=True, opt="-O1", bcs=False):
        from nrpy.infrastructures.BHaH import rfm_precompute  # pylint: disable=import-outside-toplevel

        bhah.grid_and_bcs(self.cs, bcs=bcs, enable_rfm_precompute=self.pre)
        if self.pre:
            rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[self.cs])
        gen.copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=self.d, subdirectory="intrinsics")
        srcs = bhah.finish(self.d, "vf", rfm_precompute=self.pre, simd=self.simd, add_ghost=add_ghost)
        self.pnames, pars = [], ""
        for n, p in par.glb_code_params_dict.items():
            if p.cparam_type in ("REAL", "int", "bool"):
                self.pnames.append(n)
                pars += f"  value({'commondata.' if p.commondata else 'params->'}{n});\n"
        sets = "".join(f"  {'commondata.' if par.glb_code_params_dict[n].commondata else 'params->'}{n} = {v!r};\n" for n, v in self.sets.items() if n in par.glb_code_params_dict)
        rfm = "  rfm_struct rfmstruct; memset(&rfmstruct, 0x5a, sizeof rfmstruct); rfm_precompute_malloc(&commondata, params, &rfmstruct); rfm_precompute_defines(&commondata, params, &rfmstruct, xx); gd[0].rfmstruct = rfmstruct;\n" if self.pre else ""
        drv = DRIVER % dict(hash=self.cs.upper(), nxx=", ".join(map(str, self.nxx)), set=sets, pars=pars, rfm=rfm, body=("  bcstruct_set_up(&commondata, params, xx, &gd[0].bcstruct);\n" if bcs else "") + self.body, pre=self.prefunc)
        exe = bhah.compile_project(self.d, srcs, drv, flags=("-fopenmp", "-march=native"), opt=opt)
        p = vf.run([exe], timeout=600, cwd=self.d, env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})
        if p.returncode:
            return f"exit {p.returncode}: {p.stderr[-400:]}"
        a = array.array("d")
        a.frombytes(open(os.path.join(self.d, "out.bin"), "rb").read())
        self.shape, self.ng = [int(v) for v in a[:3]], int(a[3])
        k = 4
        self.xx = []
        for n in self.shape:
            self.xx.append(a[k : k + n])
            k += n
        self.par = {n: a[k + q] for q, n in enumerate(self.pnames)}
        k += len(self.pnames)
        ntot = self.shape[0] * self.shape[1] * self.shape[2]
        self.data = {}
        for n in self.puts:
            self.data[n] = a[k : k + ntot]
            k += ntot
        self.rest = a[k:]
        return None

    def at(self, ijk):
        return ijk[0] + self.shape[0] * (ijk[1] + self.shape[1] * ijk[2])

    def interior(self):
        g = self.ng
        return [(i, j, k) for k in range(g, self.shape[2] - g) for j in range(g, self.shape[1] - g) for i in range(g, self.shape[0] - g)]

    def every(self):
        return [(i, j, k) for k in range(self.shape[2]) for j in range(self.shape[1]) for i in range(self.shape[0])]

    def point(self, ijk, pre="in:", extra=None):
        rfm = refmetric.reference_metric[self.cs]
        get = lambda name, off: self.data[pre + name][self.at([p + q for p, q in zip(ijk, off)])]
        ex = dict(self.par, PI=mp.pi, **{f"xx{k}": self.xx[k][ijk[k]] for k in R3})
        ex.update(extra or {})
        pt = Point(get, self.fd, [self.par[f"dxx{k}"] for k in R3], None, ex)
        memo = {}
        pt.ctrl = lambda q: tn.ev(sp.Symbol(f"vetU{q}", real=True) * rfm.ReU[q], pt, memo)
        return pt

    def compare(self, what, exprs, pre="in:", out="", points=None, tol=1e-9, extra=None):
        """exprs: gridfunction -> expression; the kernel's values against the expressions at the points"""
        probs, n = [], 0
        for ijk in points or self.interior():
            pt, memo = self.point(ijk, pre, extra), {}
            for g, e in exprs.items():
                w, v = float(mp.re(tn.ev(e, pt, memo))), self.data[out + g][self.at(ijk)]
                n += 1
                if not abs(v - w) <= tol * (1 + abs(w)):
                    return [(f"{what}:{g}", f"{what}: {g} = {v!r} at {ijk}, the equation gives {w!r}")], n
        return probs, n

    def untouched(self, what, gfs, out, region="interior"):
        """points outside the region keep the NaN they were filled with"""
        inn = set(self.interior())
        for ijk in self.every():
            if ijk not in inn:
                for g in gfs:
                    v = self.data[out + g][self.at(ijk)]
                    if v == v:
                        return [(f"{what}:outside", f"{what} writes {g} at the ghost point {ijk}")]
        return []
