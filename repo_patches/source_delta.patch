From 6153ae3832d074ec6c4c6ea7b6e728545f428c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:10 +0000
Subject: [PATCH 01/62] fix: declare the constant 1 used by inverse
 half-integer powers in SIMD kernels

---
 nrpy/helpers/simd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..1aa46db 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -338,6 +338,13 @@ def expr_convert_to_simd_intrins(
         if func == Pow:
             one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            # Inverse half-integer powers are output as 1/(...), so make sure that
+            #   the constant 1 gets declared.
+            if (
+                exponent in (-Rational(1, 2), -Rational(3, 2), -Rational(5, 2))
+                and sympify(1) not in map_rat_to_sym
+            ):
+                symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = S.One, one
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
-- 
2.43.0


From 86c9025ee688a2c5c19cb010d753dd9927b99015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 02/62] fix: apply postproc_substitution_dict to CSE
 temporaries and SIMD kernels

---
 nrpy/c_codegen.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..360f9b0 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -579,9 +579,14 @@ def c_codegen(
         # cse_results[0] contains common subexpression definitions, does not specify varnames.
         for common_subexpression in cse_results[0]:
             full_type_string = f"const {CCGParams.fp_type_alias} "
+            cse_expr = common_subexpression[1]
+            if CCGParams.postproc_substitution_dict:
+                cse_expr = apply_substitution_dict(
+                    cse_expr, CCGParams.postproc_substitution_dict
+                )
             if CCGParams.enable_simd:
                 simd_expr = expr_convert_to_simd_intrins(
-                    common_subexpression[1],
+                    cse_expr,
                     CCGParams.symbol_to_Rational_dict,
                     varprefix,
                     CCGParams.simd_find_more_FMAsFMSs,
@@ -591,14 +596,10 @@ def c_codegen(
                     f"{full_type_string}{common_subexpression[0]} = {simd_expr};\n"
                 )
             else:
-                if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
-                    )
                 outstring += (
                     full_type_string
                     + sp.ccode(
-                        common_subexpression[1],
+                        cse_expr,
                         common_subexpression[0],
                         user_functions=custom_functions_for_SymPy_ccode[
                             CCGParams.fp_type
@@ -610,6 +611,10 @@ def c_codegen(
 
         # cse_results[1] specifies the varnames in terms of CSE variables.
         for i, result in enumerate(cse_results[1]):
+            if CCGParams.postproc_substitution_dict:
+                result = apply_substitution_dict(
+                    result, CCGParams.postproc_substitution_dict
+                )
             if CCGParams.enable_simd:
                 if (
                     CCGParams.simd_clean_NegativeOnes_after_processing
@@ -629,10 +634,6 @@ def c_codegen(
                 )
                 outstring += f"{varnames_excluding_SCALAR_TMPs[i]} = {simd_expr};\n"
             else:
-                if CCGParams.postproc_substitution_dict:
-                    result = apply_substitution_dict(
-                        result, CCGParams.postproc_substitution_dict
-                    )
                 outstring += (
                     sp.ccode(
                         result,
-- 
2.43.0


From 069d5c39965b2d723f9ae55b8a60a36aa68e1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:50 +0000
Subject: [PATCH 03/62] fix: AVX-512 AbsSIMD must not require AVX512DQ

---
 nrpy/helpers/simd_intrinsics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..9438174 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -42,7 +42,8 @@
 #define NegFusedMulSubSIMD(a, b, c) _mm512_fnmsub_pd((a), (b), (c))
 
 // Absolute Value
-#define AbsSIMD(a) _mm512_and_pd((a), _mm512_castsi512_pd(_mm512_set1_epi64(0x7FFFFFFFFFFFFFFF)))
+// Note: _mm512_abs_pd() needs only AVX512F, unlike _mm512_and_pd(), which needs AVX512DQ.
+#define AbsSIMD(a) _mm512_abs_pd((a))
 
 // Initialize vector to zero (output is REAL_SIMD_ARRAY)
 #define SetZeroSIMD _mm512_setzero_pd()
-- 
2.43.0


From 472b0f30c42cafb933ccb72912a325a8963168c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:51 +0000
Subject: [PATCH 04/62] fix: NegFusedMulSubSIMD had the wrong sign in the
 SSE2+FMA branch

---
 nrpy/helpers/simd_intrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 9438174..6262411 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -163,7 +163,7 @@
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
 #define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_add_pd((c), _mm_add_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From 2ec72bd2671dcd5dbf1ef30d3e248223d6b92033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:20 +0000
Subject: [PATCH 05/62] fix: read the upwind control vector from memory when
 only the upwind switch uses it

---
 nrpy/c_codegen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index 360f9b0..efe92cb 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -420,6 +420,15 @@ def c_codegen(
         for i, deriv_op in enumerate(list_of_deriv_operators):
             fdcoeffs[i], fdstencl[i] = deriv_operator_dict[deriv_op]
 
+        # The upwinding algorithm needs the control vector even if it
+        #   does not otherwise appear in the expressions.
+        if isinstance(CCGParams.upwind_control_vec, list):
+            for deriv_op in superfast_uniq(list_of_deriv_operators):
+                if "dupD" in deriv_op:
+                    free_symbols_list.extend(
+                        CCGParams.upwind_control_vec[int(deriv_op[-1])].free_symbols
+                    )
+
         read_from_memory_C_code = fin.read_gfs_from_memory(
             list_of_base_gridfunction_names_in_derivs,
             fdstencl,
-- 
2.43.0


From df24e19c6c3ab3494796f58e2b9061a819a9273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 06/62] fix: write expression-cache entries atomically

---
 nrpy/helpers/cached_functions.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..8df2df6 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -97,6 +99,23 @@ def read_cached(unique_id: str) -> Any:
         return pickle.load(file)
 
 
+def write_cache_file(path: Path, data: Any) -> None:
+    """
+    Atomically write data to a cache file, so that neither a concurrent reader nor a crash can leave a partial entry.
+
+    :param path: The path of the cache file.
+    :param data: The data to be written to the cache.
+    """
+    fd, tmp_name = tempfile.mkstemp(dir=str(path.parent), suffix=".tmp")
+    try:
+        with os.fdopen(fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, str(path))
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
+
+
 def write_cached(unique_id: str, data: Any) -> None:
     """
     Write data to the cache file associated with a unique ID.
@@ -110,9 +129,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    write_cache_file(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +158,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            write_cache_file(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 3d2ffc9b79f51e557175305d151335b915273242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:18 +0000
Subject: [PATCH 07/62] fix: ConditionalFileUpdater must not write partial
 output when the writer raises

---
 nrpy/helpers/conditional_file_updater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..116fae4 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -77,6 +77,10 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        # If the writer failed, its output is incomplete; leave the file alone.
+        if exception_type is not None:
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
-- 
2.43.0


From 1cf6b22b13ba6ddce0c9cb1c0ff7539e4425fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:32 +0000
Subject: [PATCH 08/62] fix: ConditionalFileUpdater must recover from a file
 torn inside a multibyte character

---
 nrpy/helpers/conditional_file_updater.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index 116fae4..63a7042 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -89,7 +89,10 @@ class ConditionalFileUpdater:
         # Determine if the file exists and read its content if it does.
         old_content = ""
         if os.path.exists(self.fname):
-            with open(self.fname, encoding=self.encoding) as file_descriptor:
+            # Undecodable content (e.g., an interrupted write) never matches; it is rewritten.
+            with open(
+                self.fname, encoding=self.encoding, errors="replace"
+            ) as file_descriptor:
                 old_content = file_descriptor.read()
 
         # Decide whether to write based on a comparison of stripped content.
-- 
2.43.0


From 237e5b69d41c9d49f3986c3400f3529cfeabe4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:52 +0000
Subject: [PATCH 09/62] fix: kernels that only read gridfunctions must not
 depend on earlier finite-difference kernels

---
 nrpy/finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/finite_difference.py b/nrpy/finite_difference.py
index 619b0f2..3f29243 100644
--- a/nrpy/finite_difference.py
+++ b/nrpy/finite_difference.py
@@ -1088,7 +1088,8 @@ def proto_FD_operators_to_sympy_expressions(
 
     symbol_to_Rational_dict = {}
 
-    for i, op in enumerate(FDFunctions_dict.keys()):
+    # FDFunctions_dict may also hold operators from earlier calls; only touch ours.
+    for i, op in enumerate(list_of_proto_deriv_ops):
         FDFunctions_dict[op].FDexpr = FDexprs[i]
         symbol_to_Rational_dict.update(symbol_to_Rational_dicts[i])
     return FDexprs, FDlhsvarnames, symbol_to_Rational_dict
-- 
2.43.0


From bab7a26b52792ab27af265a1d974f3b7da8ccc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:18 +0000
Subject: [PATCH 10/62] fix: parallel codegen output must not depend on worker
 scheduling

---
 nrpy/helpers/parallel_codegen.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index ec351e5..d3810d7 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -242,16 +242,24 @@ def do_parallel_codegen() -> None:
     manager = Manager()
     NRPy_environment_to_unpack: Dict[str, Any] = manager.dict()
 
-    with Pool() as pool:  # Set Pool(processes=1) to disable parallel codegen.
+    # maxtasksperchild=chunksize=1: each task starts from the state of this process,
+    #   not from whatever earlier tasks left behind in the worker that happens to run it.
+    with Pool(
+        maxtasksperchild=1
+    ) as pool:  # Set processes=1 to disable parallel codegen.
         pool.map(
             wrapper_func,
             [
                 (NRPy_environment_to_unpack, key, value)
                 for key, value in ParallelCodeGen_dict.items()
             ],
+            chunksize=1,
         )
 
-    unpack_NRPy_environment_dict(dict(NRPy_environment_to_unpack))
+    # Merge in registration order, so that the result does not depend on completion order.
+    unpack_NRPy_environment_dict(
+        {key: NRPy_environment_to_unpack[key] for key in ParallelCodeGen_dict}
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5850dec96cd9b8fb24afb46aca8a117a43ffa721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 11/62] fix: register all components of rank-1 gridfunctions of
 any dimension

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..ba8c5dd 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -890,7 +890,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From 74d7479f6abee06b2538304f79153b0143e01017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 12/62] fix: parity types of rank-1 gridfunctions in four
 dimensions

---
 nrpy/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index ba8c5dd..e02f48e 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,10 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        # In 4D, the time component behaves as a scalar.
+                        parity_type.append(
+                            int(gf.name[-1]) + (0 if gf.dimension == 4 else 1)
+                        )
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
-- 
2.43.0


From eb0f6385c4f0b5169161b4612136ea958a714479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 13/62] fix: register each independent tensor component once,
 in component order

---
 nrpy/grid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index e02f48e..93eff4f 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -936,11 +936,12 @@ def register_gridfunctions_for_single_rank2(
     )
 
     # Step 2: register each gridfunction, being careful not
-    #         not to store duplicates due to rank-2 symmetries.
+    #         not to store duplicates due to rank-2 symmetries,
+    #         nor components fixed by antisymmetry (0 or minus another component).
     gf_list: List[str] = []
     for i in range(dimension):
         for j in range(dimension):
-            save = True
+            save = isinstance(IDX_OBJ_TMP[i][j], sp.Symbol)
             for gf in gf_list:
                 if gf == str(IDX_OBJ_TMP[i][j]):
                     save = False
@@ -1065,7 +1066,10 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    # Components fixed by antisymmetry (0 or minus another component) are not gridfunctions.
+    unique_gf_list = list(
+        dict.fromkeys(str(item) for item in flat_list if isinstance(item, sp.Symbol))
+    )
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From 3adc4181f7fb362cabd2999a2e1786654d155b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 14/62] fix: refuse gridfunctions whose names share an index
 macro

---
 nrpy/grid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 93eff4f..d906ca3 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -408,6 +408,7 @@ class BHaHGridFunction(GridFunction):
         and the values should be instances of classes derived from GridFunction.
 
         :return: The resulting string representation of the GridFunction definitions.
+        :raises ValueError: If two gridfunctions would share an index macro.
         """
 
         def define_gfs(name: str, gfs: List[str]) -> str:
@@ -430,6 +431,16 @@ class BHaHGridFunction(GridFunction):
             auxevol_variables_list,
         ) = BHaHGridFunction.gridfunction_lists()
 
+        macros: Dict[str, str] = {}
+        for gf in (
+            evolved_variables_list + auxiliary_variables_list + auxevol_variables_list
+        ):
+            other = macros.setdefault(gf.upper(), gf)
+            if other != gf:
+                raise ValueError(
+                    f"Gridfunctions {other} and {gf} share the index macro {gf.upper()}GF."
+                )
+
         outstr = f"{define_gfs('EVOL', evolved_variables_list)}"
 
         if evolved_variables_list:
-- 
2.43.0


From 3e8660c8277989c3f84f1a78558e9a391da8f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:02 +0000
Subject: [PATCH 15/62] fix: ETLegacy gridfunctions must reject unknown groups

---
 nrpy/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index d906ca3..265aa67 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -490,6 +490,7 @@ class ETLegacyGridFunction(GridFunction):
             wavespeed,
             is_basename,
         )
+        self.verify_gridfunction_group_is_valid()
         _gf_array_name = gf_array_name
 
     def verify_gridfunction_group_is_valid(self) -> None:
-- 
2.43.0


From b9de29110ca162d90d730353f2f818df69d0e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:10 +0000
Subject: [PATCH 16/62] fix: symmetry axes must only zero derivatives, not
 names containing _d

---
 nrpy/indexedexp.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/nrpy/indexedexp.py b/nrpy/indexedexp.py
index e57bbf6..470e083 100644
--- a/nrpy/indexedexp.py
+++ b/nrpy/indexedexp.py
@@ -5,6 +5,7 @@ Authors: Zachariah Etienne, Kenneth Sible, Steven Brandt
 """
 
 # Step 1: Load needed modules
+import re
 import string
 import sys  # Standard Python module for multiplatform OS-level functions
 from typing import Any, List, Optional, Sequence, Tuple, Union, cast
@@ -546,18 +547,15 @@ def zero_out_derivatives_across_symmetry_axes(
         )
 
     def performs_derivative_across_symmetry_axis(idxobj_str: str) -> bool:
-        if "_d" in idxobj_str:
-            # First we find the order of the derivative:
-            deriv_order = 1
-            for i in range(len(idxobj_str) - 1):
-                if idxobj_str[i : i + 2] == "_d":
-                    # The order of the derivative is given by the number of D's in a row after the _d:
-                    if "DDD" in idxobj_str[i + 2 :]:
-                        raise ValueError(
-                            f"Error. Derivative order > 2 not supported. Failed expression: {idxobj_str}"
-                        )
-                    if "DD" in idxobj_str[i + 2 :]:
-                        deriv_order = 2
+        # Derivatives end in _dD, _dupD, _ddnD or _dKOD (with one D per derivative), then indices.
+        deriv_match = re.search(r"_d(?:up|dn|KO)?(D+)[0-9]+$", idxobj_str)
+        if deriv_match:
+            # The order of the derivative is given by the number of D's:
+            deriv_order = len(deriv_match.group(1))
+            if deriv_order > 2:
+                raise ValueError(
+                    f"Error. Derivative order > 2 not supported. Failed expression: {idxobj_str}"
+                )
             end_idx_of_idxobj_str = len(idxobj_str) - 1
             for j in range(
                 end_idx_of_idxobj_str, end_idx_of_idxobj_str - deriv_order, -1
-- 
2.43.0


From 04e5601d6d1f17932d09c2910b794c514199e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:12 +0000
Subject: [PATCH 17/62] fix: radiation boundary conditions must be finite on
 the z-axis of Cartesian grids

---
 .../CurviBoundaryConditions.py                      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
index 7f7afde..4027460 100644
--- a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
@@ -881,12 +881,19 @@ def setup_Cfunction_r_and_partial_xi_partial_r_derivs(
     REAL *partial_x0_partial_r,REAL *partial_x1_partial_r,REAL *partial_x2_partial_r"""
     rfm = refmetric.reference_metric[CoordSystem]
     # sp.simplify(expr) is too slow here for SinhCylindrical
+    partial_xi_partial_r = [rfm.Jac_dUrfm_dDSphUD[i][0] for i in range(3)]
+    if CoordSystem in ("Cartesian", "SinhCartesian"):
+        # Jac_dUrfm_dDSphUD is 0/0 on the z-axis, which lies on the grid if Nxx0 & Nxx1 are odd.
+        #   Here each x^i depends only on Cartesian coordinate i, so that
+        #   partial_r x^i = (Cart^i / r) / (partial Cart^i / partial x^i).
+        partial_xi_partial_r = [
+            rfm.xx_to_Cart[i] / (rfm.xxSph[0] * rfm.scalefactor_orthog[i])
+            for i in range(3)
+        ]
     body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.Jac_dUrfm_dDSphUD[0][0],
-            rfm.Jac_dUrfm_dDSphUD[1][0],
-            rfm.Jac_dUrfm_dDSphUD[2][0],
+            *partial_xi_partial_r,
         ],
         [
             "*r",
-- 
2.43.0


From e0717d3c33e45225b73c69ced8f0d8ec14b08c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:43 +0000
Subject: [PATCH 18/62] fix: superB MoL must apply boundary conditions in every
 substep of every method

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From f706866e3192873358a571cfd3de2061dc664087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:43 +0000
Subject: [PATCH 19/62] fix: superB Euler stepping must not be unreachable

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index e300ea2..2b52be4 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -700,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += r"""
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -714,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From c4084382a9133cb4275bfbd848032c87f82efd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:43 +0000
Subject: [PATCH 20/62] fix: Euler time stepping needs storage for
 diagnostic_output_gfs2

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..85ac826 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -135,6 +135,9 @@ def generate_gridfunction_names(
                 # Allocate memory for diagonal Butcher tables that aren't Euler
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
+            else:
+                # Euler needs no k_i; k_odd only provides diagnostic_output_gfs2.
+                non_y_n_gridfunctions_list.append("k_odd_gfs")
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
             diagnostic_gridfunctions2_point_to = "k_odd_gfs"
 
-- 
2.43.0


From 3a1458f2b1ed16d983a6d5bd8ba24a9ebeefec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 21/62] fix: command-line parameters must apply whatever the
 parameter file contains

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..9736ba0 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -598,8 +598,10 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             fprintf(stderr, "Error: Unknown parameter index for %s.\n", param_name);
             exit(1);
         }
+      }
     }
-}
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
 
     // Handling options 3 and 4: Overwriting steerable parameters
     if (option == 3 || option == 4) {
@@ -624,8 +626,6 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     body += steerable_body
     body += """
     } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From 5b77354cbabb1742460344d8e117d9689f00a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 22/62] fix: boolean parameters must be read from parameter
 files

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 9736ba0..5d852c7 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_BOOL, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -568,6 +571,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 847e9c3a77cd5538fb45aa5cc65b9234dbf0e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 23/62] fix: integer parameters out of range must be rejected,
 not truncated

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 5d852c7..b2acc92 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -323,7 +323,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -644,6 +644,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From 42b4fb59c3d8871282ede524373769d9f6ac7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 24/62] fix: parameter file parsing must stay within its
 buffers

---
 .../BHaH/cmdline_input_and_parfiles.py        | 60 +++++++++----------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index b2acc92..bfa8358 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -259,12 +259,13 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
       fprintf(stderr, "Error: Missing closing bracket in parameter %s.\n", param_str);
       exit(1);
     }
-    char size_str[16];
-    size_t size_len = bracket_end - bracket_start - 1;
-    strncpy(size_str, bracket_start + 1, size_len);
-    size_str[size_len] = '\0';
-    *array_size = atoi(size_str);
-    if (*array_size <= 0) {
+    char *size_end;
+    const long size = strtol(bracket_start + 1, &size_end, 10);
+    while (isspace((unsigned char)*size_end))
+      size_end++;
+    *array_size = (int)size;
+    // The size must be all there is between the brackets, and the brackets must end the parameter.
+    if (size <= 0 || size > MAX_ARRAY_SIZE || size_end != bracket_end || bracket_end[1] != '\0') {
       fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
       exit(1);
     }
@@ -276,7 +277,7 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
 }
 
 // Function to parse value string into array of values
-static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *value_count) {
+static void parse_value(const char *value_str, char values[][LINE_SIZE], int *value_count) {
   if (value_str[0] == '{') {
     // Array value
     size_t len = strlen(value_str);
@@ -288,27 +289,28 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char value_copy[LINE_SIZE];
     safe_copy(value_copy, value_str + 1, LINE_SIZE); // Skip the opening brace
     value_copy[len - 2] = '\0';                      // Remove the closing brace
-    // Now split value_copy by ','
-    char *val_token;
+    // Now split value_copy by ','; empty elements are kept, so that they are rejected when read.
+    char *val_token = value_copy;
     int count = 0;
-    char *saveptr;
-    val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
-      val_token = strtok_r(NULL, ",", &saveptr);
+      char *comma = strchr(val_token, ',');
+      if (comma != NULL)
+        *comma = '\0';
+      safe_copy(values[count], trim_space(val_token), LINE_SIZE);
+      count++;
+      val_token = (comma != NULL) ? comma + 1 : NULL;
     }
     *value_count = count;
   } else {
     // Scalar value
-    char mutable_value[PARAM_SIZE];
-    safe_copy(mutable_value, value_str, PARAM_SIZE);
+    char mutable_value[LINE_SIZE];
+    safe_copy(mutable_value, value_str, LINE_SIZE);
     char *trimmed = trim_space(mutable_value);
-    safe_copy(values[0], trimmed, PARAM_SIZE);
+    safe_copy(values[0], trimmed, LINE_SIZE);
     *value_count = 1;
   }
 }
@@ -355,23 +357,17 @@ static void read_REAL(const char *value, REAL *result, const char *param_name) {
 static void read_chararray(const char *value, char *result, const char *param_name, size_t size) {
   // Remove surrounding quotes if present
   size_t len = strlen(value);
-  char trimmed_value[PARAM_SIZE];
-  if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
-      fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
-      exit(1);
-    }
-    strncpy(trimmed_value, value + 1, len - 2);
-    trimmed_value[len - 2] = '\0';
-  } else {
-    safe_copy(trimmed_value, value, PARAM_SIZE);
+  if (len >= 2 && value[0] == '"' && value[len - 1] == '"') {
+    value++;
+    len -= 2;
   }
 
-  if (strlen(trimmed_value) >= size) {
+  if (len >= size) {
     fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
     exit(1);
   }
-  safe_copy(result, trimmed_value, size);
+  memcpy(result, value, len);
+  result[len] = '\0';
 }
 """
 
@@ -469,7 +465,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE];
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
@@ -501,7 +497,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
         }}
 
         // Parse the value string into individual values.
-        char values_array[MAX_ARRAY_SIZE][PARAM_SIZE];
+        char values_array[MAX_ARRAY_SIZE][LINE_SIZE];
         int value_count = 0;
         parse_value(value, values_array, &value_count);
 
-- 
2.43.0


From 263b2af1d3687cb4a90a31bb80a2895fb13cacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:48 +0000
Subject: [PATCH 25/62] fix: parameter files must not silently misread
 malformed lines or quoted strings

---
 .../BHaH/cmdline_input_and_parfiles.py        | 90 +++++++++++++------
 1 file changed, 65 insertions(+), 25 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index bfa8358..11396b8 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -5,6 +5,7 @@ Author: Zachariah B. Etienne
         zachetie **at** gmail **dot* com
 """
 
+import re
 from collections import defaultdict
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Union
@@ -355,18 +356,24 @@ static void read_REAL(const char *value, REAL *result, const char *param_name) {
         prefunc += r"""
 // Function to read a character array
 static void read_chararray(const char *value, char *result, const char *param_name, size_t size) {
-  // Remove surrounding quotes if present
-  size_t len = strlen(value);
-  if (len >= 2 && value[0] == '"' && value[len - 1] == '"') {
+  // Remove surrounding quotes if present; within them \" and \\ stand for " and backslash.
+  const bool quoted = (value[0] == '"');
+  if (quoted)
     value++;
-    len -= 2;
+  size_t len = 0;
+  for (; *value != '\0' && !(quoted && *value == '"'); value++) {
+    if (quoted && *value == '\\' && (value[1] == '"' || value[1] == '\\'))
+      value++;
+    if (len + 1 >= size) {
+      fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
+      exit(1);
+    }
+    result[len++] = *value;
   }
-
-  if (len >= size) {
-    fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
+  if (quoted && (value[0] != '"' || value[1] != '\0')) {
+    fprintf(stderr, "Error: Mismatched quotes in value of %s.\n", param_name);
     exit(1);
   }
-  memcpy(result, value, len);
   result[len] = '\0';
 }
 """
@@ -470,19 +477,40 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   // Iterate through each line of the parameter file.
   while (fgets(line, sizeof(line), file)) {{
-    // Remove comments from the line.
-    char *comment_start = strchr(line, '#');
-    if (comment_start != NULL) {{
-      *comment_start = '\0';
+    if (strchr(line, '\n') == NULL && !feof(file)) {{
+      fprintf(stderr, "Error: Line too long in parameter file %s.\n", filename);
+      exit(1);
+    }}
+
+    // Remove comments from the line. A '#' within a quoted string does not start a comment.
+    bool in_quotes = false;
+    for (char *c = line; *c != '\0'; c++) {{
+      if (in_quotes && *c == '\\' && (c[1] == '"' || c[1] == '\\')) {{
+        c++;
+      }} else if (*c == '"') {{
+        in_quotes = !in_quotes;
+      }} else if (*c == '#' && !in_quotes) {{
+        *c = '\0';
+        break;
+      }}
     }}
 
-    // Split the line into parameter and value based on '=' delimiter.
-    char *p = strtok(line, "=");
-    if (p) {{
+    // Split the line into parameter and value at the first '='.
+    char *p = trim_space(line);
+    if (*p != '\0') {{
+      char *equals_sign = strchr(p, '=');
+      if (equals_sign == NULL) {{
+        fprintf(stderr, "Error: Missing '=' in parameter file line: %s\n", p);
+        exit(1);
+      }}
+      *equals_sign = '\0';
       safe_copy(param, trim_space(p), sizeof(param));
-      p = strtok(NULL, "=");
-      if (p) {{
-        safe_copy(value, trim_space(p), sizeof(value));
+      p = trim_space(equals_sign + 1);
+      if (param[0] == '\0' || *p == '\0') {{
+        fprintf(stderr, "Error: Missing name or value in parameter file line: %s = %s\n", param, p);
+        exit(1);
+      }} else {{
+        safe_copy(value, p, sizeof(value));
 
         char param_name[PARAM_SIZE];
         int array_size = 0;
@@ -798,7 +826,8 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         if CodeParam.commondata and CodeParam.add_to_parfile:
             CPtype = CodeParam.cparam_type
             array_info = parse_array_type(CPtype)
-            description = CodeParam.description.strip()
+            # The description is a comment: it must stay on one line.
+            description = CodeParam.description.strip().replace("\n", " ")
             description_suffix = f" {description}" if description else ""
             if array_info:
                 base_type = array_info["base_type"].lower()
@@ -830,8 +859,10 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
                         raise ValueError(
                             f"Default value for char array parameter '{parname}' must be a string."
                         )
-                    # Escape double quotes in the default value
-                    escaped_default_val = default_val.replace('"', '\\"')
+                    # Escape backslashes and double quotes in the default value
+                    escaped_default_val = default_val.replace("\\", "\\\\").replace(
+                        '"', '\\"'
+                    )
                     # Wrap the default value in quotes
                     default_val_formatted = f'"{escaped_default_val}"'
                     display_type = "char"
@@ -847,8 +878,10 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
                         raise ValueError(
                             f"Default value for char parameter '{parname}' must be a string."
                         )
-                    # Escape double quotes in the default value
-                    escaped_default_val = CodeParam.defaultvalue.replace('"', '\\"')
+                    # Escape backslashes and double quotes in the default value
+                    escaped_default_val = CodeParam.defaultvalue.replace(
+                        "\\", "\\\\"
+                    ).replace('"', '\\"')
                     # Wrap the default value in quotes
                     default_val_formatted = f'"{escaped_default_val}"'
                     parfile_output_dict[CodeParam.module].append(
@@ -873,9 +906,16 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
 
     def align_by_hash(original_string: str) -> str:
         lines = original_string.split("\n")
+
+        def find_comment(line: str) -> int:
+            # Mask quoted strings, in which a "#" does not start a comment.
+            return re.sub(
+                r'"(\\.|[^"\\])*"', lambda m: " " * len(m.group()), line
+            ).find("#")
+
         max_length = max(
             (
-                line.find("#")
+                find_comment(line)
                 for line in lines
                 if "#" in line and not line.strip().startswith("#")
             ),
@@ -885,7 +925,7 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         adjusted_lines = []
         for line in lines:
             if "#" in line and not line.strip().startswith("#"):
-                index = line.find("#")
+                index = find_comment(line)
                 spaces_needed = max_length - index
                 if spaces_needed > 0:
                     adjusted_line = line[:index] + " " * spaces_needed + line[index:]
-- 
2.43.0


From 89a272a865f1d24163eccaf7d003bd4b53204ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 26/62] fix: default strings must be set exactly as registered

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index ddf7508..551fe09 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -100,7 +100,14 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     defaultval = CodeParam.defaultvalue
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
-                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{defaultval}");{comment}\n'
+                        # The default is a C string literal and an snprintf format.
+                        escaped_defaultval = (
+                            str(defaultval)
+                            .replace("\\", "\\\\")
+                            .replace('"', '\\"')
+                            .replace("%", "%%")
+                        )
+                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{escaped_defaultval}");{comment}\n'
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-- 
2.43.0


From abd4ca25018eeae3a49ee7d91518e44766a4b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:07 +0000
Subject: [PATCH 27/62] fix: REAL defaults given as C expressions must keep
 their case

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index 551fe09..86eeacd 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -98,6 +98,12 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     CPtype = CodeParam.cparam_type
                     comment = f"  // {CodeParam.module}::{parname}"
                     defaultval = CodeParam.defaultvalue
+                    # In C, booleans are lower case; other values keep theirs (e.g., M_PI).
+                    c_defaultval = (
+                        str(defaultval).lower()
+                        if isinstance(defaultval, bool)
+                        else str(defaultval)
+                    )
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
                         # The default is a C string literal and an snprintf format.
@@ -111,11 +117,11 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {str(defaultval).lower()}; }}{comment}\n"
+                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {c_defaultval}; }}{comment}\n"
                     elif isinstance(defaultval, (bool, int, float)) or (
                         CPtype == "REAL" and isinstance(defaultval, str)
                     ):
-                        c_output = f"{struct}->{parname} = {str(defaultval).lower()};{comment}\n"
+                        c_output = f"{struct}->{parname} = {c_defaultval};{comment}\n"
                     else:
                         raise ValueError(
                             f"{CodeParam.defaultvalue} is not a valid default value type ({type(CodeParam.defaultvalue)}), for parameter {CodeParam.module}::{parname}, commondata = {CodeParam.commondata}"
-- 
2.43.0


From 4c8aebb7a656b74e7ec6b6bab1a133781a96b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:41 +0000
Subject: [PATCH 28/62] fix: multi-line parameter descriptions must not break
 the generated structs

---
 nrpy/infrastructures/BHaH/BHaH_defines_h.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/BHaH_defines_h.py b/nrpy/infrastructures/BHaH/BHaH_defines_h.py
index 826cae9..6f94410 100644
--- a/nrpy/infrastructures/BHaH/BHaH_defines_h.py
+++ b/nrpy/infrastructures/BHaH/BHaH_defines_h.py
@@ -277,7 +277,8 @@ def output_BHaH_defines_h(
         CPtype = CodeParam.cparam_type
         if CPtype != "#define":
             # All CodeParams have a description field
-            description = CodeParam.description.strip()
+            # The description becomes a one-line comment
+            description = CodeParam.description.strip().replace("\n", " ")
             module = CodeParam.module
             c_declaration = format_c_declaration(CPtype, CPname, module, description)
             # Append c_declaration to the appropriate structure: commondata or params
-- 
2.43.0


From 16a3bee11e4818ba32deda518527d64cbeb35189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:43 +0000
Subject: [PATCH 29/62] fix: incomplete checkpoints must be rejected, not read
 as data

---
 nrpy/infrastructures/BHaH/checkpointing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..b7e7917 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,13 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+// An incomplete checkpoint must not be mistaken for data.
+#define FREAD(ptr, size, nmemb, stream) { \
+    if(fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) { \
+      fprintf(stderr, "Error: checkpoint file %s is incomplete.\n", filename); \
+      exit(1); \
+    } \
+  }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
@@ -45,6 +51,10 @@ def register_CFunction_read_checkpoint(
     return 0;
 
   FILE *cp_file = fopen(filename, "r");
+  if (cp_file == NULL) {
+    fprintf(stderr, "Error: could not open checkpoint file %s.\n", filename);
+    exit(1);
+  }
   FREAD(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
-- 
2.43.0


From a9a37e6a68b7a50d38afb91e866b1d93397ccc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:43 +0000
Subject: [PATCH 30/62] fix: a crash while writing a checkpoint must not lose
 the previous one

---
 nrpy/infrastructures/BHaH/checkpointing.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index b7e7917..24edfd3 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -137,7 +137,7 @@ def register_CFunction_write_checkpoint(
     par.register_CodeParameter(
         "REAL", __name__, "checkpoint_every", default_checkpoint_every, commondata=True
     )
-    includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
+    includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     desc = "Write a checkpoint file"
     cfunc_type = "void"
     name = "write_checkpoint"
@@ -153,7 +153,14 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
+  // Write to a temporary file & rename it once complete, so that the previous checkpoint survives an interrupted or failed write.
+  char tmp_filename[264];
+  snprintf(tmp_filename, 264, "%s.tmp", filename);
+  FILE *cp_file = fopen(tmp_filename, "w+");
+  if (cp_file == NULL) {
+    fprintf(stderr, "WARNING: could not open %s; no checkpoint written.\n", tmp_filename);
+    return;
+  }
   fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -204,7 +211,13 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
+  bool write_failed = fflush(cp_file) != 0 || ferror(cp_file) || fsync(fileno(cp_file)) != 0;
+  write_failed = fclose(cp_file) != 0 || write_failed;
+  if (write_failed || rename(tmp_filename, filename) != 0) {
+    fprintf(stderr, "WARNING: could not write checkpoint %s.\n", filename);
+    remove(tmp_filename);
+    return;
+  }
   fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
-- 
2.43.0


From d74c40c226fc322d792decba28014cd0fbf28beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 31/62] fix: psi4 decomposition threads must not all write
 ph_array

Every thread of the parallel loop over theta stored the whole phi array, a data race.
---
 .../BHaH/general_relativity/BSSN_C_codegen_library.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
index da906e7..8cb489a 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
@@ -968,13 +968,12 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
       }
 
       // Step 2.b: Compute psi_4 at this extraction radius and store to a local 2D array.
+      for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) ph_array[i2-NGHOSTS] = xx[2][i2];
 #pragma omp parallel for
       for(int i1=NGHOSTS;i1<Nxx_plus_2NGHOSTS1-NGHOSTS;i1++) {
         th_array[i1-NGHOSTS]    =     xx[1][i1];
         sinth_array[i1-NGHOSTS] = sin(xx[1][i1]);
         for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) {
-          ph_array[i2-NGHOSTS] = xx[2][i2];
-
           REAL sum_psi4r=0;
           REAL sum_psi4i=0;
           // Perform radial interpolation to get psi4 at desired extraction radius R_ext.
-- 
2.43.0


From 366a06bf38c4d4c07776c51c122fad6becfc2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:33 +0000
Subject: [PATCH 32/62] fix: CoordSystem wrappers must pass on every argument

Parameters between two function parameters were dropped from the call, function pointers lost
their name, and array sizes with lower-case names or arithmetic were passed on as part of it.
---
 nrpy/infrastructures/BHaH/rfm_wrapper_functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
index c78f4e2..5b38898 100644
--- a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
+++ b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
@@ -72,11 +72,16 @@ def register_CFunctions_CoordSystem_wrapper_funcs() -> None:
         # Remove multiple spaces to tidy up the line a little.
         params = " ".join(params.split())
         # Case: functions passed to function.
-        # Remove all function arguments. E.g., void f(REAL x) -> void f.
-        params = re.sub("\\(.*\\)", "", params)
+        # Remove all function arguments. E.g., void f(REAL x) -> void f,
+        # and void (*f)(REAL x) -> void f.
+        params = re.sub(r"\(\s*\*\s*(\w+)\s*\)", r" \1", params)
+        while "(" in params:
+            params, num_removed = re.subn(r"\([^()]*\)", "", params)
+            if not num_removed:
+                break
         # Case: fixed-size arrays.
         # Remove size. E.g., const REAL xx[3] -> const REAL xx.
-        params = re.sub("\\[[0-9A-Z_]*\\]", "", params)
+        params = re.sub(r"\[[^\]]*\]", "", params)
         # Remove pointers, which might brush against variable name.
         params_sanitized = params.replace("*", " ")
         params = ""
-- 
2.43.0


From cd7209b2f42acd8082f0bb7668ad77f9dd9c3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:33 +0000
Subject: [PATCH 33/62] fix: wrappers belong in the subdirectory they were
 registered for

A subdirectory whose own name contains the coordinate system's name was rewritten.
---
 nrpy/infrastructures/BHaH/rfm_wrapper_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
index 5b38898..ee6493e 100644
--- a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
+++ b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
@@ -6,6 +6,7 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import re
 from typing import Dict, List
 
@@ -64,7 +65,8 @@ def register_CFunctions_CoordSystem_wrapper_funcs() -> None:
                 CoordSystem = CFunc.CoordSystem_for_wrapper_func
                 CoordSystem_hash_dict[CoordSystem] = get_CoordSystem_hash(CoordSystem)
                 list_of_CoordSystems += [CoordSystem]
-                wrapper_subdir = CFunc.subdirectory.replace(CoordSystem, "")
+                # CFunc.subdirectory is [subdirectory]/[CoordSystem].
+                wrapper_subdir = os.path.dirname(CFunc.subdirectory)
 
         # Construct function call:
         # Remove linebreaks from params
-- 
2.43.0


From 47e6321b9062f14b6cad51b4e5dce3547741462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:33 +0000
Subject: [PATCH 34/62] fix: Makefile object names must only differ from the
 sources in their suffix

A subdirectory such as v1.core became v1.oore, so that make found no rule for its objects.
---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 902f91d..9603f4f 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -154,7 +154,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     # Object files
     OBJ_FILES_str = "OBJ_FILES = " + " ".join(
-        c_file.replace(f".{src_code_file_ext}", ".o")
+        f"{c_file[:-len(src_code_file_ext)]}o"
         for c_file in sorted(Makefile_list_of_files, key=str.lower)
     )
 
-- 
2.43.0


From aaf43f4fc6d141248f991aa27614a4b143912fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:14 +0000
Subject: [PATCH 35/62] fix: SIMD kernels without gridfunctions must not hide
 their results in braces

With enable_fd_codegen, expressions that read no gridfunction were evaluated in a nested block,
and the stores after it used variables of that block.
---
 nrpy/c_codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index efe92cb..c793c9c 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -1021,6 +1021,8 @@ def gridfunction_management_and_FD_codegen(
 
     # Copy kwargs
     kwargs_FDPart1 = kwargs.copy()
+    # Braces are added by the caller; they must not hide the results written to memory below.
+    kwargs_FDPart1["include_braces"] = False
     if len(read_from_memory_Ccode) > 0:
         Coutput += f"""/*\n * NRPy+-Generated GF Access/FD Code, Step {NRPy_FD_StepNumber} of {NRPy_FD__Number_of_Steps}:
  * Read gridfunction(s) from main memory and compute FD stencils as needed.\n */
@@ -1032,7 +1034,6 @@ def gridfunction_management_and_FD_codegen(
             {
                 "cse_varprefix": "FDPart1",
                 "verbose": False,
-                "include_braces": False,
                 "enable_cse_preprocess": False,
                 "simd_find_more_subs": False,
                 "automatically_read_gf_data_from_memory": False,
-- 
2.43.0


From c38854d2e20c969c54ca1d58238b83f358931c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 36/62] fix: balance the braces of Cart_to_xx relative to the
 global grid center

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From 6fceeeaa7faecf481a493139820220f4ea3c8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 37/62] fix: refuse a Cartesian-to-xx function where the
 coordinate system has no such map

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 6199a59..719b48d 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -31,7 +31,7 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
                         (default) or "global_grid_center".
     :param gridding_approach: Choices: "independent grid(s)" (default) or "multipatch".
     :raises ValueError: When the value of `gridding_approach` is not "independent grid(s)"
-                        or "multipatch".
+                        or "multipatch", or when `CoordSystem` has no Cartesian-to-xx map.
     """
     if gridding_approach not in {"independent grid(s)", "multipatch"}:
         raise ValueError(
@@ -39,6 +39,10 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
         )
 
     rfm = refmetric.reference_metric[CoordSystem]
+    if any(Cart_to_xx == 0 for Cart_to_xx in rfm.Cart_to_xx):
+        raise ValueError(
+            f"rfm.Cart_to_xx[], which maps Cartesian -> xx, has not been set for CoordSystem = {CoordSystem}."
+        )
     prefunc = ""
     desc = "Given Cartesian point (x,y,z), this function "
     if gridding_approach == "multipatch":
-- 
2.43.0


From 091bf215350460f2c502218d34f8a9cf96460a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:03 +0000
Subject: [PATCH 38/62] fix: keep roundoff from turning prolate spheroidal
 Cart_to_xx into NaN on the equator

---
 nrpy/reference_metric.py | 74 +++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/nrpy/reference_metric.py b/nrpy/reference_metric.py
index 1e59528..9454072 100644
--- a/nrpy/reference_metric.py
+++ b/nrpy/reference_metric.py
@@ -1160,32 +1160,37 @@ class ReferenceMetric:
             #                   {x1, x2, x3}]
             self.Cart_to_xx[0] = (
                 sp.sqrt(
-                    -(bScale**2)
-                    + rSph**2
-                    + sp.sqrt(
-                        bScale**4
-                        + 2 * bScale**2 * rSph**2
-                        + rSph**4
-                        - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                    sp.Abs(
+                        -(bScale**2)
+                        + rSph**2
+                        + sp.sqrt(
+                            bScale**4
+                            + 2 * bScale**2 * rSph**2
+                            + rSph**4
+                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        )
                     )
                 )
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # The sign() function in the following expression ensures the correct root is taken,
+            #   and Abs() keeps roundoff (e.g., on the equator) from making the root's argument negative.
             self.Cart_to_xx[1] = sp.acos(
                 sp.sign(self.Cartz)
                 * (
                     sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        sp.Abs(
+                            1
+                            + rSph**2 / bScale**2
+                            - sp.sqrt(
+                                bScale**4
+                                + 2 * bScale**2 * rSph**2
+                                + rSph**4
+                                - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                            )
+                            / bScale**2
                         )
-                        / bScale**2
                     )
                     * SQRT1_2
                 )
@@ -1209,32 +1214,37 @@ class ReferenceMetric:
             #                   {x1, x2, x3}]
             self.Cart_to_xx[0] = (
                 sp.sqrt(
-                    -(bScale**2)
-                    + rSph**2
-                    + sp.sqrt(
-                        bScale**4
-                        + 2 * bScale**2 * rSph**2
-                        + rSph**4
-                        - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                    sp.Abs(
+                        -(bScale**2)
+                        + rSph**2
+                        + sp.sqrt(
+                            bScale**4
+                            + 2 * bScale**2 * rSph**2
+                            + rSph**4
+                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        )
                     )
                 )
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # The sign() function in the following expression ensures the correct root is taken,
+            #   and Abs() keeps roundoff (e.g., on the equator) from making the root's argument negative.
             self.Cart_to_xx[1] = sp.acos(
                 sp.sign(self.Cartz)
                 * (
                     sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        sp.Abs(
+                            1
+                            + rSph**2 / bScale**2
+                            - sp.sqrt(
+                                bScale**4
+                                + 2 * bScale**2 * rSph**2
+                                + rSph**4
+                                - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                            )
+                            / bScale**2
                         )
-                        / bScale**2
                     )
                     * SQRT1_2
                 )
-- 
2.43.0


From 9d90fe246eee71b89b028fd3005e6c7402dc5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 39/62] fix: 1D diagnostics without points on the axis must not
 write to empty index arrays

---
 nrpy/infrastructures/BHaH/simple_loop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..a4ea79f 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -356,10 +356,9 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
+        elif numpts == [0, 0, 0]:
+            if i == 0:
+                out_string += f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From 99d2641a722970be2361853c8a5e9192011dc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:21 +0000
Subject: [PATCH 40/62] fix: NaN must not count as agreeing with anything in
 expression validation

---
 nrpy/validate_expressions/validate_expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/validate_expressions/validate_expressions.py b/nrpy/validate_expressions/validate_expressions.py
index 6ad3567..31f2ca1 100644
--- a/nrpy/validate_expressions/validate_expressions.py
+++ b/nrpy/validate_expressions/validate_expressions.py
@@ -97,7 +97,8 @@ def assert_equal(
         tolerance = 10 ** (-4.0 / 5.0 * precision)
         abs_diff = fabs(vardict_1_results_dict[var_1] - vardict_2_results_dict[var_2])
         avg = (vardict_1_results_dict[var_1] + vardict_2_results_dict[var_2]) / 2
-        if abs_diff > fabs(avg) * tolerance:
+        # "not <=" instead of ">", so that NaN (unequal to everything) is an error as well.
+        if not abs_diff <= fabs(avg) * tolerance:
             print(f"Error on {var_1}: {abs_diff} > {fabs(avg) * tolerance}")
             raise AssertionError
 
@@ -422,7 +423,8 @@ def compare_against_trusted(
         # We compare relative error here. Pass if abs_diff <= |trusted value| * tolerance
         tolerance = 10 ** (-4.0 / 5.0 * mp.dps)
         abs_diff = results_dict[key] - mpc(trusted_results_dict[key])
-        if fabs(abs_diff) > fabs(mpc(trusted_results_dict[key])) * tolerance:
+        # "not <=" instead of ">", so that a NaN result is a failure as well.
+        if not fabs(abs_diff) <= fabs(mpc(trusted_results_dict[key])) * tolerance:
             raise ValueError(
                 "\n*** FAILURE ***\n"
                 f"****{key}**** mismatch in {trusted_file_basename}! {fabs(abs_diff)} >= {fabs(mpc(trusted_results_dict[key]))} * {tolerance} disagreement\n"
-- 
2.43.0


From 423ba93133083b9c9dfb013eee03e8a95a0e3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 41/62] fix: CarpetX rhs_eval must validate its expressions
 only when asked to

---
 .../CarpetX/general_relativity/rhs_eval.py        | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..0a9f584 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -324,19 +324,10 @@ def register_CFunction_rhs_eval(
         betaU[i] = vetU[i] * rfm.ReU[i]
 
     # Perform validation of BSSN_RHSs against trusted version.
-    results_dictionary = ve.process_dictionary_of_expressions(
-        local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
-    )
     if validate_expressions:
-        return results_dictionary
-    ve.compare_or_generate_trusted_results(
-        os.path.abspath(__file__),
-        os.getcwd(),
-        # File basename. If this is set to "trusted_module_test1", then
-        #   trusted results_dict will be stored in tests/trusted_module_test1.py
-        f"{os.path.splitext(os.path.basename(__file__))[0]}_{LapseEvolutionOption}_{ShiftEvolutionOption}_{CoordSystem}_T4munu{enable_T4munu}_KO{enable_KreissOliger_dissipation}_improvements{enable_SSL}",
-        results_dictionary,
-    )
+        return ve.process_dictionary_of_expressions(
+            local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
+        )
 
     body += lp.simple_loop(
         loop_body=ccg.c_codegen(
-- 
2.43.0


From f4e521e70d64f00e535cb2ed43f86a22f8a47624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 42/62] fix: CarpetX rhs_eval generates compilable CAHD and SSL
 prefactors

---
 .../CarpetX/general_relativity/rhs_eval.py    | 79 +++++++++++++------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 0a9f584..6399b0b 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -110,21 +110,6 @@ def register_CFunction_rhs_eval(
             body += f"""
   const CCTK_REAL *param_diss_strength CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("diss_strength", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY diss_strength CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_diss_strength);
-"""
-        if enable_CAHD:
-            body += f"""
-  const CCTK_REAL *param_C_CAHD CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("C_CAHD", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY C_CAHD CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_C_CAHD);
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = MulSIMD(C_CAHD, MulSIMD(,));
-"""
-        if enable_SSL:
-            body += f"""
-    const CCTK_REAL *SSL_h CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_h", "{thorn_name}", NULL);
-    const CCTK_REAL *SSL_sigma CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_sigma", "{thorn_name}", NULL);
-
-    const CCTK_REAL noSIMD_SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = *SSL_h * exp(-CCTK_TIME * CCTK_TIME / (2 * (*SSL_sigma) * (*SSL_sigma)));
-    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*noSIMD_SSL_Gaussian_prefactor);
 """
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
@@ -133,15 +118,6 @@ def register_CFunction_rhs_eval(
   DECLARE_CCTK_PARAMETERS;
 
   #define UPWIND_ALG(UpwindVecU) UpwindVecU > 0.0 ? 1.0 : 0.0
-"""
-        if enable_CAHD:
-            body += """
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const CCTK_REAL cahdprefactor = C_CAHD * ;
-"""
-        if enable_SSL:
-            body += """
-  const CCTK_REAL SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = SSL_h * exp(-CCTK_TIME * CCTK_TIME / (2 * (SSL_sigma) * (SSL_sigma)));
 """
     rhs = BSSN_RHSs[
         CoordSystem
@@ -259,9 +235,47 @@ def register_CFunction_rhs_eval(
             + ("_RbarDD_gridfunctions" if enable_RbarDD_gridfunctions else "")
             + ("_T4munu" if enable_T4munu else "")
         ]
-        _C_CAHD = par.register_CodeParameter(
-            "REAL", __name__, "C_CAHD", 0.15, commondata=True, add_to_parfile=True
+        _C_CAHD, _CFL_FACTOR__ignore_repeats_Carpet_timeref_factors = (
+            par.register_CodeParameters(
+                "REAL",
+                __name__,
+                [
+                    "C_CAHD",
+                    "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
+                ],
+                [
+                    0.15,
+                    0.5,
+                ],
+                commondata=True,
+                add_to_parfile=True,
+            )
         )
+        body += """
+#ifndef MIN
+#define MIN(A, B) ( ((A) < (B)) ? (A) : (B) )
+#endif
+  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
+  // Original prescription: -dt * (orig_C_H * dsmin / dt * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * H / 4
+  // New prescription: cancel the dt's, set orig_C_H/4 = C_CAHD ->
+  // -C_CAHD * dsmin * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * H ,
+  // where CFL_FACTOR is most typically 0.45 or 0.5, and C_CAHD = 0.15 = orig_C_H / 4 = 0.6 / 4
+  // Thus, New & Original prescriptions are the same, just with some redefinitions.
+  const CCTK_REAL dsmin CCTK_ATTRIBUTE_UNUSED = MIN(CCTK_DELTA_SPACE(0),MIN(CCTK_DELTA_SPACE(1),CCTK_DELTA_SPACE(2)));
+"""
+        if enable_simd:
+            body += f"""
+  const CCTK_REAL *param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors =
+  CCTK_ParameterGet("CFL_FACTOR__ignore_repeats_Carpet_timeref_factors", "{thorn_name}", NULL);
+  const CCTK_REAL *param_C_CAHD CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("C_CAHD", "{thorn_name}", NULL);
+  const CCTK_REAL cahdprefactor_NOSIMD = (*param_C_CAHD) * (*param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * dsmin;
+  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(cahdprefactor_NOSIMD);
+"""
+        else:
+            body += """
+  const CCTK_REAL cahdprefactor CCTK_ATTRIBUTE_UNUSED = C_CAHD * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors * dsmin;
+"""
+
         # Initialize CAHD_term assuming phi is the evolved conformal factor. CFL_FACTOR is defined in MoL.
         # CAHD_term = -C_CAHD * (sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")) * Bcon.H
         # -> cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
@@ -299,6 +313,19 @@ def register_CFunction_rhs_eval(
             commondata=True,
             add_to_parfile=True,
         )
+        if enable_simd:
+            body += f"""
+    const CCTK_REAL *param_SSL_h CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_h", "{thorn_name}", NULL);
+    const CCTK_REAL *param_SSL_sigma CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_sigma", "{thorn_name}", NULL);
+
+    const CCTK_REAL NOSIMD_SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = *param_SSL_h * exp(-cctk_time * cctk_time / (2 * (*param_SSL_sigma) * (*param_SSL_sigma)));
+    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(NOSIMD_SSL_Gaussian_prefactor);
+"""
+        else:
+            body += """
+  const CCTK_REAL SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = SSL_h * exp(-cctk_time * cctk_time / (2 * (SSL_sigma) * (SSL_sigma)));
+"""
+
         local_BSSN_RHSs_varname_to_expr_dict["alpha_rhs"] -= (
             W * SSL_Gaussian_prefactor * (Bq.alpha - W)
         )
-- 
2.43.0


From a32a615cfd4787f1de9b98839151de0adb564c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 43/62] fix: thorns declare and read the parameter PI exactly
 when they have matter terms

---
 .../CarpetX/general_relativity/rhs_eval.py                | 2 +-
 .../ETLegacy/general_relativity/BSSN_constraints.py       | 7 ++++---
 .../ETLegacy/general_relativity/rhs_eval.py               | 8 +++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 6399b0b..95866dd 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -394,7 +394,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 3cb2fbf..25faaf4 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -61,13 +61,14 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTS_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-
 """
     else:
         body += """  DECLARE_CCTK_PARAMETERS;
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 4666531..51683a1 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -98,10 +98,12 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
     else:
         body += """
@@ -408,7 +410,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
-- 
2.43.0


From fd5f28e37b83a869c6df8739947ec5a637585d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 44/62] fix: ETLegacy BSSN_constraints without SIMD defines the
 inverse grid spacings it uses

---
 .../ETLegacy/general_relativity/BSSN_constraints.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 25faaf4..6b6e02b 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -71,7 +71,10 @@ def register_CFunction_BSSN_constraints(
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
-- 
2.43.0


From e772aaaf258418b7a8b370e0cf6cdae85a82ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 45/62] fix: BSSN thorns without Kreiss-Oliger dissipation must
 not list its unregistered parameters

---
 .../CarpetX/general_relativity/rhs_eval.py               | 9 +++++----
 .../ETLegacy/general_relativity/rhs_eval.py              | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 95866dd..8ac2ac2 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -383,10 +383,11 @@ if(FD_order == {fd_order}) {{
 """
 
     params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 51683a1..bf77743 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -399,10 +399,11 @@ if(FD_order == {fd_order}) {{
 """
 
     params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
-- 
2.43.0


From e4cf10bd7fcecdba8638c6fbe2382a48c3fa6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 46/62] fix: schedule.ccl of a thorn without scheduled
 functions

---
 nrpy/infrastructures/CarpetX/schedule_ccl.py  | 8 ++++----
 nrpy/infrastructures/ETLegacy/schedule_ccl.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/schedule_ccl.py b/nrpy/infrastructures/CarpetX/schedule_ccl.py
index 8c4dd0e..6feacc0 100644
--- a/nrpy/infrastructures/CarpetX/schedule_ccl.py
+++ b/nrpy/infrastructures/CarpetX/schedule_ccl.py
@@ -80,9 +80,9 @@ def construct_schedule_ccl(
             )
     if extra_schedule_bins_entries:
         for schedule_bin, entry in extra_schedule_bins_entries:
-            schedule_ccl_dict[thorn_name] += [
+            schedule_ccl_dict.setdefault(thorn_name, []).append(
                 ScheduleCCL(function_name="", schedule_bin=schedule_bin, entry=entry)
-            ]
+            )
 
     step = 1
     for schedule_bin in [
@@ -93,7 +93,7 @@ def construct_schedule_ccl(
         "ODESolvers_PostStep",
     ]:
         already_output_header = False
-        for sccl in schedule_ccl_dict[thorn_name]:
+        for sccl in schedule_ccl_dict.get(thorn_name, []):
             if (
                 sccl.schedule_bin.upper() == schedule_bin.upper()
                 and not sccl.has_been_output
@@ -107,7 +107,7 @@ def construct_schedule_ccl(
                 outstr += sccl.entry.replace("FUNC_NAME", sccl.function_name)
                 sccl.has_been_output = True
 
-    for sccl in schedule_ccl_dict[thorn_name]:
+    for sccl in schedule_ccl_dict.get(thorn_name, []):
         if not sccl.has_been_output:
             outstr += f"""\n##################################################
 # Step {step}: Schedule functions in the remaining scheduling bins.
diff --git a/nrpy/infrastructures/ETLegacy/schedule_ccl.py b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
index 9e6dfb2..6430c0a 100644
--- a/nrpy/infrastructures/ETLegacy/schedule_ccl.py
+++ b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
@@ -80,9 +80,9 @@ def construct_schedule_ccl(
             )
     if extra_schedule_bins_entries:
         for schedule_bin, entry in extra_schedule_bins_entries:
-            schedule_ccl_dict[thorn_name] += [
+            schedule_ccl_dict.setdefault(thorn_name, []).append(
                 ScheduleCCL(function_name="", schedule_bin=schedule_bin, entry=entry)
-            ]
+            )
 
     step = 1
     for schedule_bin in [
@@ -96,7 +96,7 @@ def construct_schedule_ccl(
         "MoL_PseudoEvolution",
     ]:
         already_output_header = False
-        for sccl in schedule_ccl_dict[thorn_name]:
+        for sccl in schedule_ccl_dict.get(thorn_name, []):
             if (
                 sccl.schedule_bin.upper() == schedule_bin.upper()
                 and not sccl.has_been_output
@@ -110,7 +110,7 @@ def construct_schedule_ccl(
                 outstr += sccl.entry.replace("FUNC_NAME", sccl.function_name)
                 sccl.has_been_output = True
 
-    for sccl in schedule_ccl_dict[thorn_name]:
+    for sccl in schedule_ccl_dict.get(thorn_name, []):
         if not sccl.has_been_output:
             outstr += f"""\n##################################################
 # Step {step}: Schedule functions in the remaining scheduling bins.
-- 
2.43.0


From 78499f430774cc1e2735c6935772c0c3db447a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 47/62] fix: the Carpet WaveToy thorn calls NewRad, so its
 interface must require it

---
 nrpy/examples/carpet_wavetoy_thorns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/examples/carpet_wavetoy_thorns.py b/nrpy/examples/carpet_wavetoy_thorns.py
index 9e91af3..9d8ac01 100644
--- a/nrpy/examples/carpet_wavetoy_thorns.py
+++ b/nrpy/examples/carpet_wavetoy_thorns.py
@@ -334,7 +334,7 @@ interface_ccl.construct_interface_ccl(
 USES INCLUDE: Boundary.h
 """,
     is_evol_thorn=True,
-    enable_NewRad=False,
+    enable_NewRad=True,
 )
 CParams_registered_to_params_ccl += param_ccl.construct_param_ccl(
     project_dir=project_dir,
-- 
2.43.0


From a7598940d612511f35d538edee1ac4b8b8299463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 48/62] fix: ETLegacy Ricci_eval without SIMD defines the
 inverse grid spacings it uses

---
 .../ETLegacy/general_relativity/Ricci_eval.py                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
index 680dfbe..922f590 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
@@ -66,7 +66,10 @@ def register_CFunction_Ricci_eval(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
-- 
2.43.0


From 429f713f4a2c9116df094c08946a8e00f61ed6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 49/62] fix: CarpetX auxiliary gridfunctions are declared only
 by the thorn that provides them

---
 nrpy/infrastructures/CarpetX/interface_ccl.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/interface_ccl.py b/nrpy/infrastructures/CarpetX/interface_ccl.py
index 8e9d45e..6339ecd 100644
--- a/nrpy/infrastructures/CarpetX/interface_ccl.py
+++ b/nrpy/infrastructures/CarpetX/interface_ccl.py
@@ -134,13 +134,13 @@ public:
 
 """
 
-    if auxiliary_variables_list:
-        aux_gfs = ", ".join([f"{aux_gf}GF" for aux_gf in auxiliary_variables_list])
-        aux_parity_type = gri.CarpetXGridFunction.set_parity_types(
-            auxiliary_variables_list
-        )
-        aux_parities = construct_parity_string(aux_parity_type)
-        outstr += f"""CCTK_REAL aux_variables type = GF Timelevels=1 TAGS='parities={{{aux_parities}}}'
+        if auxiliary_variables_list:
+            aux_gfs = ", ".join([f"{aux_gf}GF" for aux_gf in auxiliary_variables_list])
+            aux_parity_type = gri.CarpetXGridFunction.set_parity_types(
+                auxiliary_variables_list
+            )
+            aux_parities = construct_parity_string(aux_parity_type)
+            outstr += f"""CCTK_REAL aux_variables type = GF Timelevels=1 TAGS='parities={{{aux_parities}}}'
 {{
   {aux_gfs}
 }} "Auxiliary gridfunctions for e.g., diagnostics."
-- 
2.43.0


From 0bfd08f253831c37963264bfb009d9cde685f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 50/62] fix: symmetry registration of the components of
 4-vectors

---
 nrpy/infrastructures/ETLegacy/Symmetry_registration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
index 4d20fe4..53c6045 100644
--- a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
+++ b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
@@ -67,8 +67,11 @@ def register_CFunction_Symmetry_registration_oldCartGrid3D(
                     body += f"  sym[{symidx0}] *= -1;\n"
                     body += f"  sym[{symidx1}] *= -1;\n"
             elif gfname[-1].isdigit():  # Rank 1
-                symidx = gfname[-1]
-                body += f"  sym[{symidx}] = -1;\n"
+                symidx = int(gfname[-1])
+                if gf.dimension == 4:
+                    symidx -= 1
+                if symidx >= 0:
+                    body += f"  sym[{symidx}] = -1;\n"
             elif not gfname[-1].isdigit():  # Rank 0
                 body += "  // (this gridfunction is a scalar -- no need to change default sym[]'s!)\n"
             else:
-- 
2.43.0


From 005e93bb5fce939212d05b2866d9114b52665ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 51/62] fix: thorns without auxiliary gridfunctions must not
 synchronise them

---
 nrpy/infrastructures/ETLegacy/boundary_conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/ETLegacy/boundary_conditions.py b/nrpy/infrastructures/ETLegacy/boundary_conditions.py
index 3350f0d..177b6d7 100644
--- a/nrpy/infrastructures/ETLegacy/boundary_conditions.py
+++ b/nrpy/infrastructures/ETLegacy/boundary_conditions.py
@@ -297,7 +297,8 @@ def register_CFunctions(thorn_name: str) -> None:
     """
     register_CFunction_specify_Driver_BoundaryConditions(thorn_name=thorn_name)
     register_CFunction_specify_evol_BoundaryConditions(thorn_name=thorn_name)
-    register_CFunction_specify_aux_BoundaryConditions(thorn_name=thorn_name)
+    if any(gf.group == "AUX" for gf in gri.glb_gridfcs_dict.values()):
+        register_CFunction_specify_aux_BoundaryConditions(thorn_name=thorn_name)
     register_CFunction_specify_NewRad_BoundaryConditions_parameters(
         thorn_name=thorn_name
     )
-- 
2.43.0


From ff7375092f7f8336905e33f400a563ac552b91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 52/62] fix: superB matches messages with the communication
 stage they belong to

Charm++ may deliver messages out of order, and neighbouring chares are up to
one stage apart, so a chare waiting for the ghost zones (or the inner boundary
data) of one set of gridfunctions could take those of the following stage
instead. Number the stages and use the number as SDAG reference number.
---
 .../superB/timestepping_chare.py              | 44 ++++++++++++-------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..ed4b59c 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -34,6 +34,9 @@ def generate_send_nonlocalinnerbc_data_code(which_gf: str) -> str:
     :return: Code for sending nonlocal inner bc data
     """
     return f"""
+    serial {{
+        sync_stage = (sync_stage + 1) % MAX_SYNC_STAGES;
+    }}
     if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_dst_chares > 0) {{
         serial {{
           send_nonlocalinnerbc_data({which_gf}, grid);
@@ -51,7 +54,7 @@ def generate_process_nonlocalinnerbc_code() -> str:
     return """
       if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares > 0) {
         for (iter = 0; iter < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares; iter++) {
-          when receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
+          when receiv_nonlocalinnerbc_data[sync_stage](int stage, int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
             serial {
               set_tmpBuffer_innerbc_receiv(src_chare_idx3, len_tmpBuffer, tmpBuffer, grid);
               type_gfs_nonlocal_innerbc = type_gfs;
@@ -126,6 +129,7 @@ def generate_send_neighbor_data_code(which_gf: str, neighbor_direction: str) ->
     """
     return f"""
     serial {{
+        sync_stage = (sync_stage + 1) % MAX_SYNC_STAGES;
         send_neighbor_data({which_gf}, {neighbor_direction}, grid);
     }}
     """
@@ -148,14 +152,14 @@ def generate_process_ghost_code(
     neg_ghost_func = f"{neg_ghost_type.lower()}"
     return f"""
     if({this_index_var} < {nchare_var} - 1) {{
-        when {pos_ghost_func}(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
+        when {pos_ghost_func}[sync_stage](int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
             serial {{
                 process_ghost({pos_ghost_type}, type_gfs, len_tmpBuffer, tmpBuffer, grid);
             }}
         }}
     }}
     if({this_index_var} > 0) {{
-        when {neg_ghost_func}(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
+        when {neg_ghost_func}[sync_stage](int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
             serial {{
                 process_ghost({neg_ghost_type}, type_gfs, len_tmpBuffer, tmpBuffer, grid);
             }}
@@ -256,6 +260,7 @@ void Timestepping::pup(PUP::er &p) {
   p | count_filewritten;
   p | iter;
   p | type_gfs_nonlocal_innerbc;
+  p | sync_stage;
   p | write_diagnostics_this_step;
   p | f_1d_y;
   p | f_1d_z;
@@ -445,6 +450,11 @@ class Timestepping : public CBase_Timestepping {
     const int expected_count_filewritten = 4;
     int iter = 0;
     int type_gfs_nonlocal_innerbc;
+    // Number of the current communication stage. All chares pass through the same sequence of stages, and Charm++
+    //   may deliver messages out of order, so it is used as reference number to match messages with the stage they
+    //   belong to. Reference numbers are only guaranteed to have 16 bits.
+    static const int MAX_SYNC_STAGES = 32768;
+    int sync_stage = 0;
 """
     file_output_str += r"""
     /// Member Functions (private) ///
@@ -821,7 +831,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i0--;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x - 1, thisIndex.y, thisIndex.z)].east_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2, tmpBuffer_EW);
+        thisProxy[CkArrayIndex3D(thisIndex.x - 1, thisIndex.y, thisIndex.z)].east_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2, tmpBuffer_EW);
       }
       //send to east
       if (thisIndex.x < Nchare0 - 1) {
@@ -836,7 +846,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i0++;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x + 1, thisIndex.y, thisIndex.z)].west_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2, tmpBuffer_EW);
+        thisProxy[CkArrayIndex3D(thisIndex.x + 1, thisIndex.y, thisIndex.z)].west_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2, tmpBuffer_EW);
       }
       break;
     case NORTH_SOUTH:
@@ -853,7 +863,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i1--;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y - 1, thisIndex.z)].north_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS2, tmpBuffer_NS);
+        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y - 1, thisIndex.z)].north_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS2, tmpBuffer_NS);
       }
       //send to north
       if (thisIndex.y < Nchare1 - 1) {
@@ -868,7 +878,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i1++;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y + 1, thisIndex.z)].south_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS2, tmpBuffer_NS);
+        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y + 1, thisIndex.z)].south_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS2, tmpBuffer_NS);
       }
       break;
     case TOP_BOTTOM:
@@ -885,7 +895,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i2--;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y, thisIndex.z - 1)].top_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1, tmpBuffer_TB);
+        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y, thisIndex.z - 1)].top_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1, tmpBuffer_TB);
       }
       //send to top
       if (thisIndex.z < Nchare2 - 1) {
@@ -900,7 +910,7 @@ void Timestepping::send_neighbor_data(const int type_gfs, const int dir, const i
             i2++;
           }
         }
-        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y, thisIndex.z + 1)].bottom_ghost(type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1, tmpBuffer_TB);
+        thisProxy[CkArrayIndex3D(thisIndex.x, thisIndex.y, thisIndex.z + 1)].bottom_ghost(sync_stage, type_gfs, NUM_GFS*NGHOSTS*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1, tmpBuffer_TB);
       }
       break;
     default:
@@ -1153,7 +1163,7 @@ void Timestepping::send_nonlocalinnerbc_data(const int type_gfs, const int grid)
     int dst_chare_index1;
     int dst_chare_index2;
     REVERSE_IDX3GENERAL(idx3_of_dst_chares[which_dst_chare], Nchare0, Nchare1, dst_chare_index0, dst_chare_index1, dst_chare_index2);
-    thisProxy[CkArrayIndex3D(dst_chare_index0, dst_chare_index1, dst_chare_index2)].receiv_nonlocalinnerbc_data(idx3_this_chare, type_gfs, NUM_GFS * num_srcpts_tosend_each_chare[which_dst_chare], tmpBuffer_innerbc_send);
+    thisProxy[CkArrayIndex3D(dst_chare_index0, dst_chare_index1, dst_chare_index2)].receiv_nonlocalinnerbc_data(sync_stage, idx3_this_chare, type_gfs, NUM_GFS * num_srcpts_tosend_each_chare[which_dst_chare], tmpBuffer_innerbc_send);
 	}
 }
 """
@@ -1624,15 +1634,15 @@ def output_timestepping_ci(
     file_output_str += r"""
       }
     }
-    entry void east_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
-    entry void west_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
-    entry void north_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
-    entry void south_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
-    entry void top_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
-    entry void bottom_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void east_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void west_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void north_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void south_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void top_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
+    entry void bottom_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void continue_timestepping();
     entry void receiv_nonlocalinnerbc_idx3srcpt_tosend(int idx3_of_sendingchare, int num_srcpts, int globalidx3_srcpts[num_srcpts]);
-    entry void receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
+    entry void receiv_nonlocalinnerbc_data(int stage, int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
     if enable_residual_diagnostics:
         file_output_str += r"""
     entry void continue_after_residual_H_done();
-- 
2.43.0


From e180174b7d3fc6aafa6b74253893253a6c6c4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 53/62] fix: superB output waits until all chares have reached
 the time step

Chares write their part of the output when the first chare asks for it. In
projects without the residual reduction nothing kept a chare several neighbours
away from being a stage behind, so that it wrote data of an earlier stage.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index ed4b59c..8d35036 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1401,7 +1401,14 @@ def output_timestepping_ci(
               write_chckpt_this_step = fabs(round(commondata.time / commondata.checkpoint_every) * commondata.checkpoint_every -
                                              commondata.time) < 0.5 * commondata.dt;"""
         file_output_str += r"""
-            }"""
+            }
+        if (write_diagnostics_this_step) {
+          // Output is written when requested by the first chare: wait until all chares have reached this time step.
+          serial {
+            contribute(CkCallback(CkReductionTarget(Timestepping, ready_for_diagnostics), thisProxy));
+          }
+          when ready_for_diagnostics() { }
+        }"""
     if enable_psi4_diagnostics:
         file_output_str += r"""
         if (write_diagnostics_this_step) {
@@ -1641,6 +1648,7 @@ def output_timestepping_ci(
     entry void top_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void bottom_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void continue_timestepping();
+    entry [reductiontarget] void ready_for_diagnostics(); // reduction: all chares have reached a time step with output
     entry void receiv_nonlocalinnerbc_idx3srcpt_tosend(int idx3_of_sendingchare, int num_srcpts, int globalidx3_srcpts[num_srcpts]);
     entry void receiv_nonlocalinnerbc_data(int stage, int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
     if enable_residual_diagnostics:
-- 
2.43.0


From 04f348b3cd69a08a0acbec2ad361b5b81e93b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:17 +0000
Subject: [PATCH 54/62] fix: upper coordinate bounds of superB chares

xxmax of a chare was the upper bound of the whole grid shifted by the position
of the chare, i.e. wrong unless there is only one chare in that direction.
---
 nrpy/infrastructures/superB/numerical_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/superB/numerical_grids.py b/nrpy/infrastructures/superB/numerical_grids.py
index 59c7c59..5255b56 100644
--- a/nrpy/infrastructures/superB/numerical_grids.py
+++ b/nrpy/infrastructures/superB/numerical_grids.py
@@ -75,10 +75,10 @@ params_chare->Nxx_plus_2NGHOSTS2 = params_chare->Nxx2 + 2*NGHOSTS;
         body += f"params_chare->{key} = {value};\n"
 
     body += "\n// Set xxmin, xxmax\n"
-    for minmax in ["min", "max"]:
+    for minmax, chare_boundary in [("min", "chare_index"), ("max", "1 + chare_index")]:
         for dirn in range(3):
             param_dir = f"params_chare->xx{minmax}{dirn}"
-            body += f"{param_dir} = params->xx{minmax}{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * chare_index[{dirn}]));\n"
+            body += f"{param_dir} = params->xxmin{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * ({chare_boundary}[{dirn}])));\n"
 
     body += r"""
 
-- 
2.43.0


From 494c30161ac3d961e9327ddbaa017805f5eceb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 55/62] fix: declare ready_for_diagnostics only in projects
 that wait for it

---
 nrpy/infrastructures/superB/timestepping_chare.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 8d35036..4d6c761 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1648,7 +1648,6 @@ def output_timestepping_ci(
     entry void top_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void bottom_ghost(int stage, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void continue_timestepping();
-    entry [reductiontarget] void ready_for_diagnostics(); // reduction: all chares have reached a time step with output
     entry void receiv_nonlocalinnerbc_idx3srcpt_tosend(int idx3_of_sendingchare, int num_srcpts, int globalidx3_srcpts[num_srcpts]);
     entry void receiv_nonlocalinnerbc_data(int stage, int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
     if enable_residual_diagnostics:
@@ -1681,6 +1680,9 @@ def output_timestepping_ci(
       }
     }
     entry void receiv_wavespeed_at_outer_boundary(REAL wavespeed_at_outer_boundary);"""
+    else:
+        file_output_str += r"""
+    entry [reductiontarget] void ready_for_diagnostics(); // reduction: all chares have reached a time step with output"""
     if enable_psi4_diagnostics:
         file_output_str += r"""
     entry void recvMsg_to_contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg){
-- 
2.43.0


From c7ebb4bd08ac75198060100b50034c1f26ef9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:29 +0000
Subject: [PATCH 56/62] fix: write beyond an empty array when a superB chare
 has no remote source points

---
 nrpy/infrastructures/superB/CurviBoundaryConditions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/CurviBoundaryConditions.py b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
index 818d30b..cb3c15a 100644
--- a/nrpy/infrastructures/superB/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
@@ -207,7 +207,11 @@ def register_CFunction_bcstruct_chare_set_up(CoordSystem: str) -> None:
       nonlocalinnerbcstruct->globalidx3_srcpts[src_chare_id] = (int *restrict)malloc(sizeof(int) * nonlocalinnerbcstruct->num_srcpts_each_chare[src_chare_id]);
     }
     // Set globalidx3_srcpts and bcstruct_chare->inner_bc_array_nonlocal
-    int count_nonlocalinnerbc_srcpt_each_src_chare[nonlocalinnerbcstruct->tot_num_src_chares] = {0};
+    // There may be no source chares: an array of length zero must not be initialized.
+    int count_nonlocalinnerbc_srcpt_each_src_chare[nonlocalinnerbcstruct->tot_num_src_chares + 1];
+    for (int src_chare_id = 0; src_chare_id < nonlocalinnerbcstruct->tot_num_src_chares; src_chare_id++) {
+      count_nonlocalinnerbc_srcpt_each_src_chare[src_chare_id] = 0;
+    }
     for (int pt = 0; pt < bcstruct->bc_info.num_inner_boundary_points; pt++) {
       const int dstpt = bcstruct->inner_bc_array[pt].dstpt;
       const int srcpt = bcstruct->inner_bc_array[pt].srcpt;
-- 
2.43.0


From c3869658badbf993e122ff3f86d4950e559f1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:28 +0000
Subject: [PATCH 57/62] fix: pack the complete chare-to-source/destination maps
 of superB's nonlocal inner boundary conditions

---
 nrpy/infrastructures/superB/superB/superB_pup.py   | 14 +++++++-------
 .../superB/superB/superB_pup_function_prototypes.h |  4 ++--
 nrpy/infrastructures/superB/timestepping_chare.py  |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..453e696 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -378,16 +378,16 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 }
 
 // PUP routine for struct nonlocalinnerbc_struct
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const int tot_num_chares) {
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -396,11 +396,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
@@ -438,7 +438,7 @@ void pup_griddata(PUP::er &p, griddata_struct &gd) {
 
 // PUP routine for struct griddata_chare
 // For unpacking order is important, unpacked structs are used for unpacking the subsequent structs
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params) {
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const int tot_num_chares) {
 
   pup_params_struct(p, gd.params);
 
@@ -457,7 +457,7 @@ void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &pa
 
   pup_bc_struct(p, gd.bcstruct);
 
-  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct);
+  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct, tot_num_chares);
 
   pup_MoL_gridfunctions_struct(p, gd.gridfuncs, gd.params);
 
diff --git a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
index e83da9e..95421dc 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
+++ b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
@@ -9,7 +9,7 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &mol_gfs,
 void pup_charecomm_struct(PUP::er &p, charecomm_struct &cc, const params_struct &params, const params_struct &params_chare);
 void pup_diagnostic_struct(PUP::er &p, diagnostic_struct &ds, const int num_diagnostics_chare);
 void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const params_struct &params, const nonlocalinnerbc_struct &nonlocalinnerbc);
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal);
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const int tot_num_chares);
 void pup_griddata(PUP::er &p, griddata_struct &gd);
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params);
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const int tot_num_chares);
 
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 4d6c761..2754748 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -253,7 +253,7 @@ void Timestepping::pup(PUP::er &p) {
     griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   }
   for (int i = 0; i < commondata.NUMGRIDS; i++) {
-    pup_griddata_chare(p, griddata_chare[i], griddata[i].params);
+    pup_griddata_chare(p, griddata_chare[i], griddata[i].params, commondata.Nchare0 * commondata.Nchare1 * commondata.Nchare2);
   }
   p | is_boundarychare;
   p | time_start;
-- 
2.43.0


From 2eb8bc69e6e0f964ee89783d82abd0d5cd57758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:28 +0000
Subject: [PATCH 58/62] fix: initialize the psi4 decomposition data that superB
 chares pack and free

---
 nrpy/infrastructures/superB/timestepping_chare.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 2754748..c9ed7a5 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -663,6 +663,15 @@ Timestepping::Timestepping(CommondataObject &&inData) {
   // Step 1.c: Allocate NUMGRIDS griddata arrays, each containing data specific to an individual grid.
   griddata = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
+  // The psi4 decomposition data are packed and freed even if they are never set up.
+  for(int grid=0; grid<commondata.NUMGRIDS; grid++) {
+    griddata_chare[grid].diagnosticstruct.num_of_R_exts_chare = 0;
+    griddata_chare[grid].diagnosticstruct.psi4_spinweightm2_sph_harmonics_max_l = 0;
+    griddata_chare[grid].diagnosticstruct.length_localsums_for_psi4_decomp = 0;
+    griddata_chare[grid].diagnosticstruct.list_of_R_exts_chare = NULL;
+    griddata_chare[grid].diagnosticstruct.localsums_for_psi4_decomp = NULL;
+    griddata_chare[grid].diagnosticstruct.globalsums_for_psi4_decomp = NULL;
+  }
 
   // Step 1.d: Set each CodeParameter in griddata.params to default.
   params_struct_set_to_default(&commondata, griddata);
-- 
2.43.0


From 4e091b5d690f264d729b84ac0fff4faa72e66be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 59/62] fix: decide when superB writes a checkpoint also with
 residual diagnostics

---
 nrpy/infrastructures/superB/timestepping_chare.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index c9ed7a5..c80cf3f 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1397,7 +1397,12 @@ def output_timestepping_ci(
             serial {
               const int n_step = commondata.nn;
               const int outevery = commondata.diagnostics_output_every;
-              write_diagnostics_this_step = n_step % outevery == 0;
+              write_diagnostics_this_step = n_step % outevery == 0;"""
+        if enable_charm_checkpointing:
+            file_output_str += r"""
+              write_chckpt_this_step = fabs(round(commondata.time / commondata.checkpoint_every) * commondata.checkpoint_every -
+                                             commondata.time) < 0.5 * commondata.dt;"""
+        file_output_str += r"""
             }
             """
     else:
-- 
2.43.0


From ffe1d63f573518d6a6fe68f44003e41e2bbd9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:07 +0000
Subject: [PATCH 60/62] Revert "fix: the Carpet WaveToy thorn calls NewRad, so
 its interface must require it": examples stay as they are

---
 nrpy/examples/carpet_wavetoy_thorns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/examples/carpet_wavetoy_thorns.py b/nrpy/examples/carpet_wavetoy_thorns.py
index 9d8ac01..9e91af3 100644
--- a/nrpy/examples/carpet_wavetoy_thorns.py
+++ b/nrpy/examples/carpet_wavetoy_thorns.py
@@ -334,7 +334,7 @@ interface_ccl.construct_interface_ccl(
 USES INCLUDE: Boundary.h
 """,
     is_evol_thorn=True,
-    enable_NewRad=True,
+    enable_NewRad=False,
 )
 CParams_registered_to_params_ccl += param_ccl.construct_param_ccl(
     project_dir=project_dir,
-- 
2.43.0


From ad303561891f5739decf71bb8f2cc79838920150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 61/62] fix: weight the L2 norm of a gridfunction by the volume
 element, the square root of the metric determinant

---
 .../BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py   | 2 +-
 .../superB/nrpyelliptic/conformally_flat_C_codegen_library.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
index 1d7e383..84d2a0b 100644
--- a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -368,7 +368,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const DOUBLE r",
diff --git a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
index e2f64f7..a991233 100644
--- a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -11,6 +11,8 @@ from inspect import currentframe as cfr
 from types import FrameType as FT
 from typing import Dict, Tuple, Union, cast
 
+import sympy as sp
+
 import nrpy.c_codegen as ccg
 import nrpy.c_function as cfc
 import nrpy.helpers.parallel_codegen as pcg
@@ -45,7 +47,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const REAL r",
-- 
2.43.0


From 4e73e728c318ea53e51f7114ccdc4548d608df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:49 +0000
Subject: [PATCH 62/62] fix: declare the upwind control vector's numeric
 constants in SIMD code without FD functions

---
 nrpy/c_codegen.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c793c9c..e3fad61 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -990,6 +990,16 @@ def gridfunction_management_and_FD_codegen(
         upwind_directions,
     ) = process_upwinded_derivatives()
 
+    if upwind_FDexprs and CCGParams.enable_simd and not CCGParams.enable_fd_functions:
+        # SIMD code needs the upwind control vector's numbers declared as SIMD constants too.
+        upwind_FDexprs, upwind_symbol_to_Rational_dict = cse_preprocess(
+            upwind_FDexprs,
+            prefix="FDPart1",
+            declare_neg1_as_symbol=True,
+            factor=False,
+        )
+        symbol_to_Rational_dict.update(upwind_symbol_to_Rational_dict)
+
     if not CCGParams.enable_fd_codegen:
         FDexprs += upwind_FDexprs
         FDlhsvarnames += upwind_FDlhsvarnames
-- 
2.43.0

