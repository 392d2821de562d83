From ee0a0bfdf35cf073c0a3fad1df5615f8422ee44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:31 +0000
Subject: [PATCH 01/41] fix: apply postproc_substitution_dict to common
 subexpressions without crashing

c_codegen(..., postproc_substitution_dict=...) with CSE enabled assigned into
the (symbol, expr) tuples returned by sympy.cse, raising TypeError whenever at
least one common subexpression existed.
---
 nrpy/c_codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..ec977ae 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -592,8 +592,12 @@ def c_codegen(
                 )
             else:
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    common_subexpression = (
+                        common_subexpression[0],
+                        apply_substitution_dict(
+                            common_subexpression[1],
+                            CCGParams.postproc_substitution_dict,
+                        ),
                     )
                 outstring += (
                     full_type_string
-- 
2.43.0


From 4ec2b3eb9be906edc22acca8cecf75f00e1a2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:01 +0000
Subject: [PATCH 02/41] fix: declare the SIMD constant 1 used by reciprocal
 square roots

expr_convert_to_simd_intrins() emitted DivSIMD(_Integer_1, ...) for exponents
-1/2, -3/2 and -5/2 without recording _Integer_1, so kernels containing no other
reciprocal referenced an undeclared variable.
---
 nrpy/helpers/simd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..eacc314 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -338,6 +338,12 @@ def expr_convert_to_simd_intrins(
         if func == Pow:
             one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            if (
+                exponent
+                in (-Rational(1, 2), -Rational(3, 2), -Rational(5, 2), -0.5, -1.5, -2.5)
+                and S.One not in map_rat_to_sym
+            ):
+                symbol_to_Rational_dict[one], map_rat_to_sym[S.One] = S.One, one
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
-- 
2.43.0


From 2ed4a3d3c44250997752118f18ede123f21cfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:01 +0000
Subject: [PATCH 03/41] fix: NegFusedMulSubSIMD on SSE2 with FMA computed a*b -
 c instead of -a*b - c

---
 nrpy/helpers/simd_intrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..bd1f547 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -162,7 +162,7 @@
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
 #define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_add_pd((c), _mm_add_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From fd220b9e87133cd5e943e6f1a41974eebf5c9a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:37 +0000
Subject: [PATCH 04/41] fix: read upwind control-vector gridfunctions from
 memory even if absent from the expressions

---
 nrpy/c_codegen.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index ec977ae..b627712 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -420,6 +420,17 @@ def c_codegen(
         for i, deriv_op in enumerate(list_of_deriv_operators):
             fdcoeffs[i], fdstencl[i] = deriv_operator_dict[deriv_op]
 
+        # The upwind control vector must be read from memory as well, even if
+        #   it does not otherwise appear in the expressions.
+        if isinstance(CCGParams.upwind_control_vec, list):
+            for deriv_op in list_of_deriv_operators:
+                if "dupD" in deriv_op:
+                    free_symbols_list.extend(
+                        sp.sympify(
+                            CCGParams.upwind_control_vec[int(deriv_op[-1])]
+                        ).free_symbols
+                    )
+
         read_from_memory_C_code = fin.read_gfs_from_memory(
             list_of_base_gridfunction_names_in_derivs,
             fdstencl,
-- 
2.43.0


From 08fba8191dc08b5f7468f2d94a71a18eb9a09c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:51 +0000
Subject: [PATCH 05/41] fix: emit brace-free SIMD kernels also when no
 gridfunction is read from memory

---
 nrpy/c_codegen.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index b627712..c93a170 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -1026,25 +1026,25 @@ def gridfunction_management_and_FD_codegen(
 
     # Copy kwargs
     kwargs_FDPart1 = kwargs.copy()
+    # We choose the CSE temporary variable prefix "FDpart1" for the finite difference coefficients:
+    kwargs_FDPart1.update(
+        {
+            "cse_varprefix": "FDPart1",
+            "verbose": False,
+            "include_braces": False,
+            "enable_cse_preprocess": False,
+            "simd_find_more_subs": False,
+            "automatically_read_gf_data_from_memory": False,
+            "enable_fd_codegen": False,
+            "symbol_to_Rational_dict": symbol_to_Rational_dict,
+        }
+    )
     if len(read_from_memory_Ccode) > 0:
         Coutput += f"""/*\n * NRPy+-Generated GF Access/FD Code, Step {NRPy_FD_StepNumber} of {NRPy_FD__Number_of_Steps}:
  * Read gridfunction(s) from main memory and compute FD stencils as needed.\n */
 """
 
         NRPy_FD_StepNumber = NRPy_FD_StepNumber + 1
-        # We choose the CSE temporary variable prefix "FDpart1" for the finite difference coefficients:
-        kwargs_FDPart1.update(
-            {
-                "cse_varprefix": "FDPart1",
-                "verbose": False,
-                "include_braces": False,
-                "enable_cse_preprocess": False,
-                "simd_find_more_subs": False,
-                "automatically_read_gf_data_from_memory": False,
-                "enable_fd_codegen": False,
-                "symbol_to_Rational_dict": symbol_to_Rational_dict,
-            }
-        )
         if CCGParams.enable_fd_functions:
             Coutput += read_from_memory_Ccode
             func_call_list = []
-- 
2.43.0


From 7b8e599012c206d23503db8c9729eced6f7bf28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:42 +0000
Subject: [PATCH 06/41] fix: declare the constant 1 introduced for even powers
 of -1 in cse_preprocess

---
 nrpy/helpers/cse_preprocess_postprocess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..43bd49c 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -222,6 +222,15 @@ def cse_preprocess(
                         changed_expr = True
             if changed_expr:
                 expr = tree.reconstruct()
+                # An even power of _NegativeOne_ introduces _One_, which must be declared.
+                if (
+                    _One_ in expr.free_symbols
+                    and map_rat_to_sym.get(sp.S.One) is None
+                ):
+                    symbol_to_Rational_dict[_One_], map_rat_to_sym[sp.S.One] = (
+                        sp.S.One,
+                        _One_,
+                    )
 
         # Replace any remaining ones with symbol _One_ after partial factoring
         if factor or negative:
-- 
2.43.0


From 28b07be98e44a1ecfeb1c87ebc3cc2b31c3909e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:17 +0000
Subject: [PATCH 07/41] fix: emit matching braces in
 Cart_to_xx_and_nearest_i0i1i2_global_grid_center

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From dea16895f5e8bd8727f9ba4c212096f0173ba2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:36 +0000
Subject: [PATCH 08/41] fix: bound the copies of array sizes, array values and
 quoted strings in the generated parfile parser

---
 .../BHaH/cmdline_input_and_parfiles.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..8b84647 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -258,6 +258,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
     }
     char size_str[16];
     size_t size_len = bracket_end - bracket_start - 1;
+    if (size_len >= sizeof(size_str)) {
+      fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
+      exit(1);
+    }
     strncpy(size_str, bracket_start + 1, size_len);
     size_str[size_len] = '\0';
     *array_size = atoi(size_str);
@@ -291,12 +295,12 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
@@ -354,7 +358,7 @@ static void read_chararray(const char *value, char *result, const char *param_na
   size_t len = strlen(value);
   char trimmed_value[PARAM_SIZE];
   if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
+    if (len < 2 || len - 2 >= size || len - 2 >= sizeof(trimmed_value)) {
       fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
       exit(1);
     }
-- 
2.43.0


From b01bc4cb91671dfb8c414aade8c4213164342eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:36 +0000
Subject: [PATCH 09/41] fix: accept parfile array values longer than 127
 characters

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 8b84647..77dba8d 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -470,7 +470,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE]; // Array values can be longer than PARAM_SIZE.
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
-- 
2.43.0


From ea554023f9e3982881d5bd8346de7295095e7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 10/41] fix: reject parfile and command-line integers that do
 not fit in an int

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 77dba8d..ed5a618 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -324,7 +324,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -639,6 +639,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From 0bb4cbbbbfedd6ce6e44c3db479b12383b99c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 11/41] fix: parse bool parameters, which the default parfile
 contains

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index ed5a618..8dc5c59 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_BOOL, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -572,6 +575,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 8c60621197cc2ec9e0842ebf523ce0644853d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 12/41] fix: apply command-line parameter overrides after, not
 during, the parfile loop

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 8dc5c59..2e804bf 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -611,8 +611,10 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             fprintf(stderr, "Error: Unknown parameter index for %s.\n", param_name);
             exit(1);
         }
-    }
-}
+      } // END IF line contains a value
+    } // END IF line contains a parameter
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
 
     // Handling options 3 and 4: Overwriting steerable parameters
     if (option == 3 || option == 4) {
@@ -637,8 +639,6 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     body += steerable_body
     body += """
     } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From ebf53c22bf9c249400f8a7f5a1ddb83e48818b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 13/41] fix: keep '#' and '=' inside quoted strings in
 parameter files

---
 .../BHaH/cmdline_input_and_parfiles.py        | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 2e804bf..9d666f0 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -478,17 +478,22 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   // Iterate through each line of the parameter file.
   while (fgets(line, sizeof(line), file)) {{
-    // Remove comments from the line.
-    char *comment_start = strchr(line, '#');
-    if (comment_start != NULL) {{
-      *comment_start = '\0';
+    // Remove comments from the line; a '#' inside a quoted string does not start a comment.
+    int in_quotes = 0;
+    for (char *c = line; *c != '\0'; c++) {{
+      if (*c == '"') {{
+        in_quotes = !in_quotes;
+      }} else if (*c == '#' && !in_quotes) {{
+        *c = '\0';
+        break;
+      }}
     }}
 
     // Split the line into parameter and value based on '=' delimiter.
     char *p = strtok(line, "=");
     if (p) {{
       safe_copy(param, trim_space(p), sizeof(param));
-      p = strtok(NULL, "=");
+      p = strtok(NULL, ""); // The value is the rest of the line; quoted strings can contain '='.
       if (p) {{
         safe_copy(value, trim_space(p), sizeof(value));
 
@@ -879,11 +884,21 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         output_str += f"### Module: {module}\n"
         output_str += "".join(params)
 
+    def find_comment(line: str) -> int:
+        # A '#' inside a quoted string does not start a comment.
+        in_quotes = False
+        for i, char in enumerate(line):
+            if char == '"':
+                in_quotes = not in_quotes
+            elif char == "#" and not in_quotes:
+                return i
+        return line.find("#")
+
     def align_by_hash(original_string: str) -> str:
         lines = original_string.split("\n")
         max_length = max(
             (
-                line.find("#")
+                find_comment(line)
                 for line in lines
                 if "#" in line and not line.strip().startswith("#")
             ),
@@ -893,7 +908,7 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         adjusted_lines = []
         for line in lines:
             if "#" in line and not line.strip().startswith("#"):
-                index = line.find("#")
+                index = find_comment(line)
                 spaces_needed = max_length - index
                 if spaces_needed > 0:
                     adjusted_line = line[:index] + " " * spaces_needed + line[index:]
-- 
2.43.0


From f6187762b2cfa60cf7395ddbbf85dae19e998c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 14/41] fix: do not interpret percent signs in default values
 of char array CodeParameters

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index ddf7508..cd8b897 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -100,7 +100,9 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     defaultval = CodeParam.defaultvalue
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
-                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{defaultval}");{comment}\n'
+                        # The default value is used as a format string, so escape "%".
+                        escaped_defaultval = str(defaultval).replace("%", "%%")
+                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{escaped_defaultval}");{comment}\n'
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-- 
2.43.0


From d413fa98111f716f1a27ca87a002c6e4b61dd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 15/41] fix: do not lower-case string default values of REAL
 CodeParameters

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index cd8b897..5de4b57 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -110,7 +110,15 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     elif isinstance(defaultval, (bool, int, float)) or (
                         CPtype == "REAL" and isinstance(defaultval, str)
                     ):
-                        c_output = f"{struct}->{parname} = {str(defaultval).lower()};{comment}\n"
+                        # Only booleans (True/False) need lower-casing; e.g., "M_PI" must be left alone.
+                        defaultval_str = (
+                            str(defaultval).lower()
+                            if isinstance(defaultval, bool)
+                            else str(defaultval)
+                        )
+                        c_output = (
+                            f"{struct}->{parname} = {defaultval_str};{comment}\n"
+                        )
                     else:
                         raise ValueError(
                             f"{CodeParam.defaultvalue} is not a valid default value type ({type(CodeParam.defaultvalue)}), for parameter {CodeParam.module}::{parname}, commondata = {CodeParam.commondata}"
-- 
2.43.0


From a258ae7d8f1cdfc14086d94faef0f599d7b92b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 16/41] fix: register all components of rank-1 gridfunctions in
 any dimension, with the right parity

---
 nrpy/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..caed0d8 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,11 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        if gf.dimension == 4:
+                            # scalar t component, vector i components
+                            parity_type.append(int(gf.name[-1]))
+                        else:
+                            parity_type.append(int(gf.name[-1]) + 1)
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
@@ -890,7 +894,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From adad2effff86528b7f003d74ac753131193ffcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 17/41] fix: register only the independent components of tensor
 gridfunctions, in a reproducible order

---
 nrpy/grid.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index caed0d8..ceaf5ed 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -941,12 +941,10 @@ def register_gridfunctions_for_single_rank2(
     gf_list: List[str] = []
     for i in range(dimension):
         for j in range(dimension):
-            save = True
-            for gf in gf_list:
-                if gf == str(IDX_OBJ_TMP[i][j]):
-                    save = False
-            if save:
-                gf_list.append(str(IDX_OBJ_TMP[i][j]))
+            # Antisymmetric components are zero, or minus an independent component.
+            for sym in sp.sympify(IDX_OBJ_TMP[i][j]).free_symbols:
+                if str(sym) not in gf_list:
+                    gf_list.append(str(sym))
 
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 2.
@@ -1066,7 +1064,14 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    # Keep the order of first appearance, so that the registration order and the assignment
+    # of f_infinity and wavespeed lists are reproducible. Antisymmetric components are zero,
+    # or minus an independent component.
+    unique_gf_list = list(
+        dict.fromkeys(
+            str(sym) for item in flat_list for sym in sp.sympify(item).free_symbols
+        )
+    )
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From a38866660f54b9d76b3444f0da88e066e707d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 18/41] fix: generate compilable MoL memory management for the
 Euler method

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..619788f 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -135,8 +135,11 @@ def generate_gridfunction_names(
                 # Allocate memory for diagonal Butcher tables that aren't Euler
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
+                diagnostic_gridfunctions2_point_to = "k_odd_gfs"
+            else:
+                # Euler stores no k_i, so there is no gridfunction group for diagnostic_output_gfs2
+                diagnostic_gridfunctions2_point_to = None
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
-            diagnostic_gridfunctions2_point_to = "k_odd_gfs"
 
     non_y_n_gridfunctions_list.append("auxevol_gfs")
 
@@ -207,7 +210,10 @@ def register_CFunction_MoL_malloc(
         )
 
     body += f"\ngridfuncs->diagnostic_output_gfs  = gridfuncs->{diagnostic_gridfunctions_point_to};\n"
-    body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is not None:
+        body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    else:
+        body += "gridfuncs->diagnostic_output_gfs2 = NULL;\n"
 
     cfc.register_CFunction(
         includes=includes,
-- 
2.43.0


From c1d70c4fe301c9331067d2ca60403fe6f0121d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 19/41] fix: apply boundary conditions at every superB MoL
 substep of non-diagonal and diagonal RK3 methods

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From 0f23deaccaeb70368ad1f104700ac8ccc0fb4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 20/41] fix: perform Euler substeps in superB MoL

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index e300ea2..507d7bb 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -700,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += """
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -714,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From 09c11b97aed4a7c56316ffa2e8d5abbd4abb4f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:01 +0000
Subject: [PATCH 21/41] fix: map boundary points in double precision when
 fp_type is float

---
 .../CurviBoundaryConditions.py                      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
index 7f7afde..11f2374 100644
--- a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
@@ -91,7 +91,10 @@ Documented in: Tutorial-Start_to_Finish-Curvilinear_BCs.ipynb
     # the inner/outer BC indicies
     fp_type = par.parval_from_str("fp_type")
     fp_type_alias = "DOUBLE" if fp_type == "float" else "REAL"
-    calculation = ccg.c_codegen(parity, lhs_strings, fp_type_alias=fp_type_alias)
+    fp_type_calc = "double" if fp_type == "float" else fp_type
+    calculation = ccg.c_codegen(
+        parity, lhs_strings, fp_type=fp_type_calc, fp_type_alias=fp_type_alias
+    )
 
     return outstr + calculation
 
@@ -239,6 +242,8 @@ const int i0, const int i1, const int i2,
 REAL x0x1x2_inbounds[3], int i0i1i2_inbounds[3]"""
     fp_type = par.parval_from_str("fp_type")
     fp_type_alias = "DOUBLE" if fp_type == "float" else "REAL"
+    # As above, enforce double or higher precision for the index calculation.
+    fp_type_calc = "double" if fp_type == "float" else fp_type
     # Load up the EigenCoordinate corresponding to reference_metric::CoordSystem
     rfm_orig = refmetric.reference_metric[CoordSystem]
     rfm = refmetric.reference_metric[rfm_orig.EigenCoord]
@@ -260,6 +265,7 @@ REAL x0x1x2_inbounds[3], int i0i1i2_inbounds[3]"""
     DOUBLE xx2 = xx[2][i2];
     {ccg.c_codegen([rfm.xx_to_Cart[0], rfm.xx_to_Cart[1], rfm.xx_to_Cart[2]],
                    ["xCart[0]", "xCart[1]", "xCart[2]"],
+                   fp_type=fp_type_calc,
                    fp_type_alias=fp_type_alias)}
   }}
   DOUBLE Cartx = xCart[0];
@@ -294,6 +300,7 @@ REAL x0x1x2_inbounds[3], int i0i1i2_inbounds[3]"""
   {ccg.c_codegen(
       [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
       ['Cart_to_xx0_inbounds', 'Cart_to_xx1_inbounds', 'Cart_to_xx2_inbounds'],
+      fp_type=fp_type_calc,
       fp_type_alias=fp_type_alias,
   )}
   // Next compute xxmin[i]. By definition,
@@ -327,6 +334,7 @@ REAL x0x1x2_inbounds[3], int i0i1i2_inbounds[3]"""
         [rfm_orig.xx_to_Cart[0], rfm_orig.xx_to_Cart[1], rfm_orig.xx_to_Cart[2]],
         ['xCart_from_xx', 'yCart_from_xx', 'zCart_from_xx'],
         include_braces=False,
+        fp_type=fp_type_calc,
         fp_type_alias=fp_type_alias,
     )}
   }}
@@ -343,13 +351,14 @@ REAL x0x1x2_inbounds[3], int i0i1i2_inbounds[3]"""
         [rfm_orig.xx_to_Cart[0], rfm_orig.xx_to_Cart[1], rfm_orig.xx_to_Cart[2]],
         ['xCart_from_xx_inbounds', 'yCart_from_xx_inbounds', 'zCart_from_xx_inbounds'],
         include_braces=False,
+        fp_type=fp_type_calc,
         fp_type_alias=fp_type_alias,
     )}
   }}
 
   // Step 3.c: Compare xCart_from_xx to xCart_from_xx_inbounds;
   //           they should be identical!!!
-#define EPS_REL {"1e-6" if fp_type == "float" else "1e-8"}
+#define EPS_REL {"1e-5" if fp_type == "float" else "1e-8"}
   const DOUBLE norm_factor = sqrt(xCart_from_xx*xCart_from_xx + yCart_from_xx*yCart_from_xx + zCart_from_xx*zCart_from_xx) + 1e-15;
   if(fabs( (DOUBLE)(xCart_from_xx - xCart_from_xx_inbounds) ) > EPS_REL * norm_factor ||
      fabs( (DOUBLE)(yCart_from_xx - yCart_from_xx_inbounds) ) > EPS_REL * norm_factor ||
-- 
2.43.0


From 5f2b1cc0093791c59133d322cb65a62218d03b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 22/41] fix: radiation BCs in Cartesian-like coordinates are
 NaN at outer points on the z-axis

---
 .../CurviBoundaryConditions.py                    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
index 11f2374..84edcdd 100644
--- a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
@@ -889,13 +889,22 @@ def setup_Cfunction_r_and_partial_xi_partial_r_derivs(
     const REAL xx0,const REAL xx1,const REAL xx2,    REAL *r,
     REAL *partial_x0_partial_r,REAL *partial_x1_partial_r,REAL *partial_x2_partial_r"""
     rfm = refmetric.reference_metric[CoordSystem]
+    partial_xi_partial_r = [rfm.Jac_dUrfm_dDSphUD[i][0] for i in range(3)]
+    if "Cartesian" in CoordSystem:
+        # Outer boundary points may lie on the z-axis, where the Jacobian to
+        #  spherical coordinates is singular, but partial_r x^i is not:
+        partial_xi_partial_r = [
+            sum(rfm.Jac_dUrfm_dDCartUD[i][j] * rfm.xx_to_Cart[j] for j in range(3))
+            / rfm.xxSph[0]
+            for i in range(3)
+        ]
     # sp.simplify(expr) is too slow here for SinhCylindrical
     body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.Jac_dUrfm_dDSphUD[0][0],
-            rfm.Jac_dUrfm_dDSphUD[1][0],
-            rfm.Jac_dUrfm_dDSphUD[2][0],
+            partial_xi_partial_r[0],
+            partial_xi_partial_r[1],
+            partial_xi_partial_r[2],
         ],
         [
             "*r",
-- 
2.43.0


From 10f076d2f0ec38304a8d8ee1d2c3283d8b2969a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 23/41] fix: SymTP-like Cart_to_xx is NaN on the equator due to
 roundoff

---
 nrpy/reference_metric.py | 56 ++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/nrpy/reference_metric.py b/nrpy/reference_metric.py
index 1e59528..cc1c998 100644
--- a/nrpy/reference_metric.py
+++ b/nrpy/reference_metric.py
@@ -1172,23 +1172,23 @@ class ReferenceMetric:
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # Multiplying & dividing by the conjugate of the Mathematica solution gives the
+            #   following, which cannot have a negative argument to the outer sqrt() at z=0
+            #   due to roundoff error.
             self.Cart_to_xx[1] = sp.acos(
-                sp.sign(self.Cartz)
-                * (
-                    sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
-                        )
-                        / bScale**2
+                2
+                * self.Cartz
+                / sp.sqrt(
+                    bScale**2
+                    + rSph**2
+                    + sp.sqrt(
+                        bScale**4
+                        + 2 * bScale**2 * rSph**2
+                        + rSph**4
+                        - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
                     )
-                    * SQRT1_2
                 )
+                * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
             self.Cart_to_xx[2] = phSph
@@ -1221,23 +1221,23 @@ class ReferenceMetric:
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # Multiplying & dividing by the conjugate of the Mathematica solution gives the
+            #   following, which cannot have a negative argument to the outer sqrt() at z=0
+            #   due to roundoff error.
             self.Cart_to_xx[1] = sp.acos(
-                sp.sign(self.Cartz)
-                * (
-                    sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
-                        )
-                        / bScale**2
+                2
+                * self.Cartz
+                / sp.sqrt(
+                    bScale**2
+                    + rSph**2
+                    + sp.sqrt(
+                        bScale**4
+                        + 2 * bScale**2 * rSph**2
+                        + rSph**4
+                        - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
                     )
-                    * SQRT1_2
                 )
+                * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
             self.Cart_to_xx[2] = phSph
-- 
2.43.0


From d9b694f96a9ff525da69c301644d41e7cdb85c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 24/41] fix: radiation BCs in cylindrical-like coordinates lose
 all precision near the z-axis

---
 .../BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
index 84edcdd..51c0eb7 100644
--- a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
@@ -890,9 +890,9 @@ def setup_Cfunction_r_and_partial_xi_partial_r_derivs(
     REAL *partial_x0_partial_r,REAL *partial_x1_partial_r,REAL *partial_x2_partial_r"""
     rfm = refmetric.reference_metric[CoordSystem]
     partial_xi_partial_r = [rfm.Jac_dUrfm_dDSphUD[i][0] for i in range(3)]
-    if "Cartesian" in CoordSystem:
-        # Outer boundary points may lie on the z-axis, where the Jacobian to
-        #  spherical coordinates is singular, but partial_r x^i is not:
+    if "Cartesian" in CoordSystem or "Cylindrical" in CoordSystem:
+        # Outer boundary points may lie on or very near the z-axis, where the Jacobian
+        #  to spherical coordinates is singular, but partial_r x^i is not:
         partial_xi_partial_r = [
             sum(rfm.Jac_dUrfm_dDCartUD[i][j] * rfm.xx_to_Cart[j] for j in range(3))
             / rfm.xxSph[0]
-- 
2.43.0


From f7f3493f3e5d50262abacd1b3298478cf83ca23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 25/41] fix: cache files are never left or observed truncated

---
 nrpy/helpers/cached_functions.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..1ef5a68 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -97,6 +99,27 @@ def read_cached(unique_id: str) -> Any:
         return pickle.load(file)
 
 
+def _write_cache_file(path: Path, data: Any) -> None:
+    """
+    Pickle data to a cache file, such that the cache file is never observed incomplete.
+
+    The data are first written to a temporary file in the same directory, which then replaces
+    the cache file, so that neither an interrupted process nor one writing concurrently leaves
+    (or exposes to other processes) a truncated cache file.
+
+    :param path: Path of the cache file.
+    :param data: The data to be written to the cache file.
+    """
+    tmp_fd, tmp_name = tempfile.mkstemp(dir=path.parent, suffix=".tmp")
+    try:
+        with os.fdopen(tmp_fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, path)
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
+
+
 def write_cached(unique_id: str, data: Any) -> None:
     """
     Write data to the cache file associated with a unique ID.
@@ -110,9 +133,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    _write_cache_file(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +162,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            _write_cache_file(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 04e6ef17bfb9b7cd41d52d2a673a08f996075702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:12 +0000
Subject: [PATCH 26/41] fix: 1D diagnostics on grids without axis points wrote
 past zero-length arrays

---
 nrpy/infrastructures/BHaH/simple_loop.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..ff4f8e9 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -324,11 +324,14 @@ def simple_loop_1D(
         or (i1_pts and i1_pts[0] == -1)
         or (i2_pts and i2_pts[0] == -1)
     ):
-        numpts = [0, 0, 0]
-    else:
-        numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
-        numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
-        numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
+        # No points to output; do not declare (zero-length) arrays or write to them.
+        return (
+            "",
+            f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n",
+        )
+    numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
+    numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
+    numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
 
     pragma = "#pragma omp parallel for\n"
     out_string = f"""// Define points for output along the {axis}-axis in {CoordSystem} coordinates.
@@ -356,10 +359,6 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From 5a638b768f8f081f830e6cc0970613ece26c3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 27/41] fix: asymptotic value of the conformal factor when
 evolving phi

---
 nrpy/equations/general_relativity/BSSN_quantities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/equations/general_relativity/BSSN_quantities.py b/nrpy/equations/general_relativity/BSSN_quantities.py
index 15c0f52..c06b75b 100644
--- a/nrpy/equations/general_relativity/BSSN_quantities.py
+++ b/nrpy/equations/general_relativity/BSSN_quantities.py
@@ -76,9 +76,13 @@ class BSSNQuantities:
             )
 
             # Step 2.b: Register scalar quantities, using gri.register_gridfunctions()
+            #           In flat space phi=0, so that W=chi=1.
+            cf_infinity = (
+                0.0 if par.parval_from_str("EvolvedConformalFactor_cf") == "phi" else 1.0
+            )
             self.trK, self.cf, self.alpha = gri.register_gridfunctions(
                 ["trK", "cf", "alpha"],
-                f_infinity=[0.0, 1.0, 1.0],
+                f_infinity=[0.0, cf_infinity, 1.0],
                 wavespeed=[1.0, 1.0, sp.sqrt(2.0)],
             )
 
-- 
2.43.0


From 9bd49b83c4fcef4c5bceec61d6cf86b7d86676e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:26 +0000
Subject: [PATCH 28/41] fix: weight the NRPyElliptic L2 norm by sqrt(det
 gammahat), not det gammahat

---
 .../BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py   | 2 +-
 .../superB/nrpyelliptic/conformally_flat_C_codegen_library.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
index 1d7e383..84d2a0b 100644
--- a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -368,7 +368,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const DOUBLE r",
diff --git a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
index e2f64f7..a991233 100644
--- a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -11,6 +11,8 @@ from inspect import currentframe as cfr
 from types import FrameType as FT
 from typing import Dict, Tuple, Union, cast
 
+import sympy as sp
+
 import nrpy.c_codegen as ccg
 import nrpy.c_function as cfc
 import nrpy.helpers.parallel_codegen as pcg
@@ -45,7 +47,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const REAL r",
-- 
2.43.0


From 4ad862145873d35964389598f888b216c1886197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:00 +0000
Subject: [PATCH 29/41] fix: read_checkpoint must not restart from a truncated
 checkpoint file

---
 nrpy/infrastructures/BHaH/checkpointing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..a85731b 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,13 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+// A short read means the checkpoint file is incomplete; restarting from it would silently use garbage.
+#define FREAD(ptr, size, nmemb, stream) { \
+    if (fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) { \
+      fprintf(stderr, "ERROR: checkpoint file is truncated or unreadable.\n"); \
+      exit(EXIT_FAILURE); \
+    } \
+  }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
-- 
2.43.0


From 79878c1e92a5e03c0b3c13a56c15ca5c5ffeb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:00 +0000
Subject: [PATCH 30/41] fix: write_checkpoint must not destroy the previous
 checkpoint when interrupted

---
 nrpy/infrastructures/BHaH/checkpointing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index a85731b..2ccf575 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -149,7 +149,15 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
+  // Write to a temporary file and rename() it once complete, so that an interrupted
+  //   write never destroys the previous checkpoint.
+  char tmp_filename[256 + 4];
+  snprintf(tmp_filename, sizeof(tmp_filename), "%s.tmp", filename);
+  FILE *cp_file = fopen(tmp_filename, "w+");
+  if (cp_file == NULL) {
+    fprintf(stderr, "ERROR: could not open %s for writing; no checkpoint written.\n", tmp_filename);
+    return;
+  }
   fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -200,7 +208,12 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
+  const int write_error = ferror(cp_file);
+  if (fclose(cp_file) != 0 || write_error || rename(tmp_filename, filename) != 0) {
+    fprintf(stderr, "ERROR: failed to write checkpoint; keeping the previous one, if any.\n");
+    remove(tmp_filename);
+    return;
+  }
   fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
-- 
2.43.0


From fa743e6cc090c10843c54ec06890c5a3a578eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 31/41] fix: ET rhs_eval must declare and read exactly the
 parameters its RHSs use

The thorn's param.ccl declared eta and diss_strength even when the chosen
gauge or the absence of Kreiss-Oliger dissipation leaves them unregistered
(KeyError), declared PI only for a thorn named Baikal, and the SIMD body
dereferenced CCTK_ParameterGet() of undeclared PI/eta.
---
 .../CarpetX/general_relativity/rhs_eval.py    | 33 ++++++++++++-------
 .../ETLegacy/general_relativity/rhs_eval.py   | 33 ++++++++++++-------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..96ef5f0 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -90,14 +90,10 @@ def register_CFunction_rhs_eval(
     body = f"""  DECLARE_CCTK_ARGUMENTSX_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-  const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
 """
         if enable_CAKO:
             body += f"""
@@ -338,6 +334,20 @@ def register_CFunction_rhs_eval(
         results_dictionary,
     )
 
+    # The thorn needs eta and/or PI if and only if the RHS expressions depend on them.
+    rhs_symbol_names = {
+        str(symbol)
+        for expr in local_BSSN_RHSs_varname_to_expr_dict.values()
+        for symbol in expr.free_symbols
+    }
+    physics_params = [param for param in ("eta", "PI") if param in rhs_symbol_names]
+    if enable_simd:
+        for param in physics_params:
+            body += f"""
+  const CCTK_REAL *param_{param} CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("{param}", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY {param} CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_{param});
+"""
+
     body += lp.simple_loop(
         loop_body=ccg.c_codegen(
             list(local_BSSN_RHSs_varname_to_expr_dict.values()),
@@ -364,11 +374,12 @@ if(FD_order == {fd_order}) {{
 }}
 """
 
-    params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    params = physics_params + ["FD_order"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
@@ -376,8 +387,6 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
-        params += ["PI"]
 
     cfc.register_CFunction(
         subdirectory=thorn_name,
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 4666531..b556838 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -94,14 +94,10 @@ def register_CFunction_rhs_eval(
     body = f"""  DECLARE_CCTK_ARGUMENTS_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-  const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
 """
     else:
         body += """
@@ -370,6 +366,20 @@ def register_CFunction_rhs_eval(
             results_dictionary,
         )
 
+    # The thorn needs eta and/or PI if and only if the RHS expressions depend on them.
+    rhs_symbol_names = {
+        str(symbol)
+        for expr in local_BSSN_RHSs_varname_to_expr_dict.values()
+        for symbol in expr.free_symbols
+    }
+    physics_params = [param for param in ("eta", "PI") if param in rhs_symbol_names]
+    if enable_simd:
+        for param in physics_params:
+            body += f"""
+  const CCTK_REAL *param_{param} CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("{param}", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY {param} CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_{param});
+"""
+
     body += lp.simple_loop(
         loop_body=ccg.c_codegen(
             list(local_BSSN_RHSs_varname_to_expr_dict.values()),
@@ -396,11 +406,12 @@ if(FD_order == {fd_order}) {{
 }}
 """
 
-    params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    params = physics_params + ["FD_order"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
@@ -408,8 +419,6 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
-        params += ["PI"]
 
     cfc.register_CFunction(
         subdirectory=thorn_name,
-- 
2.43.0


From cc78c63bbe988e8495c39dbc5e5df14e9292e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 32/41] fix: ET BSSN_constraints must read PI only when the
 thorn declares it

---
 .../CarpetX/general_relativity/BSSN_constraints.py          | 6 +++++-
 .../ETLegacy/general_relativity/BSSN_constraints.py         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
index a680ad5..ff6743b 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
@@ -58,10 +58,14 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTSX_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
+
+"""
+        if enable_T4munu:
+            body += f"""
   const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 3cb2fbf..1514937 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -61,10 +61,14 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTS_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
+
+"""
+        if enable_T4munu:
+            body += f"""
   const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 
-- 
2.43.0


From 655121ca2ef1ff294a118527d2fd9d0d3247e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 33/41] fix: ETLegacy Ricci_eval and BSSN_constraints must
 declare invdxx without SIMD too

---
 .../ETLegacy/general_relativity/BSSN_constraints.py          | 5 ++++-
 .../ETLegacy/general_relativity/Ricci_eval.py                | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 1514937..c6788e9 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -74,7 +74,10 @@ def register_CFunction_BSSN_constraints(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
index 680dfbe..922f590 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
@@ -66,7 +66,10 @@ def register_CFunction_Ricci_eval(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
-- 
2.43.0


From 9a06107c979b621f23dbeecff4b13d86a9d6fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 34/41] fix: register the correct parities of rank-1
 gridfunctions of dimension 4

Component i of a 4-vector flips sign across the plane of spatial direction
i-1, and its time component nowhere; sym[3] was written out of bounds.
---
 nrpy/infrastructures/ETLegacy/Symmetry_registration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
index 4d20fe4..53c6045 100644
--- a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
+++ b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
@@ -67,8 +67,11 @@ def register_CFunction_Symmetry_registration_oldCartGrid3D(
                     body += f"  sym[{symidx0}] *= -1;\n"
                     body += f"  sym[{symidx1}] *= -1;\n"
             elif gfname[-1].isdigit():  # Rank 1
-                symidx = gfname[-1]
-                body += f"  sym[{symidx}] = -1;\n"
+                symidx = int(gfname[-1])
+                if gf.dimension == 4:
+                    symidx -= 1
+                if symidx >= 0:
+                    body += f"  sym[{symidx}] = -1;\n"
             elif not gfname[-1].isdigit():  # Rank 0
                 body += "  // (this gridfunction is a scalar -- no need to change default sym[]'s!)\n"
             else:
-- 
2.43.0


From b6a383a74c5e1a4616f29cfbb4f57b0265b0beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:53 +0000
Subject: [PATCH 35/41] fix: TP_Interp must apply center_offset in the
 TwoPunctures frame

center_offset is set, and enters the angular momentum, in the frame in which
the punctures lie on the x axis, but was subtracted from the rotated
coordinates: for unequal masses the binary was displaced sideways instead of
along its axis, so its center of mass was not at the origin.
---
 .../general_relativity/TwoPunctures/TP_interp.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
index 625a4eb..da87810 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
@@ -116,12 +116,13 @@ static inline void swap(REAL *restrict const a, REAL *restrict const b) {
   // z_dest = x_src; x_dest = y_src; y_dest = z_src
   REAL xx, yy, zz;
   {
-    const REAL x_dest = x - ID_persist->center_offset[0];
-    const REAL y_dest = y - ID_persist->center_offset[1];
-    const REAL z_dest = z - ID_persist->center_offset[2];
-    xx = z_dest;
-    yy = x_dest;
-    zz = y_dest;
+    // center_offset is given in the source (TwoPunctures) frame.
+    const REAL x_dest = x;
+    const REAL y_dest = y;
+    const REAL z_dest = z;
+    xx = z_dest - ID_persist->center_offset[0];
+    yy = x_dest - ID_persist->center_offset[1];
+    zz = y_dest - ID_persist->center_offset[2];
   }
 
   // We implement swapping the x and z coordinates as follows.
-- 
2.43.0


From b1c70c885849c30d5acac376347cbfefb65708b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:53 +0000
Subject: [PATCH 36/41] fix: NRPyPN momenta must pair each black hole's spin
 with its own mass

Object 1 has mass_m, but was given the spin of the more massive black hole.
---
 .../NRPyPN_quasicircular_momenta.py                  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
index 262f004..96f8cc8 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
@@ -96,12 +96,12 @@ if(commondata->initial_p_t == -1.0 && commondata->initial_p_r == -1.0) {
     // In NRPyPN, q = m2/m1 = mass_M/mass_m. So mass_m = object 1, and mass_M is object 2.
     const REAL q = commondata->mass_ratio;
     const REAL r = commondata->initial_sep;
-    const REAL chi1U0 = commondata->bbhxy_BH_M_chix;
-    const REAL chi1U1 = commondata->bbhxy_BH_M_chiy;
-    const REAL chi1U2 = commondata->bbhxy_BH_M_chiz;
-    const REAL chi2U0 = commondata->bbhxy_BH_m_chix;
-    const REAL chi2U1 = commondata->bbhxy_BH_m_chiy;
-    const REAL chi2U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi1U0 = commondata->bbhxy_BH_m_chix;
+    const REAL chi1U1 = commondata->bbhxy_BH_m_chiy;
+    const REAL chi1U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi2U0 = commondata->bbhxy_BH_M_chix;
+    const REAL chi2U1 = commondata->bbhxy_BH_M_chiy;
+    const REAL chi2U2 = commondata->bbhxy_BH_M_chiz;
 
     const REAL mass_M =   q / (1.0 + q);
     const REAL mass_m = 1.0 / (1.0 + q);
-- 
2.43.0


From 4845c374d3cf953b302b62b83950d41b8d29d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:53 +0000
Subject: [PATCH 37/41] fix: TwoPunctures lapse inside the m- extension radius
 must use the m- mass

---
 .../BHaH/general_relativity/TwoPunctures/TP_interp.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
index da87810..f4c80b1 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
@@ -295,7 +295,7 @@ static inline void swap(REAL *restrict const a, REAL *restrict const b) {
       alp_out = ((1.0 - 0.5 * EXTEND(mp, r_plus) - 0.5 * mm / r_minus) / (1.0 + 0.5 * EXTEND(mp, r_plus) + 0.5 * mm / r_minus));
     }
     if (r_minus < ID_persist->TP_Extend_Radius) {
-      alp_out = ((1.0 - 0.5 * EXTEND(mm, r_minus) - 0.5 * mp / r_plus) / (1.0 + 0.5 * EXTEND(mp, r_minus) + 0.5 * mp / r_plus));
+      alp_out = ((1.0 - 0.5 * EXTEND(mm, r_minus) - 0.5 * mp / r_plus) / (1.0 + 0.5 * EXTEND(mm, r_minus) + 0.5 * mp / r_plus));
     }
 
     if (averaged_lapse) {
-- 
2.43.0


From 029a39964a9863e5ba0fd121dad066710395ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 38/41] fix: creating a shared library must not modify the
 caller's list of compiler flags

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 902f91d..4a3423a 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -94,8 +94,8 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
         # For shared libraries, we need -fPIC and -shared
         if not static_lib:
-            if addl_CFLAGS is None:
-                addl_CFLAGS = []
+            # Copy, so that the caller's list is not modified.
+            addl_CFLAGS = list(addl_CFLAGS) if addl_CFLAGS else []
             for flag in ["-fPIC", "-shared"]:
                 if flag not in addl_CFLAGS:
                     addl_CFLAGS.append(flag)
-- 
2.43.0


From d6da23ebf68313fe5fde433586edade2c29dcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 39/41] fix: generated Makefiles must use the requested C
 compiler (CC ?= never overrides make's built-in CC)

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 4a3423a..ee47f58 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -198,7 +198,9 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
     Makefile_str = (
         rf"CC = {CC}  # Locally overwrites CC to {CC}\n"
         if CC == "nvcc"
-        else f"CC ?= {CC}  # assigns the value CC to {CC} only if environment variable CC is not already set\n"
+        # "CC ?= {CC}" would have no effect, as make predefines CC=cc.
+        else f"# Set CC to {CC} only if CC is not already set in the environment or on the command line\n"
+        f"ifeq ($(origin CC),default)\nCC = {CC}\nendif\n"
     )
     Makefile_str += f"""
 CFLAGS = {CFLAGS_dict[compiler_opt_option]}
-- 
2.43.0


From 3bddb030475eb55bf45802468fb44c3c7182eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 40/41] fix: make clean must remove object files in nested
 subdirectories

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index ee47f58..371c7f9 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -248,7 +248,7 @@ all: {exec_or_library_name}
     # Clean target
     Makefile_str += f"""# Use $(RM) to be cross-platform compatible.
 clean:
-\t$(RM) *.o */*.o *~ */*~ ./#* *.txt *.gp *.dat *.avi *.png {exec_or_library_name}
+\t$(RM) $(OBJ_FILES) *.o */*.o *~ */*~ ./#* *.txt *.gp *.dat *.avi *.png {exec_or_library_name}
 """
 
     # Write the Makefile
-- 
2.43.0


From ed3cfea1f886852cd612fd06ab238afcacac1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:42 +0000
Subject: [PATCH 41/41] fix: a computed NaN must not pass assert_equal or the
 comparison against trusted values

---
 nrpy/validate_expressions/validate_expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/validate_expressions/validate_expressions.py b/nrpy/validate_expressions/validate_expressions.py
index 6ad3567..c91d87a 100644
--- a/nrpy/validate_expressions/validate_expressions.py
+++ b/nrpy/validate_expressions/validate_expressions.py
@@ -97,7 +97,8 @@ def assert_equal(
         tolerance = 10 ** (-4.0 / 5.0 * precision)
         abs_diff = fabs(vardict_1_results_dict[var_1] - vardict_2_results_dict[var_2])
         avg = (vardict_1_results_dict[var_1] + vardict_2_results_dict[var_2]) / 2
-        if abs_diff > fabs(avg) * tolerance:
+        # Written as "not <=", so that a NaN is never accepted.
+        if not abs_diff <= fabs(avg) * tolerance:
             print(f"Error on {var_1}: {abs_diff} > {fabs(avg) * tolerance}")
             raise AssertionError
 
@@ -422,7 +423,8 @@ def compare_against_trusted(
         # We compare relative error here. Pass if abs_diff <= |trusted value| * tolerance
         tolerance = 10 ** (-4.0 / 5.0 * mp.dps)
         abs_diff = results_dict[key] - mpc(trusted_results_dict[key])
-        if fabs(abs_diff) > fabs(mpc(trusted_results_dict[key])) * tolerance:
+        # Written as "not <=", so that a NaN never passes for a trusted value.
+        if not fabs(abs_diff) <= fabs(mpc(trusted_results_dict[key])) * tolerance:
             raise ValueError(
                 "\n*** FAILURE ***\n"
                 f"****{key}**** mismatch in {trusted_file_basename}! {fabs(abs_diff)} >= {fabs(mpc(trusted_results_dict[key]))} * {tolerance} disagreement\n"
-- 
2.43.0

