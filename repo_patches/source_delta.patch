From 979ab5fcc4e7ddf11305a79bcbd603ee2f3cb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 01/47] fix: safe_inverse and safe_sqrt work on the mpf values
 the pipeline uses

---
 postprocfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..bf1cc44 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
@@ -57,7 +57,7 @@ def dec_sin(x):
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
-- 
2.43.0


From 571ccfb98debd0c264e9818cc0463d3cc605bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 02/47] fix: rational LHS accepts the mpf target constants (mpf
 has no is_normal)

---
 lhs_evaluators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..bef6941 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,6 +1,6 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From 5957521eabb7ed23a3205624819240080209599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 03/47] fix: mpf values are turned into fixed-point strings
 (mpf has no to_eng_string)

---
 decimal_hashtable.py | 3 ++-
 enum_params.py       | 6 +++---
 lhs_evaluators.py    | 4 ++--
 utils.py             | 9 +++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..99e38f7 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -5,6 +5,7 @@
 
 # from decimal import Decimal as dec
 from mpmath import mpf as dec
+from utils import dec_to_str
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
@@ -28,7 +29,7 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/enum_params.py b/enum_params.py
index 43cfc37..4e35de6 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,7 @@ import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
-from utils import MathOperations, grouper
+from utils import MathOperations, grouper, dec_to_str
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
 # converts #
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +505,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec_to_str(d1)[:accuracy+1] == dec_to_str(d2)[:accuracy+1]
 
diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index bef6941..3fb743b 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -6,7 +6,7 @@ from functools import reduce
 import operator
 import sympy
 from postprocfuncs import INVERSE_POSTPROC_PAIRS
-from utils import MathOperations
+from utils import MathOperations, dec_to_str
 
 
 x_sym = sympy.symbols('x')
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), dec_to_str(self.val))
 
     def __repr__(self):
         return self.__str__()
diff --git a/utils.py b/utils.py
index 785abe4..412972a 100644
--- a/utils.py
+++ b/utils.py
@@ -3,6 +3,15 @@
 import time
 import sys
 from itertools import zip_longest
+from mpmath import mp, nstr, inf
+
+
+def dec_to_str(x):
+    """Returns x as a fixed-point (never exponential) decimal string, with all the digits of the current precision."""
+    if x == 0:
+        return '0.' + '0' * mp.dps
+    return nstr(x, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
+
 
 class MeasureRuntime():
     """"Stopper" class for timing execution. Example:
-- 
2.43.0


From becbcb1af522c4bcd45421cdf5b016047a66d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 04/47] fix: hashtable get, setdefault and del go through the
 truncated keys

---
 decimal_hashtable.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 99e38f7..ca399fd 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -47,12 +47,22 @@ class DecimalHashTable(dict):
                 return super().__getitem__(k)
         return super().__getitem__(cur_key)
 
+    def get(self, key, default=None):
+        if key in self:
+            return self[key]
+        return default
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __delitem__(self, key):
         old_keys, cur_key = self._manipulate_key(key)
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From c366f5c0d42794b26deeba980edf45a47d5584da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 05/47] fix: non-numeric hashtable keys ('parameters') are
 never truncated

---
 decimal_hashtable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index ca399fd..0b56f83 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -27,6 +27,9 @@ class DecimalHashTable(dict):
         if not isinstance(key, dec) and not isinstance(key, str):
             raise TypeError('Only Decimal is supported')
         if isinstance(key, str):
+            # names (e.g. 'parameters') aren't numbers, and shouldn't be truncated
+            if not key[:1].isdigit():
+                return [], key
             key_str = key
         else:
             key_str = dec_to_str(key)
-- 
2.43.0


From 2f0fb54fce7129a12e8f943a43b76e7d8c2679e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 06/47] fix: refining rounds the integer correction instead of
 truncating it

---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 4e35de6..e7ff9a2 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -16,6 +16,7 @@ from enum_poly_params import BasicEnumPolyParams, set_precision
 import io
 import shutil
 import numpy
+from mpmath import nint
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
@@ -299,7 +300,7 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
-- 
2.43.0


From 1967cafc8c9e59103d69b2609d1540a1aacb9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 07/47] fix: csv export names the postproc function and accepts
 results with no convergence info

---
 enum_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index e7ff9a2..d49b1e2 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -465,6 +465,7 @@ class MITM:
             # add a row for each result
             for ab, lhs_res_obj, post_func_ind, convergence_info in self.filtered_params:
                 pa, pb = ab
+                convergence_type, convergence_rate = convergence_info or (None, None)
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
                 lhs_type =str(lhs_res_obj)
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
@@ -474,8 +475,8 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
-                                    convergence_info[0], convergence_info[1],
+                csvwriter.writerow([pa, pb, self.postproc_funcs_text[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                                    convergence_type, convergence_rate,
                                     dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
-- 
2.43.0


From 7f21a79d64b9c9a0a7aea77e995a71867706f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 08/47] fix: redefine_settings recreates the enumerator for any
 changed polynomials type

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index d49b1e2..0d83262 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -99,7 +99,7 @@ class MITM:
                different one.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        if type(self.rhs_polys_enumer) is not ab_poly_class or ab_poly_special_params is not None:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 7aa64ded624fb5b1bddb7cfd7fea4bb53917e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 09/47] fix: non-integer roots above the half are not taken as
 integers

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 0d83262..767b3ac 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -335,7 +335,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From 7cc95d6256cf89135f187d906ee43445f2f12e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 10/47] fix: rational LHSs with different denominators or
 inverted with an added integer are not equivalent

---
 lhs_evaluators.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 3fb743b..06c06ed 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -363,20 +363,18 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         # find the reduced form, and check if p1/q1==p2/q2 in the reduced form up to a constant, and if b1==b2, a1==+-a2
         numerator1_p = ratio_func1_obj.numerator_p_symbolic
         denominator1_p = ratio_func1_obj.denominator_p_symbolic
-        # auto=False keeps the polynoial over Z instead of over Q
-        quotient1, rem1 = numerator1_p.div(denominator1_p, auto=False)
-        quotient1 -= quotient1(0)
         numerator2_p = ratio_func2_obj.numerator_p_symbolic
         denominator2_p = ratio_func2_obj.denominator_p_symbolic
         if is_inverse:
-            numerator2_p, denominator2_p = denominator2_p, numerator2_p
-        quotient2, rem2 = numerator2_p.div(denominator2_p, auto=False)
-        quotient2 -= quotient2(0)
+            numerator2_p, denominator2_p = denominator2_p, numerator2_p + denominator2_p * ratio_func2_obj.added_int
         # if ab1 == ab2 and f1/g1 = f2/g2 + C
+        denominators_prod = denominator1_p * denominator2_p
+        difference = numerator1_p * denominator2_p - numerator2_p * denominator1_p
+        lead_coeff = difference.coeff_monomial(x_sym**denominators_prod.degree())
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
+            if difference * denominators_prod.LC() == denominators_prod * lead_coeff:
                 return True
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
-- 
2.43.0


From 4c324a748af752cd0e9c04e1c48d4994f24271c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 11/47] fix: latex exponents of two digits are wrapped in
 braces

---
 lhs_evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 06c06ed..a09e7ee 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -415,9 +415,9 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
             poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
-- 
2.43.0


From eb1f425fd27c57013490fc01b5a50286d049f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 12/47] fix: mpmath functions replace the missing names and
 Decimal methods of the contfracs

---
 basic_representation_types.py | 3 ++-
 cont_fracs.py                 | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..20813f5 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+from mpmath import log
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(log(accuracy / power_base) / log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..f8f33d6 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From cf9dd987d134e461172e959d7e40a470295abcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 13/47] fix: get_p_q returns the latest convergent, not the
 previous one

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f8f33d6..cf1d1c0 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From 0b2466cec6a3e50edbaa3c619f462de08d4a329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 14/47] fix: eval_contfrac of equal lengths evaluates
 b[0]/(a[0]+b[1]/...), as documented

---
 cont_fracs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index cf1d1c0..b8db7ac 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,12 +386,11 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
-    elif len(a) == len(b) + 1:
-        res = a[-1]
-        a = a[:-1]
-    else:
+        a = [0] + list(a)
+    if len(a) != len(b) + 1:
         raise ValueError('different lengths for a and b')
+    res = a[-1]
+    a = a[:-1]
 
     for a_val, b_val in zip(reversed(a), reversed(b)):
         res = a_val + b_val / res
-- 
2.43.0


From 2bb926cc8e0b87daa23dd2d20927938c93fda5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 15/47] fix: logged iterations stay consistent after ZeroB and
 with no iterations

---
 basic_representation_types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 20813f5..c4c7f78 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -56,6 +56,9 @@ class BasicRecursiveConstRepresenter:
         print_calc - whether to print the calculation process. For debugging."""
         params = dict([(p, self._params_log[p][-1]) for p in self._params_log])
         state_mat = self.iter_matrices[-1]
+        # the logs are updated only when all the iterations are done, in case an iteration raises an exception
+        params_log = {p : [] for p in self._params_log}
+        iter_matrices = []
         if print_calc:
             self._print_calc_0_depth()
         for i in range(num_of_iters):
@@ -63,8 +66,8 @@ class BasicRecursiveConstRepresenter:
             params, state_mat = iteration_algorithm(params, state_mat, i + self.num_of_executed_iters, print_calc)
             if self._logging:
                 for p in params:
-                    self._params_log[p].append(params[p])
-                self.iter_matrices.append(state_mat)
+                    params_log[p].append(params[p])
+                iter_matrices.append(state_mat)
                 # except self.SufficientAccuracy:
                 #     break
         if hasattr(self, 'finalize_iterations') and exec_finalize:
@@ -76,6 +79,11 @@ class BasicRecursiveConstRepresenter:
             for p in params:
                 self._params_log[p] = [params[p]]
             self.iter_matrices = [state_mat]
+        else:
+            for p in params:
+                self._params_log[p] += params_log[p]
+                self._params_log[p][-1] = params[p]
+            self.iter_matrices += iter_matrices
         self.num_of_executed_iters += num_of_iters
 
     def get_num_of_executed_iters(self):
-- 
2.43.0


From 8f063d2039761dda249d67784694bc47c0cd85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 16/47] fix: factoring out x^n keeps the inner zero
 coefficients, as documented

---
 enum_poly_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..153581c 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -182,7 +182,8 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        return list(itertools.dropwhile(lambda x: x == 0, reversed(poly)))[::-1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From e8685fa94730b2af5a3df71614ca5f015ac9500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 17/47] fix: the quadratic formula divides by the leading
 coefficient

---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 153581c..71cce5e 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -161,9 +161,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
                 return False
             discrim **= 0.5
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
-- 
2.43.0


From 108a55321a657798c4b7c334f40a776149e66b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 18/47] fix: the estimated length of sparse interlaces counts
 the masks of every interlace

---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 71cce5e..43084f1 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -242,8 +242,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0]))**len(range_a) *
+                                                            binom(self.n_b, len(range_b[0]))**len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From 3f7a44c520cf3bab3a503a3cace355282a5c01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 19/47] fix: trigonometric and ln postproc functions are
 defined for mpf values

---
 postprocfuncs.py | 65 ++++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index bf1cc44..78b9f5f 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,59 +1,38 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from mpmath import mpf as dec
+from mpmath import mpf as dec, cos, sin, tan, log
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
 
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
     >>> print(cos(0.5))
     0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
-
     """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+    return cos(x)
 
 def dec_sin(x):
     """Return the sine of x as measured in radians.
 
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
     >>> print(sin(0.5))
     0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
-
     """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+    return sin(x)
+
+def dec_tan(x):
+    """Return the tangent of x as measured in radians."""
+    return tan(x)
+
+def dec_cot(x):
+    """Return the cotangent of x as measured in radians, or infinity if x == 0."""
+    return safe_inverse(tan(x))
+
+def dec_ln(x):
+    """Returns the natural logarithm of x if x > 0, -infinity if x == 0, otherwise returns NaN."""
+    if x < 0:
+        return dec('NaN')
+    else:
+        return log(x)
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
@@ -94,8 +73,8 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_cot(x))',
                   'lambda x: x.exp()',
                   'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -136,8 +115,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
                         'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 0cc9e2c06f60c1b5f0cc5f34def30fdc72a5b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 20/47] fix: latex forms of sqrt, exp and ln apply the function
 to the continued fraction

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 78b9f5f..cb56788 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -103,8 +103,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sqrt{{ {0} }} }}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -113,9 +113,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: x.exp()': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 49739645812200c6dd90933630e721693a501ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 21/47] fix: gcd has the sign of b also when b > a, as
 documented

---
 utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils.py b/utils.py
index 412972a..e21e311 100644
--- a/utils.py
+++ b/utils.py
@@ -69,8 +69,6 @@ class MathOperations:
         b is divided by it, the result comes out positive).
         (Implemented here to be used with Decimal/other types that math doesn't support.)
         """
-        if b > a:
-            return cls.gcd(b, a)
         while b:
             a, b = b, a % b
         return a
-- 
2.43.0


From 8e9b644c4435cd86b6f7027b23688078b062a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 22/47] fix: join_hashtables aborts when the output file exists

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From 405cc712f5508962cf6565d9ae629601eb7cccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 23/47] fix: distributed configs of a config file in another
 directory are written to its distribution directory

---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..fd1aa46 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -43,7 +43,7 @@ def main(split_num=4, configfile='config.ini'):
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
                 results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From a1f49190146c8212f33300b9d81da154afb3b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 24/47] fix: optional config parameters keep their default
 values

---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..d9f5329 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From c335733edbdadccc192d6f1f74f6610323940a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 25/47] fix: hashtable versions are compared as numbers and
 matched by the whole filename

---
 configfile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/configfile.py b/configfile.py
index d9f5329..3e423d4 100644
--- a/configfile.py
+++ b/configfile.py
@@ -94,13 +94,16 @@ class ConfigParser(configparser.ConfigParser):
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        version_matches = [ re.match('%s(?:_v([0-9]+))?\\.pkl$' % re.escape(stripped_filename), fn)
+                            for fn in os.listdir(dir_path) ]
+        # sorted by the version's number (v10 is newer than v9), no version is the oldest
+        old_versions = [ m.group(0) for m in sorted([ m for m in version_matches if m ],
+                                                    key=lambda m: int(m.group(1) or 0)) ]
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
+            filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', old_versions[-1])[0]
             v = v.replace('_v', '')
             if not v:
                 v = 0
-- 
2.43.0


From 8b7603342a508406a83a20fab88a390b09e3df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 26/47] fix: paths in the config file keep their case

---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 3e423d4..64c57eb 100644
--- a/configfile.py
+++ b/configfile.py
@@ -148,7 +148,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From 1f8cc30fcdabe587039ef85e7d2221145728d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 27/47] fix: written config files can be parsed back (lhs_type,
 booleans in lists)

---
 configfile.py     | 11 +++++++++++
 distribute_run.py |  3 ++-
 main.py           |  3 ++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/configfile.py b/configfile.py
index 64c57eb..0dbdcbc 100644
--- a/configfile.py
+++ b/configfile.py
@@ -199,6 +199,17 @@ class ConfigParser(configparser.ConfigParser):
             value = '[%s]' % (', '.join(funcs_names_list))
         return super().set(section=section, option=option, value=value)
 
+    @staticmethod
+    def param_to_str(option, value):
+        """Converts a parsed parameter's value back to a string, as expected in a config file."""
+        if value is None:
+            return str(value)
+        if option == 'lhs_type':
+            return str(value['enum'])
+        if CONFIG_PARAMS_TYPES[option] is json.loads:
+            return json.dumps(value)
+        return str(value)
+
     def get_config(self):
         """Returns the parsed config dictionary."""
         return self._config
diff --git a/distribute_run.py b/distribute_run.py
index fd1aa46..19fc022 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -42,7 +42,8 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable,
+                                   ConfigParser.param_to_str(config_variable, getattr(params, config_variable)))
         results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index a73c2d2..a09f8bf 100644
--- a/main.py
+++ b/main.py
@@ -176,7 +176,8 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable,
+                           ConfigParser.param_to_str(config_variable, getattr(params, config_variable)))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From 2cd716b95c2fb1240d2e215fb39820d4c1401677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 28/47] fix: indexed constants (feig, percolation, zeta) can be
 searched

---
 main.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/main.py b/main.py
index a09f8bf..17f3051 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, i=params.i)
+    gen_percolation_const = partial(gen_percolation_consts, i=params.i)
+    gen_zeta_const = partial(gen_zeta_consts, i=params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
@@ -69,10 +69,11 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
+    target_name = params.const
     if params.const == 'feig':
-        params.const = 'feig, %d' % i
+        target_name = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+        target_name = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +83,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +93,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +109,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 4f3e1f21332d9f8eb7b842bbab61b37f7edd961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 29/47] fix: a used hashtable is searched for the configured
 constant

---
 main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.py b/main.py
index 17f3051..f369260 100644
--- a/main.py
+++ b/main.py
@@ -82,6 +82,8 @@ def main(config_file='config.ini'):
             mitm = pickle.load(input_file)
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
+        # the hashtable may have been generated for another constant
+        mitm.target_generator, mitm.target_name = target_generator, target_name
         if params.hashtable_file_operation == 'expand':
             mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 2add4bb9f96c97c3f0efbc604f4148ecf3d4c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 30/47] fix: the results directory's name is set once, also
 when the minute changes meanwhile

---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index f369260..3d86f8a 100644
--- a/main.py
+++ b/main.py
@@ -164,8 +164,9 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    results_dirname = os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M')
+    os.mkdir(results_dirname)
+    export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From c15e6f10338a6272506aea60956496257acda600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 31/47] fix: expand saves to the next version of the hashtable,
 as documented

---
 configfile.py | 6 ++++++
 main.py       | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/configfile.py b/configfile.py
index 0dbdcbc..8a8f708 100644
--- a/configfile.py
+++ b/configfile.py
@@ -113,6 +113,12 @@ class ConfigParser(configparser.ConfigParser):
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
 
+    @staticmethod
+    def next_version_filename(filepath):
+        """Returns the path of the version following a hashtable's filepath, e.g. table_v3.pkl for table_v2.pkl."""
+        filepath_base, v = re.findall('(.*?)(?:_v([0-9]+))?\\.pkl$', filepath)[0]
+        return '%s_v%d.pkl' % (filepath_base, int(v or 0) + 1)
+
     def _gen_postproc_funcs_filter(self):
         """Converts the postproc functions to their indices in POSTPROC_FUNCS"""
         try:
diff --git a/main.py b/main.py
index 3d86f8a..fd0394f 100644
--- a/main.py
+++ b/main.py
@@ -113,6 +113,8 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
+        if params.hashtable_file_operation == 'expand':
+            params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
         print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
-- 
2.43.0


From 0a673d999d5bab794da9ec0a0446e6c6cfb14070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 32/47] fix: results aren't lost when another run has finished
 at the same minute

---
 main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.py b/main.py
index fd0394f..401a63a 100644
--- a/main.py
+++ b/main.py
@@ -12,6 +12,7 @@ import os
 from configfile import ConfigParser
 from configfile import CONFIG_PARAMS_TYPES as LEGAL_CONFIG_PARAMS
 import sys
+import itertools
 from functools import partial
 from utils import MeasureRuntime
 
@@ -167,6 +168,10 @@ def main(config_file='config.ini'):
     if not os.path.isdir('results'):
         os.mkdir('results')
     results_dirname = os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M')
+    if os.path.exists(results_dirname):
+        # another run has finished at the same minute
+        results_dirname = next('%s_%d' % (results_dirname, i) for i in itertools.count(2)
+                               if not os.path.exists('%s_%d' % (results_dirname, i)))
     os.mkdir(results_dirname)
     export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
-- 
2.43.0


From 3db4756a6a5c8a267b497d9b98026c473ade08b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 33/47] fix: a failed save never leaves a partial hashtable as
 the latest version

---
 main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 401a63a..532679e 100644
--- a/main.py
+++ b/main.py
@@ -116,8 +116,10 @@ def main(config_file='config.ini'):
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         if params.hashtable_file_operation == 'expand':
             params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
-        with open(params.hashtable_file, 'wb') as output_file:
+        # written aside and renamed, so a partially written file never becomes the latest version
+        with open(params.hashtable_file + '.tmp', 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(params.hashtable_file + '.tmp', params.hashtable_file)
         print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
-- 
2.43.0


From 7c9bba2c4d07e979f0cd85b5d95a08a27ef21f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 34/47] fix: approach estimation with a small step evaluated a
 different fraction

---
 cont_fracs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index b8db7ac..ad9a0eb 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -276,8 +276,11 @@ False if it's sub exponential (e.g. linear)."""
         delta_odd.append((initial_cutoff + 3, abs(res_5 - res_3)))
 
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
-            # -3 for the iterations of res_1, res_2, res_3 that were already executed
-            self.add_iterations(iters_step - 5)
+            # -5 for the iterations of res_1, ..., res_5 that were already executed
+            if iters_step >= 5:
+                self.add_iterations(iters_step - 5)
+            else:
+                self.gen_iterations(i)
             res_0 = self.get_result()
             self.add_iterations(1)
             res_1 = self.get_result()
-- 
2.43.0


From 6e1e96e3b5d9676fdc3e2397908a879896195118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 35/47] fix: final root filter verifies the numerical roots
 exactly

---
 enum_params.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 767b3ac..31e09e9 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,6 @@ import numpy
 from mpmath import nint
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
-import itertools
 from utils import MathOperations, grouper, dec_to_str
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
@@ -330,14 +329,13 @@ class MITM:
 
     def filter_pos_integer_roots_numerators(self):
         """Filters out contfracs for which any of the b interlaces have an integer positive root. The roots are found
-        numerically and are considered real if Im(root) < 0.001 and integer if fractional_part(root) < 0.001"""
+        numerically, and the integers around them are verified exactly."""
         valid_params = []
         for params in self.filtered_params:
             b = params[0][1]
-            roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
-                               for r in roots ]
-            if not any(real_int_roots):
+            int_roots_candidates = ( (b_p, int(r.real.round()) + i)
+                                     for b_p in b for r in numpy.roots(b_p[::-1]) for i in (-1, 0, 1) )
+            if not any( i > 0 and MathOperations.subs_in_polynom(b_p, i) == 0 for b_p, i in int_roots_candidates ):
                 valid_params.append(params)
         self.filtered_params = valid_params
 
-- 
2.43.0


From d13085bf16393025304b51cd9ce7ca45739e5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 36/47] fix: a hashtable version stored by another run
 meanwhile isn't overwritten

---
 main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.py b/main.py
index 532679e..9ca8bb3 100644
--- a/main.py
+++ b/main.py
@@ -116,6 +116,9 @@ def main(config_file='config.ini'):
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         if params.hashtable_file_operation == 'expand':
             params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
+        # another run may have stored this version meanwhile
+        while os.path.exists(params.hashtable_file):
+            params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
         # written aside and renamed, so a partially written file never becomes the latest version
         with open(params.hashtable_file + '.tmp', 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 2fb0e180e69b453f7ec64b343af78b8b09c5a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 37/47] fix: two runs storing at once no longer overwrite or
 corrupt each other's version

---
 main.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/main.py b/main.py
index 9ca8bb3..484955d 100644
--- a/main.py
+++ b/main.py
@@ -116,13 +116,18 @@ def main(config_file='config.ini'):
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         if params.hashtable_file_operation == 'expand':
             params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
-        # another run may have stored this version meanwhile
-        while os.path.exists(params.hashtable_file):
-            params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
-        # written aside and renamed, so a partially written file never becomes the latest version
-        with open(params.hashtable_file + '.tmp', 'wb') as output_file:
+        # written aside and linked, so a partially written file never becomes the latest version
+        temp_filename = '%s.%d.tmp' % (params.hashtable_file, os.getpid())
+        with open(temp_filename, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-        os.replace(params.hashtable_file + '.tmp', params.hashtable_file)
+        while True:
+            try:
+                os.link(temp_filename, params.hashtable_file)
+                break
+            except FileExistsError:
+                # another run has stored this version meanwhile
+                params.hashtable_file = ConfigParser.next_version_filename(params.hashtable_file)
+        os.remove(temp_filename)
         print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
-- 
2.43.0


From f6a4d6696d739882d36e2813a333bd6b6b311a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 38/47] fix: a result whose fraction hits a zero numerator is
 dropped alone, the run goes on

---
 enum_params.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 31e09e9..0e70303 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -274,7 +274,7 @@ class MITM:
             try:
                 signed_rhs = self.postproc_funcs[post_func_ind](contfrac_evaluator(ab, accuracy, convergence_info))
             ## # except DivisionByZero:
-            except ZeroDivisionError:
+            except (ZeroDivisionError, cont_fracs.ZeroB):
                 ## # print('DivisionByZero exception', ab)
                 print('ZeroDivisionError exception', ab)
                 continue
@@ -349,7 +349,12 @@ class MITM:
         for cf_params in progressbar.progressbar(params_list):
             ab, lhs_res_obj, post_func_ind, convergence_info = cf_params
             cont_frac = cont_fracs.ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
-            if cont_frac.is_convergence_fast():
+            try:
+                is_convergence_fast = cont_frac.is_convergence_fast()
+            except cont_fracs.ZeroB:
+                # a finite continued fraction
+                continue
+            if is_convergence_fast:
                 filtered_params_list.append(cf_params)
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
@@ -467,9 +472,12 @@ class MITM:
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
                 lhs_type =str(lhs_res_obj)
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
-                cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
-                                                                                        post_func_ind,
-                                                                                        convergence_info))
+                try:
+                    cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
+                                                                                            post_func_ind,
+                                                                                            convergence_info))
+                except cont_fracs.ZeroB:
+                    continue
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-- 
2.43.0


From 9ff2a1e6a814bb469ce168c0fa51629312fb0c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 39/47] fix: an interruption of the integer correction isn't
 turned into a failure of the run

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 0e70303..bfb94c1 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -300,7 +300,7 @@ class MITM:
                     signed_lhs *= -1
                 try:
                     lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
-                except:
+                except Exception:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
-- 
2.43.0


From bad9d6fddbbe981e9425665300ce0e14a740ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 40/47] fix: an expansion doesn't evaluate and store again what
 the table already holds

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index bfb94c1..d61d2ad 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -155,7 +155,7 @@ class MITM:
         #         cont_frac, pa, pb = iter_element
         for pa, pb in progressbar.progressbar(itr, max_value=itr_len):
             if (pa, pb) in ab_blacklist:
-                postproc_funcs_to_eval = filtered_postproc_funcs - ab_blacklist[(pa, pb)]
+                postproc_funcs_to_eval = { (i, f) for i, f in filtered_postproc_funcs if i not in ab_blacklist[(pa, pb)] }
                 # if no new postproc functions to evaluate for this pa, pb, skip
                 if not postproc_funcs_to_eval:
                     continue
-- 
2.43.0


From aff2a10b0449732d168c111f748a8e7ee41b1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 41/47] fix: the exponential post-processing functions (mpf.exp
 is the binary exponent)

---
 postprocfuncs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index cb56788..469db2a 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from mpmath import mpf as dec, cos, sin, tan, log
+from mpmath import mpf as dec, cos, sin, tan, log, exp
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
@@ -27,6 +27,10 @@ def dec_cot(x):
     """Return the cotangent of x as measured in radians, or infinity if x == 0."""
     return safe_inverse(tan(x))
 
+def dec_exp(x):
+    """Returns e to the power of x."""
+    return exp(x)
+
 def dec_ln(x):
     """Returns the natural logarithm of x if x > 0, -infinity if x == 0, otherwise returns NaN."""
     if x < 0:
@@ -71,8 +75,8 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
                   'lambda x: dec_ln(x)',
                   'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
@@ -113,8 +117,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From d5d63c7a115ebfabcadda6215ccc4e57cebbfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 42/47] fix: huge and tiny function values don't exhaust the
 memory

---
 enum_params.py | 6 +++---
 utils.py       | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index d61d2ad..0495cc2 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -16,7 +16,7 @@ from enum_poly_params import BasicEnumPolyParams, set_precision
 import io
 import shutil
 import numpy
-from mpmath import nint
+from mpmath import nint, floor
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 from utils import MathOperations, grouper, dec_to_str
@@ -191,7 +191,7 @@ class MITM:
                     continue
                 k = abs(k)
                 if self.trunc_integer:
-                    k -= int(k)
+                    k -= floor(k)
                 if ((pa, pb), post_func_ind) not in self.dec_hashtable.get(k, []):
                     self.dec_hashtable.setdefault(k, []).append(((pa, pb), post_func_ind))
         print()
@@ -285,7 +285,7 @@ class MITM:
             signed_lhs = lhs_res_obj.get_val()
             lhs = abs(signed_lhs)
             if self.trunc_integer:
-                rhs -= int(rhs)
+                rhs -= floor(rhs)
                 lhs -= int(lhs)
             if self.compare_dec_with_accuracy(rhs, lhs, accuracy):
                 if print_clicks:
diff --git a/utils.py b/utils.py
index e21e311..902e37c 100644
--- a/utils.py
+++ b/utils.py
@@ -8,7 +8,8 @@ from mpmath import mp, nstr, inf
 
 def dec_to_str(x):
     """Returns x as a fixed-point (never exponential) decimal string, with all the digits of the current precision."""
-    if x == 0:
+    # (numbers as small as exp(-10**9) have too many zeros to be written)
+    if x == 0 or mp.mag(x) < -10**6:
         return '0.' + '0' * mp.dps
     return nstr(x, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
 
-- 
2.43.0


From 88bd2e79866c0bdcfe362855e6f4774c29be2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 43/47] fix: convergence is estimated from exact differences,
 fast fractions aren't lost in rounding noise

---
 cont_fracs.py | 52 +++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index ad9a0eb..b8d3ca8 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -237,6 +237,14 @@ False if it's sub exponential (e.g. linear)."""
         self.gen_iterations(0)
         return return_val
 
+    @staticmethod
+    def _convergents_distance(p_q_1, p_q_2):
+        """Returns |p_1/q_1 - p_2/q_2|, exact up to the last digit even when it's far smaller than the convergents."""
+        (p_1, q_1), (p_2, q_2) = p_q_1, p_q_2
+        if q_1 == 0 or q_2 == 0:
+            return dec('nan')
+        return dec(abs(p_1 * q_2 - p_2 * q_1)) / dec(abs(q_1 * q_2))
+
     def _estimate_approach_type_and_params_inner_alg(self, find_poly_parameter=False, iters=5000, initial_cutoff=1500,
                                           iters_step=500, exponential_threshold=1.1):
         """Returns 'exp', 'super_exp', 'poly2sympoly', 'undefined', 'fast' and 'mixed', as a tuple of (string,num):
@@ -259,21 +267,21 @@ False if it's sub exponential (e.g. linear)."""
         delta_pair = []
         delta_odd = []
         self.gen_iterations(initial_cutoff)
-        res_0 = self.get_result()
+        res_0 = self.get_p_q()
         self.add_iterations(1)
-        res_1 = self.get_result()
+        res_1 = self.get_p_q()
         self.add_iterations(1)
-        res_2 = self.get_result()
+        res_2 = self.get_p_q()
         self.add_iterations(1)
-        res_3 = self.get_result()
+        res_3 = self.get_p_q()
         self.add_iterations(1)
-        res_4 = self.get_result()
+        res_4 = self.get_p_q()
         self.add_iterations(1)
-        res_5 = self.get_result()
-        delta_pair.append((initial_cutoff, abs(res_2 - res_0)))
-        delta_pair.append((initial_cutoff + 2, abs(res_4 - res_2)))
-        delta_odd.append((initial_cutoff + 1, abs(res_3 - res_1)))
-        delta_odd.append((initial_cutoff + 3, abs(res_5 - res_3)))
+        res_5 = self.get_p_q()
+        delta_pair.append((initial_cutoff, self._convergents_distance(res_2, res_0)))
+        delta_pair.append((initial_cutoff + 2, self._convergents_distance(res_4, res_2)))
+        delta_odd.append((initial_cutoff + 1, self._convergents_distance(res_3, res_1)))
+        delta_odd.append((initial_cutoff + 3, self._convergents_distance(res_5, res_3)))
 
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
             # -5 for the iterations of res_1, ..., res_5 that were already executed
@@ -281,21 +289,21 @@ False if it's sub exponential (e.g. linear)."""
                 self.add_iterations(iters_step - 5)
             else:
                 self.gen_iterations(i)
-            res_0 = self.get_result()
+            res_0 = self.get_p_q()
             self.add_iterations(1)
-            res_1 = self.get_result()
+            res_1 = self.get_p_q()
             self.add_iterations(1)
-            res_2 = self.get_result()
+            res_2 = self.get_p_q()
             self.add_iterations(1)
-            res_3 = self.get_result()
+            res_3 = self.get_p_q()
             self.add_iterations(1)
-            res_4 = self.get_result()
+            res_4 = self.get_p_q()
             self.add_iterations(1)
-            res_5 = self.get_result()
-            delta_pair.append((i, abs(res_2 - res_0)))
-            delta_pair.append((i + 2, abs(res_4 - res_2)))
-            delta_odd.append((i + 1, abs(res_3 - res_1)))
-            delta_odd.append((i + 3, abs(res_5 - res_3)))
+            res_5 = self.get_p_q()
+            delta_pair.append((i, self._convergents_distance(res_2, res_0)))
+            delta_pair.append((i + 2, self._convergents_distance(res_4, res_2)))
+            delta_odd.append((i + 1, self._convergents_distance(res_3, res_1)))
+            delta_odd.append((i + 3, self._convergents_distance(res_5, res_3)))
 
         pair_diminish = False
         odd_diminish = False
@@ -323,9 +331,9 @@ False if it's sub exponential (e.g. linear)."""
             return (approach_type, approach_parameter)
 
         mean_pair_ratio = sum([ p for i, p in pair_ratio] ) / len(pair_ratio)
-        mean_pair_ratio_avg_square_error = sum([ (r-mean_pair_ratio)**2 for i, r in pair_ratio ]).sqrt() / len(pair_ratio)
+        mean_pair_ratio_avg_square_error = (sum([ (r-mean_pair_ratio)**2 for i, r in pair_ratio ]) / len(pair_ratio)).sqrt()
         mean_odd_ratio = sum([ p for i, p in odd_ratio ]) / len(odd_ratio)
-        mean_odd_ratio_avg_square_error = sum([ (r-mean_odd_ratio)**2 for i, r in odd_ratio ]).sqrt() / len(odd_ratio)
+        mean_odd_ratio_avg_square_error = (sum([ (r-mean_odd_ratio)**2 for i, r in odd_ratio ]) / len(odd_ratio)).sqrt()
         relative_pair_sq_err = mean_pair_ratio_avg_square_error / mean_pair_ratio
         relative_odd_sq_err = mean_odd_ratio_avg_square_error / mean_odd_ratio
         if relative_pair_sq_err > 0.5 or relative_odd_sq_err > 0.5:
-- 
2.43.0


From c9f4186f9a508d905c0c16825653a5e64c73d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 44/47] fix: the far rate of a super-exponential fraction
 doesn't cut its iterations short

---
 basic_representation_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index c4c7f78..4adcaa9 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -144,8 +144,9 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         If the approach type is evaluated and supported, and less then 'num_of_iters' iterations are required to
         achieve an error of at most 'accuracy', if 'accuracy' isn't 0.
         If 'exec_finalize' is True and self.finalize_iterations method exists, it is being invoked at the end."""
-        # Calculates the required number of iterations if required, for fast convergence.
-        if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
+        # Calculates the required number of iterations if required, for fast convergence (the rate of a super exponential
+        # convergence is that of far iterations, the first ones are slower).
+        if self._approach_type == 'exp' and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
             required_num_of_iters = math.ceil(abs(log(accuracy / power_base) / log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
-- 
2.43.0


From ba1c152b88914c574a16083cfa8c21bceb98138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 45/47] fix: a surprising fraction whose convergence cannot be
 estimated doesn't end the run

---
 enum_params.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 0495cc2..ff821da 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -359,8 +359,11 @@ class MITM:
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
                 print(cf_params)
-                cont_frac.estimate_approach_type_and_params()
-                print(cont_frac.get_approach_type_and_params())
+                try:
+                    cont_frac.estimate_approach_type_and_params()
+                    print(cont_frac.get_approach_type_and_params())
+                except Exception as e:
+                    print('Problems while estimating its convergence: %r' % e)
         self.filtered_params = filtered_params_list
 
     def filter_clicks_by_approach_type(self, whitelist=['exp', 'super_exp', 'fast'], blacklist=None):     # , filter_uniq_list=True):
-- 
2.43.0


From f35ed4a0bf1176cc18324409a4e8ba598d1208bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 46/47] fix: the LHS type column of the csv export states the
 type of the LHS

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index ff821da..0ffd460 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -473,7 +473,7 @@ class MITM:
                 pa, pb = ab
                 convergence_type, convergence_rate = convergence_info or (None, None)
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
-                lhs_type =str(lhs_res_obj)
+                lhs_type = str(type(lhs_res_obj))
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
                 try:
                     cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
-- 
2.43.0


From 3d701b3358354a183ea34543679777af3cce9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 47/47] fix: reinitialising a rational function's evaluator
 keeps its parameters in step

---
 lhs_evaluators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index a09e7ee..78f2c88 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -267,6 +267,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
             params - (numerator_poly, denominator_poly, added_int) the added int is an integer to be added to the result
                      and the polynomials are of the format: [a_0, a_1, a_2, ...] <=> a_0 + a_1*x + a_2*x^2 + ..."""
         # WARNING: as far as I see, only the first two arguments will be fed to params from the config file. Bug?
+        self.params = params
         self.numerator_p, self.denominator_p, self.added_int = params
         self._should_update_numerator_p_symbolic = True
         self._should_update_denominator_p_symbolic = True
-- 
2.43.0

