From 52aba03ebad3b847208dde7b27ed30bc007b5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 01/38] fix: convert mpf values to decimal digits without the
 Decimal-only to_eng_string

---
 decimal_hashtable.py | 12 +++++++++++-
 enum_params.py       |  6 +++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..521b871 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -4,8 +4,18 @@
  serialization by dill/pickle and (perhaps) more."""
 
 # from decimal import Decimal as dec
+import mpmath
 from mpmath import mpf as dec
 
+
+def dec_to_str(x):
+    """Returns the decimal digits of x in a plain positional notation (never in a scientific one), with the current
+    working precision."""
+    if x == 0:
+        return '0.' + '0' * mpmath.mp.dps
+    return mpmath.nstr(x, mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+
+
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
 class DecimalHashTable(dict):
@@ -28,7 +38,7 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/enum_params.py b/enum_params.py
index 43cfc37..4598ecd 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -4,7 +4,7 @@ finding 'clicks', filter unique ones and ones that converge fast enough and then
 with the continued fractions up to an arbitrary decimal precision."""
 
 import cont_fracs
-from decimal_hashtable import DecimalHashTable
+from decimal_hashtable import DecimalHashTable, dec_to_str
 ## # from decimal import Decimal as dec
 from mpmath import mpf as dec, isnormal
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    str(postproc_res), str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +505,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec_to_str(d1)[:accuracy+1] == dec_to_str(d2)[:accuracy+1]
 
-- 
2.43.0


From 280b91a4171fdc70c106b64d545d6b3987416e09 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 02/38] fix: DecimalHashTable.__delitem__ deletes an entry
 stored with the current accuracy

---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 521b871..37b5eca 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -61,7 +61,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From fbcd7a8ede790cde84628a04836294d35624bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 03/38] fix: DecimalHashTable.get and setdefault use the
 truncated keys, as the other accessors do

---
 decimal_hashtable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 37b5eca..14785e7 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -70,6 +70,14 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From e83134d1de0d945683bde68612f1a84c85787dfa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 04/38] fix: LHS evaluators accept mpf target constants

---
 lhs_evaluators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..c845cc2 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -5,6 +5,7 @@ import itertools
 from functools import reduce
 import operator
 import sympy
+from mpmath import isnormal
 from postprocfuncs import INVERSE_POSTPROC_PAIRS
 from utils import MathOperations
 
@@ -37,7 +38,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), str(self.val))
 
     def __repr__(self):
         return self.__str__()
@@ -307,7 +308,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +553,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From bfbb5f7af9b01d5cbf678c0e89df5be85432734a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 05/38] fix: post-processing functions accept mpf values
 (is_zero, ln, sin, cos, tan and cot were missing)

---
 postprocfuncs.py | 71 +++++++++---------------------------------------
 1 file changed, 13 insertions(+), 58 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..4eab966 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,63 +1,11 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
-
-def dec_cos(x):
-    """Return the cosine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
-    >>> print(cos(0.5))
-    0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
-
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
-
-def dec_sin(x):
-    """Return the sine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
-    >>> print(sin(0.5))
-    0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
-
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+from mpmath import mpf as dec, log, sin as dec_sin, cos as dec_cos, tan as dec_tan, cot as dec_cot
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
@@ -69,6 +17,13 @@ def safe_sqrt(x):
     else:
         return x.sqrt()
 
+def dec_ln(x):
+    """Returns ln(x) if x > 0, otherwise returns NaN"""
+    if x > 0:
+        return log(x)
+    else:
+        return dec('NaN')
+
 
 # All the supported postproc functions. New ones should be added at the end, to allow backward compatibility.
 # IMPORTANT: after every new postproc func should appear it's inverse: safe_inverse(new_postproc_func).
@@ -94,8 +49,8 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_cot(x))',
                   'lambda x: x.exp()',
                   'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -136,8 +91,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
                         'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From b1610204a2ba245f0d3d1b43e826193a7c865c2a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 06/38] fix: LaTeX of the sqrt, exp and ln post-processing
 functions

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 4eab966..8e98933 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -79,8 +79,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sqrt{{ {0} }} }}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -89,9 +89,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: x.exp()': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 4e9331897ad4a66c0bbb01e479089642db1f2b35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 07/38] fix: convergence-based number of iterations with mpf
 values (mpf has no ln)

---
 basic_representation_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..20813f5 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+from mpmath import log
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(log(accuracy / power_base) / log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From 241313de1a8eef2cd62ad270dbbcc4bf33411aef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 08/38] fix: ContFrac.is_result_valid refers to an unimported
 mpmath

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..f8f33d6 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From 77e97b2337768927a68c9bf9644c53e7870e0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 09/38] fix: ContFrac.get_p_q returns the latest p, q instead
 of the previous ones

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f8f33d6..cf1d1c0 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From c24f396b7e97a8780c75be91a6060492adb6a489 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 10/38] fix: eval_contfrac without an additive constant
 evaluates b[0]/(a[0]+b[1]/...) as documented

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index cf1d1c0..6eef277 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,7 +386,7 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
+        return b[0] / eval_contfrac(a, b[1:])
     elif len(a) == len(b) + 1:
         res = a[-1]
         a = a[:-1]
-- 
2.43.0


From 1609a0b8084774aa6c1517bd79134b6ed094cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 11/38] fix: integer-roots detection handles inner zero
 coefficients and solves the right quadratic

---
 enum_poly_params.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..4f2f7cc 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -160,10 +160,10 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
             if discrim < 0:
                 return False
             discrim **= 0.5
-            ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            ## # if ((discrim - poly[1])/(2*poly[2])).is_integer():
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
@@ -182,7 +182,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        is_zero = lambda x: x == 0
+        poly = list(itertools.dropwhile(is_zero, poly))
+        return list(itertools.dropwhile(is_zero, poly[::-1]))[::-1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 40a7c8249efaabb152d5d988c95fa4c5ac48fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 12/38] fix: a root slightly below an integer is not the only
 kind of a near-integer root

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 4598ecd..108e8bd 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -334,7 +334,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From 41a9241cce5fcc220e23278d33272db85da4acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 13/38] fix: refined LHS is shifted by the nearest integer
 (truncation may lose 1)

---
 enum_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 108e8bd..b2ab5a7 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable, dec_to_str
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -299,10 +299,10 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
-                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
-                                       (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
+                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, nint(signed_rhs-signed_lhs)=%s' %
+                                       (signed_rhs, signed_lhs, nint(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
                 # p' = p/gcd(p, q)  ,  q' = q/gcd(p, q)
                 lhs_res_obj.canonalize_params()
-- 
2.43.0


From bc50cf378ed2da1d6be6d6e7d65bb620c99a2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 14/38] fix: re-enumerated entries are recognized by the index
 of their post-processing function

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index b2ab5a7..22b4ff4 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -155,7 +155,7 @@ class MITM:
         #         cont_frac, pa, pb = iter_element
         for pa, pb in progressbar.progressbar(itr, max_value=itr_len):
             if (pa, pb) in ab_blacklist:
-                postproc_funcs_to_eval = filtered_postproc_funcs - ab_blacklist[(pa, pb)]
+                postproc_funcs_to_eval = { (i, f) for i, f in filtered_postproc_funcs if i not in ab_blacklist[(pa, pb)] }
                 # if no new postproc functions to evaluate for this pa, pb, skip
                 if not postproc_funcs_to_eval:
                     continue
-- 
2.43.0


From 1d0e44266265f3fac84787692cdbff3e3a682fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 15/38] fix: rational functions with different denominators are
 not equivalent

---
 lhs_evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index c845cc2..a2655b4 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -377,7 +377,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
+            if quotient1 == quotient2 and rem1 == rem2 and denominator1_p == denominator2_p:
                 return True
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
-- 
2.43.0


From 65bf05a879152e979442fb05ce4dd40273fcdab3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 16/38] fix: join_hashtables aborts when the output file
 exists, as it reports

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From 6141c7805e664790b0dfd91f2cf0289324f8025e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 17/38] fix: constants with an index (feig, percolation, zeta)
 took the index as a precision

---
 main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.py b/main.py
index a73c2d2..f869b41 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, None, params.i)
+    gen_percolation_const = partial(gen_percolation_consts, None, params.i)
+    gen_zeta_const = partial(gen_zeta_consts, None, params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
@@ -70,9 +70,9 @@ def main(config_file='config.ini'):
 
     measure_runtime = MeasureRuntime()
     if params.const == 'feig':
-        params.const = 'feig, %d' % i
+        params.const = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+        params.const = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
-- 
2.43.0


From 44a666fc27b2c8a41b9348c9a1e2dcca0c43e102 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 18/38] fix: hashtable versions are ordered numerically (v10 is
 newer than v9)

---
 configfile.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..fab952e 100644
--- a/configfile.py
+++ b/configfile.py
@@ -95,18 +95,15 @@ class ConfigParser(configparser.ConfigParser):
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        version_pattern = '%s(?:_v([0-9]+))?\\.pkl' % re.escape(stripped_filename)
+        get_version = lambda fn: int(re.fullmatch(version_pattern, fn).group(1) or 0)
+        old_versions = [ fn for fn in os.listdir(dir_path) if re.fullmatch(version_pattern, fn) ]
+        old_versions.sort(key=get_version)
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
-            v = v.replace('_v', '')
-            if not v:
-                v = 0
-            v = int(v) + 1
-            filename = '%s_v%d.pkl' % (filename_base, v)
+            filename = '%s_v%d.pkl' % (stripped_filename, get_version(old_versions[-1]) + 1)
         else:
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
-- 
2.43.0


From f7b855a13f9682bb3b6ffcd39f7d5abff5b656bb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 19/38] fix: redefine_settings recreates the enumerator also
 when changing to a base enumerator class

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 22b4ff4..7a37c13 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -98,7 +98,7 @@ class MITM:
                different one.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        if type(self.rhs_polys_enumer) is not ab_poly_class:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 3b46b8c6e4a16466e35f90b32fc72b5e7d7b830a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 20/38] fix: exported results name the post-processing function
 and the LHS type

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 7a37c13..1e4d4ac 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -465,7 +465,7 @@ class MITM:
             for ab, lhs_res_obj, post_func_ind, convergence_info in self.filtered_params:
                 pa, pb = ab
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
-                lhs_type =str(lhs_res_obj)
+                lhs_type = str(type(lhs_res_obj))
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
                 cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
                                                                                         post_func_ind,
@@ -473,7 +473,7 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                csvwriter.writerow([pa, pb, self.postproc_funcs_text[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
                                     str(postproc_res), str(lhs_res_obj.get_val())])
             # Saves the results
-- 
2.43.0


From d86d2b70b75c6ad8e5ed4d55b6c941a28ac04e9e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 21/38] fix: LaTeX exponents of two digits or more are grouped

---
 lhs_evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index a2655b4..4c9e8fa 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -418,9 +418,9 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
             poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
-- 
2.43.0


From c74e033af748ca45b3de2227b905ae7602696bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 22/38] fix: generated config files can be parsed back
 (lhs_type and booleans in lists were written as python reprs)

---
 configfile.py     | 11 +++++++++++
 distribute_run.py |  4 ++--
 main.py           |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/configfile.py b/configfile.py
index fab952e..6455f3e 100644
--- a/configfile.py
+++ b/configfile.py
@@ -225,5 +225,16 @@ CONFIG_PARAMS_TYPES = {'const': ConfigParser.string_parameter_parser,
                        'third_filtering_precision': int,
                        'is_test': ConfigParser.bool_parser}                                         # optional
 
+
+def config_val_to_str(val):
+    """Converts a parsed config value back to the text it is parsed from, to be used with ConfigParser.set."""
+    # lhs_type is parsed to a dictionary of classes, whose str() is the type name
+    if isinstance(val, dict):
+        return str(val['eval'])
+    if isinstance(val, (list, tuple)):
+        return json.dumps(val)
+    return str(val)
+
+
 # Internal fields (generated based on other fields), that should be treated by other modules as legal fields
 CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual']
diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..2694a14 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -1,4 +1,4 @@
-from configfile import ConfigParser
+from configfile import ConfigParser, config_val_to_str
 from configfile import CONFIG_PARAMS_TYPES as LEGAL_CONFIG_PARAMS
 from copy import deepcopy
 import math
@@ -42,7 +42,7 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable, config_val_to_str(getattr(params, config_variable)))
         results_config_filename = os.path.splitext(configfile)
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index f869b41..9b506cf 100644
--- a/main.py
+++ b/main.py
@@ -9,7 +9,7 @@ from postprocfuncs import POSTPROC_FUNCS, EVALUATED_POSTPROC_FUNCS, INVERSE_POST
 import dill as pickle
 from latex import generate_latex
 import os
-from configfile import ConfigParser
+from configfile import ConfigParser, config_val_to_str
 from configfile import CONFIG_PARAMS_TYPES as LEGAL_CONFIG_PARAMS
 import sys
 from functools import partial
@@ -176,7 +176,7 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable, config_val_to_str(getattr(params, config_variable)))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From 9349e70579cb352c4034655df100ed39985edbdf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 23/38] fix: the saved config of a feig/percolation run keeps a
 legal const

---
 main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/main.py b/main.py
index 9b506cf..2108d5b 100644
--- a/main.py
+++ b/main.py
@@ -69,10 +69,11 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
+    target_name = params.const
     if params.const == 'feig':
-        params.const = 'feig, %d' % params.i
+        target_name = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % params.i
+        target_name = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +83,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +93,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +109,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 4634cec8649bff5bbf81fe6cefe8744a28d44975 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 24/38] fix: distributed configs are written into the created
 directory also when the config is in another directory

---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index 2694a14..b6afeb9 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -43,7 +43,7 @@ def main(split_num=4, configfile='config.ini'):
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
                 results_config.set('Setup', config_variable, config_val_to_str(getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From 314d9dda3951ea9dbbd3d35c71f8e1777001b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 25/38] fix: gcd has the sign of its second argument, as
 documented (swapping lost it)

---
 utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils.py b/utils.py
index 785abe4..d2cff96 100644
--- a/utils.py
+++ b/utils.py
@@ -60,8 +60,6 @@ class MathOperations:
         b is divided by it, the result comes out positive).
         (Implemented here to be used with Decimal/other types that math doesn't support.)
         """
-        if b > a:
-            return cls.gcd(b, a)
         while b:
             a, b = b, a % b
         return a
-- 
2.43.0


From 9ed1962487b37ec7d80ad4286094e312b07e08ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 26/38] fix: the exponential post-processing function (mpf.exp
 is the binary exponent, not a method)

---
 postprocfuncs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 8e98933..8cdb722 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from mpmath import mpf as dec, log, sin as dec_sin, cos as dec_cos, tan as dec_tan, cot as dec_cot
+from mpmath import mpf as dec, log, sin as dec_sin, cos as dec_cos, tan as dec_tan, cot as dec_cot, exp as dec_exp
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
@@ -47,8 +47,8 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
                   'lambda x: dec_ln(x)',
                   'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
@@ -89,8 +89,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 1305d88fefcdabc58fb37241ca830b7fb3103c42 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 27/38] fix: announced length of sparse enumerations with
 interlaced polynoms

---
 enum_poly_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 4f2f7cc..f9bc09a 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -243,8 +243,9 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        # (a placement is chosen for each of the interlaced polynoms)
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0]))) ** len(range_a) * \
+                                                        int(binom(self.n_b, len(range_b[0]))) ** len(range_b)
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From 140ab07201161e8116babe0ee0634fb557e65a30 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 28/38] fix: the run parameters stored in a hashtable of a low
 precision are not taken for an entry

---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 1e4d4ac..7968c25 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -139,7 +139,8 @@ class MITM:
         ab_blacklist = {}
         if validate_entry_doesnt_exist:
             for k, v in self.dec_hashtable.items():
-                if k == 'parameters':
+                # the key of the run's parameters is truncated as any other key
+                if 'parameters'.startswith(k):
                     continue
                 for ab, postproc_func_ind in v:
                     ab_blacklist.setdefault(ab, set()).add(postproc_func_ind)
-- 
2.43.0


From 95c0d022a6df33fef671de9ad892dbc0855bc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 29/38] fix: the clean-up tool handles keys of several
 precisions and truncated or missing run parameters

---
 fix_hashtable_filter_init_b_root.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fix_hashtable_filter_init_b_root.py b/fix_hashtable_filter_init_b_root.py
index 6af8ec6..c674b48 100644
--- a/fix_hashtable_filter_init_b_root.py
+++ b/fix_hashtable_filter_init_b_root.py
@@ -13,19 +13,20 @@ def main(hashtable_filepath):
     global mitm
     with open(hashtable_filepath, 'rb') as input_file:
         mitm = pickle.load(input_file)
-    dec_hashtable_keys = list(mitm.dec_hashtable.keys())
-    dec_hashtable_keys.remove('parameters')
-
-    for k in progressbar.progressbar(dec_hashtable_keys):
+    # the keys are used as they are stored (the hashtable's own access truncates them to all of the precisions used)
+    for k, items in progressbar.progressbar(list(mitm.dec_hashtable.items())):
+        # the key of the run's parameters is truncated as any other key
+        if 'parameters'.startswith(k):
+            continue
         removed_params_counter = 0
-        for i, params in enumerate(mitm.dec_hashtable[k][:]):
+        for i, params in enumerate(items[:]):
             b_polys = params[0][1]
             for b_poly in b_polys:
                 if does_have_int_roots(b_poly):
-                    mitm.dec_hashtable[k].pop(i - removed_params_counter)
+                    items.pop(i - removed_params_counter)
                     removed_params_counter += 1
                     break
-        if len(mitm.dec_hashtable[k]) == 0:
+        if len(items) == 0:
             mitm.dec_hashtable.pop(k)
 
     output_filepath = list(os.path.splitext(hashtable_filepath))
-- 
2.43.0


From edbed9f7fb09d502dad59000170c044f96d933d4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 30/38] fix: equivalence of ULCD LHSs is decided exactly
 (rounded quotients equated different ones)

---
 lhs_evaluators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 4c9e8fa..ae71e8e 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -154,11 +154,11 @@ class ULCDEvaluator(LHSEvaluator, metaclass=ULCDMetaClass):
             for s in [1, -1]:
                 if u1 == u2 * s and l1 == l2 * s and c1 == c2 * s and abs(d1) == abs(d2):
                     return True
-            ulcd_ratio = abs(d1 / d2)
-            if u1 == u2 * ulcd_ratio and l1 == l2 / ulcd_ratio and c1 == c2 * ulcd_ratio:
-                return True
-            if u1 == -u2 * ulcd_ratio and l1 == -l2 / ulcd_ratio and c1 == -c2 * ulcd_ratio:
-                return True
+            # (compared by cross multiplication, a quotient would be rounded)
+            for s in [1, -1]:
+                if u1 * abs(d2) == s * u2 * abs(d1) and l1 * abs(d1) == s * l2 * abs(d2) and \
+                        c1 * abs(d2) == s * c2 * abs(d1):
+                    return True
             # if ulcd1 == ulcd2 and (pa1 == pa2 or list(pa1) == [ -x for x in pa2 ]):
             #     return True
 
-- 
2.43.0


From e992646d029e25d91203beb9f79e707f06948f21 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 31/38] fix: the inverse of a rational function LHS includes
 its added integer

---
 lhs_evaluators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index ae71e8e..010db90 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -370,7 +370,8 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         numerator2_p = ratio_func2_obj.numerator_p_symbolic
         denominator2_p = ratio_func2_obj.denominator_p_symbolic
         if is_inverse:
-            numerator2_p, denominator2_p = denominator2_p, numerator2_p
+            # 1 / (p/q + k) = q / (p + k*q)
+            numerator2_p, denominator2_p = denominator2_p, numerator2_p + denominator2_p * ratio_func2_obj.added_int
         quotient2, rem2 = numerator2_p.div(denominator2_p, auto=False)
         quotient2 -= quotient2(0)
         # if ab1 == ab2 and f1/g1 = f2/g2 + C
-- 
2.43.0


From f99550e05f16767c194ca0b81c97684fdb5e0133 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 32/38] fix: a reinitialized rational function LHS reports its
 new parameters

---
 lhs_evaluators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 010db90..c2f3100 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -268,6 +268,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
             params - (numerator_poly, denominator_poly, added_int) the added int is an integer to be added to the result
                      and the polynomials are of the format: [a_0, a_1, a_2, ...] <=> a_0 + a_1*x + a_2*x^2 + ..."""
         # WARNING: as far as I see, only the first two arguments will be fed to params from the config file. Bug?
+        self.params = params
         self.numerator_p, self.denominator_p, self.added_int = params
         self._should_update_numerator_p_symbolic = True
         self._should_update_denominator_p_symbolic = True
-- 
2.43.0


From 473c89739df5723588f2bbc0029f4df1f01b305d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 33/38] fix: config values with a percent sign can be written
 back

---
 configfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/configfile.py b/configfile.py
index 6455f3e..8b051dd 100644
--- a/configfile.py
+++ b/configfile.py
@@ -192,6 +192,9 @@ class ConfigParser(configparser.ConfigParser):
             funcs_names_list = [ '"%s"' % POSTPROC_FUNCS[i] for i in funcs_list ]
 
             value = '[%s]' % (', '.join(funcs_names_list))
+        if value:
+            # the interpolation character is doubled in the file
+            value = value.replace('%', '%%')
         return super().set(section=section, option=option, value=value)
 
     def get_config(self):
-- 
2.43.0


From 8374eb97879433da6797117e3b69cc84071514f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 34/38] fix: redefine_settings applies the special parameters
 of an unchanged enumerator class

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 7968c25..987af44 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -95,10 +95,10 @@ class MITM:
         """Redefines the class's settings. See the help of '__init__' for more info.
         Two important differences are:
             1) The contfrac's a,b enumerator is recreated if ab_poly_class is changed to a
-               different one.
+               different one, or if it has special parameters.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if type(self.rhs_polys_enumer) is not ab_poly_class:
+        if type(self.rhs_polys_enumer) is not ab_poly_class or ab_poly_special_params is not None:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 76accad150a9e9196ab52bb09efc94d55f3292f1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 35/38] fix: a finite contfrac is dropped by the convergence
 filter instead of aborting the run

---
 enum_params.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 987af44..fff8430 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -351,7 +351,12 @@ class MITM:
         for cf_params in progressbar.progressbar(params_list):
             ab, lhs_res_obj, post_func_ind, convergence_info = cf_params
             cont_frac = cont_fracs.ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
-            if cont_frac.is_convergence_fast():
+            try:
+                is_fast = cont_frac.is_convergence_fast()
+            except cont_fracs.ZeroB:
+                # a finite contfrac
+                continue
+            if is_fast:
                 filtered_params_list.append(cf_params)
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
-- 
2.43.0


From ba18a06dfcb5e1d72ff0efad3c71786bd5654352 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 36/38] fix: a finite contfrac is dropped while refining
 instead of aborting the run

---
 enum_params.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enum_params.py b/enum_params.py
index fff8430..4f4703c 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -279,6 +279,10 @@ class MITM:
                 ## # print('DivisionByZero exception', ab)
                 print('ZeroDivisionError exception', ab)
                 continue
+            except cont_fracs.ZeroB:
+                # a finite contfrac
+                print('ZeroB exception', ab)
+                continue
             rhs = abs(signed_rhs)
             ## # if not rhs.is_normal():
             if not isnormal(rhs):
-- 
2.43.0


From 849f596ca868dafe4cda68ca3222b62fb7309b39 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 37/38] fix: write the results to the directory that was made
 for them, also when the minute changes in between

---
 main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 2108d5b..b429860 100644
--- a/main.py
+++ b/main.py
@@ -162,8 +162,10 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    # the time is taken once, so that the results go to the directory that is made here
+    results_dir = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    os.mkdir(results_dir)
+    export_filename = os.path.join(results_dir, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From 39c06f6bc9f5eb07012366364ffe75799d1ec46c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 04:39:29 +0000
Subject: [PATCH 38/38] fix: hashtable names with .pkl in their middle lose
 their end

The checks for an extension and a version accepted '.pkl' anywhere in the name,
so 'a.pkl_b' became 'a.p_v1.pkl'.
---
 configfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfile.py b/configfile.py
index 8b051dd..47938c1 100644
--- a/configfile.py
+++ b/configfile.py
@@ -86,11 +86,11 @@ class ConfigParser(configparser.ConfigParser):
             return
 
         # validate filename's extension .pkl is specified, or add it
-        if not re.match('(.*?)(\\.pkl)', filename):
+        if not re.match('(.*?)(\\.pkl)$', filename):
             filename += '.pkl'
 
         # if filename is given without a version indication, set a default version v1
-        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)', filename):
+        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)$', filename):
             filename = '%s_v1.pkl' % filename[:-len('.pkl')]
 
         # find the oldest version
-- 
2.43.0

