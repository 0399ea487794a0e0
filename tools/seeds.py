"""The planted bugs (development only; no check reads this)."""
SEEDS = []
def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('s01-b-interlace-index', 'C01', 'cont_fracs.py',
     [("        b_i = a2p(b_coeffs[i % len(b_coeffs)], i)\n",
       "        b_i = a2p(b_coeffs[i % len(a_coeffs) % len(b_coeffs)], i)\n")],
     'numerator interlace longer than, or not dividing, the denominator interlace',
     'the numerator polynomials no longer take turns by i modulo their own number',
     '''
from cont_fracs import ContFrac
c = ContFrac([[1, 1]], [[1], [2]], avoid_zero_b=False)
c.gen_iterations(3)
p, q = c.get_p_q()
# 1 + 2/(2 + 1/(3 + 2/4)) = 1 + 2/(2 + 2/7) = 1 + 14/16
assert p * 16 == q * 30, (p, q)
''')

seed('s02-reinit-keeps-class', 'C02', 'cont_fracs.py',
     [("        self._approach_type, self._approach_params = 'undefined', 0\n        params = kwargs\n        if a_coeffs:\n            params['a_coeffs'] = a_coeffs\n",
       "        params = kwargs\n        if a_coeffs:\n            self._approach_type, self._approach_params = 'undefined', 0\n            params['a_coeffs'] = a_coeffs\n")],
     'classify, reinitialize only the numerators, then generate with an accuracy',
     'an earlier convergence classification survives a re-initialization that only replaces the numerators',
     '''
from mpmath import mpf, mp
from cont_fracs import ContFrac
c = ContFrac([[1, 1]], [[1]])
c.set_approach_type_and_params(('exp', (mpf(10), mpf(1))))
c.reinitialize(b_coeffs=[[7, 3]])
c.gen_iterations(60, mpf('1e-5'))
assert c.get_num_of_executed_iters() == 60, c.get_num_of_executed_iters()
assert c.get_approach_type_and_params()[0] == 'undefined'
''')

seed('s03-depth-one-less', 'C03', 'cont_fracs.py',
     [("    a = [ [ dec(i) for i in p ] for p in a ]\n    b = [ [ dec(i) for i in p ] for p in b ]\n    return eval_contfrac([ MathOperations.subs_in_polynom(a[i % len(a)], i) for i in range(calculation_depth) ],\n                         [ MathOperations.subs_in_polynom(b[i % len(b)], i) for i in range(1, calculation_depth) ])",
       "    a = [ [ dec(i) for i in p ] for p in a ]\n    b = [ [ dec(i) for i in p ] for p in b ]\n    return eval_contfrac([ MathOperations.subs_in_polynom(a[i % len(a)], i) for i in range(calculation_depth) ],\n                         [ MathOperations.subs_in_polynom(b[(i - 1) % len(b)], i) for i in range(1, calculation_depth) ])")],
     'interlaced numerator polynomials in the arbitrary-precision evaluation',
     'the numerators of the direct evaluation take their turns one index too early',
     '''
from cont_fracs import eval_dec_contfrac_by_polys
v = eval_dec_contfrac_by_polys(((1, 1),), ((1,), (2,)), 4)
assert abs(v - (1 + 14 / 16)) < 1e-12, v
''')

seed('s04-first-zero-ignored', 'C04', 'cont_fracs.py',
     [("        if self._avoid_zero_b and b_i == 0 and i > 0:\n            raise ZeroB(i)\n",
       "        if self._avoid_zero_b and b_i == 0 and i > 1:\n            raise ZeroB(i)\n")],
     'the only vanishing numerator is b_1',
     'a fraction truncated by b_1 = 0 is not refused',
     '''
from cont_fracs import ContFrac, ZeroB
c = ContFrac([[1, 1]], [[-1, 1]])
try:
    c.gen_iterations(5)
except ZeroB as e:
    assert e.args == (1,), e.args
else:
    raise SystemExit('not refused')
''')

seed('s05-gcd-float', 'C05', 'utils.py',
     [("            a, b = b, a % b\n", "            a, b = b, a - b * int((a / b) // 1)\n")],
     'arguments beyond the precision of a float',
     'the quotient is computed with floats: wrong values for large arguments',
     '''
from utils import MathOperations
assert MathOperations.gcd(12, 18) == 6
b = 7 * 10 ** 17
assert MathOperations.gcd(5 * b - 7, b) == 7, MathOperations.gcd(5 * b - 7, b)
''')

seed('s06-squeeze-first-two', 'C06', 'enum_poly_params.py',
     [("                        if len(pbs) > 1 and all([ pbs[0] == p for p in pbs ]):\n",
       "                        if len(pbs) > 1 and all([ pbs[0] == p for p in pbs[:2] ]):\n")],
     'three interlaced numerators of which the first two are equal and the third is not',
     'an interlace of three numerators is squeezed to a single polynomial although the third differs',
     '''
from enum_poly_params import BasicEnumPolyParams
e = BasicEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=False)
g, n = e.polys_generator([[[1, 2]]], [[[1, 2]], [[1, 2]], [[1, 3]]])
assert list(g) == [(((1,),), ((1,),)), (((1,),), ((1,), (1,), (2,)))]
''')

seed('s07-sparse-two-masks', 'C07', 'enum_poly_params.py',
     [("        all_polys_masks_groups = map(lambda masks: set(itertools.permutations(masks, len(poly))),\n",
       "        all_polys_masks_groups = map(lambda masks: set(itertools.permutations(masks[:2], len(poly[:2]))),\n")],
     'three or more interlaced sparse polynomials',
     'sparse interlaces of three polynomials lose the third one',
     '''
from enum_poly_params import SparseParameterEnumPolyParams
e = SparseParameterEnumPolyParams(should_gen_contfrac=False, special_params=(2, 2))
r = sorted(e.manipulate_poly(((1,), (2,), (3,)), 'a'))
assert len(r) == 8 and len(set(r)) == 8 and all(len(p) == 3 for p in r), r
''')

seed('s08-double-root', 'C08', 'enum_poly_params.py',
     [("            if discrim < 0:\n                return False\n", "            if discrim <= 0:\n                return False\n")],
     'a quadratic with a positive integer double root',
     'a double root is not detected',
     '''
from enum_poly_params import BasicEnumPolyParams as B
assert B._does_have_integer_roots((9, -6, 1))
assert B._does_have_integer_roots((0, 6, -5, 1))
''')

seed('s09-delete-oldest', 'C09', 'decimal_hashtable.py',
     [("    def __delitem__(self, key):\n        old_keys, cur_key = self._manipulate_key(key)\n        for k in old_keys:\n",
       "    def __delitem__(self, key):\n        old_keys, cur_key = self._manipulate_key(key)\n        for k in old_keys[-1:]:\n")],
     'an entry stored before the precision was changed twice, then deleted',
     'deletion only knows the latest earlier precision',
     '''
from mpmath import mpf
from decimal_hashtable import DecimalHashTable
t = DecimalHashTable(4)
k = mpf('0.123456789')
t[k] = [1]
t.update_accuracy(6)
t.update_accuracy(8)
del t[k]
assert k not in t
''')

seed('s10-history-coarser-only', 'C10', 'decimal_hashtable.py',
     [("        self.accuracy_history += [ a for a in appended_dict.accuracy_history if a not in self.accuracy_history ]\n",
       "        self.accuracy_history += [ a for a in appended_dict.accuracy_history\n                                   if a < self.accuracy and a not in self.accuracy_history ]\n")],
     'the appended table was once more precise than it is now',
     'an earlier, higher precision of the appended table is not adopted: its old entries get lost',
     '''
from mpmath import mpf
from decimal_hashtable import DecimalHashTable
a, b = DecimalHashTable(4), DecimalHashTable(8)
k = mpf('0.123456789')
b[k] = [1]
b.update_accuracy(4)
a.append_dict(b)
assert k in a and a[k] == [1]
''')

seed('s11-skip-known-pair', 'C11', 'enum_params.py',
     [("                if not postproc_funcs_to_eval:\n                    continue\n",
       "                if len(postproc_funcs_to_eval) < len(filtered_postproc_funcs):\n                    continue\n")],
     'a table extended with a new function in addition to an old one, over the same coefficients',
     'the new function of a pair that is already stored under another function is not recorded',
     '''
from enum_params import MITM
m = MITM(num_of_iterations=60, postproc_funcs_filter=[0], hashtable_prec=12)
m.build_hashtable([[[1, 2], [1, 2]]], [[[1, 2], [0, 1]]])
m.postproc_funcs_filter = [0, 2]
m.build_hashtable([[[1, 2], [1, 2]]], [[[1, 2], [0, 1]]])
assert sorted(i for items in m.dec_hashtable.values() for ab, i in items) == [0, 2], dict(m.dec_hashtable)
''')

seed('s12-shared-evaluator', 'C12', 'enum_params.py',
     [("                filtered_params.extend([ (ab, lhs_evaluator(enum_res_obj), post_func_ind, None)\n",
       "                matched_lhs = lhs_evaluator(enum_res_obj)\n                filtered_params.extend([ (ab, matched_lhs, post_func_ind, None)\n")],
     'two stored items under one key',
     'matches of the same entry share one left-hand side object, so refining one changes the other',
     '''
from mpmath import mpf
from enum_params import MITM
from lhs_evaluators import LHS_TYPES
m = MITM(hashtable_prec=10)
r = m.target_generator() / 2 + mpf(1) / 3
m.dec_hashtable[r - int(r)] = [((((1,),), ((1,),)), 0), ((((2,),), ((1,),)), 0)]
m.find_clicks(LHS_TYPES['ulcd'], [[0], [2], [0], [1]])
m.dec_hashtable[m.target_generator() / 2 - 1] = [((((1,),), ((1,),)), 0), ((((2,),), ((1,),)), 0)]
m.find_clicks(LHS_TYPES['ulcd'], [[0], [2], [0], [1]])
r = m.get_filtered_params()
assert len(r) == 2 and r[0][1] is not r[1][1]
''')

seed('s13-flip-without-value', 'C13', 'enum_params.py',
     [("                    lhs_res_obj.flip_sign()\n                    signed_lhs *= -1\n",
       "                    lhs_res_obj.flip_sign()\n")],
     'a match whose sides have different signs',
     'after flipping the sign the integer difference is taken from the unflipped value',
     '''
from mpmath import mpf
from enum_params import MITM
from lhs_evaluators import ULCDEvaluator
m = MITM()
x = m.target_generator()
# -(x) against a fraction of value x
m.postproc_funcs = [lambda v: x]
m.filtered_params = [((((1,),), ((1,),)), ULCDEvaluator((0, 1, 0, -1), x), 0, None)]
m.refine_clicks_with_const_num_of_iters(accuracy=8, num_of_iterations=20)
(ab, lhs, i, c), = m.get_filtered_params()
assert abs(lhs.get_val() - x) < 1e-10, lhs
''')

seed('s14-recent-only', 'C14', 'enum_params.py',
     [("            for uniqe_params in unique_params_filtered:\n", "            for uniqe_params in unique_params_filtered[-32:]:\n")],
     'more than 32 unique matches between two equivalent ones',
     'equivalent matches survive when they are far apart',
     '''
from enum_params import MITM
class L:
    def __init__(self, v): self.v = v
    @staticmethod
    def is_equiv(p1, p2): return p1[1].v == p2[1].v
m = MITM()
m.filtered_params = [(((1,), (1,)), L(i % 40), 0, None) for i in range(80)]
m.filter_uniq_params()
assert [p[1].v for p in m.get_filtered_params()] == list(range(40))
''')

seed('s15-first-numerator-only', 'C15', 'enum_params.py',
     [("            roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])\n",
       "            roots = itertools.chain([ r for b_p in b[:1] for r in numpy.roots(b_p[::-1]) ])\n")],
     'an interlace whose second numerator has a positive integer root',
     'only the first numerator of an interlace is inspected',
     '''
from enum_params import MITM
m = MITM()
m.filtered_params = [((((1,),), ((1, 0, 1), (-2, 1))), None, 0, None), ((((1,),), ((1, 0, 1), (2, 1))), None, 0, None)]
m.filter_pos_integer_roots_numerators()
assert len(m.get_filtered_params()) == 1
''')

seed('s16-abs-c', 'C16', 'lhs_evaluators.py',
     [("                if u1 == u2 * s and l1 == l2 * s and c1 == c2 * s and abs(d1) == abs(d2):\n",
       "                if u1 == u2 * s and l1 == l2 * s and abs(c1) == abs(c2) and abs(d1) == abs(d2):\n")],
     'two left-hand sides that differ only in the sign of c',
     'left-hand sides of different absolute value are declared equivalent',
     '''
from mpmath import mpf
from lhs_evaluators import ULCDEvaluator
ab = (((1, 1),), ((1,),))
x = mpf(3)
p1 = (ab, ULCDEvaluator((1, 1, 1, 3), x), 0, None)
p2 = (ab, ULCDEvaluator((1, 1, -1, 3), x), 0, None)
assert not ULCDEvaluator.is_equiv(p1, p2)
assert ULCDEvaluator.is_equiv(p1, p1)
''')

seed('s17-flip-forgets-int', 'C17', 'lhs_evaluators.py',
     [("        self.denominator_p = [ -1*c for c in self.denominator_p ]\n        self._should_update_denominator_p_symbolic = True\n        self._is_canonalized = False\n        self.added_int *= -1\n        self.update_params()\n",
       "        self.denominator_p = [ -1*c for c in self.denominator_p ]\n        self._should_update_denominator_p_symbolic = True\n        self._is_canonalized = False\n        self.update_params()\n")],
     'an integer was added before the sign is flipped',
     'flipping the sign does not negate the added integer',
     '''
from mpmath import mpf
from lhs_evaluators import RationalFuncEvaluator
r = RationalFuncEvaluator(([0, 1], [2], 0), mpf(3))
r.add_int(4)
v = r.get_val()
r.flip_sign()
assert abs(r.get_val() + v) < 1e-10, (v, r.get_val())
''')

seed('s18-signs-per-interlace', 'C18', 'lhs_evaluators.py',
     [("        if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):\n            if quotient1",
       "        if pb1 == pb2 and len(pa1) == len(pa2) and all(p1 in (p2, tuple(-k for k in p2)) for p1, p2 in zip(pa1, pa2)):\n            if quotient1")],
     'interlaced denominators of which only some change their sign',
     'denominator polynomials that differ by a sign per interlaced polynomial are taken as equal up to one global sign',
     '''
from mpmath import mpf
from lhs_evaluators import RationalFuncEvaluator as R
b = ((1,),)
p1 = ((((1, 1), (2, 1)), b), R(([1], [1, 0, 1], 0), mpf(3)), 0, None)
p2 = ((((1, 1), (-2, -1)), b), R(([1], [1, 0, 1], 0), mpf(3)), 0, None)
assert not R.is_equiv(p1, p2)
assert R.is_equiv(p1, p1)
''')

seed('s19-divisor-step', 'C19', 'lhs_evaluators.py',
     [("        elif (isinstance(self.d_range, list) or isinstance(self.d_range, tuple)) and len(self.d_range) in [2, 3]:\n",
       "        elif (isinstance(self.d_range, list) or isinstance(self.d_range, tuple)) and len(self.d_range) in [2]:\n")],
     'three numbers given for the divisor d',
     'start, stop and step of the divisor are taken as the values themselves',
     '''
from mpmath import mpf
from lhs_evaluators import ULCDEnumerator
e = ULCDEnumerator([[1, 2], [1, 2], [0, 1], [2, 7, 2]], mpf(3))
assert [o.get_params()[3] for o in e.generator()] == [2, 4, 6]
''')

seed('s20-empty-half', 'C20', 'distribute_run.py',
     [("        while i < len(b_first_poly) and b_first_poly[i][1] - b_first_poly[i][0] <= 1:\n",
       "        while i < len(b_first_poly) and b_first_poly[i][1] - b_first_poly[i][0] < 1:\n")],
     'only the numerator ranges can be split, and the first of them has a single value',
     'a range of one value is split into an empty and a full part',
     '''
from distribute_run import split_params
parts = split_params([[[[3, 4]]], [[[5, 6], [0, 4]]]], 1)
assert parts == [[[[[3, 4]]], [[[5, 6], [0, 2]]]], [[[[3, 4]]], [[[5, 6], [2, 4]]]]], parts
''')

seed('s21-broken-json-accepted', 'C21', 'configfile.py',
     [("                print(param_key)\n                print(param_val)\n                raise\n",
       "                print(param_key)\n                print(param_val)\n                return None\n")],
     'a range option that is not valid JSON',
     'an illegal list value is taken as "none" instead of being rejected',
     '''
from configfile import ConfigParser
c = ConfigParser()
try:
    c._cast_param_val('a_coeffs_range', '[[1, 2], [3')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('s22-expand-new-version', 'C22', 'configfile.py',
     [("        if hashtable_file_operation == 'generate':\n            filename =", "        if hashtable_file_operation != 'use':\n            filename =")],
     'operation expand with an existing hashtable',
     'expand selects a file name that does not exist yet instead of the newest table',
     '''
import os
from configfile import ConfigParser
os.chdir(os.environ['SCRATCH'])
for n in ('t_v1.pkl', 't_v2.pkl'):
    open(n, 'w').close()
c = ConfigParser()
c._config = {'hashtable_file_operation': 'expand', 'hashtable_file': 't_v1.pkl'}
c._gen_hashtable_filename()
assert os.path.basename(c._config['hashtable_file']) == 't_v2.pkl', c._config
''')

seed('s23-minus-lost', 'C23', 'lhs_evaluators.py',
     [("                if c == 1:\n                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))\n",
       "                if abs(c) == 1:\n                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))\n")],
     'a rational function with a coefficient -1 at degree two or higher',
     'the minus sign of the coefficient -1 is lost in the exported equation',
     '''
from mpmath import mpf
from lhs_evaluators import RationalFuncEvaluator
r = RationalFuncEvaluator(([1, 0, -1], [3, 1], 0), mpf(3))
r._is_canonalized = True
assert '-' in r.get_latex_exp('y'), r.get_latex_exp('y')
''')

seed('s24-sqrt-of-zero', 'C24', 'postprocfuncs.py',
     [("    if x < 0:\n        return dec('NaN')\n    else:\n        return x.sqrt()\n",
       "    if not x > 0:\n        return dec('NaN')\n    else:\n        return x.sqrt()\n")],
     'the argument zero',
     'the square root of zero is NaN',
     '''
from mpmath import mpf
from postprocfuncs import EVALUATED_POSTPROC_FUNCS as F
assert F[10](mpf(4)) == 2
assert F[10](mpf(0)) == 0
''')

seed('s25-zeta17-digit', 'C25', 'gen_consts.py',
     [("    17: dec('1.00000763719763789976227360029356302921308824909026267909537984397293564329028245934208173863691667'),\n",
       "    17: dec('1.00000763719763789976227360029356302921308824909026267909537984397293564329028245934208173683691667'),\n")],
     'zeta(17) with more than 90 digits',
     'two swapped digits near the end of zeta(17)',
     '''
import mpmath
from gen_consts import gen_zeta_consts
v = gen_zeta_consts(98, 17)
mpmath.mp.dps = 110
assert abs(v - mpmath.zeta(17)) < mpmath.mpf(10) ** -96
''')

seed('s26-third-limit', 'C26', 'main.py',
     [("                                                 num_of_iterations=params.third_filtering_max_num_of_iterations,\n                                                 print_clicks=False)\n",
       "                                                 num_of_iterations=params.second_filtering_max_num_of_iterations,\n                                                 print_clicks=False)\n")],
     'different iteration limits for the second and third refinement',
     'the third refinement uses the limit of the second',
     '''
import os, sys
os.chdir(os.environ['SCRATCH'])
import main
calls = []
class M:
    def __init__(self, **kw): self.dec_hashtable = {}
    def __getattr__(self, name):
        def f(*a, **kw):
            calls.append((name, kw))
            return []
        return f
    def __reduce__(self): return (dict, ())
main.enum_params.MITM = M
main.generate_latex = lambda *a, **k: None
text = """[Setup]
const = pi
ab_polys_type = normal
print_surprising_nonexp_contfracs = false
gen_hashtable_only = false
a_coeffs_range = [[[1, 2]]]
b_coeffs_range = [[[1, 2]]]
lhs_type = ulcd
lhs_params = [1, 1, 1, 1]
postproc_funcs_filter = ["safe_inverse"]
hashtable_file_operation = generate
hashtable_file = t_v1.pkl
hashtable_num_of_iterations = 10
hashtable_precision = 10
first_filtering_num_of_iterations = 20
first_filtering_precision = 10
second_filtering_max_num_of_iterations = 30
second_filtering_precision = 20
third_filtering_max_num_of_iterations = 40
third_filtering_precision = 30
"""
with open('c.ini', 'w') as f:
    f.write(text)
main.main('c.ini')
r = [kw for n, kw in calls if n == 'refine_clicks_with_convergence_info']
assert [k['num_of_iterations'] for k in r] == [30, 40], r
''')

seed('s27-two-roots-one-item', 'C27', 'fix_hashtable_filter_init_b_root.py',
     [("                    removed_params_counter += 1\n                    break\n",
       "                    removed_params_counter += 1\n")],
     'an item with two rooted numerators, followed or preceded by a clean item',
     'an item with two numerators that have roots takes another item with it',
     '''
import os
os.chdir(os.environ['SCRATCH'])
import fix_hashtable_filter_init_b_root as fix
class M: pass
m = M()
bad = ((((1,),), ((-1, 1), (-2, 1))), 0)
good = ((((1,),), ((1, 1),)), 0)
m.dec_hashtable = {'0.1': [good, bad]}
class P:
    HIGHEST_PROTOCOL = 4
    @staticmethod
    def load(f): return m
    @staticmethod
    def dump(o, f, protocol=None): pass
fix.pickle = P
open('t.pkl', 'w').close()
fix.main('t.pkl')
assert m.dec_hashtable == {'0.1': [good]}, m.dec_hashtable
''')

seed('s28-total-of-last', 'C28', 'utils.py',
     [("        return time.time() - self._start_time\n", "        return self.times[self.previous_index] - self._start_time\n")],
     'time passes between the last measurement and the question for the total',
     'the total runtime stops counting at the last measurement',
     '''
import utils
now = [100.0]
utils.time.time = lambda: now[0]
m = utils.MeasureRuntime()
m.start_measure()
now[0] = 103.0
assert m.measure_time() == 3
now[0] = 110.0
assert m.get_total_runtime() == 10, m.get_total_runtime()
''')
