"""Writes properties.jsonl (kept as a generator so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

prop('C01', 'Iterating a continued fraction computes its exact convergents',
 "For every choice of (possibly interlaced) coefficient lists and every number of iterations n, iterating a continued fraction n times from scratch leaves exactly the numerator p_n and denominator q_n of the n-th convergent of a_0 + b_1/(a_1 + b_2/(a_2 + ...)), where a_i and b_i are the values at i of the polynomial responsible for index i (the polynomials of an interlace take turns by i modulo their number). The reported result is p_n/q_n, or NaN exactly when q_n is zero. With logging enabled the same holds for every logged iteration.",
 ['inputs'], 'all integer coefficient lists (any interlace width, any degree), all n >= 0 (n >= 1 with logging)',
 'the tests iterate a handful of famous fractions and compare a few digits; the statement is about every coefficient list and every n',
 ['cont_fracs.py', 'basic_representation_types.py', 'utils.py'],
 [('two-term recurrence on (p, q)', 'cont_fracs.py:ContFrac.iteration_algorithm'), ('a_i, b_i generation', 'cont_fracs.py:ContFrac._default_promo_mat_gen'),
  ('initial state', 'cont_fracs.py:ContFrac._autogen_first_iter_matrix'), ('quotient / NaN', 'cont_fracs.py:ContFrac.finalize_iterations'),
  ('iteration driver', 'basic_representation_types.py:BasicRecursiveConstRepresenter.add_iterations')],
 [('iter_matrices[-1]', '((p_n, p_{n-1}), (q_n, q_{n-1}))', 'basic_representation_types.py')], ['get_result()', 'get_p_q()'])

prop('C02', 'Continued-fraction state depends only on coefficients and iteration count',
 "After any sequence of generating, adding and re-initializing operations (including ones that ended in an exception), generating n iterations gives the same numerator, denominator, result and iteration count as a newly created object with the current coefficients. Generating m iterations and then adding k more is the same as generating m+k from scratch. Re-initialization replaces exactly the coefficients that are given, keeps the others, and forgets any earlier convergence classification.",
 ['histories', 'inputs'], 'all sequences of generate/add/reinitialize calls, all iteration counts, all coefficient lists, logging on or off',
 'tests use fresh objects or one fixed add_iterations sequence; the enumerators reuse one object for millions of fractions, so a stale field shows up only after particular histories',
 ['basic_representation_types.py', 'cont_fracs.py'],
 [('reset of the log, counter and matrices', 'basic_representation_types.py:BasicRecursiveConstRepresenter.gen_iterations'),
  ('continuation from the last state', 'basic_representation_types.py:BasicRecursiveConstRepresenter.add_iterations'),
  ('re-initialization', 'cont_fracs.py:ContFrac.reinitialize')],
 [('num_of_executed_iters', 'index of the last computed convergent', 'basic_representation_types.py')])

prop('C03', 'Direct evaluation agrees with the nested fraction and with iteration',
 "Directly evaluating a list of n+1 additive terms and n numerators gives the value of the nested fraction a_0 + b_1/(a_1 + ... + b_n/a_n), evaluating lists of equal length gives b_0/(a_0 + b_1/(a_1 + ...)), missing numerators mean ones, and any other combination of lengths is rejected. Evaluating polynomials to a given depth does this for the values of the (interlaced) polynomials at 0, 1, ..., depth-1, numerators starting at index 1. Whenever no division by zero occurs on the way, the value equals the one obtained by iterating the continued fraction depth-1 times.",
 ['inputs'], 'all lists of numbers of any length, all integer coefficient lists, all depths >= 1',
 'the hashtable is built with the direct evaluation while convergence is judged with the iteration; no test compares the two on arbitrary inputs',
 ['cont_fracs.py', 'utils.py'],
 [('backward evaluation', 'cont_fracs.py:eval_contfrac'), ('values of the polynomials', 'cont_fracs.py:eval_contfrac_by_polys'),
  ('multi-precision variant', 'cont_fracs.py:eval_dec_contfrac_by_polys')])

prop('C04', 'Truncated continued fractions are refused exactly when a numerator vanishes',
 "With zero-numerator avoidance enabled, iterating n times stops with the dedicated exception if and only if some numerator b_i with 1 <= i <= n (i counted from the first iteration, also for later additions) is zero, and the exception carries the first such index. With avoidance disabled that exception is never raised. b_0 is never inspected.",
 ['inputs', 'histories'], 'all integer coefficient lists, all n, iterations split arbitrarily between generate and add calls',
 'one parametrized test covers one fraction; the statement is about every index and every interlace position',
 ['cont_fracs.py'], [('zero numerator check', 'cont_fracs.py:ContFrac._default_promo_mat_gen')])

prop('C05', 'Greatest common divisor and polynomial substitution are exact',
 "For all integers a and b the computed gcd divides both, is divisible by every common divisor, and has the sign of b unless b is zero. Substituting x in the polynomial with coefficients c_0..c_{k-1} gives c_0 + c_1 x + ... + c_{k-1} x^{k-1}, exactly for integers, and 0 for an empty list.",
 ['inputs'], 'all integers a, b; all coefficient lists; all integer or real x',
 'four sampled values each', ['utils.py'],
 [('Euclid', 'utils.py:MathOperations.gcd'), ('power sum', 'utils.py:MathOperations.subs_in_polynom')])

prop('C06', 'Polynomial enumeration visits exactly the unfiltered coefficient choices',
 "Enumerating given coefficient ranges (any number of interlaced polynomials of any degrees) yields, in order and each exactly once, every pair from the Cartesian product of all integer choices (lower bound included, upper excluded, as transformed by the polynomial family in use) that no enabled filter excludes; an interlace of identical polynomials is yielded as that single polynomial. The filters exclude exactly: a numerator polynomial with an integer root (when enabled), a non-interlaced pair with deg(b) > 2 deg(a) (when only exponential convergence is wanted) and, when fractions are generated, one with a vanishing numerator. The announced length is the product of all range sizes (times the number of coefficient placements for sparse polynomials), and a generated fraction carries the yielded coefficients and the configured number of iterations.",
 ['inputs', 'configurations'], 'all ranges, interlace widths and degrees; all settings of the filters',
 'three small grids are tested; a lost or duplicated candidate in a large search is invisible',
 ['enum_poly_params.py'],
 [('nested products', 'enum_poly_params.py:BasicEnumPolyParams.polys_generator'), ('estimated length', 'enum_poly_params.py:_len_decorator'),
  ('degree', 'enum_poly_params.py:BasicEnumPolyParams._polynom_degree')])

prop('C07', 'Indexed and sparse polynomial families expand to the documented polynomials',
 "In the indexed family, parameters a_0..a_n of each interlaced polynomial give exactly the expanded integer coefficients of a_0 x^n + a_1 (x+1)^n + ... + a_n (x+n)^n. In the sparse family, k parameters per polynomial and a size limit N (chosen separately for numerators and denominators) give every assignment of the parameters, in order, to k increasing degrees below N, independently for every interlaced polynomial and each assignment exactly once, zeros elsewhere. The plain family changes nothing.",
 ['inputs'], 'all parameter lists, all interlace widths, all size limits', 'three examples are tested',
 ['enum_poly_params.py'],
 [('binomial expansion', 'enum_poly_params.py:IndexedParameterEnumPolyParams.manipulate_poly'), ('placements', 'enum_poly_params.py:SparseParameterEnumPolyParams.manipulate_poly')])

prop('C08', 'Integer-root detection is sound and catches every positive integer root',
 "For integer polynomials that have at most three coefficients after removing powers of x (leading zeros ignored), detection reports an integer root whenever a positive integer root exists, and reports one only if the polynomial is zero everywhere or has a nonzero integer root; polynomials with more remaining coefficients are never reported. The degree helper returns the index of the last nonzero coefficient (-1 for zero polynomials), and removing powers of x keeps all inner coefficients.",
 ['inputs'], 'all integer coefficient lists within the range where double arithmetic on the discriminant is exact (|coefficients| up to 10^6)',
 'three fixed polynomials are tested, two of which failed',
 ['enum_poly_params.py'],
 [('root tests', 'enum_poly_params.py:BasicEnumPolyParams._does_have_integer_roots'), ('factoring', 'enum_poly_params.py:BasicEnumPolyParams._factor_out_polynom'), ('degree', 'enum_poly_params.py:BasicEnumPolyParams._polynom_degree')])

prop('C09', 'The decimal hashtable is a map keyed by leading digits',
 "Two values address the same entry exactly when their plain decimal expansions (never scientific notation) agree up to the configured number of digits, and a text key addresses by its own leading characters. With one precision in use, storing, looking up (also with defaults), testing, setting a default and deleting obey the laws of a map over these keys and touch no other entry. After the precision was changed, an entry stored under an earlier precision is still found, tested, deleted and replaced (never duplicated) through any value that shares its stored digits, and the oldest precision has priority.",
 ['inputs', 'histories'], 'all values, all precisions, all sequences of operations and precision updates',
 'the tests of the table fail at the base commit (digit conversion was broken); maps must hold for all keys and histories',
 ['decimal_hashtable.py'],
 [('key truncation', 'decimal_hashtable.py:DecimalHashTable._manipulate_key'), ('digits', 'decimal_hashtable.py:dec_to_str'), ('map operations', 'decimal_hashtable.py:DecimalHashTable')],
 [('accuracy, accuracy_history', 'current and earlier key lengths, oldest first', 'decimal_hashtable.py')])

prop('C10', 'Saving, appending and joining hashtables loses nothing',
 "Reloading a saved table gives the same entries, precision and precision history. Appending another table of equal precision keeps every entry of both under its key - for a shared key the original items first, then the appended ones - adopts the other's earlier precisions, and leaves the appended table unchanged; a table of different precision is rejected without any change. The join tool combines all table files of a folder this way and never overwrites an existing output file.",
 ['inputs', 'histories'], 'all tables, values being lists or single items, any number of files',
 'join has no test; append tests fail at the base commit',
 ['decimal_hashtable.py', 'join_hashtables.py'],
 [('pickle protocol', 'decimal_hashtable.py:DecimalHashTable.__reduce__'), ('merge', 'decimal_hashtable.py:DecimalHashTable.append_dict'), ('join', 'join_hashtables.py:main')])

prop('C11', 'Building the hashtable records every enumerated fraction once per function',
 "After building or extending the table, for every enumerated pair of polynomials whose continued fraction evaluates (at the configured depth, without division by zero) to a normal number, and every selected post-processing function whose value there is normal, the entry (pair, function index) is stored under the fractional part of the absolute value (the whole absolute value if integer truncation is off). Nothing else is added, no existing entry is lost or moved, and no pair is stored twice under a key - with replication validation on, a (pair, function index) that is already stored anywhere is not stored again while its other selected functions still are.",
 ['inputs', 'histories'], 'all ranges, tables, function selections, truncation and validation settings',
 'the only test builds a one-element table and fails at the base commit',
 ['enum_params.py', 'decimal_hashtable.py', 'cont_fracs.py'],
 [('table construction', 'enum_params.py:MITM._iter2hashtalbe'), ('entry point', 'enum_params.py:MITM.build_hashtable')])

prop('C12', 'Click search reports exactly the stored entries matching a left-hand side',
 "The search over left-hand sides reports, for every enumerated non-degenerate left-hand side whose absolute value (reduced to its fractional part when integer truncation is on) addresses an entry of the table, one match per stored item with that item's polynomials and function index - and nothing else, in enumeration order. Every reported match owns an independent copy of its left-hand side, so later enumeration or refinement of another match cannot change it.",
 ['inputs'], 'all tables and all left-hand side ranges of both families, all target constants',
 'the only test has one click and fails at the base commit',
 ['enum_params.py', 'lhs_evaluators.py'],
 [('search loop', 'enum_params.py:MITM.find_clicks'), ('copy constructor', 'lhs_evaluators.py:LHSEvaluator.__init__')])

prop('C13', 'Refinement keeps exactly the matches confirmed to the requested digits',
 "Refining at a given accuracy re-evaluates every match with the requested depth (or the depth derived from its convergence rate, capped by the limit) and keeps it, in the original order and with its polynomials, function index and convergence information, if and only if the post-processed value is normal and its absolute value agrees with that of the left-hand side - fractional parts only when integer truncation is on - in the leading digits requested. Division by zero drops the match, and so does a vanishing numerator when the depth is derived from the convergence rate. In every kept match the left-hand side has been adjusted by a sign flip (exactly when the signs differ) and the nearest integer difference, so that its value itself matches the signed right-hand side.",
 ['inputs'], 'all match lists, accuracies and depths, both left-hand side families',
 'no test reaches refinement; it depends on numeric coincidences of sign, integer part and digits',
 ['enum_params.py', 'lhs_evaluators.py'],
 [('refinement', 'enum_params.py:MITM._refine_clicks'), ('digit comparison', 'enum_params.py:MITM.compare_dec_with_accuracy')])

prop('C14', 'Duplicate filtering keeps the first of every group of equivalent matches',
 "Filtering unique matches returns, in the original order, exactly those matches that are not equivalent to an earlier kept one. Hence no two returned matches are equivalent, every dropped match has an equivalent returned one before it, and filtering again changes nothing.",
 ['inputs'], 'all match lists', 'not tested',
 ['enum_params.py'], [('filter', 'enum_params.py:MITM.filter_uniq_params')])

prop('C15', 'Convergence and root filters keep exactly the matches meeting their criterion',
 "The convergence-speed filter keeps exactly the matches whose continued fraction is classified fast, the convergence-type filter exactly those classified within the white list (or outside the black list) with the classification attached - matches whose classification fails are dropped and giving both or neither list is rejected - and the numerator-root filter exactly those for which no numerator polynomial has a positive near-integer real root. All of them preserve the order and the other data of the matches.",
 ['inputs', 'configurations'], 'all match lists, all lists of types',
 'not tested', ['enum_params.py'],
 [('fast filter', 'enum_params.py:MITM.filter_only_exp_convergence'), ('type filter', 'enum_params.py:MITM.filter_clicks_by_approach_type'), ('root filter', 'enum_params.py:MITM.filter_pos_integer_roots_numerators')])

prop('C16', 'Linear-fractional left-hand sides: value, sign flip, shift and equivalence',
 "A left-hand side with parameters (u, l, c, d) and target x always has the value (u/x + x/l + c)/d of its current parameters; flipping the sign negates the value, adding an integer n adds n to it, both by changing only its own parameters. Copying gives an independent object with equal parameters, target and value. Two matches of this family are declared equivalent only if their numerator polynomials are equal, their denominator polynomials are equal up to a global sign, and the left-hand sides have equal absolute values for every target (and identical parameters if a post-processing function is involved).",
 ['inputs', 'histories'], 'all parameters with l, d nonzero, all targets, all sequences of operations',
 'enumeration only is tested at the base commit (the evaluator tests fail)',
 ['lhs_evaluators.py'],
 [('evaluation', 'lhs_evaluators.py:ULCDEvaluator.reinit_params'), ('flip', 'lhs_evaluators.py:ULCDEvaluator.flip_sign'), ('shift', 'lhs_evaluators.py:ULCDEvaluator.add_int'), ('equivalence', 'lhs_evaluators.py:ULCDEvaluator.is_equiv')])

prop('C17', 'Rational-function left-hand sides: value, sign flip, shift and canonical form',
 "A rational left-hand side with integer polynomials p, q, integer k and target x has the value p(x)/q(x) + k of its current parameters, or NaN when p(x) or q(x) is not a normal number; flipping the sign negates it and adding an integer n adds n. Bringing it to canonical form changes neither the represented function nor (where both are numbers) the value, leaves p and q without a common polynomial factor and the constant coefficient of the polynomial quotient of p by q in (-1, 0], and repeating it changes nothing. It is degenerate exactly when the represented function is constant; copies are independent and equal.",
 ['inputs', 'histories'], 'all integer polynomials with nonzero q, all targets, all sequences of operations',
 'one canonicalization example is tested',
 ['lhs_evaluators.py'],
 [('evaluation', 'lhs_evaluators.py:RationalFuncEvaluator._calc_val'), ('flip/shift', 'lhs_evaluators.py:RationalFuncEvaluator.flip_sign'), ('canonical form', 'lhs_evaluators.py:RationalFuncEvaluator.canonalize_params')])

prop('C18', 'Rational matches are merged only if they state the same identity',
 "Two rational-function matches are declared equivalent only if their numerator polynomials are equal, their denominator polynomials are equal up to one global sign, their post-processing functions are the same or reciprocal to each other, and their left-hand side functions - the second one inverted in the reciprocal case - differ by an integer constant. A match is always equivalent to itself, and left-hand sides of different families never are.",
 ['inputs'], 'all pairs of matches', 'not tested at all',
 ['lhs_evaluators.py', 'postprocfuncs.py'],
 [('equivalence', 'lhs_evaluators.py:RationalFuncEvaluator.is_equiv'), ('reciprocal pairs', 'postprocfuncs.py:INVERSE_POSTPROC_PAIRS')])

prop('C19', 'Left-hand side enumeration covers exactly the configured parameters',
 "The linear-fractional enumeration yields, in product order and once each, exactly the parameters from the given ranges (n means -n..n, or 1..n for the divisor d; two or three numbers mean start, stop, step; anything else is taken as the values themselves) with l and d nonzero and |c| < |d|. The rational enumeration yields exactly the pairs of coefficient choices (upper bounds excluded) that are both nonzero polynomials, not both constant, with deg p >= deg q if that is demanded, and with normal values at the target. The announced length is the size of the full product.",
 ['inputs', 'configurations'], 'all ranges of both families, all targets',
 'five small ranges are tested', ['lhs_evaluators.py'],
 [('linear-fractional', 'lhs_evaluators.py:ULCDEnumerator.generator'), ('rational', 'lhs_evaluators.py:RationalFuncEnumerator.generator')])

prop('C20', 'Distributing a run partitions the search space',
 "Splitting a search into 2^k parts produces exactly 2^k parts whose coefficient products are non-empty, pairwise disjoint and together cover exactly the original product, changing only coefficient ranges and not the input; ranges that cannot be split and part counts that are no power of two are rejected. The distribution tool writes one configuration per part that parses back to the original settings with that part's ranges and a hashtable file of its own.",
 ['inputs', 'configurations'], 'all ranges (interlaced too), all k, all legal configurations',
 'no test exists', ['distribute_run.py', 'configfile.py'],
 [('bisection', 'distribute_run.py:split_params'), ('config files', 'distribute_run.py:main')])

prop('C21', 'Configurations are parsed to typed values and survive being written back',
 "Every known option of a configuration file is converted by its declared type - 'none' in any case becomes no value, booleans, integers, JSON lists, polynomial families, left-hand side families and post-processing functions become the named objects - an illegal value is rejected, and every unspecified option has no value. Post-processing functions are translated to their table positions, and the automatic hashtable-only option becomes false exactly when an existing hashtable is used. Writing the parsed settings back and parsing the result gives the same settings.",
 ['inputs', 'configurations'], 'all legal and illegal option values, all subsets of options',
 'the configuration module has no tests', ['configfile.py'],
 [('casting', 'configfile.py:ConfigParser._cast_param_val'), ('translation', 'configfile.py:ConfigParser._gen_postproc_funcs_filter'), ('writing', 'configfile.py:ConfigParser.set')])

prop('C22', 'Hashtable versions: generate never overwrites, use and expand take the newest',
 "Given a hashtable name (with or without version suffix or extension) and any folder content, the generate operation selects a file name one version above the highest existing version of that name - hence never an existing file - while use and expand select the highest existing version, versions being compared as numbers and an unversioned file being the oldest. If no version exists, the given name is used, with version 1 if none was given. Files of other names and in other folders never matter.",
 ['inputs', 'configurations'], 'all names and folder contents', 'the configuration module has no tests',
 ['configfile.py'], [('version selection', 'configfile.py:ConfigParser._gen_hashtable_filename')])

prop('C23', 'Exported equations and rows denote the matches that were found',
 "The LaTeX of a continued fraction denotes a_0 + b_1/(a_1 + ... b_n/(a_n + ...)) for the given values, that of a left-hand side denotes its value as a function of the target name, and each post-processing function wraps the fraction in exactly the function it computes, leaving the left-hand side unchanged. The equation list contains one such equation per match in order (only truncated fractions may be skipped), the CSV one row per match in order, with its polynomials, function, left-hand side type, parameters, convergence data and both numerical values.",
 ['inputs'], 'all coefficient values and depths, all left-hand sides of both families, all post-processing functions',
 'a single fraction is tested; a published conjecture that misstates the match is the worst outcome of the tool',
 ['latex.py', 'lhs_evaluators.py', 'postprocfuncs.py', 'enum_params.py'],
 [('fraction', 'latex.py:latex_cont_frac'), ('left-hand sides', 'lhs_evaluators.py:RationalFuncEvaluator.get_latex_exp'), ('functions', 'postprocfuncs.py:POSTPROC_FUNCS_LATEX'), ('export', 'enum_params.py:MITM.get_results_as_eqns')])

prop('C24', 'Post-processing functions compute what they name and pair with reciprocals',
 "The post-processing functions, in their fixed order, compute identity, square, cube, fourth and fifth power, square root, sine, cosine, tangent, cotangent, exponential and natural logarithm, each followed by its reciprocal; the reciprocal of zero is infinity, and the square root of a negative and the logarithm of a non-positive number are NaN. Two positions are listed as a reciprocal pair exactly when they hold such a function and its reciprocal, in both orders. Every function has a LaTeX form.",
 ['inputs'], 'all real arguments', 'the tests of these functions fail at the base commit and sample a few points',
 ['postprocfuncs.py'], [('function table', 'postprocfuncs.py:POSTPROC_FUNCS'), ('pairs', 'postprocfuncs.py:INVERSE_POSTPROC_PAIRS')])

prop('C25', 'Built-in constants are correct to their digits and selected by name and index',
 "Every built-in constant with a closed definition (pi, e, the golden ratio, Euler-Mascheroni, the zeta values 2..20, Apery, the two percolation thresholds) equals the mathematical constant up to the digits it is given with (of which the module keeps at most 150), or the working precision if lower. Asking for a constant with a precision sets the working precision, without one leaves it unchanged, and the run's constant name and index select exactly that constant; unknown names are rejected.",
 ['inputs', 'configurations'], 'all constants, indices and precisions',
 'tests compare the first digits of some constants', ['gen_consts.py', 'main.py'],
 [('tables', 'gen_consts.py'), ('selection', 'main.py:main')])

prop('C26', 'A run performs the configured stages and touches only the files it should',
 "A run loads an existing hashtable exactly when the operation is use or expand, builds exactly when it is generate or expand (with the configured ranges, functions and precisions, a new table also with the configured depth), saves it exactly when it was built, and stops there if only the hashtable is wanted. Otherwise it searches with the configured left-hand sides, refines with first, then filters duplicates and slow convergence, refines with the second and third accuracy and iteration limits, filters again, and only then exports. Interrupting the third stage still exports what is left.",
 ['configurations', 'fault_sequences'], 'all configurations, an interrupt at any step of the third stage',
 'the pipeline has no test', ['main.py', 'enum_params.py'],
 [('pipeline', 'main.py:main'), ('settings of an extended run', 'enum_params.py:MITM.redefine_settings')])

prop('C27', 'The clean-up tool removes exactly the entries with integer-root numerators',
 "Cleaning a saved hashtable writes a new file next to it that contains, under every key, exactly those items none of whose numerator polynomials has an integer root, in the same order, drops keys that become empty, and keeps the stored run parameters. The original file is left as it was.",
 ['inputs'], 'all hashtables', 'no test exists', ['fix_hashtable_filter_init_b_root.py'],
 [('clean-up', 'fix_hashtable_filter_init_b_root.py:main')])

prop('C28', 'The stopwatch reports consecutive intervals that add up to the total',
 "After the stopwatch is started, each measurement returns the time elapsed since the previous measurement (the start for the first), asking again for the last measurement repeats it, and the total runtime counts from the start; hence consecutive measurements add up to the time between the start and the last one. Starting again while running changes nothing.",
 ['histories'], 'all sequences of calls and clock readings', 'one test with one or two sleeps',
 ['utils.py'], [('alternating time slots', 'utils.py:MeasureRuntime')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
