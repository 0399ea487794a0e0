import ast, glob, json, os
P = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
HOW = {
'C01': 'BasicContFrac: loop invariant of `gen_iterations` (matrix after i steps = product of the elementary matrices, gcd-reduced by a common factor; state variables functions of the iteration), gcd reduction by the contract of C05, `get_result` = p/q; all coefficient lists, all interlaces, all depths.',
'C02': 'ContFrac: state after every constructor / `gen_iterations` / `reinitialize` / copy equals a function (families indexed by coefficients and count) of coefficients and iteration count; frame conditions on everything else. Iterating *further with logging on* is only sampled.',
'C03': '`eval_dec_contfrac_by_polys` and the list evaluator: backward loop invariant (partial value = tail fraction), agreement lemma with the iterated matrix of C01 for all depths.',
'C04': 'ZeroB is raised iff a numerator vanishes within the iterations made (exceptional postcondition; witness index), in every entry point.',
'C05': 'gcd loop (invariant + termination measure) and Horner/power-sum loop of polynomial substitution.',
'C06': 'enumerators: the generators are run as *ghost sequences*: the yield sequence is described by nested families; obligations: sound (every yield is in the product), complete (each element of the product is yielded), squeeze/duplicates excluded, count equals the predicted number.',
'C07': 'families indexed / sparse / plain: exact coefficient identities (binomial theorem as lemma), mask enumeration complete and without repetition.',
'C08': 'integer roots by discriminant cases, degree, powers of x removed; nonlinear real arithmetic in z3/cvc5.',
'C09': 'decimal hashtable as a map from decimal texts; data invariant (every key has the number of digits of its epoch), get/set/delete/in/setdefault across precision changes.',
'C10': 'append / join / `__reduce__` round trip: invariant of C09 kept, entries united, history of precisions merged; join script for an arbitrary list of part files.',
'C11': 'build_hashtable / _iter of MITM: loop invariants over an arbitrary enumeration: every pair with its functions stored under the key of its value, nothing else, extension keeps old entries, integers handled as configured.',
'C12': 'find_clicks: one match for each (left-hand side, item) under its key, in order, with own copies; degenerate sides skipped.',
'C13': 'refine_*: filtered list = exactly the matches within accuracy in order, sign flips and integer shifts applied to a value-preserving pair; exceptions handled.',
'C14': 'filter_uniq: kept list is a transversal: each dropped match has an earlier kept equivalent, no kept one has; order kept.',
'C15': 'the three filters equal a list comprehension over an arbitrary classification.',
'C16': 'ULCD left-hand sides: value, flips, shifts, equality, canonical form over reals (nonlinear, z3+cvc5).',
'C17': 'rational left-hand sides: sympy polynomials by values at a transcendental point, at the target and at 0, with the ring laws that are used listed in the evidence.',
'C18': 'is_equiv of rational matches against equality of the represented functions, on the canonical forms of C17.',
'C19': 'enumeration of left-hand sides: yield sequences of both families against the product of ranges (completeness, soundness, admissibility).',
'C20': 'distribution: splitting recursion proved by induction on the number of splits; parts are a partition of the ranges; files and configurations of the parts.',
'C21': 'the whole parser on a section in which one option has an arbitrary text (a symbolic string; lower, int and JSON as functions of it) and the others are given or not; the resulting settings against the declared type of the option, then every setting through `config_val_to_str` and `set`, the written texts read again by the same parser, and the two compared. The list of functions is a symbolic list of names of arbitrary length.',
'C22': 'version selection: symbolic names (known and unknown pieces with a regular language each), an arbitrary folder listing, `re` decided by derivatives of regular languages, sort/max by a witness and an arbitrary index J.',
'C23': 'LaTeX as symbolic text (known and unknown pieces) read by an evaluator of the LaTeX subset that is used: the fraction by one inductive step of the recursion (lists of every length) and unrolled depths up to 7, linear-fractional sides for all parameters, the 24 functions around an arbitrary fraction; `get_results_as_eqns` and `export_to_csv` equal to a comprehension over an arbitrary list of matches. Rational sides are unrolled up to the degrees stated in the evidence (bounded).',
'C24': 'post-processing functions: each table entry (the *evaluated text*) against its definition for an arbitrary real argument, including 0, negative numbers, NaN and infinities.',
'C25': 'module text of gen_consts executed symbolically with the real mpmath rounding of its literals; each generator with a symbolic precision; main() with a symbolic index; value inside a rational enclosure (Machin, series, Euler-Maclaurin) or next to the root of its polynomial (z3 nonlinear reals).',
'C26': 'main() with an arbitrary configuration: log of the calls to the search object and of every file opened, on each path incl. interruption at any call of the third stage.',
'C27': 'clean-up tool: loop invariant over an arbitrary table: exactly the items with a rooted numerator removed, list and table frame, in-place file replaced.',
'C28': 'stopwatch: object invariant with ghost time stamps over every sequence of operations.',
}
BOUNDED = {
}
ass = {}
for f in sorted(glob.glob('/verif/contracts/c*.py')):
    t = ast.parse(open(f).read())
    for s in t.body:
        if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'ASSUMPTIONS':
            try:
                ass[os.path.basename(f)[:-3].upper()] = ast.literal_eval(s.value)
            except ValueError:
                pass
o = open('/verif/DESIGN.md', 'w')
w = lambda s='': o.write(s + '\n')
w('''# Verification of PiContFracs by contracts on the real code

## The verifier (pyvc/)

No deductive verifier for Python is installed, so /verif/pyvc is one. It reads the *current source text* of /repo on every
run (ast; nothing is copied or rewritten by hand), executes each function under contract symbolically and hands the
obligations to z3 and cvc5 (and, for text patterns, to a decision procedure for regular languages by Brzozowski
derivatives, pyvc/regexes.py).

- **Functions.** A scope of a contract (`contracts/cNN.py`) states a precondition by symbolic arguments and assumptions,
  runs the real function body and states postconditions (`V.prove`), exceptional postconditions (`V.raises`) and frames.
  Callees that have a contract of their own (in this or another property) are replaced by it (`V.I.stubs`, `families`,
  `relations`: uninterpreted functions of what the contract says the result depends on); the contract used is named
  in the assumptions with the property that discharges it.
- **Loops** are unbounded. pyvc/loops.py classifies what a loop does to every location it changes (unchanged,
  accumulating sum/product/maximum, appended sequence, family indexed by the iteration, found-first, ...), *proves* the
  resulting invariant (base and step) for the arbitrary iteration k, and only then uses it behind the loop. User
  contracts may give invariants for state that the classification does not find. Comprehensions and generators are
  sequences `Flat(n, k, parts(k))`, so "the list of all ... in order" is expressible for all lengths.
- **Data.** Lists, dicts, strings partly symbolic; heap objects with identity and ownership (aliasing between different
  objects is decided, frames are checked). Integers are mathematical (as in Python); mpf and float are mathematical reals
  plus NaN and infinities (assumption, always listed).
- **Vacuity.** Every scope has cover points that must be reachable; a contract whose assumptions contradict each other
  fails (`cover` obligations). A scope that leaves the supported subset fails ("within reach of the verifier"), it is never
  skipped. Consequence: a refactoring into unsupported Python gives a VIOLATION ... no-failing-input-found.

## What a check does (check.py)

`check.py Cnn` runs the contracts and, concurrently, the *concrete side* harness/hNN.py on PyPy (the interpreter of the
project): the same postconditions evaluated on the real code for generated inputs (seeded by VERIF_SEED; thorough: longer). It is a
bounded check, labelled so in the evidence and never counted as proof; it serves to (a) produce the failing input for
a failed obligation (replay file), (b) watch what the contracts assume (rounding, sympy, mpmath, file system).
Failed obligation and failing input: `VIOLATION property=.. replay=..`; failed obligation alone: the line ends with
`no-failing-input-found` and the replay file has the obligations with the verifier's output. Evidence: functions under contract,
obligations by back end, solver time, assumptions, bounded parts, SHA-256 of the sources read.

What extraction drops: decorators are executed, type hints and docstrings ignored, `print` and progress bars produce nothing,
`if __name__ == '__main__'` blocks are not entered, module-level code is executed.

## Per property
''')
for i in sorted(P):
    w('### %s %s' % (i, P[i]['title']))
    if i in HOW:
        w('- Method: contracts discharged by pyvc. ' + HOW[i])
        if ass.get(i):
            w('- Unchecked assumptions: ' + '; '.join(ass[i]) + '.')
    else:
        w('- Method: ' + BOUNDED[i])
    w()
w('''## Common assumptions

The semantics of Python encoded in pyvc (written for this project, tested by mutations and by the concrete side; not itself
verified); z3 and cvc5; solver `unknown` counts as failure. mpf/float rounding is not modelled in the contracts.
Iteration over a set visits each member in one arbitrary order (possibly more than once; what is proved does not depend on it).

## Scoped out

Observed while reading, not part of a listed property (or excluded by its statement):

- exp of gigantic values exhausts the machine; 1/ln near 1 is numerically undecided at a given precision;
- config.ini says that expand saves to v_latest+1, the code overwrites v_latest;
- logging mode with 0 iterations returns 1; constructor defaults of `_config` are overwritten by every parse;
- path options are lower-cased; an extended table keeps its own depth; the results folder is named by the minute (two runs
  within one minute: the second stops in mkdir);
- Feigenbaum constants have no closed definition (only leading digits compared); constants are kept to 150 digits
  (`mp.dps = 150` at import), which the statement of C25 says;
- `filter_only_exp_convergence(print_surprising...=True)` fails when the printed classification fails (debugging aid);
- a new ContFrac has classification (None, None), a re-initialized one ('undefined', 0);
- `redefine_settings` builds the new enumerator with the old `prec` (which nothing uses);
- a configuration without hashtable_file stops with TypeError (the option is required).

## Defects found

All defects found on the original tree are repaired by `fix:` commits (listed with what failed in known_findings.txt); no
open finding. No hooks are needed in /repo.

## False alarms and corrections

- C15: an early harness demanded that a finite (truncated) fraction be kept by the convergence filter; the statement does not
  say so; the filter aborting on it was the defect (76accad, ba18a06).
- C17: "the values agree" was too strong where the target is a pole; the statement now says "(where both are numbers)".
- C25: the statement now says that at most 150 digits are kept.
- Harness tolerances that depended on rounding were replaced by exact rational comparison.

## Planted bugs (seeded/) and the checks that catch them

Each was written from the statement and the code; every one is caught by the check of its property, by the contract (failed obligation)
and/or the concrete side (failing input).

| seed | property | needs | caught by contract | caught by concrete side |
|---|---|---|---|---|''')
conc = {}
if os.path.exists('/tmp/seedtable.json'):
    conc = json.load(open('/tmp/seedtable.json'))
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    w('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], 'yes' if m['property'] in HOW else 'no contract',
                                  conc.get(n, 'yes')))
w('''
Besides the seeds, every contract was run against ad-hoc mutations (changed constants, swapped branches, dropped frames,
off-by-one ranges) and behaviour-preserving rewrites (helpers, comprehension to loop, sorted/max, reordered statements) while it was written.

## Cost

Quick checks take 10-150 s each on 8 cores (C06, C13 and C17 the longest); thorough ones prolong the concrete side and the solver limits.''')
o.close()
