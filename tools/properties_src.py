import json
P=[]
def p(id,title,statement,over,text,why,files,syms):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0]) for x in syms])))
p("C01","A continued fraction evaluates to its exact convergent",
 "For every pair of integer polynomial families a, b (interlaced or not) and every depth n, the evaluator reports p/q with p/q exactly a(0)+b(1)/(a(1)+b(2)/(...+b(n)/a(n))), and its value is that rational rounded to the working precision (NaN when q is zero). The one-shot evaluators give the same number for the same terms, with or without a separate additive constant, and never turn an undefined fraction into a number. A zero partial numerator b(i), i>0, is reported as such and never silently truncates the fraction.",
 ["inputs"],"all polynomial families, interlace lengths, depths and working precisions",
 "The existing tests compare six fractions to a limit, with loose thresholds, and fail at base; no intermediate convergent is ever compared.",
 ["cont_fracs.py","basic_representation_types.py","utils.py"],["ContFrac","eval_contfrac","eval_contfrac_by_polys","eval_dec_contfrac_by_polys","MathOperations.subs_in_polynom"])
p("C02","Evaluation state depends only on the fraction and the iteration count",
 "After any sequence of generating, adding iterations and reinitialising (with or without logging, with failed calls in between), the evaluator's value, p/q and iteration count are those of a fresh evaluator of the same polynomials run once for the same number of iterations. Generating from scratch forgets everything before it; a call that fails on a zero numerator leaves the evaluator as it was before the call, or at zero iterations if it was generating from scratch. With logging, the mid-results on record are those of every iteration, in order. With convergence information set, no more than the requested number of iterations is executed, and never fewer than both the requested number and what the stated rate needs for the requested accuracy.",
 ["histories"],"all sequences of calls on one evaluator",
 "Tests perform one generate call per object; no history with add, reinitialise, logging or an exception in the middle is tried.",
 ["cont_fracs.py","basic_representation_types.py"],["ContFrac.gen_iterations","ContFrac.add_iterations","ContFrac.reinitialize","ContFrac.get_result","ContFrac.get_p_q"])
p("C03","The RHS enumeration is exactly the configured family",
 "For every a/b coefficient range (any interlace) the normal, indexed and sparse enumerations yield exactly the pairs of polynomial families their definition describes - every combination whose b passes the root filter and, when only exponential convergence is wanted, whose degrees allow it - and nothing else, with equal interlaces squeezed to one polynomial. Every pair comes out as many times as it is described (once for the normal and indexed kinds). The length announced with the generator is never smaller than the number of pairs it yields.",
 ["inputs","configurations"],"all coefficient ranges, interlaces, polynomial kinds and filter settings",
 "Tests check four small non-interlaced ranges of three kinds and never the announced length, interlaces or the degree filter.",
 ["enum_poly_params.py"],["BasicEnumPolyParams.polys_generator","IndexedParameterEnumPolyParams.manipulate_poly","SparseParameterEnumPolyParams.manipulate_poly"])
p("C04","Root filters drop terminating fractions and only those with integer roots",
 "No enumerated or finally reported continued fraction has a partial-numerator polynomial with a positive integer root (at enumeration: for polynomials of degree at most two after powers of x are factored out; at the final filter: for any degree). No continued fraction whose partial-numerator polynomials have no integer root at all is dropped by these filters. Purging a stored table removes exactly the entries the enumeration filter rejects, drops emptied keys and keeps everything else.",
 ["inputs"],"all integer polynomials b, interlaced or not",
 "Tests try three polynomials; the filters' answers on quadratics, inner zeros, interlaces and stored tables are not sampled.",
 ["enum_poly_params.py","enum_params.py","fix_hashtable_filter_init_b_root.py"],["BasicEnumPolyParams.polys_generator","MITM.filter_pos_integer_roots_numerators","fix_hashtable_filter_init_b_root.main"])
p("C05","The LHS enumeration is exactly the configured family",
 "For every parameter range the ULCD enumeration yields once each the (u,l,c,d) of the product with l, d nonzero and |c|<|d|, and the rational enumeration once each the pairs of nonzero coefficient vectors that are not both constant, respect the degree restriction when asked to, and do not vanish at the target. Every yielded object evaluates to its own formula at the target constant, and the announced length is never smaller than the number yielded. A range given as a bound n means -n..n (1..n for d), as a pair lo..hi-1, as a triple with a step, and any other iterable its elements.",
 ["inputs","configurations"],"all parameter ranges, range notations and target values",
 "Tests fix a few small ranges with Decimal or integer targets and compare only parameters, never values or the length.",
 ["lhs_evaluators.py"],["ULCDEnumerator","RationalFuncEnumerator","ULCDEvaluator","RationalFuncEvaluator"])
p("C06","LHS transformations change the value exactly as stated",
 "After any sequence of sign flips, integer additions, canonicalisations and copies, an LHS object's parameters denote the expected exact function of the constant (negated, shifted by the integer, unchanged), and its reported value is that function at the target to working precision. Reinitialising with other parameters leaves nothing of the earlier ones, and the symbolic polynomials are those of the function. Canonical form is reduced, keeps the function, and is stable under repetition; a copy is independent of its source. An LHS is called degenerate when it does not depend on the constant (rational) or is the ULCD pair u=-l with |u|=1, and only then.",
 ["histories","inputs"],"all sequences of transformations on all parameters",
 "Tests apply one add and one flip in a fixed order (and fail at base); the canonicalisation test asserts nothing.",
 ["lhs_evaluators.py"],["LHSEvaluator","ULCDEvaluator.flip_sign","RationalFuncEvaluator.add_int","RationalFuncEvaluator.canonalize_params","RationalFuncEvaluator.is_degenerate"])
p("C07","The digit hashtable is a map on truncated numbers, for any history",
 "For any history of set, get, setdefault, in, del, accuracy updates and pickling, two numbers address the same entry exactly when their fixed-point digits agree to the accuracy under which the entry was stored, and each operation returns what a plain map with such keys would. Values stored before an accuracy update stay reachable by every number that agrees with them to the old accuracy; new ones use the new accuracy. Named (non-numeric) keys are never shortened, numeric keys of other types are refused, and a pickled table answers every later operation like the original.",
 ["histories","inputs"],"all operation sequences, key values (tiny, huge, integer) and accuracy changes",
 "There is no test of the table at all; the two table-building tests fail at base.",
 ["decimal_hashtable.py"],["DecimalHashTable"])
p("C08","Joining tables loses and invents nothing",
 "Joining any number of tables of equal accuracy (in memory or by the join script) gives, for every key, exactly the multiset union of the parts' entries, with every entry reachable by the numbers that reached it in its part; tables of different accuracy are refused without changing anything. The join script refuses to overwrite an existing output file, and leaves its inputs as they were.",
 ["histories","inputs"],"all sets of part tables and their accuracy histories",
 "No test joins anything.",
 ["decimal_hashtable.py","join_hashtables.py"],["DecimalHashTable.append_dict","join_hashtables.main"])
p("C09","A built table holds exactly the enumerated fractions' digits",
 "After building, and after any number of expansions with overlapping ranges, other post-processing functions or another accuracy, the table holds exactly one entry for every enumerated fraction and selected function whose value at the configured depth is defined and normal, filed under the digits of the absolute (fractional, when integers are ignored) function value. Nothing is lost or duplicated by an expansion, and no entry is filed under digits its own fraction does not have.",
 ["histories","inputs","configurations"],"all ranges, polynomial kinds, function selections and build/expand sequences",
 "One test builds a one-fraction table (and fails at base); expansion is never tested.",
 ["enum_params.py","decimal_hashtable.py"],["MITM.build_hashtable","MITM.redefine_settings","MITM.reset_hashtable"])
p("C10","Click search is sound and complete",
 "The search yields exactly one candidate for every non-degenerate enumerated LHS and every table entry that the LHS's absolute (fractional) value reaches at the table's accuracy - no pair is missed, invented or repeated. Each candidate carries the LHS that produced it, unaffected by the rest of the enumeration. A new search replaces the candidates of the previous one.",
 ["inputs","histories","configurations"],"all tables, LHS families and targets",
 "One test searches one LHS (and fails at base).",
 ["enum_params.py"],["MITM.find_clicks","MITM.get_filtered_params"])
p("C11","Refinement keeps exactly the true matches, exactly corrected",
 "Refining to N digits keeps a candidate exactly when the post-processed fraction (evaluated with the requested number of iterations, or fewer by convergence information) and the LHS agree in the first N digits of their absolute (fractional) values; order is kept and a fraction that divides by zero is dropped alone. Every kept candidate's LHS is corrected by sign and integer so that LHS and post-processed fraction agree as signed numbers. Repeating a refinement, or refining deeper, never brings a candidate back and never breaks that agreement.",
 ["inputs","histories"],"all candidate lists, signs, integer offsets, accuracies and refinement sequences",
 "Refinement is not tested.",
 ["enum_params.py","lhs_evaluators.py"],["MITM.refine_clicks_with_const_num_of_iters","MITM.refine_clicks_with_convergence_info","MITM.compare_dec_with_accuracy"])
p("C12","The uniqueness filter never loses an identity",
 "Filtering unique results keeps, in order, a sub-list containing the first element of every equivalence class; every dropped result states the same identity as one that is kept: same b, same or negated a, same or reciprocal post-processing, and LHS functions equal up to sign and, for rational functions, an additive constant (after inversion if reciprocal). Results whose LHS are different functions are never merged, and exact repetitions are always merged. Filtering twice changes nothing more.",
 ["inputs"],"all result lists",
 "Not tested.",
 ["enum_params.py","lhs_evaluators.py"],["MITM.filter_uniq_params","ULCDEvaluator.is_equiv","RationalFuncEvaluator.is_equiv"])
p("C13","Convergence filters judge each fraction by its own convergence",
 "The fast-convergence filter keeps every fraction whose convergents' differences shrink by a clear constant factor or faster, and drops every one that converges only polynomially; the approach-type filter keeps exactly the results whose own classification is on the whitelist (off the blacklist), exactly one list being required, and annotates each kept result with that classification. The classification names exponential convergence with a rate that matches the fraction's true rate, super-exponential and polynomial convergence as such. A fraction that cannot be classified is dropped alone and the order and contents of the others are unchanged.",
 ["inputs","configurations"],"all result lists and fractions with clear asymptotics",
 "Not tested.",
 ["enum_params.py","cont_fracs.py"],["MITM.filter_only_exp_convergence","MITM.filter_clicks_by_approach_type","ContFrac.estimate_approach_type_and_params","ContFrac.is_convergence_fast"])
p("C14","Distributing a run partitions its search space",
 "For every configuration and every power of two that the ranges allow, the generated part configurations' a x b ranges are non-empty, pairwise disjoint and together exactly the original space; other split numbers and indivisible ranges are refused. Every part keeps all the other settings of the original and has its own table file, and every part is itself a loadable configuration.",
 ["inputs","configurations"],"all ranges (interlaced, negative, degenerate) and split numbers",
 "Not tested.",
 ["distribute_run.py","configfile.py"],["split_params","distribute_run.main"])
p("C15","Table versions: newest is used, nothing is ever overwritten",
 "For any directory contents and any history of runs, 'generate' and 'expand' write a version newer than all existing ones and leave every existing file as it was, while 'use' and 'expand' read the highest version by number; other files, however similarly named, are ignored. A run that fails at any point, also while saving, changes no existing version and never becomes the version read next.",
 ["histories","crash_points","configurations"],"all directory contents, operation histories and points of failure",
 "Not tested.",
 ["configfile.py","main.py"],["ConfigParser","main.main"])
p("C16","Configuration files mean what they say, and round-trip",
 "Every setting of a configuration file is parsed to the value its notation denotes (numbers, nested lists, booleans, none, polynomial and LHS kinds, post-processing functions to their indices, paths with their case), missing optional settings get their defaults, unknown kinds, functions, operations and malformed values are refused, and 'auto' table-only mode is resolved by the operation. A configuration written by a finished or distributed run parses to the settings that run used.",
 ["inputs","configurations"],"all configuration texts",
 "Not tested.",
 ["configfile.py","main.py","distribute_run.py"],["ConfigParser.get_config","ConfigParser.set"])
p("C17","Exports state exactly the found results",
 "Each exported row and each exported equation corresponds to one result, in order: the row's polynomials, function, LHS parameters, convergence and values are that result's, and the equation read back as mathematics is the function applied to the fraction's first terms on the right and the result's LHS in the named constant on the left, exactly. Exporting changes no result, and a fraction that hits a zero numerator is skipped without affecting the others.",
 ["inputs"],"all result lists, LHS kinds, coefficient signs, degrees and functions",
 "Not tested.",
 ["enum_params.py","latex.py","lhs_evaluators.py","postprocfuncs.py"],["MITM.export_to_csv","MITM.get_results_as_eqns","latex_cont_frac","get_latex_exp","POSTPROC_FUNCS_LATEX"])
p("C18","Target constants are correct to every stored digit",
 "Every target constant (pi, e, golden ratio, Euler-Mascheroni, Apery, zeta(2..20), percolation and Feigenbaum-type constants) equals its mathematical value to the requested precision, up to the number of digits the module stores. Requesting a precision sets the working precision to it, and requesting none leaves it unchanged.",
 ["inputs"],"all constants, indices and precisions",
 "Not tested.",
 ["gen_consts.py"],["gen_pi_const","gen_e_const","gen_zeta_consts","gen_euler_masch_const","gen_phi_const","gen_percolation_consts","gen_feig_consts","gen_apery_const"])
p("C19","Post-processing functions compute what their names say",
 "For every real argument each post-processing function returns its named function to working precision: identity, powers, square root, sine, cosine, tangent, cotangent, exponential, logarithm, and after each one its reciprocal; outside the domain it yields NaN or infinity, never an ordinary number or a failure. The position of every function is stable, every function is immediately followed by its reciprocal, and the declared inverse pairs are exactly those.",
 ["inputs"],"all functions and real arguments, including zero, negatives and very small or large ones",
 "Not tested.",
 ["postprocfuncs.py"],["EVALUATED_POSTPROC_FUNCS","POSTPROC_FUNCS","INVERSE_POSTPROC_PAIRS","safe_inverse","safe_sqrt"])
p("C20","A full run finds the planted identities and reports only true ones",
 "For any configuration, a generate run followed by any expand and use runs reports every identity between the enumerated LHS and enumerated exponentially converging fractions that holds (up to the equivalence of the uniqueness filter), for the constant named in the configuration, and every reported identity holds to the last filtering precision. Results, equations and the reproducing configuration are saved in a directory of their own; earlier results are never touched.",
 ["histories","configurations"],"all sequences of runs over a shared directory of tables",
 "Not tested; the sanity-check configurations are never run.",
 ["main.py","enum_params.py"],["main.main"])
p("C21","Run-time meter and arithmetic helpers obey their contracts",
 "The run-time meter reports, for any sequence of readings, the time since the previous reading and since the start; starting twice changes nothing. The greatest common divisor divides both arguments, is divisible by every common divisor and has the sign of the second argument unless that is zero; polynomial substitution is exact; grouping an iterable yields all its items in order, in full groups padded at the end.",
 ["inputs","histories"],"all call sequences, integers and polynomials",
 "Tests use four gcd pairs, four polynomials and one timing sequence.",
 ["utils.py"],["MeasureRuntime","MathOperations.gcd","MathOperations.subs_in_polynom","grouper"])
p("C22","Interrupting the last refinement loses no validated result",
 "If the last refinement (or the filters after it) is interrupted at any point, the run still exports its results, and every result confirmed by the last completed stage is exported - neither lost, nor half-refined, nor replaced by an unconfirmed one.",
 ["crash_points"],"every point at which the interruption can arrive during the cancellable stages",
 "Not tested.",
 ["main.py","enum_params.py"],["main.main","MITM.refine_clicks_with_convergence_info","MITM.filter_uniq_params"])
p("C23","A distributed run equals the whole run",
 "Distributing a configuration, running every part in any order (also after failures, or repeatedly) and joining gives exactly the sum of the parts' tables, which holds the entries the undistributed run's table holds. A search over the joined table reports the identities a search of the whole space reports, and only true ones. Failing parts leave no table, no step touches another step's files, and an existing joined table is never overwritten.",
 ["inputs","histories"],"every configuration, number of parts and order of part runs, repetitions, failures, joins and searches",
 "No test runs the distribution or the join script.",
 ["distribute_run.py","join_hashtables.py","decimal_hashtable.py","main.py"],["distribute_run.main","join_hashtables.main","DecimalHashTable.append_dict","main.main"])
p("C24","Cleaning a table drops exactly the fractions that end",
 "The maintenance script for tables of older versions writes a new table beside the old one, which stays as it was; every kept entry is an old one under its old key, as often as before, with the table's parameters and accuracy. Every entry with a partial-numerator polynomial that has a positive integer root (for degree at most two after powers of x are factored out) is dropped, and no entry none of whose partial numerators has an integer root is. A search over the cleaned table reports the identities of the entries it kept.",
 ["inputs","histories"],"every table (keys with any number of entries, in any order, interlaced or not), also after joins",
 "The script has no test.",
 ["fix_hashtable_filter_init_b_root.py","enum_poly_params.py"],["main","BasicEnumPolyParams._does_have_integer_roots"])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write('\n'.join(json.dumps(x) for x in P)+'\n')
