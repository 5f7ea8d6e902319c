"""Writes properties.jsonl and MANIFEST.json from one description (run by hand after changes: python3 mk.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
G = 'GPy_ABCD/'
KEX, EXP, KER, MOD, UT = G + 'KernelExpressions/', G + 'KernelExpansion/', G + 'Kernels/', G + 'Models/', G + 'Util/'

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}

PROPS = [
P('C01', 'Expressions given to the library are never modified',
  'Applying an expansion operator or a production rule, expanding an expression, normalising start kernels, running or continuing a search, fitting, expanding into sum-of-products form and interpreting leave every kernel expression that was passed in (its terms, its tree links and its fitted parameters) as it was. Expansions and normalised start kernels share no mutable node with the inputs or with each other, and the exported tables of rules, start kernels and base kernels keep their contents.',
  ['inputs', 'histories'], 'For every well-formed kernel expression (any shape and content), every node of it, every operator, rule, and every sequence of searches.',
  'Tests compare results of single calls on a handful of expressions and hardly ever look at the operands again; aliasing between results only shows when one of them is modified later.',
  [EXP + 'kernelExpressionOperations.py', EXP + 'grammar.py', KEX + 'base.py', MOD + 'modelSearch.py', UT + 'modelUtil.py'],
  [('deepcopy before modification in the operators', EXP + 'kernelExpressionOperations.py'), ('new_tree_with_self_replaced', KEX + 'base.py'), ('pseudo_to_real_kex copies', EXP + 'grammar.py')]),
P('C02', 'Expansion yields well-formed, distinct, canonical expressions',
  'Every expression produced by expanding a kernel expression with any production rules is a complete tree of its own: one root, every child knowing its parent and every node the root, a commutative (sum or product) root or change root as documented, admissible contents, already in canonical form, and no two results equal.',
  ['inputs', 'configurations'], 'For every well-formed kernel expression, every set of production rules and every flag combination.',
  'The expansion tests list the results of a few expressions; links, canonical form and pairwise distinctness must hold for any expression reached in any round.',
  [EXP + 'grammar.py', KEX + 'base.py', KEX + 'commutative_base.py', EXP + 'kernelExpressionOperations.py'],
  [('expand / roots / standardise_singleton_root', EXP + 'grammar.py'), ('set_root / set_parent / new_tree_with_self_replaced', KEX + 'base.py')]),
P('C03', 'Simplification yields the canonical form and preserves the covariance',
  'Simplifying any kernel expression rewrites it only by the documented identities (idempotent and absorbing base kernels of sums and products, constants, singletons, nesting), so the result denotes the same family of covariances, and always reaches the canonical form: simplifying again changes nothing, no rule remains applicable, and the parent and root links of an initialised tree stay right.',
  ['inputs'], 'For every admissible expression: any multiplicities of any base kernels at any node of any nesting of sums, products, change-points and change-windows.',
  'The tests simplify a few literal expressions; rules interact (order of passes, emptied nodes, nesting), so that canonicity must be shown for arbitrary multiplicities and shapes.',
  [KEX + 'commutatives.py', KEX + 'commutative_base.py', KEX + 'change.py', KEX + 'base.py'],
  [('simplify passes', KEX + 'commutative_base.py'), ('SumKE/ProductKE.simplify_base_terms', KEX + 'commutatives.py'), ('ChangeKE.simplify', KEX + 'change.py')]),
P('C04', 'Each operator and production rule yields exactly its documented expressions',
  'For every operand and position, each expansion operator (add, multiply, base swap, change-point and change-window with base, same or constant/linear sides, replacement, term removal, shifted product, higher curves) and each production rule yields exactly the expressions its description states, up to canonical form, applied at every node of the tree, and the rest of the tree is unchanged.',
  ['inputs', 'configurations'], 'For every admissible operand, every node of it, every base kernel of the grammar and every flag combination.',
  'Tests list results for a few operands; a rule missing a term position, operand type or side only shows for other shapes.',
  [EXP + 'kernelExpressionOperations.py', EXP + 'grammar.py'],
  [('add, multiply, swap_base, one_change, both_changes, replace_node, remove_a_term, higher_curves', EXP + 'kernelExpressionOperations.py'), ('production rules and tables', EXP + 'grammar.py')]),
P('C05', 'Search rounds partition, order and deduplicate models correctly',
  'After every round of a search: all fitted models are listed once, best (lowest) score first, both overall and per round; exactly the best not-yet-expanded models, as many as the beam entry of that round allows, are expanded next; no expression equal to an already tested one is fitted again; expanded and not-expanded models partition all models in order; and the returned five lists are consistent with each other.',
  ['histories', 'inputs'], 'For every number of rounds, beam list (shorter, longer, integer), every order and coincidence of the scores, every outcome of the expansion.',
  'Tests run one or two real searches with data-dependent scores; ties, beams larger than the pool, short beams and re-found expressions are not reached.',
  [MOD + 'modelSearch.py', UT + 'genericUtil.py'],
  [('explore_model_space', MOD + 'modelSearch.py'), ('model_search_rounds', MOD + 'modelSearch.py'), ('diff / unique', UT + 'genericUtil.py')],
  state=[('tested_k_exprs', 'every expression fitted so far', MOD + 'modelSearch.py'), ('expanded / not_expanded', 'partition of the models', MOD + 'modelSearch.py')]),
P('C06', 'Search and fit settings reach every fit unchanged, with either fitter',
  'Data, restarts, optimiser and retry limit given to a search or a single fit reach every model fit of every round unchanged (one-dimensional data only as columns), the production rules reach every expansion and the utility function every score (even of models the fitter returns already scored by another); the lists given as settings (start kernels, rules, beam) are left as they were; the sequential and the parallel fitter make the same fits in the same order, and whatever is sent to or from the worker processes can be (pickled).',
  ['inputs', 'configurations'], 'For all values of all settings, every round and every kernel; both model-list fitters.',
  'Tests use default or near-default settings, for which a swapped, dropped or replaced argument is invisible.',
  [MOD + 'modelSearch.py', MOD + 'model.py', UT + 'modelUtil.py'],
  [('fit_one_model, fit_mods_*', MOD + 'modelSearch.py'), ('GPModel.fit', MOD + 'model.py'), ('fit_kex', UT + 'modelUtil.py')]),
P('C07', 'A failing fit is retried exactly up to the limit and errors are not lost',
  'When a model fit raises, it is retried with the same settings at most the given number of times; the first success is returned, and once the limit is used up the last error is raised to the caller; retries of one model do not use up those of another, and an interruption by the user is not retried.',
  ['fault_sequences', 'inputs'], 'For every retry limit and every sequence of failing and succeeding fits.',
  'No test makes a fit fail; the order of faults and successes is unbounded.',
  [MOD + 'modelSearch.py'], [('fit_one_model retry loop', MOD + 'modelSearch.py')]),
P('C08', 'Utility scores are the documented criteria of the fitted model',
  'BIC, AIC and AICc of a model equal -2 ll + k ln n, 2k - 2 ll and AIC + 2k(k+1)/(n-k-1) for the log-likelihood, number of data points and number of free parameters of the fitted model, and LA_LOO the negative mean of its leave-one-out log-likelihoods, so that lower is better for all of them; computing a score stores both its value and the name of the criterion and returns that value, with any criterion accepted.',
  ['inputs'], 'For every fitted model (any likelihood value, number of data points and parameters) and any utility function.',
  'Tests check orderings or stored numbers on a few models; formulas must hold for all values.',
  [UT + 'modelUtil.py', MOD + 'model.py'], [('BIC, AIC, AICc', UT + 'modelUtil.py'), ('compute_utility / _ordered_score_ps', MOD + 'model.py')]),
P('C09', 'Everything a model reports refers to its latest fit',
  'After each fit of a model, its canonical form, interpretation, predictions and score are those of that fit, never of an earlier one; the canonical form refuses to exist before the first fit, a fit without any known number of restarts is refused, and a later fit without one repeats the last.',
  ['histories'], 'For every sequence of fit, score, interpret and predict calls on a model, including failing fits.',
  'Tests fit each model once, so staleness between fits is never exercised.',
  [MOD + 'model.py'], [('GPModel.fit resets cached results', MOD + 'model.py'), ('sum_of_prods_kex property', MOD + 'model.py')],
  state=[('_sum_of_prods_kex, cached_utility_function(_type)', 'results of the latest fit', MOD + 'model.py')]),
P('C10', 'Interval arithmetic of change-points and windows describes the true ranges',
  'For products of sigmoidal factors, the interpretation states exactly the ranges on which the product is active: intersections of the ranges of all factors, with windows and reversed windows, for any locations, widths and slopes; slopes are reported at the end they belong to and only when fitted; a product that is active nowhere is said to be.',
  ['inputs'], 'For all numbers and kinds of sigmoidal factors (within the bound), all orders and coincidences of their locations and widths.',
  'Tests check a few numeric configurations; the order of bounds is what the logic branches on and has many cases.',
  [EXP + 'kernelInterpretation.py', UT + 'genericUtil.py'], [('sigmoid interval functions', EXP + 'kernelInterpretation.py')]),
P('C11', 'Fitted parameters are attached to the right term of the right node',
  'Matching the parameters of a fitted kernel back to its expression gives every base term of every node exactly the values of its own part of the fitted kernel, with repeated base kernels and nested operators kept apart, none lost, none invented and none attached twice.',
  ['inputs', 'configurations'], 'For every canonical expression (any repetition of base kernels and nested sums, products, changes), all parameter values and flag combinations.',
  'Tests use few expressions; wrong suffixes or scopes exchange values only for particular repetitions and nestings.',
  [KEX + 'base.py', KEX + 'commutative_base.py', KEX + 'change.py', EXP + 'kernelOperations.py'],
  [('match_up_fit_parameters', KEX + 'change.py'), ('to_kernel naming', KEX + 'commutative_base.py'), ('get_param_dict', EXP + 'kernelOperations.py')]),
P('C12', 'The sum-of-products form denotes the fitted kernel',
  'The sum-of-products form of a fitted expression is a sum of products of base and sigmoidal terms whose sum is the covariance of the fitted kernel: every product of the expansion is there once, with the product of its variances, its combined lengthscale and all its other parameters; and it can always be described in words.',
  ['inputs', 'configurations'], 'For every canonical expression within the size bound, all parameter values, all flag combinations with two-part change windows.',
  'Tests compare a few forms literally; lost or misattributed parameters appear only for particular combinations of factors and nesting.',
  [KEX + 'commutatives.py', KEX + 'commutative_base.py', KEX + 'change.py', EXP + 'kernelInterpretation.py'],
  [('sum_of_prods_form', KEX + 'commutatives.py'), ('ChangeKE.sum_of_prods_form', KEX + 'change.py'), ('get_interpretation', EXP + 'kernelInterpretation.py')]),
P('C13', 'Base kernels: covariance, variance and gradients agree',
  'Each linear, periodic and sigmoidal kernel computes its documented covariance between one or two sets of inputs, its variances are the diagonal of it, and each gradient it accumulates is the derivative of that covariance with respect to that fitted parameter; all parameters are linked and of a kernel of their own, the positive ones constrained and started from numbers that are not negative, every kernel covers the one input dimension, and no result is remembered across a parameter change.',
  ['inputs', 'configurations'], 'For all inputs, admissible parameter values and flag combinations.',
  'The kernel tests are few numerical comparisons at default parameters with one set of inputs.',
  [KER + 'linearKernel.py', KER + 'linearOffsetKernel.py', KER + 'periodicKernel.py', KER + 'sigmoidalKernels.py', KER + 'baseKernels.py'],
  [('K / Kdiag / update_gradients_full of each kernel', KER), ('Cache_this decorators', KER)]),
P('C14', 'Change kernels weight their sides complementarily and stay linked to them',
  'A change-point or change-window kernel is the sum of its sides weighted by complementary sigmoidal factors of its own current location, slope and width, both in covariance and variances; its sides receive their gradients with exactly those weights, and changing a parameter of the change kernel or of a side, or copying the kernel, is always reflected; the kernels given as sides are copied, not taken, so that they and other change kernels made of them are independent of it.',
  ['inputs', 'histories', 'configurations'], 'For all sides, inputs, parameter values, sequences of parameter changes and copies, both slope settings.',
  'Tests evaluate single configurations; stale or wrongly shared sub-kernels show only after parameter changes or copies.',
  [KER + 'changeOperators.py', KER + 'changeWindowShiftedSides.py', KER + 'changeWindowThreePart.py', KER + 'baseKernels.py'],
  [('ChangePointKernel / ChangeWindowKernel', KER + 'changeOperators.py'), ('parameters_changed propagation', KER + 'changeOperators.py')]),
P('C15', 'All stages agree on the kernels and parameters under every configuration',
  'Under every combination of the configuration flags the library loads, and its tables agree: each base kernel named by the grammar can be built, expanded, matched with exactly the parameters its kernel has, converted to sum-of-products form and described; excluded kernels are never generated, and default start kernels and rules are admissible.',
  ['configurations'], 'For all 32 combinations of the five flags and every entry of the tables.',
  'Tests run with one flag combination only.',
  [G + 'config.py', KER + 'baseKernels.py', EXP + 'grammar.py', EXP + 'kernelOperations.py', EXP + 'kernelInterpretation.py'],
  [('configuration flags', G + 'config.py'), ('base_kerns, base_k_param_names, start_kernels, production_rules', EXP)]),
P('C16', 'Verbosity affects only what is printed',
  'A search returns the same result with and without progress messages, a search that is not verbose prints nothing, and producing the messages never fails, whatever the numbers of rounds, models, beam entries and new expressions; the message of a round counts and lists the best models of that round, so far and not yet expanded.',
  ['inputs', 'histories', 'configurations'], 'For all beams, rounds (including none), empty rounds and scores.',
  'Tests run with fixed verbosity on ordinary searches; empty lists and short histories in the messages are not reached.',
  [MOD + 'modelSearch.py'], [('verbose messages of explore_model_space and model_search_rounds', MOD + 'modelSearch.py')]),
P('C17', 'Continuing a search equals a longer search and keeps the earlier result',
  'Continuing a search from its returned lists gives what a single search of as many rounds would give, and the lists of the earlier search given to it stay as they were.',
  ['histories', 'inputs'], 'For every split of the rounds, all beams and all orders of the scores.',
  'Tests never continue a search.',
  [MOD + 'modelSearch.py'], [('model_search_rounds', MOD + 'modelSearch.py')]),
P('C18', 'Equality of expressions ignores order and nothing else',
  'Two expressions are equal exactly when they are the same kind of node with the same terms regardless of order (sides of changes in order); equality is reflexive, symmetric and transitive, ignores fitted parameters and position in a tree, and copies compare equal.',
  ['inputs'], 'For all pairs of expressions of any shape and multiplicities.',
  'Tests compare a few pairs; equality drives deduplication of all expansions.',
  [KEX + 'base.py', KEX + 'commutative_base.py', KEX + 'change.py', UT + 'genericUtil.py'], [('__eq__', KEX)]),
P('C19', 'List utilities behave as multiset and order-preserving operations',
  'Removing duplicates keeps the first of each group of equal elements in order; list difference removes one matching element per given element and keeps the order; element equality is equality of multisets; partitioning, grouping, flattening, chunking and merging lose and invent nothing, and none modifies its arguments unless documented.',
  ['inputs'], 'For all lists within the length bound with arbitrary equality patterns between elements.',
  'Tests cover few literal lists, none with missing elements or partial coincidences.',
  [UT + 'genericUtil.py'], [('unique, diff, eq_elems, partition, group_by, flatten, foldq, topological_sort', UT + 'genericUtil.py')]),
P('C22', 'Queries and traversals of expressions agree with their contents',
  'Whether an expression contains a base kernel, is stationary and how many terms it has follow from its contents alone; traversing or reducing visits every node exactly once, parents before children and in the same order each time, with sides of changes that are base kernels as singleton sums linked to root and parent; link checks, re-rooting and singleton extraction state and do what they say; adding a base kernel or a sub-expression to a node adds exactly it; queries and traversals change nothing.',
  ['inputs'], 'For every expression, of any shape, nesting and multiplicities, and every base kernel.',
  'Tests query a handful of expressions, mostly flat ones; the queries steer the expansion rules and the parameter matching for every nesting.',
  [KEX + 'base.py', KEX + 'commutative_base.py', KEX + 'change.py'],
  [('contains_base, is_stationary, traverse, reduce, is_root, _check_all_parents', KEX + 'base.py'), ('term_count, extract_if_singleton, new_base, new_composite', KEX + 'commutative_base.py')]),
P('C23', 'Printed forms denote the expression',
  'The constructor form of an expression builds an equal expression; its algebraic form, read with products binding more tightly than sums, is the same expression; the kernel read from the algebraic form has the structure of the one built from the tree; every kernel built is a new one, with one variance per product of base kernels; printing changes nothing.',
  ['inputs', 'configurations'], 'For every expression, fitted or not, of any shape and repetition of terms.',
  'Tests compare strings of few expressions; missing brackets or lost repetitions show only for particular nestings.',
  [KEX + 'base.py', KEX + 'commutative_base.py', KEX + 'commutatives.py', KEX + 'change.py', EXP + 'kernelOperations.py'],
  [('__str__, __repr__, bracket_if_needed', KEX + 'commutative_base.py'), ('to_kernel / to_kernel_unrefined', KEX + 'base.py'), ('__repr__ / to_kernel of changes', KEX + 'change.py')]),
P('C24', 'Synthetic data follow their functions piecewise and line up',
  'A function made of parts takes at each input the value of the part in force there (up to the constants which make neighbouring parts meet, if requested), whatever types of numbers the parts return; generated outputs are the weighted values plus weighted noise at the given inputs, as columns; pairs of operands are sorted by type without loss.',
  ['inputs'], 'For all functions, locations, weights and inputs (numbers, flat arrays and columns).',
  'Generated data is only used as example input in tests and never checked; type truncation needs functions of different number types.',
  [UT + 'dataAndPlottingUtil.py', UT + 'kernelUtil.py'],
  [('cp_f_maker, cw_f_maker, generate_data', UT + 'dataAndPlottingUtil.py'), ('sortOutTypePair', UT + 'kernelUtil.py')]),
P('C25', 'Descriptions in words state each component\'s shape and fitted values',
  'The description of a fitted expression has one sentence per component of its canonical form, and says how many; each sentence names exactly the kinds of factors of its component, the first of periodic, smooth, constant, noise and polynomial as its subject, and states every fitted value once in its role, to at least two decimals: each period with its own lengthscale (the longest, main one first, further ones counted), the lengthscale of the smooth factor, the order of a polynomial and (when offsets are fitted) its roots, ranges of application if there are changes, and at its end the overall variance; describing changes nothing.',
  ['inputs', 'configurations'], 'For every component (any numbers of factors within the bound, any fitted values and orders of them) and every number of components, for all settings of offsets and slopes.',
  'Tests print descriptions without comparing them; which value is stated where depends on the order of fitted periods and on repetitions.',
  [EXP + 'kernelInterpretation.py', KEX + 'base.py'],
  [('base_factors_interpretation, first_term_interpretation, postmodifier_interpretation', EXP + 'kernelInterpretation.py'), ('get_interpretation', KEX + 'base.py')]),
P('C26', 'Predictions and printed reports are of the fitted model, as requested',
  'A prediction computes mean, covariance and the two requested quantiles at the given inputs with exactly the given options (covariance form, metadata, kernel, likelihood and its inclusion) and labels them correctly; the print-outs of models and of fits of plain kernels show the model\'s own expression, kernel, log-likelihood, name and value of its criterion and interpretation, and plot it once with the chosen library; neither changes the model.',
  ['inputs', 'histories'], 'For all inputs and every combination of options, given by position, by name or left out, for every fitted model.',
  'Tests never predict or only with default options, for which dropped or swapped arguments are invisible.',
  [MOD + 'model.py', UT + 'modelUtil.py'],
  [('predict, plot, change_plotting_library', MOD + 'model.py'), ('model_printout, fit_GPy_kern', UT + 'modelUtil.py')]),
P('C27', 'Calls do not influence later calls',
  'Expanding, building kernels, fitting, describing, scoring, searching, list functions and data makers give each time what they would give when called alone, whatever was called before (random restarts aside): default arguments, module tables, default models and class attributes keep nothing of earlier calls.',
  ['histories'], 'For every operation after every other operation and after itself.',
  'Each test calls a function once in an order of its own; state kept in default arguments, module tables or caches needs particular sequences of calls to show.',
  [EXP + 'grammar.py', EXP + 'kernelExpressionOperations.py', EXP + 'kernelInterpretation.py', MOD + 'model.py', MOD + 'modelSearch.py', KEX, KER],
  [('mutable default arguments (intersect_*_hole, GPModel)', EXP + 'kernelInterpretation.py'), ('module tables', EXP + 'grammar.py')],
  state=[('production_rules, start_kernels, base_kerns', 'exported tables', EXP + 'grammar.py'), ('kernel_expression default of GPModel', 'shared default expression', MOD + 'model.py')]),
P('C28', 'Searches start from the requested kernels and the documented defaults',
  'The first round of a search fits exactly the given start kernels - names of base kernels or expressions, mixed, all distinct - in their order, each as a simplified root expression of its own with the same covariance; anything else is refused before anything is fitted. Without settings a search has the documented defaults (start kernels and production rules named Default, BIC, 2 rounds, beam 3-2-1, 5 restarts, parallel fits, the first optimiser, one retry, messages). The exported collections of start kernels, production rules and optimisers hold what their names and descriptions say, under every flag combination.',
  ['inputs', 'configurations'], 'For all lists of start kernels (unsimplified, nested, parts of larger expressions, names), every wrong entry and position, every flag combination.',
  'Tests start from a few simplified expressions and pass most settings explicitly.',
  [EXP + 'grammar.py', MOD + 'modelSearch.py', UT + 'modelUtil.py', 'GPy_ABCD/__init__.py'],
  [('make_simple_kexs, pseudo_to_real_kex, start_kernels, production_rules', EXP + 'grammar.py'), ('explore_model_space', MOD + 'modelSearch.py')]),
P('C29', 'Plots show all of the data, functions and sampled curves they are given',
  'A plot of data or of a function is one line of the requested colour through all the given inputs and exactly their values; a plot of samples of a kernel shows the requested number of curves, each once and apart from the others, over the requested range, each a sample of mean zero and of the covariance of that kernel at the plotted inputs, for newly drawn parameters (one draw for all curves if the same kernel is requested, otherwise one each); samples of several kernels are saved once per kernel, under its name, in the given folder, with the given options.',
  ['inputs', 'configurations'], 'For all data (flat or columns), functions, kernels, ranges, numbers of curves, names and options, given by position, by name or left out.',
  'No test draws a plot; a dropped curve, a swapped option or a missing file is only seen by looking at the pictures.',
  [UT + 'dataAndPlottingUtil.py', UT + 'kernelUtil.py'],
  [('gg_plot, gg_f_plot', UT + 'dataAndPlottingUtil.py'), ('sampleCurves, saveKernelSamples', UT + 'kernelUtil.py')]),
P('C30', 'Benchmarks time every given implementation with its own arguments',
  'Timing a function calls it exactly as often as requested with exactly the given arguments and returns the time of each call; a comparison calls each function as often as requested with the shared or its own arguments, and its table has one row per function, by increasing mean time, with its mean times with and without the first call, their ratios to those of the best and of the preceding row, and its first three times; merging tables keeps every row with its own times and means, in one order by increasing mean with the ratios of that order, and leaves the tables as they were; the comparison of compiled versions compares exactly the requested ones, each made from the given function and signature; only a verbose comparison prints.',
  ['inputs', 'configurations'], 'For all functions, numbers of repetitions, arguments (none, positional, named, own) and orders of the times.',
  'The benchmarks are not tested; a mixed-up argument, a pause counted as time or a wrong ratio goes unnoticed.',
  [UT + 'benchmarking.py'], [('timethis, compare_implementations, numba_comparisons, merge_bench_tables', UT + 'benchmarking.py')]),
P('C20', 'Covariance matrices are positive semi-definite and fits find good optima',
  'Every kernel yields positive semi-definite covariances on any data, numerically stable fits, and searches find models of high likelihood.',
  ['inputs'], 'For all data sets and kernels.', 'Depends on floating-point linear algebra and the optimiser.',
  [KER, MOD + 'model.py'], [('kernels', KER)]),
P('C21', 'Parallel fits equal sequential fits and use the available cores',
  'Fitting a list of kernels in parallel processes gives bitwise the same models as fitting them one after another, without deadlock, on any platform.',
  ['schedules'], 'For all process schedules.', 'Schedules of the operating system and pseudo-random restarts are not controlled by tests.',
  [MOD + 'modelSearch.py'], [('fit_mods_parallel_processes', MOD + 'modelSearch.py')]),
]

NA = {
 'C20': 'quantifies over floating-point matrices, external linear algebra and the optimiser\'s trajectory; no sound static argument in reach bounds them (the algebraic identities behind it are claimed as C13 and C14)',
 'C21': 'process scheduling, pickling and the random restarts of the optimiser are runtime quantities outside the source of this repository; what is static in it (same arguments, same order, all results collected) is claimed in C06',
}

AI = 'abstract interpretation of the source (trace-partitioned, '
TECH = {
 'C01': AI + 'shape and multiplicity domains) with an effect analysis of the operands',
 'C02': AI + 'shape and multiplicity domains) of the expansion, structural invariants of the results',
 'C03': AI + 'shape and multiplicity domains) against a normal-form specification',
 'C04': AI + 'shape and multiplicity domains) of each operator and rule against its specification',
 'C05': AI + 'opaque scores ordered by a relational domain) of the search',
 'C06': 'provenance (taint) analysis of settings through the search by abstract interpretation of the source',
 'C07': 'typestate analysis of the retry loop by abstract interpretation with a nondeterministic fault domain',
 'C08': 'extraction of closed forms by abstract interpretation, compared as rational functions',
 'C09': 'typestate analysis of the model lifecycle by abstract interpretation with version-tagged values',
 'C10': AI + 'polyhedral domain of locations and widths) of the interval functions',
 'C11': AI + 'symbolic parameter provenance) of kernel construction and parameter matching',
 'C12': AI + 'rational-function domain) of the sum-of-products expansion, compared with the kernel tree',
 'C13': 'extraction of closed forms of generic array elements by abstract interpretation, formal differentiation, identity testing; memoisation-key dataflow lint',
 'C14': 'extraction of closed forms over opaque sides by abstract interpretation; freshness of linked parameters',
 'C15': 'abstract interpretation of module initialisation and table entries under every flag combination',
 'C16': 'non-interference analysis of the verbosity flag by abstract interpretation of the search',
 'C17': 'abstract interpretation of split and unsplit searches with effect analysis of the given lists',
 'C18': AI + 'shape and multiplicity domains) of the equality methods against multiset equality',
 'C19': AI + 'opaque elements with nondeterministic equalities) of the list functions',

 'C22': AI + 'shape and multiplicity domains) of queries and traversals against the contents, with an effect analysis',
 'C23': AI + 'shape domain, concrete strings) of the printing methods against an independent reader',
 'C25': AI + 'symbolic values, concrete text) of the description, read back into factors and values',
 'C26': 'provenance (taint) analysis of prediction options and printed values by abstract interpretation of the source',
 'C27': 'history analysis: abstract interpretation of call sequences with module state carried over, compared with calls in a fresh state',
 'C28': AI + 'concrete expressions, provenance of settings) of the start of a search and of the exported collections, compared with the documented defaults',
 'C30': AI + 'abstract clock with symbolic durations, polyhedral domain of their order) of the benchmarking helpers with recorded calls',
 'C29': 'provenance (taint) analysis of plotted columns, sampled curves and saved files by abstract interpretation of the source',
 'C24': 'extraction of closed forms over uninterpreted functions by abstract interpretation, partitioned on the order of inputs and locations, with a number-type domain',
}

NOTE = ('Every feasible partition of the abstract inputs within the stated shape bounds is analysed from the source of the current tree, with all scalar quantities symbolic; '
        'trusts the engine (sa/) and its summaries of numpy, paramz, GPy and the standard library. Anything the engine does not model is recorded as undecided in the evidence and never reported.')

def main():
    claimed = [p for p in PROPS if p['id'] not in NA and os.path.exists(os.path.join(HERE, 'sa', 'checks', p['id'].lower() + '.py'))]
    na = [{'property': k, 'reason': v} for k, v in NA.items()]
    na += [{'property': p['id'], 'reason': 'check under construction'} for p in PROPS if p not in claimed and p['id'] not in NA]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import sa.run"',
           'checks': [{'property': p['id'], 'quick_cmd': f"python3 -m sa.run {p['id']} --tier quick", 'thorough_cmd': f"python3 -m sa.run {p['id']} --tier thorough",
                       'technique': TECH[p['id']], 'level': 'other', 'level_note': NOTE} for p in claimed],
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
    for p in PROPS: assert len(p['title']) <= 80, p['id']

main()
