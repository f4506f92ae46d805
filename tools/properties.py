"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""

def anchors(files, *mechanism):
  return {'files': files,
          'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}

PROPERTIES = []
NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note=''):
  PROPERTIES.append({'id': id, 'title': title, 'statement': statement,
    'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
    'anchors': anchors(files, *mechanism), 'technique': technique, 'note': note})

prop('P01', 'Probability scales never change the probability represented',
  'Probabilities expressed on a linear scale with any coefficient, on a logarithmic scale, or on a '
  'logarithmic scale with any offset represent the same underlying probability: converting between scales, '
  'there and back or through a third scale, returns the probability. Products and quotients of '
  'probabilities held on different scales equal the product or quotient of the underlying probabilities, expressed on the '
  'requested (or documented default) scale. Logarithms of zero and exponentials of large or infinite logarithms never yield NaN or overflow.',
  ['inputs', 'configurations'],
  'For all probabilities (zero, tiny, large, scalar or array) and all combinations of two or more scales.',
  'tests/test_pscales.py converts a handful of values; the space of pairs of scales, requested '
  'result scales, logarithm flags and array shapes is unbounded and most pairs are never visited.',
  ['probayes/pscales.py'],
  [('scale conversion', 'pscales.py:eval_pscale, rescale, iscomplex'),
   ('product and division on scales', 'pscales.py:prod_pscale, prod_rule, div_prob'),
   ('safe log / exp', 'pscales.py:log_prob, logp_offset, exp_logp')],
  'round-trip and reference arithmetic over generated scales')

prop('P02', 'Multiplying distributions joins them cell by cell',
  'The product of distributions over compatible variables is the distribution over all of their variables whose probability '
  'for each combination of values is the product of the factors at those values, whatever the order of factors, axes or '
  'variables and whatever the scale of each factor. A variable conditioned upon by one factor and supplied by another becomes a marginal variable of the '
  'product, and the others keep their role. Factors that disagree about the values of a shared variable are refused.',
  ['inputs', 'configurations'],
  'For all sets of two or more factors P(A|C)P(B|A,C)..., array sizes, axis layouts, shared dimensions, scalar values and scales.',
  'tests multiply a few hand-written one and two dimensional distributions, in one order and mostly on one scale.',
  ['probayes/pd.py', 'probayes/pd_utils.py', 'probayes/pscales.py'],
  [('product', 'pd_utils.py:product; pd.py:PD.__mul__'), ('probability arithmetic', 'pscales.py:prod_rule')],
  'reference-model comparison of products of generated factors')

prop('P03', 'Marginalising is exact summation over the removed variables',
  'Removing marginal variables from a distribution gives the distribution over the remaining variables whose probability for '
  'each combination of values is the sum over all values of the removed ones, leaving conditions, value associations and scale '
  'intact. Asking for the marginals to keep and asking for those to remove are complementary, and removing variables in any order or all at once gives the same result.',
  ['inputs', 'configurations'],
  'For all distributions (axis layouts, shared dimensions, scalars, zeros, linear and log scales) and all choices of variables.',
  'tests marginalise a few fixed two or three variable distributions with keys in dimension order.',
  ['probayes/pd.py'],
  [('marginalise / marginal', 'pd.py:PD.marginalise, PD.marginal')],
  'reference-model comparison plus order-independence')

prop('P04', 'Conditioning, division and Bayes rule are exact',
  'Conditioning a distribution on some of its marginal variables gives probabilities that, for every combination of the conditioned '
  'values, are the joint ones divided by their marginal sum; dividing a distribution by one of its own marginals '
  'gives the same result, and multiplying the conditional by that marginal restores the joint. A posterior obtained by multiplying '
  'a prior with likelihoods and conditioning upon data equals the brute-force posterior, independently of the layout or scale of its factors.',
  ['inputs', 'configurations'],
  'For all joint or already conditional distributions, all subsets of variables conditioned upon, all layouts and scales of dividend and divisor.',
  'tests condition and divide a few fixed distributions with adjacent dimensions and one scale.',
  ['probayes/pd.py', 'probayes/pscales.py'],
  [('conditionalise', 'pd.py:PD.conditionalise'), ('division', 'pd.py:PD.__truediv__; pscales.py:div_prob'),
   ('product', 'pd_utils.py:product')],
  'reference-model comparison, chain-rule round trip, brute-force posterior')

prop('P05', 'Slicing, sorting, renaming and re-laying out keep value-probability pairs',
  'Selecting values of variables, sorting by any variable, renaming variables, rearranging dimensions and changing the '
  'scale of a distribution never alter which probability belongs to which combination of values. Selecting returns exactly the entries at the '
  'selected values (every occurrence where values repeat), and the original distribution is left unchanged.',
  ['inputs', 'configurations'],
  'For all distributions (shared dimensions, scalars, unsorted or repeated values, any key order, any scale), selections, sort directions, renamings and permutations.',
  'tests slice and sort a few fixed distributions whose values are already ordered and unique.',
  ['probayes/pd.py', 'probayes/distribution.py', 'probayes/pd_utils.py'],
  [('slicing', 'distribution.py:Distribution.__call__; pd.py:PD.__call__'), ('sorting', 'pd.py:PD.sorted'),
   ('relabel / relayout', 'pd.py:PD.rekey, PD.redim; distribution.py'), ('rescale', 'pd.py:PD.rescaled')],
  'reference-model comparison of selections and rearrangements')

prop('P06', 'Expectations, quantiles and products along axes are correct summaries',
  'The expectation of a variable (at any exponent) is the probability-weighted average over the normalised distribution, separately for each '
  'combination of conditions where there are any, regardless of scale. A quantile is a value at which that share of the probability mass '
  'has accumulated along the variable, to within one grid step, for ascending or descending grids. Multiplying probabilities along axes gives their exact product.',
  ['inputs', 'configurations'],
  'For all distributions on all scales, subsets of variables, exponents, quantile levels and grid directions.',
  'tests compare expectation and quantile for a single distribution and default levels.',
  ['probayes/pd.py', 'probayes/pd_utils.py'],
  [('expectation', 'pd.py:PD.expectation'), ('quantile', 'pd.py:PD.quantile'), ('product along axes', 'pd.py:PD.prod')],
  'reference summaries over generated distributions')

prop('P07', 'Change of variables conserves and correctly bins probability',
  'Re-expressing a distribution over new variables assigns the probability of every original combination of values to the '
  'bin of the new variables it falls into (that of the highest grid value not exceeding it, or the first or last bin if outside of the grid): total probability is conserved and each new bin holds exactly the sum of what was mapped to it, '
  'with conditions carried over unchanged.',
  ['inputs', 'configurations'],
  'For all distributions, ascending target grids and value mappings (inside, on the edges of, and outside of the grid).',
  'one test remarginalises one fixed distribution.',
  ['probayes/pd.py', 'probayes/pd_utils.py'],
  [('remarginalise', 'pd.py:PD.remarginalise')],
  'brute-force rebinning oracle')

prop('P08', 'A distribution pairs every probability with one combination of values',
  'Every constructed distribution has one probability for each combination of the values of its variables, with sizes, dimensions, names and '
  'marginal or conditional roles that agree with one another and with what was specified. A specification in '
  'which values, dimensions and probabilities cannot be paired up that way is refused rather than silently accepted.',
  ['inputs', 'configurations'],
  'For all specifications of names, values, dimensions and probabilities, consistent or with an injected inconsistency.',
  'tests construct a few consistent distributions and never an inconsistent one.',
  ['probayes/distribution.py', 'probayes/pd.py', 'probayes/pd_utils.py', 'probayes/dependence.py', 'probayes/named_dict.py'],
  [('dimension bookkeeping', 'distribution.py:Distribution._eval_vals, dims'), ('name parsing', 'pd_utils.py:str_margcond'),
   ('shape check', 'pd.py:PD.set_prob')],
  'invariants and rejection of generated inconsistencies')

prop('P09', 'Collecting samples keeps every sample with its own probability',
  'Summing distributions of single points gives one distribution holding every point, in order, paired with its own probability and on the same scale, '
  'with conditions and joint names unchanged. Distributions of different variables, roles or scales are not mixed.',
  ['inputs', 'histories'],
  'For all sequences of one or more single-point distributions over the same variables, summed at once or pairwise.',
  'tests collect samples from two samplers and check sizes only.',
  ['probayes/pd_utils.py', 'probayes/pd.py'],
  [('summation', 'pd_utils.py:summate; pd.py:PD.__add__'), ('iteration of dictionaries', 'pd_utils.py:iterdict')],
  'reference concatenation of generated samples')

prop('P10', 'Saved distributions are restored exactly as they were',
  'Serialising distributions (with any auxiliary data) in memory or to a file and reading them back yields, in the order '
  'written, equal names, roles, values, dimensions, scale and probabilities. Saving leaves the distributions saved unchanged.',
  ['inputs', 'histories'],
  'For all collections of distributions, scales, conditions, shared dimensions and auxiliary arrays.',
  'one test saves and restores one pair of distributions.',
  ['probayes/pd_utils.py', 'probayes/pd.py'],
  [('serialise', 'pd_utils.py:serialise, read_serialised, write_serialised')],
  'round trip through memory and scratch files')

prop('P11', 'Chains of inference steps agree with the reference at every step',
  'Any sequence of marginalising, conditioning, multiplying, dividing, selecting, sorting, renaming, re-laying out, rescaling and saving/restoring '
  'steps, starting from any joint distribution, gives after every step the distribution that elementary arithmetic on a table of probabilities gives. The result does '
  'not depend on whether the steps are carried out on linear, logarithmic or mixed scales.',
  ['histories', 'inputs'],
  'For all joint distributions and all sequences of applicable steps.',
  'tests apply one or two operations to a fresh distribution; defects left behind in dimensions or roles only show in a later step.',
  ['probayes/pd.py', 'probayes/pd_utils.py', 'probayes/distribution.py', 'probayes/pscales.py'],
  [('all operations', 'pd.py:PD'), ('product', 'pd_utils.py:product')],
  'model-based histories against a reference table')

prop('P12', 'Variables produce only, and all of, the values they were declared with',
  'Asked for a number of values, a variable (alone or in a field, with or without a change of variables) gives exactly that many, evenly spaced or uniformly random over its '
  'declared set, with closed limits included and open limits excluded, and values passed explicitly are returned as they are. Membership, limits and length '
  'agree with the declared set and with its latest redefinition. Each variable of a field varies along its own dimension in the order declared, unless specified jointly.',
  ['inputs', 'histories', 'configurations'],
  'For all float, integer and boolean sets, open or closed limits, invertible transformations, counts, specifications of values and redefinitions.',
  'tests evaluate a few closed float intervals and the default boolean and integer sets.',
  ['probayes/variable.py', 'probayes/variable_utils.py', 'probayes/vtypes.py', 'probayes/field.py'],
  [('evaluation', 'variable.py:Variable.evaluate; vtypes.py:uniform'), ('limits', 'variable.py:Variable._eval_ulims'),
   ('fields', 'field.py:Field.evaluate')],
  'reference model of sets and grids')

prop('P13', 'Deltas move values by the amount specified and never out of bounds',
  'Applying a delta to a variable or field moves each value by exactly the delta specified (in the transformed space if there is one), leaving variables without '
  'a delta alone. Randomised deltas stay within their declared size and reach all of it. With bounds enforced, no sequence of moves ever leaves the declared set: '
  'a move beyond a closed limit ends there, and one to or beyond an open limit is not made.',
  ['inputs', 'histories'],
  'For all variables and fields, fixed, random, spherical and callable deltas, starting values and lengths of walk.',
  'tests take a few single steps without limits; bounded walks fail only near limits.',
  ['probayes/variable.py', 'probayes/field.py'],
  [('deltas', 'variable.py:Variable.eval_delta, apply_delta'), ('field deltas', 'field.py:Field.eval_delta, apply_delta')],
  'reference moves and invariants over random walks')

prop('P14', 'Random variables assign the probability they were declared with',
  'A random variable gives each value of its set the probability declared for it: uniform by default (density one over the size of the interval in the transformed space, with the Jacobian of a change of variables), '
  'p and 1-p if Bernoulli, the tabulated probability if tabulated, and the value of the function if callable; on every linear or log scale, and zero for values outside the set. The '
  'probabilities of a discrete set sum to one. Redefining the set, transformation, scale or probability leaves no trace of the earlier definition.',
  ['inputs', 'histories', 'configurations'],
  'For all discrete and continuous sets, transformations, probability declarations, scales, values evaluated and sequences of redefinition.',
  'tests evaluate a handful of random variables that are each declared once, on linear scale.',
  ['probayes/rv.py', 'probayes/prob.py', 'probayes/rv_utils.py'],
  [('default probabilities', 'rv.py:RV._default_prob, RV.set_prob'), ('evaluation', 'rv.py:RV.eval_prob, RV.evaluate; prob.py:Prob.eval_prob'),
   ('uniform and Bernoulli', 'rv_utils.py:uniform_prob, lookup_array; sympy_prob.py:bernoulli_prob')],
  'reference probabilities over generated declarations')

prop('P15', 'Distributions from SciPy and SymPy are evaluated and sampled faithfully',
  'A random variable declared with a SciPy or SymPy distribution has at every value the density or mass of that distribution, on the scale asked for. Values asked for by number are quantiles of the '
  'distribution or random samples from it: they lie within its support, their number is that requested, and their cumulative frequencies agree with the CDF. Any parameters passed are those used.',
  ['inputs', 'configurations'],
  'For all families in a range of SciPy continuous and discrete and SymPy distributions, their parameters, values, counts and log or linear scales.',
  'tests use the standard normal and a very few other fixed distributions at a few values.',
  ['probayes/prob.py', 'probayes/sympy_prob.py', 'probayes/rv.py'],
  [('SciPy', 'prob.py:Prob.set_prob, Prob.eval_prob'), ('SymPy', 'sympy_prob.py:sympy_obj_from_dist, sympy_sfun'), ('sampling', 'rv.py:RV.evaluate')],
  'differential testing against SciPy and quantile laws')

prop('P16', 'Transitions of a random variable follow the transition probabilities declared',
  'The conditional probability of a successor given a predecessor is that of the transition matrix, transition function or delta declared, on every scale, for single values and for whole arrays. '
  'Sampled successors belong to the declared set, never have zero probability, follow the declared frequencies, and are reported with the probability of the transition made. '
  'Each step of a chain starts from the value given.',
  ['inputs', 'histories', 'configurations'],
  'For all stochastic matrices (zeros, deterministic rows), transition functions with inverse cumulative functions, scales, predecessors, numbers of successors and lengths of chain.',
  'tests and examples take steps with one small matrix and one walk and assert almost nothing about them.',
  ['probayes/rv.py', 'probayes/rv_utils.py', 'probayes/cf.py'],
  [('transition matrices', 'rv_utils.py:matrix_cond_sample, lookup_square_matrix'), ('steps', 'rv.py:RV.step, RV.eval_step, RV.eval_tran')],
  'reference transition matrices and frequencies')

prop('P17', 'Joint probabilities of random fields',
  'A random field gives every combination of values of its variables the joint probability declared: the product of the probabilities of its variables if none is declared, or else that of '
  'the joint function, table, number or multivariate normal, whatever the order of values and variables, the dimensions they occupy or share, and the scales of each. With independent and identically distributed observations the '
  'probability is the product over observations; proposals carry the proposition probability. A field follows the current definition of its variables.',
  ['inputs', 'configurations', 'histories'],
  'For all fields of one to four variables of any type, joint probability declarations, scales, value specifications and redefinitions.',
  'tests do not evaluate fields at all; examples evaluate a few and assert nothing.',
  ['probayes/rf.py', 'probayes/rf_utils.py', 'probayes/field.py', 'probayes/prob.py', 'probayes/rv_utils.py'],
  [('joint probability', 'rf.py:RF.eval_prob, RF.__call__; rf_utils.py:rv_prod_rule'), ('iid', 'rf.py:RF._eval_iid; pd.py:PD.prod'),
   ('multivariate', 'prob.py:Prob.eval_prob'), ('proposals', 'rf.py:RF.propose')],
  'reference-model comparison over generated fields')

prop('P18', 'Steps of random fields: transition functions, covarying deltas and conditional sampling',
  'A step of a random field goes from the predecessor given to the successor specified, displaced by the delta declared, or sampled from the conditional distributions declared; '
  'variables not stepped keep their values. The probability reported is that of the transition function at the predecessor and successor, on any scale, and successors sampled from a '
  'multivariate normal one variable at a time (Gibbs sampling) stay within the limits declared and follow its conditional distributions.',
  ['inputs', 'histories', 'configurations'],
  'For all fields of two to four variables, predecessors, transition functions and argument orders, covariances, limits, orders of variables and numbers of variables stepped at a time.',
  'tests run a few chains with one function or covariance each and assert nothing about the steps made.',
  ['probayes/rf.py', 'probayes/rf_utils.py', 'probayes/cond_cov.py', 'probayes/cf.py', 'probayes/field.py'],
  [('steps', 'rf.py:RF.step, RF.eval_step, RF.eval_tran'), ('covarying deltas', 'rf.py:RF.eval_step, set_delta; field.py'),
   ('conditional sampling', 'cond_cov.py:CondCov; rf_utils.py:sample_cond_cov')],
  'reference transition and conditional distributions')

prop('P19', 'Dependences: conditional and joint probabilities, and exact inference',
  'Declaring that variables depend upon others makes every leaf dependent upon every root in the order declared, without altering what was joined. The probability of a dependence is the conditional '
  'probability declared for leafs given roots, at every combination of values and on every scale; its joint is that multiplied by the probabilities of the roots; parallel dependences '
  'multiply. The posterior given independent observations is the normalised product of prior and likelihoods whichever way it is computed.',
  ['inputs', 'configurations'],
  'For all dependences of one to three leafs upon one to three roots (variables of any type), ways of declaring them, conditional tables and functions, scales, value specifications and observations.',
  'examples compute a few conditional and posterior distributions and assert almost nothing about them.',
  ['probayes/sd.py', 'probayes/sd_utils.py', 'probayes/dependence.py', 'probayes/rf.py', 'probayes/pd_utils.py'],
  [('graph', 'dependence.py:Dependence.def_deps, _refresh; rv.py, rf.py:__or__, __and__'), ('conditional and joint', 'sd.py:SD.__call__, set_prob'),
   ('parallel', 'sd_utils.py:arch_prob'), ('inference', 'pd_utils.py:product; pd.py:PD.conditionalise; rf.py:RF._eval_iid')],
  'reference tables and brute-force inference')

prop('P20', 'Samplers: every history of a stochastic process is a valid chain',
  'Each sample proposes from the state last accepted, carries the proposal probability, the probability of the state proposed, and its score (the ratio of probabilities for Metropolis and Hastings, capped at one), '
  'and is accepted if and only if its score reaches a threshold uniformly distributed (always for Gibbs); the verdict is the current state. A sampler makes exactly the number of samples '
  'asked for however it is consumed, samplers do not affect one another, and summaries list the samples in order, excluding those explicitly rejected.',
  ['histories', 'inputs', 'configurations'],
  'For all sequences of samples, targets, scales, proposals, acceptance rules, data, and interleavings of several samplers.',
  'examples run a few long chains and plot them; wrong scores or states go unnoticed.',
  ['probayes/sp.py', 'probayes/sp_utils.py', 'probayes/sd.py', 'probayes/rf.py', 'probayes/pd_utils.py'],
  [('samplers', 'sp.py:SP.next, sampler, walk; sp_utils.py:sample_generator'), ('scores', 'sp_utils.py:metropolis_scores, hastings_scores'),
   ('samples', 'sd.py:SD.sample, _sample_prop, _sample_tran'), ('summaries', 'sp.py:SP.__call__; pd_utils.py:summate')],
  'model-based checking of interleaved histories')

prop('P21', 'Expressions: one calling interface for constants, functions and symbols',
  'An expression gives the value of what it holds - a constant, a function with its preset arguments, each of a tuple or dictionary of them, or a symbolic formula at scalars or broadcast arrays - '
  'whether its arguments are passed by position, keyword, dictionary or symbol, and without altering them. Order specifications move or rename arguments and delta specifications pass differences, exactly as '
  'declared. Inverses undo invertible formulas and derivatives are their slopes. Each function of a functional is given its own inputs, and refused specifications leave no trace.',
  ['inputs', 'configurations'],
  'For all constants, functions, formulas, numbers of them, preset and given arguments, order and delta mappings, calling styles, and values.',
  'tests evaluate a few fixed functions at one value, and never with preset arguments, mappings, several symbols or arrays.',
  ['probayes/expression.py', 'probayes/expr.py', 'probayes/functional.py', 'probayes/functional_utils.py', 'probayes/icon.py', 'probayes/variable_utils.py'],
  [('calls', 'expression.py:Expression._call, _set_partials, __getitem__'), ('mappings', 'expression.py:Expression.set_order, set_delta'),
   ('symbols', 'expr.py:Expr.__call__, simplify'), ('functionals', 'functional.py:Functional.add_func')],
  'recording functions and an independent evaluator of formulas')

prop('P22', 'Frequencies counted from observations are exact and usable as probabilities',
  'Counting observations of binary variables gives for every combination of values the number of observations of it (plus any baseline), and relative frequencies are those counts normalised. Used as the probability of '
  'a field or dependence they are returned for exactly the combination of values asked for, and marginal and conditional probabilities obtained from them equal those counted directly. '
  'Integers and their binary representations convert both ways, and slicing tabulated probabilities by value gives the entries at those values.',
  ['inputs', 'configurations'],
  'For all tables of observations, numbers of variables, baselines, and specifications of values of some, all or none of the variables.',
  'one example counts random data without asserting anything about the result.',
  ['probayes/likelihoods.py', 'probayes/rf_utils.py', 'probayes/rf.py', 'probayes/field.py'],
  [('counting', 'likelihoods.py:bool_perm_freq'), ('lookup', 'rf_utils.py:slice_by_keyvals; rf.py:RF.eval_prob (passdims)'), ('binary', 'likelihoods.py:int_to_bin, bin_to_int')],
  'direct counting')
