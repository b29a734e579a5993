"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'LinearResponseVariationalBayes/'

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), bounds_note=''):
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={
            'files': [P + f for f in files],
            'state': [dict(name=n, meaning=m, where=P + w)
                      for n, m, w in state],
            'mechanism': [dict(name=n, where=P + w) for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None}))
    NOTES[pid] = bounds_note


NOTES = {}

prop('C01', 'Parameter dictionaries pack and unpack their parts consistently',
     'A dictionary of parameters, nested to any depth, is packed into one free '
     'and one vector representation made of those of its parts in the order '
     'in which they were added. The sizes and the index ranges that it reports '
     'partition these representations, one contiguous range per part, and '
     'setting a part (directly, by its entry in the values, through the free '
     'or the vector representation, or by replacing it by a new part of the '
     'same name) changes what belongs to that part and nothing else. This '
     'stays true after every history of such operations, also when parts are '
     'added or replaced after the dictionary was put into another one.',
     ['programs', 'histories'],
     'All dictionaries and nestings of the parameter types of the package, all '
     'sequences of adding, replacing and setting parts, all values.',
     'The tests build one or two fixed dictionaries and set them once; layout '
     'errors need particular orders, nestings, sizes or a later push.',
     ['ParameterDictionary.py', 'Parameters.py'],
     [('push_param, index dictionaries, set_free/get_free/set_vector/'
       'get_vector', 'ParameterDictionary.py:ModelParamsDict'),
      ('slicing by offset', 'Parameters.py:set_free_offset, '
       'set_vector_offset'),
      ('values[...]', 'ParameterDictionary.py:ModelParamsDictValues')],
     [('param_dict', 'ordered parts of the dictionary',
       'ParameterDictionary.py:ModelParamsDict')],
     ['get_free, get_vector, get, dictval, free_size, vector_size, '
      'free_indices_dict, vector_indices_dict'])

prop('C02', 'Free values and constrained values correspond one to one',
     'Setting any unconstrained free value gives a parameter value inside the '
     'declared constraints (bounds, positive definite with the declared bound '
     'on the eigenvalues, rows summing to one, perpendicular to the given '
     'rows) and reading the free value back returns it; setting a value inside '
     'the constraints, reading its free value and setting that returns the '
     'value. The transforms are the documented log, scaled logit, log-Cholesky '
     'by rows and multinomial logit with the first category as reference. '
     'Default values lie strictly inside the constraints, values outside the '
     'bounds have no free representation (ValueError), and empty bounds are '
     'refused.',
     ['inputs', 'configurations'],
     'All parameter types, all bounds, shapes, sizes and perpendicular spaces; '
     'all free values for which doubles can represent the result (size up to '
     'a few units for the round trip, up to hundreds for validity of scalar, '
     'vector, array and simplex types, up to 30 for matrices).',
     'The tests try one or two values per type with one set of bounds; a wrong '
     'transform for a particular bound, shape or sign passes them.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ProjectionParams.py', 'NormalParams.py', 'GammaParams.py',
      'WishartParams.py', 'DirichletParams.py'],
     [('constrain, unconstrain, get_inbounds_value', 'Parameters.py'),
      ('pack_posdef_matrix, unpack_posdef_matrix', 'MatrixParameters.py'),
      ('constrain_simplex_matrix, unconstrain_simplex_matrix',
       'SimplexParams.py'),
      ('get_perpendicular_subspace', 'ProjectionParams.py')],
     observe=['set_free, get_free, set, get, set_vector, get_vector'])

prop('C03', 'Sparse derivatives of the free to vector transforms are exact',
     'For every parameter and every dictionary of parameters, the sparse '
     'Jacobian and the list of sparse Hessians (one per vector entry, in '
     'vector order) of the map from the free to the vector representation are '
     'the derivatives of that map at the given point. Asking for them does not '
     'change the value of the parameter, and the answers depend on the given '
     'point only, not on the current value or on earlier calls.',
     ['inputs', 'configurations', 'histories'],
     'All parameter types, bounds, shapes and nestings; all free points of '
     'moderate size; all interleavings of derivative calls and setters.',
     'The tests compare with autograd at one random point per type and a few '
     'shapes, with the same library code on both sides for some types.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ProjectionParams.py', 'ParameterDictionary.py'],
     [('free_to_vector_jac / free_to_vector_hess of every type',
       'Parameters.py, MatrixParameters.py, SimplexParams.py, '
       'ProjectionParams.py'),
      ('block assembly', 'ParameterDictionary.py:ModelParamsDict, '
       'Parameters.py:offset_sparse_matrix')],
     observe=['free_to_vector_jac, free_to_vector_hess'])

prop('C04', 'Vector Hessians convert exactly to free Hessians',
     'Given the gradient and the Hessian of a function with respect to the '
     'vector representation, dense or sparse, the conversion returns the exact '
     'Hessian of the function with respect to the free representation at the '
     'given free value, including the curvature of the transforms. The '
     'arguments are not modified and the parameter afterwards holds numbers, '
     'its value at the given free value.',
     ['inputs', 'configurations'],
     'All parameters and dictionaries, all free points, all gradients and all '
     'symmetric Hessians, dense or in any scipy sparse format.',
     'The tests use one model with one dense Hessian; a missing curvature '
     'term or a wrong offset for some types or positions passes.',
     ['Parameters.py', 'ParameterDictionary.py'],
     [('convert_vector_to_free_hessian', 'Parameters.py')],
     observe=['convert_vector_to_free_hessian'])

prop('C05', 'Evaluating derivatives leaves parameters numeric and in place',
     'After any evaluation, plain or differentiated, through an objective, a '
     'two-parameter objective or a parameter converter, every parameter '
     'involved holds ordinary numbers: the evaluated parameters hold the point '
     'of evaluation, and the output parameter of a converter is as it was '
     'before a Jacobian was taken. What an evaluation returns depends on its '
     'arguments only and not on the history of earlier evaluations, and the '
     'arguments are not modified. An exception raised by the function reaches '
     'the caller, and evaluations after it are not affected by it.',
     ['histories', 'programs', 'fault_sequences'],
     'All sequences of evaluations (value, gradient, Hessian, Jacobian, '
     'Hessian-vector product, conditioned versions, cross derivatives, '
     'conversions) at any points, for all parameter types.',
     'The tests call each derivative once from a fresh object; leftovers of a '
     'differentiation show only in what is called next.',
     ['SparseObjectives.py', 'Parameters.py', 'MatrixParameters.py'],
     [('cache_free_and_eval, cache_vector_and_eval, cache_and_eval',
       'SparseObjectives.py:Objective, ParameterConverter, '
       'TwoParameterObjective')],
     [('par', 'the parameter that the user function reads',
       'SparseObjectives.py:Objective')],
     ['get, get_free, get_vector of all parameters after each call'])

prop('C06', 'Objective values and derivatives are exact in both representations',
     'An objective evaluates the given function at the given free or vector '
     'value, and its gradient, Jacobian, Hessian and Hessian-vector product '
     'are the derivatives of that function composed with the representation, '
     'for scalar and, where it applies, array valued functions. Positional and '
     'keyword arguments reach the function unchanged in every one of them.',
     ['inputs', 'programs', 'configurations'],
     'All parameters and dictionaries, smooth functions of their values, all '
     'points and directions, all extra positional and keyword arguments.',
     'The tests use one small model and compare with autograd on few points.',
     ['SparseObjectives.py'],
     [('fun_free*, fun_vector*', 'SparseObjectives.py:Objective')],
     observe=['fun_free, fun_free_grad, fun_free_hessian, fun_free_jacobian, '
              'fun_free_hvp and the vector versions'])

prop('C07', 'A preconditioned objective is the objective reparameterized',
     'With a preconditioner A the conditioned value, gradient, Hessian and '
     'Hessian-vector product at x are those of the map x -> f(A x), and '
     'unconditioning x gives A x, for dense and sparse A, symmetric or not. '
     'They follow the current preconditioner when it is changed between '
     'evaluations, and are refused while none is set.',
     ['inputs', 'configurations', 'histories'],
     'All invertible preconditioners, dense or in any scipy sparse format, all '
     'points, directions and extra arguments, all sequences of evaluations and '
     'changes of the preconditioner.',
     'The tests use one preconditioner at one point.',
     ['SparseObjectives.py'],
     [('fun_free_cond, fun_free_grad_cond, fun_free_hessian_cond, '
       'fun_free_hvp_cond, uncondition_x', 'SparseObjectives.py:Objective')],
     [('preconditioner', 'the current A', 'SparseObjectives.py:Objective')],
     ['the conditioned methods'])

prop('C08', 'Cross derivatives of two parameters are exact and oriented',
     'For a function of two parameters, each cross Hessian has the rows and '
     'columns of the parameters that its name says and equals the mixed second '
     'derivative at the given pair of values, in every combination of free and '
     'vector representation on offer; the gradients with respect to either '
     'parameter and the values are those of the function. Extra arguments '
     'reach the function unchanged.',
     ['inputs', 'configurations', 'histories'],
     'All pairs of parameters (of equal and different sizes), all four '
     'representation choices, all points, and all orders of evaluation.',
     'The tests use one pair at one point; a transpose or a wrong flag can '
     'hide behind equal sizes or symmetric functions.',
     ['SparseObjectives.py'],
     [('fun_grad1, fun_grad2, fun_free_hessian12, ... ',
       'SparseObjectives.py:TwoParameterObjective')],
     observe=['TwoParameterObjective methods'])

prop('C09', 'Parameter converters give exact Jacobians and values',
     'A converter from one parameter to another returns the converted value '
     'and the Jacobian of the conversion in each of the four combinations of '
     'free and vector representation of its input and output. Taking a '
     'Jacobian leaves the output parameter as it was.',
     ['inputs', 'configurations', 'histories'],
     'All pairs of input and output parameters, smooth conversions, all '
     'points, all orders of calls.',
     'The tests use one conversion at one point.',
     ['SparseObjectives.py'],
     [('converter_*, *_jacobian', 'SparseObjectives.py:ParameterConverter')],
     observe=['ParameterConverter methods'])

prop('C10', 'Linear sensitivity is the derivative of the optimum',
     'At an optimum, the reported sensitivity of the optimal parameter to the '
     'hyperparameters is the derivative given by the implicit function '
     'theorem, in the representation (free or vector) chosen for each, and the '
     'linear predictions of the parameter and of derived quantities are the '
     'first order expansion around the optimum. A supplied Hessian is used in '
     'place of a computed one, a partial objective which contains the whole '
     'dependence on the hyperparameter gives the same result, and after '
     'moving to new base values everything refers to those.',
     ['inputs', 'configurations', 'histories'],
     'All smooth objectives with positive definite Hessian at the optimum, all '
     'parameter types, all combinations of free and vector representations, '
     'all hyperparameter values, all sequences of predictions and changes of '
     'the base point.',
     'The tests check a quadratic and one model with the default flags.',
     ['ModelSensitivity.py', 'SparseObjectives.py'],
     [('ParametricSensitivityLinearApproximation', 'ModelSensitivity.py'),
      ('ParametricSensitivity', 'SparseObjectives.py')],
     [('base values, Hessian and its factorization', 'the optimum in use',
       'ModelSensitivity.py')],
     ['get_dinput_dhyper, get_doutput_dhyper, predict_*'])

prop('C11', 'Taylor expansions of the optimum are exact to every order',
     'The k-th directional derivative of the optimum with respect to the '
     'hyperparameter equals the k-th derivative of the implicitly defined '
     'optimum for every k up to the declared order, and the Taylor series to '
     'order m is the offset (unless it is not wanted) plus the sum of these '
     'derivatives over k factorial up to m. This also holds with a partial '
     'objective that contains the whole dependence on the hyperparameter, with '
     'a supplied Hessian, in either representation, and after the order or the '
     'base values were changed; orders out of range are refused and the '
     'parameters are left at the base values.',
     ['inputs', 'configurations', 'histories'],
     'All smooth objectives at an optimum, all directions, orders, '
     'combinations of representations, and sequences of evaluations and '
     'changes of order and base values.',
     'The tests stop at low orders for a few models; combinatorial prefactors '
     'show only at higher orders or with several dimensions.',
     ['ModelSensitivity.py'],
     [('ParametricSensitivityTaylorExpansion', 'ModelSensitivity.py'),
      ('DerivativeTerm.differentiate, consolidate_terms',
       'ModelSensitivity.py')],
     [('order, base values, Hessian', 'the expansion in use',
       'ModelSensitivity.py:ParametricSensitivityTaylorExpansion')],
     ['evaluate_dkinput_dhyperk, evaluate_taylor_series'])

prop('C12', 'The algebra of derivative terms follows the chain rule',
     'Repeatedly appending Jacobian-vector products yields the mixed '
     'directional derivatives of a function in the order of the given vectors. '
     'Differentiating a derivative term along the hyperparameter yields terms '
     'whose total is the derivative of the total, with the multiplicities of '
     'the multivariate chain rule at every order. Consolidating terms keeps '
     'their total and leaves exactly one term per pattern of derivatives, and '
     'none of these operations modifies its arguments. An expansion lists the '
     'terms of exactly the orders asked for, and refuses an order above its '
     'own.',
     ['inputs', 'programs'],
     'All functions of two vectors with enough derivatives, all orders, all '
     'lists and orders of terms, all directions.',
     'The tests look at orders one and two on one function.',
     ['ModelSensitivity.py'],
     [('append_jvp, generate_two_term_derivative_array, DerivativeTerm, '
       'consolidate_terms, evaluate_terms, get_taylor_base_terms, '
       'differentiate_terms', 'ModelSensitivity.py')],
     observe=['values of the derivative functions and terms'])

prop('C13', 'Distribution parameters report the moments of their distribution',
     'The normal, multivariate normal, gamma, Wishart and Dirichlet parameter '
     'objects (single, vector, array and moment versions) report the '
     'expectations, variances, log expectations, lognormal moments and '
     'entropies of the distribution with the current parameter values, in the '
     'shape of the parameter, and follow every change of the value. These '
     'quantities are differentiable with the right derivatives, and asking '
     'for them changes nothing.',
     ['inputs', 'configurations', 'histories'],
     'All shapes and sizes, all parameter values inside the constraints (and, '
     'for the expected inverse of a Wishart matrix, enough degrees of '
     'freedom), all sequences of setting and asking.',
     'The tests check some of the moments at one value by simulation, with '
     'wide tolerances.',
     ['NormalParams.py', 'GammaParams.py', 'WishartParams.py',
      'DirichletParams.py', 'ExponentialFamilies.py'],
     [('e, e_outer, cov, var, e_log, e_inv, e_log_det, entropy, ...',
       'NormalParams.py, GammaParams.py, WishartParams.py, '
       'DirichletParams.py')],
     observe=['the methods of the parameter objects'])

prop('C14', 'Entropies, expectations and priors match their closed forms',
     'The functions for entropies, expectations of sufficient statistics, '
     'multivariate gamma functions, natural parameter conversions and expected '
     'log prior densities return the closed form values of the named '
     'distributions (priors up to a constant not depending on the variational '
     'parameters), with the summation over observations that they document. '
     'They are differentiable with the right derivatives and do not modify '
     'their arguments.',
     ['inputs'],
     'All sizes and shapes, all valid parameter values of moderate size.',
     'The tests compare with scipy or simulation at one or two values.',
     ['ExponentialFamilies.py'],
     [('*_entropy, get_e_*, e_log_*, *_prior, multivariate_*',
       'ExponentialFamilies.py')],
     observe=['return values and derivatives'])

prop('C15', 'Numerical integration helpers integrate what they say',
     'Expectations under arrays of normals by Gauss-Hermite quadrature are '
     'exact for polynomials up to the degree of the rule and equal the '
     'quadrature sum for every function, entry by entry in the shape of the '
     'parameters; the logit-normal, Dirichlet process prior and logistic '
     'expectations equal the corresponding sums over nodes or standard draws, '
     'without overflow for the log of a logit-normal variable. Standard draws '
     'are equally spaced normal quantiles, and the univariate normal log '
     'density is the log density.',
     ['inputs', 'configurations'],
     'All shapes, means, variances, numbers of nodes or draws; moderate '
     'values, and far tails for the log of a logit-normal variable.',
     'The tests check a few averages by simulation with wide tolerances.',
     ['ExponentialFamilies.py', 'Modeling.py'],
     [('get_e_fun_normal, get_e_logitnormal, get_e_log_logitnormal, '
       'get_e_dp_prior_logitnorm_approx', 'ExponentialFamilies.py'),
      ('get_e_logistic_term, get_e_logistic_term_guass_hermite, '
       'get_standard_draws, univariate_normal_log_prob', 'Modeling.py')],
     observe=['return values'])

prop('C16', 'Regression updates equal the conjugate posterior',
     'Natural parameters from the likelihood and from the prior, their '
     'conversion to mean and information, the regression coefficients and the '
     'posterior agree with Gaussian conjugate regression for every batch shape '
     'of observations and regressors, with scalar or matrix information. '
     'Observations that share regressors are summed over, batches do not '
     'influence each other, and updating with data in several portions gives '
     'the same posterior as all at once. The results are differentiable with '
     'the right derivatives.',
     ['inputs', 'configurations'],
     'All numbers of observations, regressors and batch dimensions (the '
     'observations may have more batch dimensions than the regressors), '
     'scalar or per-batch matrix information, all well conditioned data.',
     'The tests use random data in a handful of shapes.',
     ['regression_utils.py'],
     [('mat_mul_last2dims, matvec_mul_last2dims, get_nat_params_from_*, '
       'get_mvn_from_nat_params, get_posterior_regression_coefficients',
       'regression_utils.py')],
     observe=['return values'])

prop('C17', 'Minimizers return the optimum in the original coordinates',
     'Minimizing an objective with either optimizer returns the minimizer in '
     'the original, unconditioned free coordinates, whatever the '
     'preconditioner (none, dense, sparse, not symmetric) and the start, '
     'together with the optimizer\'s own result in the coordinates it used. '
     'The start value refers to the original coordinates, limits on the '
     'iterations are obeyed, and the log starts anew only when asked to.',
     ['inputs', 'configurations', 'histories'],
     'Smooth objectives with one minimum, all starting points near enough to '
     'converge, all invertible preconditioners, all option values and '
     'sequences of minimizations of one objective.',
     'The tests run one model with one preconditioner.',
     ['OptimizationUtils.py', 'SparseObjectives.py'],
     [('minimize_objective_trust_ncg, minimize_objective_bfgs',
       'OptimizationUtils.py')],
     observe=['the returned optimum and result, the logger'])

prop('C18', 'Repeated optimization stops when and only when it should',
     'Repeated optimization calls the optimizer from the last point until the '
     'last change of the point (sum of absolute values), the last change of '
     'the value or the gradient (sum of absolute values) is less than its '
     'tolerance, or the iterations are used up, and reports the last point and '
     'result and a truthful flag for each, whatever the optimizer answers. An '
     'initial optimizer runs once, first, and its answer is the starting '
     'point; intermediate results are kept, in order, exactly when asked for.',
     ['histories', 'fault_sequences', 'configurations'],
     'All sequences of answers of the optimizer (moves of any size, in any '
     'direction, equal values, zero gradients, no move), all tolerances and '
     'iteration limits of at least one, with and without initial optimizer.',
     'The tests run one converging problem.',
     ['OptimizationUtils.py'],
     [('repeatedly_optimize', 'OptimizationUtils.py')],
     observe=['return values and the sequence of optimizer calls'])

prop('C19', 'The matrix inverse square root inverts the corrected matrix',
     'For a matrix, symmetrized first, with its eigenvalues raised to the '
     'minimum and lowered to the maximum where these are given and kept '
     'otherwise, the function returns that corrected matrix and its symmetric '
     'inverse square root. Setting the preconditioner of an objective from a '
     'Hessian, or from the Hessian at a given point, installs exactly this '
     'inverse square root (a given Hessian takes precedence over a point), '
     'returns the Hessian, root and corrected matrix, and is refused when '
     'neither is given; arguments are not modified.',
     ['inputs', 'configurations'],
     'All matrices whose corrected eigenvalues are positive, all limits.',
     'The tests use one matrix and check some of the eigenvalues.',
     ['OptimizationUtils.py'],
     [('get_sym_matrix_inv_sqrt, set_objective_preconditioner',
       'OptimizationUtils.py')],
     observe=['return values, objective.preconditioner'])

prop('C20', 'Conjugate gradient masks partition and solves accumulate',
     'The masks made for a vector are disjoint, cover it in order and have the '
     'requested number of entries, except that the last may be smaller; '
     'splitting a mask divides its true entries into a first and second half '
     'whose sizes differ by at most one, and recursive splitting gives '
     'disjoint masks with at most the allowed number of true entries which '
     'cover the original, and leaves a mask within the limit whole. Solving for all masked parts of a vector records '
     'one right hand side, mask, solution and status per mask, in order, and '
     'the solutions for a partition add up to the solution of the whole '
     'system; a solve is H^-1 v at the given point, and the record is emptied '
     'only by initialization.',
     ['inputs', 'histories'],
     'All lengths, mask sizes and boolean vectors; all small positive definite '
     'systems, preconditioned or not; all sequences of solves and resets.',
     'There are no tests of this part.',
     ['ConjugateGradient.py'],
     [('split_vector, recursive_split, get_masks, ConjugateGradientSolver',
       'ConjugateGradient.py')],
     [('vecs, hinv_vecs, masks, times, cg_infos', 'record of the solves',
       'ConjugateGradient.py:ConjugateGradientSolver')],
     ['masks, get_hinv_vec, get_hinv_vec_subsets'])

prop('C21', 'Sparse matrix and index utilities are lossless',
     'Packing a sparse matrix, as a dictionary or for JSON (also through real '
     'JSON text), and unpacking it returns the same matrix with the same shape '
     'and entry type. A sub-matrix is placed in the larger sparse matrix at '
     'exactly the given rows and columns and zeros elsewhere; an index '
     'parameter holds, in the shape of the parameter, the position of each '
     'entry in the vector representation, and leaves the original alone. '
     'Products of dense and sparse operands equal the dense products, and '
     'compression drops exactly the dimensions of length one.',
     ['inputs', 'configurations'],
     'All small matrices (any pattern, empty rows and columns, explicit '
     'zeros, integer, float; for JSON finite), all lists of distinct indices, '
     'all parameters.',
     'The tests check one matrix each.',
     ['SparseObjectives.py', 'Parameters.py'],
     [('pack_csr_matrix, unpack_csr_matrix, json_pack_csr_matrix, '
       'json_unpack_csr_matrix, get_sparse_sub_matrix, '
       'get_sparse_sub_hessian, make_index_param, safe_matmul, compress',
       'SparseObjectives.py'), ('offset_sparse_matrix', 'Parameters.py')],
     observe=['return values'])

prop('C22', 'Deep copies of parameters are independent',
     'A deep copy of a parameter or dictionary has the same value, sizes and '
     'constraints, and afterwards no operation on the copy (setting, also in '
     'part, in place or in nested dictionaries, adding parts, taking '
     'derivatives) '
     'changes anything observable about the original, nor the other way '
     'round. Parameters that share parts and are copied together share the '
     'copies of these parts.',
     ['histories', 'programs'],
     'All parameter types and nestings, all interleavings of operations on '
     'original and copy, also after derivatives were taken from the original.',
     'The tests copy parameters only as a tool.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ProjectionParams.py', 'ParameterDictionary.py'],
     [('instance state of the parameter classes, values view',
       'Parameters.py, ParameterDictionary.py')],
     observe=['every observer of both objects after every operation'])

prop('C23', 'Values of the wrong size are rejected and change nothing',
     'Setting a value, a free representation or a vector representation whose '
     'number of entries is wrong, or an array or matrix collection of the '
     'wrong shape, or, for a parameter that is one matrix, an asymmetric '
     'matrix, raises ValueError for every parameter and dictionary, at '
     'construction too. The parameter keeps its '
     'previous value in every part and can be used as before. Contradictory '
     'bounds and subspaces are rejected at construction with ValueError.',
     ['inputs', 'fault_sequences', 'histories'],
     'All parameter types and nestings, all wrong sizes and shapes, before and '
     'after any sequence of correct operations.',
     'The tests try one wrong size for some of the types.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ProjectionParams.py', 'ParameterDictionary.py'],
     [('size checks in set, set_free, set_vector', 'Parameters.py, '
       'MatrixParameters.py, SimplexParams.py, ProjectionParams.py, '
       'ParameterDictionary.py')],
     observe=['exceptions and state afterwards'])

prop('C24', 'Free and vector representations are snapshots',
     'The arrays returned as free or vector representation, or by the '
     'transform from one to the other, and the arrays from which a parameter '
     'was set through either representation share no memory with the '
     'parameter: writing into them later does not change the parameter, and '
     'changing the parameter does not change them. Setting and getting never '
     'modifies its argument.',
     ['histories', 'inputs'],
     'All parameter types and nestings, all interleavings of setting, getting '
     'and writing into arrays obtained or passed earlier.',
     'The tests never write into the arrays they passed or got.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ProjectionParams.py', 'ParameterDictionary.py'],
     [('copies made by the representations', 'Parameters.py, '
       'MatrixParameters.py, SimplexParams.py, ProjectionParams.py')],
     observe=['arrays and parameters after every write'])

prop('C25', 'The optimization log records exactly the logged evaluations',
     'The log holds the values and points, in the original coordinates, of the '
     'evaluations for which logging was requested, all of them, in order, and '
     'of no others, whatever happens to the arrays passed; its counter, current '
     'and last values agree with that. A message or, if set, the callback '
     'comes exactly when the number of evaluations logged before is a multiple '
     'of print_every, and initializing empties the log but keeps the settings.',
     ['histories', 'configurations'],
     'All sequences of logged and unlogged evaluations (plain, conditioned and '
     'derivatives), resets and changes of settings.',
     'The tests only run it with its output unchecked.',
     ['SparseObjectives.py', 'OptimizationUtils.py'],
     [('Logger.log, initialize; fun_free(verbose=...)',
       'SparseObjectives.py')],
     [('iter, x_array, val_array, value, x', 'the record',
       'SparseObjectives.py:Logger')],
     ['attributes of the logger, callback invocations, standard output'])

prop('C26', 'Matrix, index and offset helpers agree entry by entry',
     'A symmetric or lower triangular matrix is vectorized by rows of its '
     'lower triangle: the index of entry (i, j) is the same in either order '
     'and the vector converts back to that matrix, lower triangular or '
     'symmetric as asked; matrices that are not square and vectors of a size '
     'that no triangle has are rejected. The helpers that exponentiate or take '
     'the logarithm of a diagonal, that pack and unpack positive definite '
     'matrices with a lower bound, and their derivatives of any mode and order '
     'are those of these definitions. The slices, ranges and sizes that matrix '
     'arrays and simplexes report are those of the matrices and rows that they '
     'name, and a function applied to every matrix of an array is put where '
     'that matrix is. The offset helpers read and write exactly the range that '
     'starts at the given offset, and return the offset after it. No helper '
     'modifies its arguments.',
     ['inputs', 'configurations'],
     'All sizes, index pairs, shapes, paddings and orders of parameters, in '
     'every memory layout.',
     'The tests use 2 x 2 and 3 x 3 matrices and never the offsets with '
     'something before and after.',
     ['MatrixParameters.py', 'Parameters.py', 'SimplexParams.py'],
     [('SymIndex, vectorize_ld_matrix, unvectorize_ld_matrix, '
       'exp_matrix_diagonal, log_matrix_diagonal, pack/unpack_posdef_matrix',
       'MatrixParameters.py'),
      ('free_obs_slice, stacked_obs_slice, apply_matrix_function',
       'MatrixParameters.py:PosDefMatrixParamVector, PosDefMatrixParamArray'),
      ('set/get_free/vector_offset, free_to_vector_jac/hess_offset, '
       'offset_sparse_matrix', 'Parameters.py'),
      ('get_vector_indices, shape', 'SimplexParams.py:SimplexParam')],
     [], ['results of the helpers; their arguments afterwards'])

prop('C27', 'Names, dictionary values and printed forms follow the contents',
     'names() lists, in the order of the parts, a name per entry (the name of '
     'the vector with the number of the entry) for vectors and subspace '
     'vectors and one name for every other part; dictval() is made of plain '
     'lists and numbers, in the nesting of the parameter and with its current '
     'values, and survives a round trip through JSON; str() names every part '
     'in order and is that of a new parameter with the same contents. All '
     'three follow the current name and value after any history of setting, '
     'renaming, adding and replacing parts, and changing an answer does not '
     'change the parameter.',
     ['histories', 'configurations'],
     'All parameter types and nestings, all values, all histories of setting '
     'and restructuring.',
     'The tests only call these methods to see that they do not raise.',
     ['ParameterDictionary.py', 'Parameters.py', 'MatrixParameters.py',
      'SimplexParams.py', 'ProjectionParams.py'],
     [('names, dictval, __str__, set_name', 'ParameterDictionary.py:'
       'ModelParamsDict'),
      ('names, dictval, __str__', 'Parameters.py:VectorParam, ArrayParam, '
       'ScalarParam')],
     [('name, param_dict', 'the name and the ordered parts',
       'ParameterDictionary.py:ModelParamsDict')],
     ['names(), dictval(), str()'])

prop('C28', 'Calculations and objects do not influence each other',
     'What a function of the package returns depends on its arguments alone, '
     'and what an object does depends on what was done with that object and '
     'the objects it was given: other calls and other objects, of the same or '
     'of another size, before, between or afterwards, in the same process make '
     'no difference. A result returned earlier keeps its value, what the '
     'caller writes into it makes no difference to calls of the functions or '
     'to other objects, and no function modifies the arrays which it is given. '
     'No call changes the settings that the whole process shares: NumPy\'s '
     'error handling and print options, the warning filters, the working '
     'directory and the environment. Objectives, converters and '
     'sensitivities that share a parameter give the results that each would '
     'give alone, in whatever order they are used.',
     ['histories', 'schedules'],
     'All sequences of calls of the functions and methods of the package in a '
     'process, and all interleavings of the lives of several objects.',
     'Every test builds its own objects and ends with the process; nothing '
     'compares a result with that of a process in which nothing else ran.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py',
      'ParameterDictionary.py', 'SparseObjectives.py', 'ModelSensitivity.py',
      'ExponentialFamilies.py', 'Modeling.py', 'OptimizationUtils.py',
      'ConjugateGradient.py'],
     [('module and class level state, default arguments, caches', '*.py'),
      ('parameters written by objectives and converters',
       'SparseObjectives.py:Objective, TwoParameterObjective, '
       'ParameterConverter')],
     [], ['results of calls, compared with those of a fresh process'])

TECHNIQUE = {
    'default': 'bounded exhaustive exploration of the real code against an '
               'independent reference model',
}
prop('C29', 'Whole analyses reproduce known answers, whichever way they are done',
     'For a model whose variational optimum is known in closed form at every '
     'value of its hyperparameters, everything the package offers agrees with '
     'that answer: the objective is stationary and convex there; optimizers, '
     'preconditioned or not, started near it arrive at it; the linear-response '
     'covariance of the moments is the derivative of the moments along a '
     'tilted objective; the sensitivities of the optimum, by the linear '
     'approximation, by a Taylor expansion to any order, by conjugate '
     'gradients or by hand from the Hessians of the objective, in free or in '
     'vector coordinates of the parameters or of the hyperparameters, are the '
     'derivatives of the known optimum. This holds in any order in which the '
     'routes are taken over the same parameters.',
     ['inputs', 'histories'],
     'All models with a closed form answer built of the distributions, '
     'regressions and parameters of the package, all hyperparameter values, '
     'all routes to the answer and all sequences of routes on shared '
     'parameters.',
     'The tests check each ingredient on a toy; no test carries an analysis '
     'from its parameters through optimization to its sensitivities and '
     'compares the result with an answer found otherwise.',
     ['NormalParams.py', 'GammaParams.py', 'DirichletParams.py',
      'WishartParams.py', 'ExponentialFamilies.py', 'regression_utils.py',
      'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py',
      'ConjugateGradient.py', 'Parameters.py'],
     [('entropies, expected log priors and moments',
       'ExponentialFamilies.py'),
      ('Objective, TwoParameterObjective, ParameterConverter',
       'SparseObjectives.py'),
      ('ParametricSensitivityTaylorExpansion, '
       'ParametricSensitivityLinearApproximation', 'ModelSensitivity.py'),
      ('minimize_objective_trust_ncg, minimize_objective_bfgs, '
       'repeatedly_optimize', 'OptimizationUtils.py')],
     [('parameters shared by all routes', 'left by the previous route',
       'SparseObjectives.py:Objective')],
     ['gradients, Hessians, optima, covariances and sensitivities returned'])

STATEFUL = {
    'C01', 'C05', 'C07', 'C10', 'C11', 'C17', 'C18', 'C20', 'C22', 'C23',
    'C24', 'C25', 'C27', 'C28', 'C29'}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        pid = p['id']
        if not os.path.exists(
                os.path.join(HERE, 'checks', pid.lower() + '.py')):
            continue
        stateful = pid in STATEFUL
        checks.append({
            'property': pid,
            'quick_cmd': './check.sh %s --tier quick' % pid,
            'thorough_cmd': './check.sh %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique':
                'model checking: exhaustive exploration of all operation '
                'sequences and configurations within bounds, executed on the '
                'real code in lock step with a reference model' if stateful
                else
                'model checking: exhaustive enumeration of a bounded space of '
                'configurations, inputs and call orders, executed on the real '
                'code in lock step with a reference model',
            'level': 'model_checking',
            'level_note':
                'Every behaviour in the declared finite space is executed on '
                'the code in /repo and compared step by step with an '
                'independent plain Python oracle; nothing outside the '
                'alphabet and bounds reported in the evidence is covered. '
                'Trusts the oracle, PyPy, numpy/scipy/autograd as installed.',
        })
    claimed = {c['property'] for c in checks}
    manifest = {
        'version': 1,
        'setup_cmd': './check.sh C01 --list > /dev/null',
        'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks '
                  'import the package from /repo and use its public interface',
                  'source_commits': []},
        'checks': checks,
        'not_applicable': [
            {'property': p['id'], 'reason': 'check not built yet'}
            for p in PROPS if p['id'] not in claimed],
        'notes': 'See DESIGN.md. Repairs made to /repo are listed in '
                 'known_findings.json.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
