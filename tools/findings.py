"""Writes known_findings.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C02', 'dd0403a', 'the default value of a doubly bounded parameter was (ub - lb) / 2, outside the bounds for e.g. lb=1.5, ub=3'),
 ('C23', 'b77a0c7', 'PosDefMatrixParamVector/Array.set accepted a value if any (not all) dimensions of its shape matched'),
 ('C02', '7cda0c5', 'WishartParam(size=n) always made a 2x2 scale matrix'),
 ('C13', '7a102b3', 'WishartParam.e_inv was not inv(v) / (df - size - 1)'),
 ('C13', 'a57313e', 'UVNMomentParamArray.var_exp returned the lognormal mean'),
 ('C02', '85d39a3', 'PosDefMatrixParamArray() with its default shape, and length(), raised'),
 ('C23', 'fef629e', 'ScalarParam.set accepted arrays of several entries'),
 ('C05', '9d312bc', 'ScalarParam/PosDefMatrixParam.free_to_vector_jac/hess left an autograd tracer in the parameter, and a deep copy differentiated (and changed) the original (C22)'),
 ('C01', 'f40d454', 'ModelParamsDict counted a replaced part twice and did not notice parts pushed into a nested dictionary later'),
 ('C10', 'b5be400', 'the sensitivity classes raised when a Hessian was supplied (C11)'),
 ('C10', 'af57319', 'sensitivity ignored input_is_free/hyper_is_free (C11)'),
 ('C12', 'b334ccf', 'consolidate_terms skipped like terms (removal during iteration)'),
 ('C11', '99a1ce9', 'Taylor terms without hyperparameter derivatives used the partial objective'),
 ('C10', 'de72571', 'ParametricSensitivity.optimal_output_par was the current value of output_par, not its value at the optimum'),
 ('C15', '20b0ea9', 'univariate_normal_log_prob added info / 2 in place of log(info) / 2'),
 ('C17', '585928d', 'minimize_objective_* raised with a sparse preconditioner'),
 ('C24', 'cf9f11e', 'vector representations of vector, array, simplex and subspace parameters aliased the value'),
 ('C13', '131d35a', 'WishartParam.e_inv could not be differentiated (used plain numpy)'),
 ('C24', 'df3a8ae', 'ScalarParam.free_to_vector returned the array which the parameter holds'),
 ('C25', '6ffcab1', 'the log kept references to the points, so that with L-BFGS-B, SLSQP or COBYLA (which reuse their array) its entries were wrong'),
 ('C02', 'cec1456', 'doubly bounded values at large free values exceeded their upper bound by rounding (lb=-2, ub=1, free 40: ValueError from get_free) or were nan (free 720)'),
 ('C15', 'f390eec', 'get_e_logistic_term and get_e_logistic_term_guass_hermite were infinite, their gradients nan, when a linear predictor exceeded 709'),
 ('C15', 'c1ae6a8', 'the gradient of get_e_log_logitnormal was nan when a node lay below -710'),
 ('C02', '865befe', 'a diagonal free value of -40 of a positive definite matrix gave a singular matrix, -30 came back wrong in the third digit'),
]
out = {'findings': [
    {'id': 'fixed-%02d' % (i + 1), 'status': 'fixed', 'property': p,
     'entry': 'fixed: property=%s %s %s' % (p, c, w), 'commit': c}
    for i, (p, c, w) in enumerate(FIXED)]}
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1); f.write('\n')
