#!/usr/bin/env python3
"""Edits that keep the behaviour: all checks must stay quiet on them.

quiet.py apply DIR       apply all edits to the package in DIR
quiet.py run [PROP...]   apply them to a copy of /repo, run the tests and the
                         checks there (in a private mount namespace)
"""
import glob, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PKG = 'LinearResponseVariationalBayes'
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'
W, DI, G = 'WishartParams.py', 'DirichletParams.py', 'GammaParams.py'

EDITS = []


def edit(f, old, new, count=1):
    EDITS.append((f, old, new, count))


# --- Parameters: helpers extracted, early returns, loops rewritten
edit(P, '''def unconstrain(vec, lb, ub):
    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')
    if ub == float("inf"):
        if lb == -float("inf"):
            # TODO: I'm not sure this copy work with autodiff.
            return copy.copy(vec)
        else:
            return np.log(vec - lb)
    else: # the upper bound is finite
        if lb == -float("inf"):
            return -1 * np.log(ub - vec)
        else:
            return np.log(vec - lb) - np.log(ub - vec)
''', '''def _check_bounds(lb, ub):
    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')


def unconstrain(vec, lb, ub):
    _check_bounds(lb, ub)
    has_lower = lb != -float("inf")
    has_upper = ub != float("inf")
    if has_lower and has_upper:
        return -np.log(ub - vec) + np.log(vec - lb)
    if has_lower:
        return np.log(vec - lb)
    if has_upper:
        return -np.log(ub - vec)
    return copy.copy(vec)
''')
edit(P, '''    if ub == float("inf"):
        if lb == -float("inf"):
            # TODO: I'm not sure this copy work with autodiff.
            return copy.copy(free_vec)
        else:
            return np.exp(free_vec) + lb
    else: # the upper bound is finite
        if lb == -float("inf"):
            return ub - np.exp(-1 * free_vec)
''', '''    if np.isinf(ub):
        return copy.copy(free_vec) if np.isinf(lb) else lb + np.exp(free_vec)
    else: # the upper bound is finite
        if np.isinf(lb):
            return ub - np.exp(-free_vec)
''')
edit(P, '''    if lb > -float('inf') and ub < float('inf'):
        return 0.5 * (ub + lb)
    else:
        if lb > -float('inf'):
            # The upper bound is infinite.
            return lb + 1.0
        elif ub < float('inf'):
            # The lower bound is infinite.
            return ub - 1.0
        else:
            # Both are infinie.
            return 0.0
''', '''    if np.isinf(lb) and np.isinf(ub):
        return 0.0
    if np.isinf(ub):
        return 1.0 + lb
    if np.isinf(lb):
        return ub - 1.0
    return (ub + lb) / 2.0
''')
edit(P, '''        rows_indices = np.array(range(self.vector_size()))
        grads = [ constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub) \\
                  for vec_ind in range(self.vector_size()) ]
        return coo_matrix((grads,
                          (rows_indices, rows_indices)),
                          (self.vector_size(), self.free_size()))
''', '''        size = self.vector_size()
        grads = np.zeros(size)
        for vec_ind in range(size):
            grads[vec_ind] = constrain_scalar_jac(
                free_val[vec_ind], self.__lb, self.__ub)
        rows_indices = np.arange(size)
        return csr_matrix((grads, (rows_indices, rows_indices)),
                          shape=(size, size)).tocoo()
''')
edit(P, '''        return \\
            [ get_ind_hess(vec_ind) for vec_ind in range(self.vector_size()) ]
''', '''        hesses = []
        for vec_ind in range(self.vector_size()):
            hesses.append(get_ind_hess(vec_ind))
        return hesses
''')
edit(P, '''    param.set_free(free_vec[offset:(offset + param.free_size())])
    return offset + param.free_size()
''', '''    end = offset + param.free_size()
    param.set_free(free_vec[offset:end])
    return end
''')
edit(P, '''    return coo_matrix(
        (spmat.data,
         (spmat.row + offset_shape[0], spmat.col + offset_shape[1])),
         shape=full_shape)
''', '''    row_offset, col_offset = offset_shape
    rows = row_offset + spmat.row
    cols = col_offset + spmat.col
    return coo_matrix((spmat.data, (rows, cols)), shape=full_shape)
''')
edit(P, '''    for vec_ind in range(len(hess)):
        hess_ind = hess[vec_ind]
        hessians.append(offset_sparse_matrix(
            hess_ind, (free_offset, free_offset), full_shape))
''', '''    hessians.extend(
        offset_sparse_matrix(hess_ind, (free_offset, free_offset), full_shape)
        for hess_ind in hess)
''')
edit(P, '''    free_hess_vals = np.hstack([
        free_to_vec_hessian[vec_ind].data * vector_grad[vec_ind]
        for vec_ind in vec_range ])
    free_hess_rows = np.hstack([
        free_to_vec_hessian[vec_ind].row for vec_ind in vec_range ])
    free_hess_cols = np.hstack([
        free_to_vec_hessian[vec_ind].col for vec_ind in vec_range ])
    free_hess = coo_matrix(
        (free_hess_vals, (free_hess_rows, free_hess_cols)), free_hess_size)

    # Then add the second-order terms, which may be dense depending on the
    # vec_hess_target.
    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian

    return free_hess
''', '''    vals, rows, cols = [], [], []
    for vec_ind in reversed(vec_range):
        one_hess = free_to_vec_hessian[vec_ind]
        vals.append(one_hess.data * vector_grad[vec_ind])
        rows.append(one_hess.row)
        cols.append(one_hess.col)
    free_hess = coo_matrix(
        (np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))),
        free_hess_size)

    # Then add the second-order terms, which may be dense depending on the
    # vec_hess_target.
    second_order = free_to_vec_jacobian.T * (vector_hess * free_to_vec_jacobian)
    free_hess = free_hess + second_order

    return free_hess
''')

# --- Dictionary
edit(D, '''        result = {}
        for param in self.param_dict.values():
            result[param.name] = param.dictval()
        return result
''', '''        return { param.name: param.dictval()
                 for param in self.param_dict.values() }
''')
edit(D, '''        free_offset = 0
        vec_offset = 0
        jacobians = []
        for param in self.param_dict.values():
            free_offset, vec_offset, param_jac = free_to_vector_jac_offset(
                param, free_val, free_offset, vec_offset)
            jacobians.append(param_jac)
        if not jacobians:
            return coo_matrix((0, 0))
        return block_diag(jacobians)
''', '''        offset = 0
        jacobians = []
        for param in self.param_dict.values():
            end = offset + param.free_size()
            jacobians.append(param.free_to_vector_jac(free_val[offset:end]))
            offset = end
        if len(jacobians) == 0:
            return coo_matrix((0, 0))
        return block_diag(jacobians, format='csr')
''')
edit(D, '''        offset = 0
        for param in self.param_dict.values():
            offset = par.set_vector_offset(param, vec, offset)
    def get_vector(self):
        if not self.param_dict:
            return np.array([])
        return np.hstack(
            [ par.get_vector() for par in self.param_dict.values() ])
''', '''        start = 0
        for name in self.param_dict:
            param = self.param_dict[name]
            size = param.vector_size()
            param.set_vector(vec[start:start + size])
            start += size
    def get_vector(self):
        return np.concatenate(
            [ par.get_vector() for par in self.param_dict.values() ])
''')
edit(D, '''        return sum([ param.free_size() for param in self.param_dict.values() ])
''', '''        total = 0
        for param in self.param_dict.values():
            total = total + param.free_size()
        return total
''')

# --- Matrices
edit(M, '''    def LDInd(k1, k2):
        return int(k2 + k1 * (k1 + 1) / 2)

    if k2 <= k1:
        return LDInd(k1, k2)
    else:
        return LDInd(k2, k1)
''', '''    row, col = max(k1, k2), min(k1, k2)
    return int(row * (row + 1) // 2 + col)
''')
edit(M, '''    mat = np.zeros((mat_size, mat_size))
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[SymIndex(k1, k2)]
    return mat
''', '''    mat = np.zeros((mat_size, mat_size))
    ind = 0
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[ind]
            ind += 1
    return mat
''')
edit(M, '''    mat_val = ld_mat + ld_mat.transpose()
    # We have double counted the diagonal.  For some reason the autograd
    # diagonal functions require axis1=-1 and axis2=-2
    mat_val = mat_val - \\
        np.make_diagonal(np.diagonal(ld_mat, axis1=-1, axis2=-2),
                         axis1=-1, axis2=-2)
    return mat_val
''', '''    # Do not count the diagonal twice.
    strictly_lower = ld_mat * (1 - np.eye(ld_mat.shape[0]))
    return ld_mat + strictly_lower.T
''')
edit(M, '''        self.__val = \\
            np.array([ unpack_posdef_matrix(
                free_val[self.free_obs_slice(obs)], diag_lb=self.__diag_lb) \\
              for obs in range(self.__length) ])

    def get_free(self):
        return np.hstack([ pack_posdef_matrix(
            self.__val[obs, :, :], diag_lb=self.__diag_lb) \\
            for obs in range(self.__length)])
''', '''        matrices = []
        for obs in range(self.__length):
            matrices.append(unpack_posdef_matrix(
                free_val[self.free_obs_slice(obs)], self.__diag_lb))
        self.__val = np.array(matrices)

    def get_free(self):
        return np.concatenate([
            pack_posdef_matrix(one, self.__diag_lb) for one in self.__val ])
''')
edit(M, '''            row_jac = pos_def_matrix_free_to_vector_jac(free_val[vec_inds])
            for vec_row in vec_rows:
                for free_row in vec_rows:
                    jac_rows.append(vec_inds[vec_row])
                    jac_cols.append(vec_inds[free_row])
                    grads.append(row_jac[vec_row, free_row])

        return coo_matrix(
            (grads, (jac_rows, jac_cols)),
            (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        hessians = []
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
''', '''            row_jac = pos_def_matrix_free_to_vector_jac(free_val[vec_inds])
            for vec_row, free_row in itertools.product(vec_rows, vec_rows):
                if row_jac[vec_row, free_row] != 0:
                    jac_rows.append(vec_inds[vec_row])
                    jac_cols.append(vec_inds[free_row])
                    grads.append(row_jac[vec_row, free_row])

        return coo_matrix(
            (grads, (jac_rows, jac_cols)),
            (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        hessians = []
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
''')

# --- Simplexes
edit(S, '''    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), free_mat])
''', '''    reference = np.zeros((free_mat.shape[0], 1))
    free_mat_aug = np.concatenate([ reference, free_mat ], axis=1)
''')
edit(S, '''    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(simplex_mat[:, 0]), axis=1)
''', '''    log_mat = np.log(simplex_mat)
    return log_mat[:, 1:] - log_mat[:, 0:1]
''')
edit(S, '''    z_last = z[1:]
    z_jac = -1 * np.outer(z, z_last)
    for k in range(1, len(z)):
        z_jac[k, k - 1] += z[k]
    return z_jac
''', '''    return (np.diag(z) - np.outer(z, z))[:, 1:]
''')
edit(S, '''            for vec_col in vec_cols:
                for free_col in free_cols:
                    jac_rows.append(vec_inds[vec_col])
                    jac_cols.append(free_inds[free_col])
                    grads.append(row_jac[vec_col,free_col])
''', '''            for free_col in free_cols:
                for vec_col in vec_cols:
                    grads.append(row_jac[vec_col, free_col])
                    jac_cols.append(free_inds[free_col])
                    jac_rows.append(vec_inds[vec_col])
''')
edit(S, '''                hess_rows = []
                hess_cols = []
                hess_vals = []
                for free_col1 in free_cols:
                    for free_col2 in free_cols:
                        hess_rows.append(free_inds[free_col1])
                        hess_cols.append(free_inds[free_col2])
                        hess_vals.append(row_hess[vec_col, free_col1, free_col2])
                hesses.append(
                    coo_matrix((hess_vals, (hess_rows, hess_cols)), hess_shape))
''', '''                num_free = len(free_inds)
                hess_rows = np.repeat(free_inds, num_free)
                hess_cols = np.tile(free_inds, num_free)
                hess_vals = row_hess[vec_col].flatten()
                hesses.append(
                    coo_matrix((hess_vals, (hess_rows, hess_cols)), hess_shape))
''')
edit(S, '''        return np.product(self.__free_shape)
''', '''        return int(self.__free_shape[0] * self.__free_shape[1])
''')

# --- Subspace
edit(J, '''    xx = np.matmul(x, x.T)
    proj_parallel = np.matmul(x.T, np.linalg.solve(xx, x))
    proj_perp = np.eye(x.shape[1]) - proj_parallel
''', '''    gram = x.dot(x.T)
    proj_perp = np.eye(x.shape[1]) - x.T.dot(np.linalg.solve(gram, x))
''')
edit(J, '''        return np.matmul(self.__proj_basis_t, self.__val)
''', '''        return np.dot(self.__val, self.__proj_basis)
''')

# --- Objectives
edit(O, '''    if sp.sparse.issparse(x):
        return np.squeeze(np.asarray(x.todense()))
    else:
        return np.squeeze(np.asarray(x))
''', '''    dense = x.toarray() if sp.sparse.issparse(x) else np.asarray(x)
    return dense.squeeze()
''')
edit(O, '''    def fun_free_cond(self, free_val, *argv, verbose=False, **argk):
        assert self.preconditioner is not None
        y = self.get_conditioned_x(free_val)
        return self.fun_free(y, *argv, verbose=verbose, **argk)

    def fun_free_grad_cond(self, free_val, *argv, **argk):
        assert self.preconditioner is not None
        y = self.get_conditioned_x(free_val)
        grad = self.fun_free_grad(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T, grad)
''', '''    def _assert_preconditioned(self):
        assert self.preconditioner is not None

    def fun_free_cond(self, free_val, *args, verbose=False, **kwargs):
        self._assert_preconditioned()
        return self.fun_free(
            self.get_conditioned_x(free_val), *args, verbose=verbose, **kwargs)

    def fun_free_grad_cond(self, free_val, *args, **kwargs):
        self._assert_preconditioned()
        grad = self.fun_free_grad(
            self.get_conditioned_x(free_val), *args, **kwargs)
        return safe_matmul(self.preconditioner.T, grad)
''')
edit(O, '''        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
''', '''        hess = self.fun_free_hessian(y, *argv, **argk)
        half = safe_matmul(self.preconditioner.T, hess)
        return safe_matmul(half, self.preconditioner)
''')
edit(O, '''    def fun_free_hvp_cond(self, *argv, **argk):
        assert self.preconditioner is not None
        args, vec = argv[1:-1], argv[-1]
        free_val = argv[0]
''', '''    def fun_free_hvp_cond(self, *argv, **argk):
        assert self.preconditioner is not None
        free_val, *args, vec = argv
''')
edit(O, '''        result = autograd_fun(
            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(self.par1, val1, val1_is_free)
        set_par(self.par2, val2, val2_is_free)

        return result
''', '''        try:
            return autograd_fun(
                val1, val2, val1_is_free, val2_is_free, *argv, **argk)
        finally:
            for one, val, is_free in ((self.par1, val1, val1_is_free),
                                      (self.par2, val2, val2_is_free)):
                set_par(one, val, is_free)
''')
edit(O, '''        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
''', '''        held = self.par_out.get_vector()
        result = autograd_fun(free_val_in)
        self.par_out.set_vector(held)
        self.par_in.set_free(free_val_in)
        return result
''')
edit(O, '''    for row in range(sub_matrix.shape[0]):
        for col in range(sub_matrix.shape[1]):
            if sub_matrix[row, col] != 0:
                mat_vals.append(sub_matrix[row, col])
                mat_rows.append(int(row_indices[row]))
                mat_cols.append(int(col_indices[col]))
''', '''    for row, col in zip(*np.nonzero(sub_matrix)):
        mat_rows.append(int(row_indices[row]))
        mat_cols.append(int(col_indices[col]))
        mat_vals.append(sub_matrix[row, col])
''')
edit(O, '''        self.hessian_chol = sp.linalg.cho_factor(self.objective_hessian)

        self.dout_din = self.parameter_converter.free_to_vec_jacobian(
            self.optimal_input_par)

        self.optimal_hyper_par = self.hyper_par.get_vector()
''', '''        self.optimal_hyper_par = self.hyper_par.get_vector()
        self.hessian_chol = sp.linalg.cho_factor(self.objective_hessian)

        self.dout_din = self.parameter_converter.free_to_vec_jacobian(
            self.optimal_input_par)

''')
edit(O, '''            return \\
                self.optimal_output_par + \\
                self.dout_din @ self.hyper_par_sensitivity @ hyper_par_diff
''', '''            return \\
                self.optimal_output_par + \\
                self.dout_din @ (self.hyper_par_sensitivity @ hyper_par_diff)
''')
edit(O, '''        self.value = value
        self.x = x
        self.x_array.append(x)
        self.val_array.append(value)
''', '''        self.val_array.append(value)
        self.x_array.append(x)
        self.x, self.value = x, value
''')

# --- Sensitivity
edit(MS, '''        if (len(vec_args) > 1):
            # Then''', '''        *old_vec_args, new_vec = vec_args
        if old_vec_args:
            # Then''')
edit(MS, '''            old_vec_args = vec_args[:-1]
            return fun_jvp(*base_args, *old_vec_args)(vec_args[-1])[1]
        else:
            return fun_jvp(*base_args)(*vec_args)[1]
''', '''            return fun_jvp(*base_args, *old_vec_args)(new_vec)[1]
        else:
            return fun_jvp(*base_args)(new_vec)[1]
''')
edit(MS, '''        for i in range(len(self.eta_orders)):
            eta_order = self.eta_orders[i]
            if eta_order > 0:
                vec = self.eval_eta_derivs[i](eta0, eps0, deps)
                for j in range(eta_order):
                    vec_args.append(vec)

        for i in range(self.eps_order):
            vec_args.append(deps)
''', '''        for i, eta_order in enumerate(self.eta_orders):
            if eta_order > 0:
                vec = self.eval_eta_derivs[i](eta0, eps0, deps)
                vec_args += [vec] * eta_order

        vec_args += [deps] * self.eps_order
''')
edit(MS, '''    unmatched_indices = [ ind for ind in range(len(dterms)) ]
    consolidated_dterms = []
    while len(unmatched_indices) > 0:
        match_term = dterms[unmatched_indices.pop(0)]
        for ind in list(unmatched_indices):
            if (match_term.eta_orders == dterms[ind].eta_orders):
                match_term = match_term.combine_with(dterms[ind])
                unmatched_indices.remove(ind)
        consolidated_dterms.append(match_term)

    return consolidated_dterms
''', '''    consolidated_dterms = []
    for dterm in dterms:
        for ind, old in enumerate(consolidated_dterms):
            if old.eta_orders == dterm.eta_orders:
                consolidated_dterms[ind] = old.combine_with(dterm)
                break
        else:
            consolidated_dterms.append(dterm)
    return consolidated_dterms
''')
edit(MS, '''    vec = None
    for term in dterms:
        if include_highest_eta_order or (term.eta_orders[-1] == 0):
            if vec is None:
                vec = term.evaluate(eta0, eps0, deps)
            else:
                vec += term.evaluate(eta0, eps0, deps)
    return vec
''', '''    total = None
    for term in dterms:
        if not include_highest_eta_order and term.eta_orders[-1] != 0:
            continue
        val = term.evaluate(eta0, eps0, deps)
        total = val if total is None else total + val
    return total
''')

# --- ExponentialFamilies
edit(E, '''def multivariate_digamma(x, size):
    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.digamma(x_vec))


def multivariate_gammaln(x, size):
    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.gammaln(x_vec)) + \\
           0.25 * np.log(np.pi) * size * (size - 1.0);
''', '''def _multivariate_args(x, size):
    return x - 0.5 * np.arange(int(size))


def multivariate_digamma(x, size):
    return np.sum(sp.special.digamma(_multivariate_args(x, size)))


def multivariate_gammaln(x, size):
    log_pi_term = 0.25 * size * (size - 1.0) * np.log(np.pi)
    return log_pi_term + np.sum(
        sp.special.gammaln(_multivariate_args(x, size)))
''')
edit(E, '''    return -1 * np.sum(p * np.log(p + min_prob), axis=1)
''', '''    log_p = np.log(p + min_prob)
    return -np.sum(log_p * p, axis=1)
''')
edit(E, '''    return 0.5 * np.sum(-1 * np.log(info_obs) + 1 + np.log(2 * math.pi))
''', '''    return np.sum(0.5 * (1 + math.log(2 * math.pi) - np.log(info_obs)))
''')
edit(E, '''    return 0.5 * (-1 * logdet + k + k * np.log(2 * math.pi))
''', '''    return 0.5 * (k * (1 + np.log(2 * math.pi)) - logdet)
''')
edit(E, '''    return np.sum(shape - np.log(rate) + sp.special.gammaln(shape) + \\
                  (1 - shape) * sp.special.digamma(shape))
''', '''    entropies = sp.special.gammaln(shape) - np.log(rate) + shape - \\
        (shape - 1) * sp.special.digamma(shape)
    return np.sum(entropies)
''')
edit(E, '''    digamma_tau0 = sp.special.digamma(tau[:, 0])
    digamma_tau1 = sp.special.digamma(tau[:, 1])
    digamma_tausum = sp.special.digamma(np.sum(tau, 1))

    lgamma_tau0 = sp.special.gammaln(tau[:, 0])
    lgamma_tau1 = sp.special.gammaln(tau[:, 1])
    lgamma_tausum = sp.special.gammaln(np.sum(tau, 1))

    lbeta = lgamma_tau0 + lgamma_tau1 - lgamma_tausum

    return np.sum(
        lbeta - \\
        (tau[:, 0] - 1.) * digamma_tau0 - \\
        (tau[:, 1] - 1.) * digamma_tau1 + \\
        (tau[:, 0] + tau[:, 1] - 2) * digamma_tausum)
''', '''    tau_sum = np.sum(tau, 1)

    lbeta = np.sum(sp.special.gammaln(tau), 1) - sp.special.gammaln(tau_sum)

    return np.sum(
        lbeta - \\
        np.sum((tau - 1.) * sp.special.digamma(tau), 1) + \\
        (tau_sum - 2) * sp.special.digamma(tau_sum))
''')
edit(E, '''def wishart_entropy(df, v):
    k = float(v.shape[0])
    assert v.shape[0] == v.shape[1]
    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return \\
''', '''def _size_and_log_det(v):
    assert v.shape[0] == v.shape[1]
    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return float(v.shape[0]), log_det_v


def wishart_entropy(df, v):
    k, log_det_v = _size_and_log_det(v)
    return \\
''')
edit(E, '''    k = float(v.shape[0])
    assert v.shape[0] == v.shape[1]
    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return multivariate_digamma(0.5 * df, k) + \\
''', '''    k, log_det_v = _size_and_log_det(v)
    return multivariate_digamma(0.5 * df, k) + \\
''')
edit(E, '''    e_lognormal = get_e_lognormal(mu, sigma_sq)
    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
''', '''    return (np.exp(sigma_sq) - 1) * get_e_lognormal(mu, sigma_sq) ** 2
''')
edit(E, '''    draws_axis = means.ndim
    change_of_vars = np.sqrt(2) * gh_loc * \\
                1/np.sqrt(np.expand_dims(infos, axis = draws_axis)) + \\
                np.expand_dims(means, axis = draws_axis)

    integrand = fun(change_of_vars)

    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
''', '''    sds = 1 / np.sqrt(infos)
    draws = np.sqrt(2) * gh_loc * sds[..., None] + means[..., None]

    return np.sum(gh_weights * fun(draws), axis=-1) / np.sqrt(np.pi)
''')
edit(E, '''    identity_fun = lambda x : sp.special.expit(x)

    return get_e_fun_normal(lognorm_means, lognorm_infos, \\
                            gh_loc, gh_weights, identity_fun)
''', '''    return get_e_fun_normal(
        lognorm_means, lognorm_infos, gh_loc, gh_weights, sp.special.expit)
''')
edit(E, '''    obs_diff = e_obs - prior_mean
    return -0.5 * (np.dot(obs_diff, np.matmul(prior_info, obs_diff)) + \\
                   np.trace(np.matmul(prior_info, cov_obs)))
''', '''    obs_diff = e_obs - prior_mean
    quad_term = np.dot(np.matmul(prior_info, obs_diff), obs_diff)
    trace_term = np.sum(prior_info * cov_obs.T)
    return -0.5 * (quad_term + trace_term)
''')
edit(E, '''    return -0.5 * (prior_info * ((e_obs - prior_mean) ** 2 + var_obs))
''', '''    diff = prior_mean - e_obs
    return -0.5 * prior_info * (var_obs + diff * diff)
''')
edit(E, '''    e_log_r = -1 * e_log_det_wishart(df, v) - \\
              np.sum(e_log_inv_wishart_diag(df, v))
    return (lkj_param - 1) * e_log_r
''', '''    e_log_det = e_log_det_wishart(df, v)
    e_log_diag = e_log_inv_wishart_diag(df, v)
    return (1 - lkj_param) * (e_log_det + np.sum(e_log_diag))
''')
edit(E, '''    e_log_v, e_log_1mv =\\
        get_e_log_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights)

    return (alpha - 1) * e_log_1mv
''', '''    e_logs = get_e_log_logitnormal(
        lognorm_means, lognorm_infos, gh_loc, gh_weights)
    return e_logs[1] * (alpha - 1)
''')

# --- families
edit(N, '''        mean = self['mean'].get()
        e_outer = np.outer(mean, mean) + self.cov()
        return 0.5 * (e_outer + e_outer.transpose())
''', '''        cov = self.cov()
        mean = self.e()
        return np.outer(mean, mean) + 0.5 * (cov + cov.T)
''')
edit(N, '''        return self['mean'].get() ** 2 + 1 / self['info'].get()
    def var(self):
        return 1. / self['info'].get()
''', '''        return self.e() ** 2 + self.var()
    def var(self):
        return 1. / self['info'].get()
''', 3)
edit(N, '''        return ef.get_e_lognormal(self['mean'].get(),
                                  1. / self['info'].get())
    def var_exp(self):
        return ef.get_var_lognormal(self['mean'].get(),
                                    1. / self['info'].get())
''', '''        return ef.get_e_lognormal(self.e(), self.var())
    def var_exp(self):
        return ef.get_var_lognormal(self.e(), self.var())
''', 2)
edit(N, '''    def var(self):
        return self['e2'].get() - self['e'].get() ** 2
''', '''    def var(self):
        mean = self['e'].get()
        return self['e2'].get() - mean * mean
''')
edit(N, '''        self['e'].set(scalar_array_par.get())
        self['e2'].set(scalar_array_par.get() ** 2)
''', '''        val = scalar_array_par.get()
        self['e2'].set(val ** 2)
        self['e'].set(val)
''')
edit(N, '''        var = 1 / self['info'].get()
        return self['mean'].get()**2 + var[:, None]
''', '''        return self.e() ** 2 + np.expand_dims(1 / self['info'].get(), 1)
''')
edit(W, '''        if not min_df:
            min_df = size - 1
        assert min_df >= size - 1
''', '''        smallest_df = size - 1
        if not min_df:
            min_df = smallest_df
        assert min_df >= smallest_df
''')
edit(W, '''        return np.linalg.inv(self['v'].get()) / \\
            (self['df'].get() - self.__size - 1)
''', '''        df = self['df'].get()
        v = self['v'].get()
        return np.linalg.inv(v) / (df - (self.__size + 1))
''')
edit(W, '''        return ef.expected_ljk_prior(
            lkj_param, self['df'].get(), self['v'].get())
''', '''        return ef.expected_ljk_prior(
            lkj_param, df=self['df'].get(), v=self['v'].get())
''')
edit(G, '''        return self['shape'].get() / self['rate'].get()
    def e_log(self):
        return ef.get_e_log_gamma(
            shape=self['shape'].get(), rate=self['rate'].get())
    def entropy(self):
        return ef.gamma_entropy(
            shape=self['shape'].get(), rate=self['rate'].get())
''', '''        return self._shape() / self._rate()
    def e_log(self):
        return ef.get_e_log_gamma(self._shape(), self._rate())
    def entropy(self):
        return ef.gamma_entropy(self._shape(), self._rate())
    def _shape(self):
        return self['shape'].get()
    def _rate(self):
        return self['rate'].get()
''')
edit(DI, '''        return ef.get_e_dirichlet(self['alpha'].get())
''', '''        alpha = self['alpha'].get()
        return ef.get_e_dirichlet(alpha)
''')

# --- optimization
edit(OU, '''    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
    if not ev_max is None:
        eig_val[eig_val >= ev_max] = ev_max

    hess_corrected = np.matmul(eig_vec,
                               np.matmul(np.diag(eig_val), eig_vec.T))

    hess_inv_sqrt = \\
        np.matmul(eig_vec, np.matmul(np.diag(1 / np.sqrt(eig_val)), eig_vec.T))
    return np.array(hess_inv_sqrt), np.array(hess_corrected)
''', '''    if ev_min is not None:
        eig_val = np.maximum(eig_val, ev_min)
    if ev_max is not None:
        eig_val = np.minimum(eig_val, ev_max)

    def with_eigenvalues(vals):
        return np.array(np.matmul(eig_vec * vals, eig_vec.T))

    return with_eigenvalues(1 / np.sqrt(eig_val)), with_eigenvalues(eig_val)
''')
edit(OU, '''    if free_par is None and hessian is None:
        raise ValueError(
            'You must specify either a Hessian or the free_par at which ' +
            'the objective\\'s Hessian is to be evaluated.')

    if hessian is None:
        hessian = objective.fun_free_hessian(free_par)
''', '''    if hessian is None:
        if free_par is None:
            raise ValueError(
                'You must specify either a Hessian or the free_par at which ' +
                'the objective\\'s Hessian is to be evaluated.')
        hessian = objective.fun_free_hessian(free_par)
''')
edit(OU, '''    preconditioner = objective.preconditioner
    if sp.sparse.issparse(preconditioner):
        preconditioner = preconditioner.toarray()
    return np.linalg.solve(preconditioner, init_x)
''', '''    preconditioner = objective.preconditioner
    dense = preconditioner.toarray() \\
        if sp.sparse.issparse(preconditioner) else preconditioner
    return np.linalg.solve(dense, init_x)
''')
edit(OU, '''    if init_logger:
        objective.logger.initialize()
    if print_every is not None:
        objective.logger.print_every = print_every
    objective.preconditioning = precondition
    if precondition:
        assert objective.preconditioner is not None
        init_x_cond = get_conditioned_init_x(objective, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            hessp=objective.fun_free_hvp_cond,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': gtol, 'disp': disp})
        opt_x = objective.uncondition_x(obj_opt.x)
    else:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x,
            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': gtol, 'disp': disp})
        opt_x = obj_opt.x

    return opt_x, obj_opt
''', '''    prepare_objective(objective, precondition, print_every, init_logger)
    options = {'maxiter': maxiter, 'gtol': gtol, 'disp': disp}
    if not precondition:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x,
            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
            method='trust-ncg', options=options)
        return obj_opt.x, obj_opt

    assert objective.preconditioner is not None
    obj_opt = sp.optimize.minimize(
        lambda par: objective.fun_free_cond(par, verbose=disp),
        x0=get_conditioned_init_x(objective, init_x),
        jac=objective.fun_free_grad_cond,
        hessp=objective.fun_free_hvp_cond,
        method='trust-ncg', options=options)
    return objective.uncondition_x(obj_opt.x), obj_opt


def prepare_objective(objective, precondition, print_every, init_logger):
    objective.preconditioning = precondition
    if init_logger:
        objective.logger.initialize()
    if print_every is not None:
        objective.logger.print_every = print_every
''')
edit(OU, '''    if init_logger:
        objective.logger.initialize()

    if print_every is not None:
        objective.logger.print_every = print_every
    objective.preconditioning = precondition
    if precondition:
        assert objective.preconditioner is not None
        init_x_cond = get_conditioned_init_x(objective, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = objective.uncondition_x(obj_opt.x)
    else:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x,
            jac=objective.fun_free_grad,
            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = obj_opt.x

    return opt_x, obj_opt
''', '''    prepare_objective(objective, precondition, print_every, init_logger)
    if precondition:
        assert objective.preconditioner is not None
        fun, grad = objective.fun_free_cond, objective.fun_free_grad_cond
        x0 = get_conditioned_init_x(objective, init_x)
    else:
        fun, grad = objective.fun_free, objective.fun_free_grad
        x0 = init_x
    obj_opt = sp.optimize.minimize(
        lambda par: fun(par, verbose=disp), x0=x0, jac=grad,
        method='BFGS', options={'maxiter': maxiter, 'disp': disp})
    opt_x = objective.uncondition_x(obj_opt.x) if precondition else obj_opt.x
    return opt_x, obj_opt
''')
edit(OU, '''    x_diff = float('inf')
    f_diff = float('inf')
    converged = False
    f_val = objective.fun_free(init_x)
    i = 0
    x = init_x

    while i < max_iter and (not converged):
        if disp:
            print('\\n---------------------------------\\n' +
                  'Repeated optimization iteration ', i)
        i += 1
        new_x, obj_opt''', '''    converged = False
    x = init_x
    f_val = objective.fun_free(x)

    for i in range(1, max_iter + 1):
        if disp:
            print('\\n---------------------------------\\n' +
                  'Repeated optimization iteration ', i - 1)
        new_x, obj_opt''')
edit(OU, '''        # Check convergence.
        new_f_val = objective.fun_free(new_x)
        grad_val = objective.fun_free_grad(new_x)

        x_diff = np.sum(np.abs(new_x - x))
        f_diff = np.abs(new_f_val - f_val)
        grad_l1 = np.sum(np.abs(grad_val))
        x_conv''', '''        # Check convergence.
        grad_l1 = np.sum(np.abs(objective.fun_free_grad(new_x)))
        new_f_val = objective.fun_free(new_x)
        f_diff = np.abs(f_val - new_f_val)
        x_diff = np.sum(np.abs(x - new_x))
        x_conv''')
edit(OU, '''                i, x_diff, f_diff, grad_l1))

    return new_x''', '''                i, x_diff, f_diff, grad_l1))
        if converged:
            break

    return new_x''')

# --- conjugate gradients
edit(CG, '''    split_vec1 = np.full(len(vec), False)
    split_vec2 = np.full(len(vec), False)
    true_inds = np.argwhere(vec)
    num_true = len(true_inds)
    len1 = int(num_true / 2)
    len2 = num_true - len1
    if len1 > 0:
        split_vec1[true_inds[0:len1]] = True
    if len2 > 0:
        split_vec2[true_inds[len1:(len1 + len2)]] = True
    return split_vec1, split_vec2
''', '''    true_inds = np.flatnonzero(vec)
    half = len(true_inds) // 2
    halves = []
    for inds in (true_inds[:half], true_inds[half:]):
        mask = np.zeros(len(vec), dtype=bool)
        mask[inds] = True
        halves.append(mask)
    return halves[0], halves[1]
''')
edit(CG, '''    if np.sum(mask) > terminate_len:
        # Split and recurse
        mask1, mask2 = split_vector(mask)
        recursive_split(mask1, results=results, terminate_len=terminate_len)
        recursive_split(mask2, results=results, terminate_len=terminate_len)
    else:
        results.append(mask)
''', '''    if np.sum(mask) <= terminate_len:
        results.append(mask)
        return
    for half in split_vector(mask):
        recursive_split(half, results=results, terminate_len=terminate_len)
''')
edit(CG, '''    masks = []
    ind = 0
    while ind < full_len:
        mask = np.full(full_len, False)
        ind_end = min(ind + min_mask_len, full_len)
        mask[ind:ind_end] = True
        masks.append(mask)
        ind += min_mask_len
    return masks
''', '''    inds = np.arange(full_len)
    return [(inds >= start) & (inds < start + min_mask_len)
            for start in range(0, full_len, min_mask_len)]
''')
edit(CG, '''        hinv_vec, cg_info = sp.sparse.linalg.cg(
            self.ObjHessVecProdLO, vec, x0=x0,
            tol=self.tol, M=self.preconditioner)
        return hinv_vec, cg_info
''', '''        return sp.sparse.linalg.cg(
            self.ObjHessVecProdLO, vec, x0=x0,
            tol=self.tol, M=self.preconditioner)
''')
edit(CG, '''        ind = 0
        for mask in masks:
            ind = ind + 1
            if verbose''', '''        for ind, mask in enumerate(masks, 1):
            if verbose''')
edit(CG, '''            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
            cg_time = time.time()
            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
            cg_time = time.time() - cg_time
            self.times.append(cg_time)
            self.vecs.append(vec_masked)
            self.masks.append(mask)
            self.hinv_vecs.append(hinv_vec)
            self.cg_infos.append(cg_info)
''', '''            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
            start_time = time.time()
            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
            self.times.append(time.time() - start_time)
            self.cg_infos.append(cg_info)
            self.hinv_vecs.append(hinv_vec)
            self.vecs.append(vec_masked)
            self.masks.append(mask)
''')

# --- regression
edit(R, '''    d = len(np.shape(x1))
    einsum_indx2 = list(range(d - 1))
    einsum_indx2.append(d)
    einsum_indx_out = list(range(d - 2))
    einsum_indx_out.append(d-1)
    einsum_indx_out.append(d)

    return np.einsum(x1, list(range(d)),
                      x2, einsum_indx2,
                      einsum_indx_out)
''', '''    d = len(np.shape(x1))
    outer = list(range(d - 2))
    row, col1, col2 = d - 2, d - 1, d
    return np.einsum(x1, outer + [row, col1],
                     x2, outer + [row, col2],
                     outer + [col1, col2])
''')
edit(R, '''    einsum_indx1 = list(range(d2))
    einsum_indx1.append(d1)
    einsum_indx1.append(d1 + 1)
    einsum_indx2 = list(range(d1 + 1))
    einsum_indx_out = list(range(d2))
    einsum_indx_out.append(d1 + 1)

    return np.einsum(x, einsum_indx1,
                     y, einsum_indx2, einsum_indx_out)
''', '''    shared = list(range(d2))
    return np.einsum(x, shared + [d1, d1 + 1],
                     y, list(range(d1)) + [d1],
                     shared + [d1 + 1])
''')
edit(R, '''    homosked = np.isscalar(info) # whether the errors are homoskedastic
    if homosked:
        # info is just a scalar
        info_x = x * info
    else:
        # info is n_t x n_t
        assert np.shape(info)[-1] == np.shape(info)[-2]
        assert np.shape(info)[-1] == np.shape(x)[-2]
        assert len(np.shape(info)) == len(np.shape(x))

        info_x = mat_mul_last2dims(info, x)


    nat_param1 = matvec_mul_last2dims(info_x, y)
    nat_param2 = -0.5 * mat_mul_last2dims(x, info_x) * n_per_dim

    return nat_param1, nat_param2
''', '''    info_x = _info_times_x(info, x)
    nat_param2 = -0.5 * n_per_dim * mat_mul_last2dims(x, info_x)
    return matvec_mul_last2dims(info_x, y), nat_param2


def _info_times_x(info, x):
    if np.isscalar(info):
        # homoskedastic errors
        return info * x
    assert len(np.shape(info)) == len(np.shape(x))
    assert np.shape(info)[-1] == np.shape(info)[-2]
    assert np.shape(info)[-1] == np.shape(x)[-2]
    return mat_mul_last2dims(info, x)
''')
edit(R, '''    info = -2 * nat_param2
    mean = matvec_mul_last2dims(np.linalg.inv(info), nat_param1)

    return mean, info
''', '''    info = -2 * nat_param2
    cov = np.linalg.inv(info)
    return matvec_mul_last2dims(cov, nat_param1), info
''')
edit(R, '''    mean, _ = get_mvn_from_nat_params(nat_param1, nat_param2)

    return mean
''', '''    return get_mvn_from_nat_params(nat_param1, nat_param2)[0]
''')
edit(R, '''    nat_param1, nat_param2 = get_nat_params_from_likelihood(y, x, info)
    prior_nat_param1, prior_nat_param2 = \\
        get_nat_params_from_prior(prior_means, prior_infos)

    return get_mvn_from_nat_params(nat_param1 + prior_nat_param1,
                                  nat_param2 + prior_nat_param2)
''', '''    prior = get_nat_params_from_prior(prior_means, prior_infos)
    likelihood = get_nat_params_from_likelihood(y, x, info)
    return get_mvn_from_nat_params(
        *[p + l for p, l in zip(prior, likelihood)])
''')

# --- Modeling
edit(MO, '''    draws_axis = z_sd.ndim
    z_draws = \\
        np.expand_dims(z_sd, axis=draws_axis) * std_draws + \\
        np.expand_dims(z_mean, axis=draws_axis)
''', '''    z_draws = z_sd[..., None] * std_draws + z_mean[..., None]
''')
edit(MO, '''    logit_term = \\
        np.sum(np.logaddexp(0., z_draws)) / std_draws.size
    return np.sum(y * z_mean) - logit_term
''', '''    num_draws = std_draws.size
    linear_term = np.sum(z_mean * y)
    return linear_term - np.sum(np.logaddexp(z_draws, 0.)) / num_draws
''')
edit(MO, '''    if aggregate_all:
        return np.sum(logit_term)
    else:
        return np.sum(logit_term, axis=draws_axis)


def get''', '''    per_obs = np.sum(logit_term, axis=-1)
    return np.sum(per_obs) if aggregate_all else per_obs


def get''')
edit(MO, '''    draw_spacing = 1 / float(num_draws + 1)
    target_quantiles = np.linspace(draw_spacing, 1 - draw_spacing, num_draws)
    return osp.stats.norm.ppf(target_quantiles)
''', '''    quantiles = np.linspace(0, 1, num_draws + 2)[1:-1]
    return osp.stats.norm.ppf(quantiles)
''')
edit(MO, '''    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \\
           - 0.5 * np.log(2 * np.pi)
''', '''    log_norm = 0.5 * (np.log(u_info) - np.log(2 * np.pi))
    return log_norm - 0.5 * u_info * (u - u_mean)**2
''')


def apply(root):
    for f, old, new, count in EDITS:
        p = os.path.join(root, PKG, f)
        s = open(p).read()
        assert s.count(old) == count, (f, s.count(old), old)
        with open(p, 'w') as out:
            out.write(s.replace(old, new))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def run(props):
    d = tempfile.mkdtemp(prefix='quiet_', dir='/tmp')
    try:
        sh(['cp', '-a', '/repo', d + '/repo'])
        os.makedirs(d + '/verif')
        sh('cp -a check.sh run.py mc checks known_findings.json %s/verif' % d, shell=True, cwd=VERIF)
        apply(d + '/repo')
        env = dict(os.environ, PYTHONPATH=d + '/repo', PYTHONDONTWRITEBYTECODE='1',
                   OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'],
               cwd=d + '/repo', env=env)
        print(t.stdout.strip().split('\n')[-1], flush=True)
        allp = props or sorted(os.path.basename(f)[:-3].upper()
                               for f in glob.glob(VERIF + '/checks/c*.py'))
        for prop in allp:
            r = sh(['unshare', '-Urm', 'bash', '-c',
                    'mount --bind %s/repo /repo && mount --bind %s/verif /verif && '
                    'cd /verif && exec ./check.sh %s' % (d, d, prop)],
                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            lines = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'what' in l]
            print(prop, r.returncode, r.stdout.strip().split('\n')[-1][:150], flush=True)
            if r.returncode:
                print(r.stdout[-3000:], flush=True)
    finally:
        sh(['rm', '-rf', d])


if __name__ == '__main__':
    if sys.argv[1] == 'apply':
        apply(sys.argv[2])
    else:
        run(sys.argv[2:])
