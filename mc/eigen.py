"""Eigenvalues of small symmetric matrices by Jacobi rotations, on lists."""
import math


def eigh(a):
    """(values, vectors): a = sum_k values[k] v_k v_k', v_k = vectors[k]."""
    n = len(a)
    a = [[float(x) for x in row] for row in a]
    v = [[1. if i == j else 0. for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        top = max([abs(a[i][j]) for i in range(n) for j in range(n)] + [0.])
        if off <= (1e-17 * top) ** 2:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if a[p][q] == 0.:
                    continue
                theta = (a[q][q] - a[p][p]) / (2. * a[p][q])
                t = (1. if theta >= 0 else -1.) / (
                    abs(theta) + math.sqrt(theta * theta + 1.))
                c = 1. / math.sqrt(t * t + 1.)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                    x, y = v[p][k], v[q][k]
                    v[p][k], v[q][k] = c * x - s * y, s * x + c * y
    return [a[i][i] for i in range(n)], v


def function(values, vectors, f):
    """sum_k f(values[k]) v_k v_k'"""
    n = len(values)
    g = [f(x) for x in values]
    return [[sum(g[k] * vectors[k][i] * vectors[k][j] for k in range(n))
             for j in range(n)] for i in range(n)]


def symmetrized(a):
    n = len(a)
    return [[0.5 * (float(a[i][j]) + float(a[j][i])) for j in range(n)]
            for i in range(n)]


def clip(x, lo, hi):
    if lo is not None and x < lo:
        x = lo
    if hi is not None and x > hi:
        x = hi
    return x
