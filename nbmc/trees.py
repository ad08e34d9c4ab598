"""Rooted trees: the finite basis of the Taylor expansion of any ODE solution.

For a tree [c1 .. cm] of order 1 + sum(order(ci)), the system

    y_tau' = product of y_ci      (empty product = 1)

started at zero has y_tau(h) = h^|tau| / gamma(tau), and one step of a method
gives h^|tau| * (sum_i b_i Phi_i(tau)): equal for all trees up to order p if and
only if the method has order p (Butcher). So integrating this one system decides
the order conditions of the implementation, through its public API.
"""

from functools import lru_cache


@lru_cache(None)
def trees(order):
    """All rooted trees with `order` vertices, as sorted tuples of children."""
    if order == 1:
        return ((),)
    out = set()
    for parts in partitions(order - 1):
        stack = [()]
        for p in parts:
            stack = [s + (c,) for s in stack for c in trees(p)]
        for s in stack:
            out.add(tuple(sorted(s, key=repr)))
    return tuple(sorted(out, key=repr))


def partitions(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield ()
        return
    for k in range(min(n, top), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


def order(t):
    return 1 + sum(order(c) for c in t)


def gamma(t):
    g = order(t)
    for c in t:
        g *= gamma(c)
    return g


@lru_cache(None)
def system(p):
    """(list of trees up to order p, children indices of each)."""
    all_trees = [t for q in range(1, p + 1) for t in trees(q)]
    index = {t: i for i, t in enumerate(all_trees)}
    kids = [[index[c] for c in t] for t in all_trees]
    return all_trees, kids


def rhs(p, timed, t0):
    """Right-hand side of the tree system; `timed` replaces the components of
    the one-vertex tree, wherever used, by the time itself."""
    import numpy as np

    all_trees, kids = system(p)
    leaf = 0

    def f(t, y):
        out = np.ones(len(kids))
        for i, ks in enumerate(kids):
            v = 1.0
            for k in ks:
                v *= (t - t0) if (timed and k == leaf) else y[k]
            out[i] = v
        return out

    return f


def compiled_rhs(p, timed, t0):
    """The same right-hand side, compiled."""
    import numba
    import numpy as np

    _, kids = system(p)
    start = np.cumsum([0] + [len(k) for k in kids])
    flat = np.array([k for ks in kids for k in ks] + [0])
    n = len(kids)

    @numba.njit
    def f(t, y):
        out = np.ones(n)
        for i in range(n):
            v = 1.0
            for j in range(start[i], start[i + 1]):
                k = flat[j]
                if timed and k == 0:
                    v *= t - t0
                else:
                    v *= y[k]
            out[i] = v
        return out

    return f
