"""Misbehaving iterative solvers and preconditioners (scripts drawn by the seed)."""

import numpy as np

from . import lin


def noise(ch, n, scale):
    """Reproducible pseudo-random vector."""
    seed = ch.draw(1 << 20, "noise")
    rng = np.random.RandomState(seed)
    return scale*(rng.randn(n)+1j*rng.randn(n))


def misbehave(env, modes, p=0.7, nan=True):
    """Handler function for the iterative solver: the outcome of every call is a seeded choice."""
    ch = env.ch

    def fct(sim, call, real):
        n = len(call.b)
        if n == 0 or not ch.flag(p, "misbehave"):
            return real()
        mode = ch.pick(modes, "mode")
        env.fault("solver-"+mode)
        if mode == "lie-success":
            (x, _) = real(maxiter=1, **({"restart": 1} if call.name == "gmres" else {"m": 1}))
            return x, 0
        if mode == "lie-failure":
            (x, _) = real()
            return x, ch.pick([1, 7, -1], "flag")
        if mode == "garbage":
            x = noise(ch, n, ch.pick([1.0, 1e-3, 1e6], "scale"))
            if call.callback is not None:
                call.callback(x)
            return x, ch.pick([0, 3], "flag")
        if mode == "perturbed":
            (x, flag) = real()
            s = ch.pick([1e-2, 1e-5, 1e-8, 1e-10], "eps")
            return x+noise(ch, n, s*(1e-30+np.max(np.abs(x)))), ch.pick([0, flag], "flag")
        if mode == "initial":
            x = np.zeros(n, dtype=complex) if call.x0 is None else np.array(call.x0)
            return x, ch.pick([0, 1], "flag")
        if mode == "nan":
            x = np.full(n, np.nan+0j)
            return x, ch.pick([0, 1], "flag")
        if mode == "nan-one":
            (x, flag) = real()
            x = np.array(x)
            x[ch.draw(n, "pos")] = np.nan
            return x, flag
        if mode == "inf":
            (x, flag) = real()
            x = np.array(x)
            x[ch.draw(n, "pos")] = np.inf
            return x, flag
        raise AssertionError(mode)
    return fct


def faulty_lu(env, p=0.5):
    """Factorizations that return wrong vectors (poor preconditioner)."""
    ch = env.ch

    def splu(sim, real, args, kwargs):
        lu = real(*args, **kwargs)
        if not ch.flag(p, "lu"):
            return lu
        mode = ch.pick(["scaled", "noise", "zero", "identity"], "lumode")
        env.fault("preconditioner-"+mode)
        eps = ch.pick([1e-3, 1e-1, 1.0], "lueps")

        def solve(lu_, b, *a, **k):
            y = lu_.solve(b, *a, **k)
            if mode == "scaled":
                return (1+eps)*y
            if mode == "noise":
                return y+eps*np.max(np.abs(y), initial=0.0)*np.cos(np.arange(y.size)).reshape(y.shape)
            if mode == "zero":
                y = np.array(y)
                y[::2] = 0
                return y
            return np.array(b, dtype=y.dtype).reshape(y.shape)
        return lin.FaultyLU(lu, solve)
    return splu
