"""C04: linear growth factor and growth rate."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo

ASSUMPTIONS = ["double precision", "scale factors between 1e-3 and 1"]
N = 8


@memo
def growth_jit(gamma):
    jax, B = J.jax, J.jc.background

    @jax.jit
    def f(v, a):
        c = gens.from_vec(v, gamma)
        return B.growth_factor(c, a), B.growth_rate(c, a)

    return f


def compute(c, an, mode):
    if mode == "jit":
        return sut("growth under jit", growth_jit(c["gamma"] is not None), np.array(gens.vec(c)), an)
    B, cos = J.jc.background, gens.make(c)
    if mode == "rate first":
        f = sut("growth_rate", B.growth_rate, cos, an)
        return sut("growth_factor", B.growth_factor, cos, an), f
    d = sut("growth_factor", B.growth_factor, cos, an)
    return d, sut("growth_rate", B.growth_rate, cos, an)


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.wide(), a=gens.scale_factors(0.001, 1.0, N, N),
        mode=s.integers(0, 19).map(lambda i: "rate first" if i == 19 else "eager" if i == 18 else "jit")))


def check(case, ctx):
    c, an = case["c"], np.array(case["a"])
    gens.labels(ctx, c)
    ctx.label(case["mode"])
    ctx.nontrivial(len(set(case["a"])) > 1)
    d, f = compute(c, an, case["mode"])
    dr, fr = refs.growth(c, an)
    # the growth starts at a = 1e-3, and is interpolated linearly between 128 knots
    close(ctx, "growth_factor", d, dr, rtol=1e-3 * gens.slack(c))
    close(ctx, "growth_rate", f, fr, rtol=3e-3 * gens.slack(c))
    require(np.all(d <= 1 + 1e-9) and np.all(d > 0), "growth factor outside (0, 1]: %s" % d)
    if np.any(an == 1.0):
        close(ctx, "D(1)", d[an == 1.0], np.ones(int((an == 1.0).sum())), rtol=1e-9)
    i = np.argsort(an)
    require(np.all(np.diff(d[i])[np.diff(an[i]) > 1e-9] > 0), "growth factor does not increase: %s" % d[i])


def gamma_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.wide(gamma=False), g=s.one_of(gens.num(0.55, 0.2, 1.0), gens.num(0.55, 0.2, 1.0), s.sampled_from([0.0, 1.0, 0, 1])), mode=s.sampled_from(["jit"] * 7 + ["eager", "rate first"]), a=gens.scale_factors(0.001, 1.0, N, N)))


def check_gamma(case, ctx):
    """With gamma, f = Omega_m(a)^gamma exactly and D integrates f."""
    c, an = dict(case["c"], gamma=case["g"]), np.array(case["a"])
    gens.labels(ctx, c)
    ctx.nontrivial()
    d, f = compute(c, an, case["mode"])
    close(ctx, "growth_rate = Omega_m(a)^gamma", f, refs.om_a(c, an) ** case["g"], rtol=1e-9)
    close(ctx, "growth_factor of gamma", d, refs.growth(c, an)[0], rtol=1e-3 * gens.slack(c))


def limit_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(Omega_b=gens.num(0.05, 0.02, 0.08), h=gens.num(0.7, 0.5, 0.9), a=gens.scale_factors(0.001, 1.0, N, N)))


def check_limit(case, ctx):
    """Einstein-de Sitter: D = a and f = 1."""
    c = dict(gens.FIDUCIAL, Omega_b=case["Omega_b"], Omega_c=1.0 - case["Omega_b"], h=case["h"])
    an = np.array(case["a"])
    ctx.nontrivial(np.any(an < 1))
    d, f = compute(c, an, "jit")
    close(ctx, "Einstein-de Sitter growth factor", d, an, rtol=2e-4)
    close(ctx, "Einstein-de Sitter growth rate", f, np.ones(N), rtol=2e-4)


SUBS = [
    Sub("growth", cases, check, quick=700, thorough=60000,
        rule="a random cosmology and 8 scale factors in [1e-3, 1]; non-trivial: more than one scale factor",
        examples=[dict(c=dict(gens.FIDUCIAL, gamma=g), a=[1.0, 0.999, 0.9, 0.5, 0.3, 0.1, 0.01, 0.002], mode=m)
                  for g in (None, 0.55) for m in ("jit", "eager", "rate first")]),
    Sub("gamma", gamma_cases, check_gamma, quick=200, thorough=20000,
        rule="a random cosmology with gamma growth; all cases are non-trivial",
        examples=[dict(c=gens.FIDUCIAL, g=g, mode=m, a=[1.0, 0.999, 0.9, 0.5, 0.3, 0.1, 0.01, 0.002]) for g in (0.0, 0, 1) for m in ("eager", "rate first")]),
    Sub("limits", limit_cases, check_limit, quick=50, thorough=2000,
        rule="Einstein-de Sitter universes; non-trivial: some a < 1"),
]
