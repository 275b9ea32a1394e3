"""C03: transverse comoving and angular diameter distances."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo

ASSUMPTIONS = ["double precision", "scale factors between 1e-3 and 1, |Omega_k| <= 0.5"]
N = 6


@memo
def dist_jit(gamma):
    jax, B = J.jax, J.jc.background

    @jax.jit
    def f(v, a):
        c = gens.from_vec(v, gamma)
        return (B.radial_comoving_distance(c, a), B.transverse_comoving_distance(c, a),
                B.angular_diameter_distance(c, a))

    return f


@memo
def dist_vmap():
    return J.jax.jit(J.jax.vmap(dist_jit(False), in_axes=(0, None)))


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.wide(), a=gens.scale_factors(0.001, 1.0, N, N), eager=s.integers(0, 24).map(lambda i: i == 24)))


def check(case, ctx):
    c, an = case["c"], np.array(case["a"])
    gens.labels(ctx, c)
    ctx.nontrivial(c["Omega_k"] != 0)
    if case["eager"]:
        B, cos = J.jc.background, gens.make(c)
        chi, ft, da = [sut(n, getattr(B, n), cos, an) for n in
                       ("radial_comoving_distance", "transverse_comoving_distance", "angular_diameter_distance")]
    else:
        chi, ft, da = sut("distances under jit", dist_jit(c["gamma"] is not None), np.array(gens.vec(c)), an)
    compare(ctx, c, an, chi, ft, da)


def compare(ctx, c, an, chi, ft, da):
    want = refs.transverse(c, chi)
    close(ctx, "transverse distance of the radial one", ft, want, rtol=1e-9, atol=1e-9)
    close(ctx, "angular diameter distance = a * transverse", da, an * want, rtol=1e-9, atol=1e-9)
    close(ctx, "transverse distance", ft, refs.transverse(c, refs.chi(c, an)), rtol=4e-4, atol=0.7 * gens.slack(c))
    far = chi > 50
    if c["Omega_k"] > 0:
        require(np.all(ft[far] > chi[far]), "open universe: transverse not above radial")
    if c["Omega_k"] < 0:
        require(np.all(ft[far] < chi[far]), "closed universe: transverse not below radial")


def batch_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.cosmo(gamma=False), ks=s.lists(s.one_of(s.just(0.0), gens.num(0.05, -0.3, 0.5)), min_size=4, max_size=4),
        a=gens.scale_factors(0.01, 1.0, N, N)))


def check_batch(case, ctx):
    """A batch of cosmologies of different geometries, evaluated together with vmap."""
    an = np.array(case["a"])
    cs = [dict(case["c"], Omega_k=k) for k in case["ks"]]
    ctx.nontrivial(len(set(np.sign(case["ks"]))) > 1)
    ctx.label("%d geometries in the batch" % len(set(np.sign(case["ks"]))))
    out = sut("distances under vmap", dist_vmap(), np.array([gens.vec(c) for c in cs]), an)
    for c, chi, ft, da in zip(cs, *out):
        compare(ctx, c, an, chi, ft, da)


def cont_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False, curved=False), e=s.integers(3, 9), a=gens.num(0.5, 0.01, 0.99)))


def check_cont(case, ctx):
    """The three geometries join continuously at Omega_k = 0."""
    e = 10.0 ** -case["e"]
    out = []
    for k in (-e, 0.0, e):
        c = dict(case["c"], Omega_k=k)
        out.append(sut("distances under jit", dist_jit(False), np.array(gens.vec(c)), np.full(N, case["a"]))[1][0])
    ctx.nontrivial()
    close(ctx, "continuity at Omega_k = 0", np.array(out), np.full(3, out[1]), rtol=8 * e, atol=1e-8)


SUBS = [
    Sub("distances", cases, check, quick=500, thorough=50000,
        rule="a random cosmology and 6 scale factors; non-trivial: the universe is curved",
        examples=[dict(c=dict(gens.FIDUCIAL, Omega_k=k), a=[1.0, 0.5, 0.1, 0.01, 0.9, 0.3], eager=True)
                  for k in (0.1, -0.1, 0.0)]),
    Sub("batches", batch_cases, check_batch, quick=150, thorough=10000,
        rule="four geometries evaluated in one vmap; non-trivial: they include different signs of curvature"),
    Sub("continuity", cont_cases, check_cont, quick=80, thorough=4000,
        rule="flat cosmology with Omega_k = 0 and +-10^-e; all cases are non-trivial"),
]
