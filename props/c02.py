"""C02: radial comoving distance and its inverse."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, Violation, close, require, sut
from vlib.lazy import J, memo

ASSUMPTIONS = ["double precision", "scale factors between 1e-3 and 1, the range of the tables"]

N = 8


@memo
def chi_jit(gamma):
    jax, B = J.jax, J.jc.background

    @jax.jit
    def f(v, a):
        c = gens.from_vec(v, gamma)
        chi = B.radial_comoving_distance(c, a)
        return chi, B.a_of_chi(c, chi), B.dchioverda(c, a)

    return f


def compute(c, a, eager):
    if eager:
        B, cos = J.jc.background, gens.make(c)
        chi = sut("radial_comoving_distance", B.radial_comoving_distance, cos, np.array(a))
        return chi, sut("a_of_chi", B.a_of_chi, cos, chi), sut("dchioverda", B.dchioverda, cos, np.array(a))
    return sut("radial distances under jit", chi_jit(c["gamma"] is not None),
               np.array(gens.vec(c)), np.array(a))


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.wide(), a=gens.scale_factors(0.001, 1.0, N, N), eager=s.integers(0, 19).map(lambda i: i == 19)))


# the tables are interpolated linearly, with about half a Mpc/h of error
ATOL, RTOL = 0.7, 3e-4


def check(case, ctx):
    c, a = case["c"], case["a"]
    gens.labels(ctx, c)
    ctx.label("eager" if case["eager"] else "jit")
    chi, back, dchi = compute(c, a, case["eager"])
    an = np.array(a)
    ctx.nontrivial(len(set(a)) > 1)
    close(ctx, "radial_comoving_distance", chi, refs.chi(c, an), rtol=RTOL, atol=ATOL * gens.slack(c))
    close(ctx, "dchioverda", dchi, refs.RH / (an**2 * np.sqrt(refs.esqr(c, an))), rtol=1e-10)
    close(ctx, "a_of_chi inverts radial_comoving_distance", back, an, rtol=1e-6, atol=1e-9)
    i = np.argsort(an)
    d, s = np.diff(chi[i]), np.diff(an[i])
    require(np.all(d[s > 1e-9] < 0) and np.all(d[s == 0] == 0) and np.all(chi >= 0),
            "distances do not decrease with the scale factor: a=%s chi=%s" % (an[i], chi[i]))
    if np.any(an == 1.0):
        require(np.all(np.abs(chi[an == 1.0]) < 1e-6), "distance to a = 1 is not 0: %s" % chi)


def inv_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.wide(), x=s.lists(gens.num(0.3, 0.0, 0.97), min_size=N, max_size=N)))


@memo
def inv_jit(gamma):
    jax, B = J.jax, J.jc.background

    @jax.jit
    def f(v, chi):
        c = gens.from_vec(v, gamma)
        a = B.a_of_chi(c, chi)
        return a, B.radial_comoving_distance(c, a)

    return f


def check_inv(case, ctx):
    c = case["c"]
    gens.labels(ctx, c)
    ctx.nontrivial(max(case["x"]) > 0)
    chi = np.array(case["x"]) * refs.chi(c, np.array(1.2e-3))
    a, back = sut("a_of_chi under jit", inv_jit(c["gamma"] is not None), np.array(gens.vec(c)), chi)
    close(ctx, "chi(a_of_chi(chi))", back, chi, rtol=1e-6, atol=1e-4)
    # against the exact relation: a displacement of half a Mpc/h at most
    slope = a**2 * np.sqrt(refs.esqr(c, np.clip(a, 1e-3, 1.0))) / refs.RH
    require(np.all(a <= 1 + 1e-9) and np.all(a > 0), "a_of_chi outside (0, 1]: %s" % a)
    close(ctx, "a_of_chi", refs.chi(c, np.clip(a, 1e-4, 1.0)), chi, rtol=RTOL, atol=ATOL * gens.slack(c))


def table_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.cosmo(gamma=False), lo=s.sampled_from([-3, -2, -1, -2.5, -4, -5]), steps=s.sampled_from([256, 512, 1024, 300, 100]),
        u=s.lists(gens.num(0.5, 0.0, 1.0), min_size=3, max_size=3), first=s.booleans()))


def check_table(case, ctx):
    """Other table settings, also when the same cosmology used the default ones before or after."""
    c, B = case["c"], J.jc.background
    gens.labels(ctx, c)
    cos = gens.make(c)
    lo, steps = case["lo"], case["steps"]
    a = 10.0 ** (lo * np.array(case["u"]))
    if case["first"]:
        sut("radial_comoving_distance", B.radial_comoving_distance, cos, a)
    got = sut("radial_comoving_distance with other tables", B.radial_comoving_distance, cos, a,
              log10_amin=lo, steps=steps)
    ctx.nontrivial((lo, steps) != (-3, 256))
    tol = ATOL * max(1.0, (lo / 3.0 * 256.0 / steps) ** 2) if steps < 256 else ATOL * (lo / 3.0 * 256.0 / steps) ** 2 * 1.2
    close(ctx, "distance with its own table", got, refs.chi(c, a), rtol=RTOL, atol=tol)
    again = sut("radial_comoving_distance", B.radial_comoving_distance, cos, a)
    ok = a >= 1e-3
    close(ctx, "distance with the default table", again[ok], refs.chi(c, a)[ok], rtol=RTOL, atol=ATOL)


SUBS = [
    Sub("distance", cases, check, quick=600, thorough=60000,
        rule="a random cosmology and 8 scale factors in [1e-3, 1]; non-trivial: more than one scale factor",
        examples=[dict(c=gens.FIDUCIAL, a=[1.0, 0.9995, 0.999, 0.99, 0.5, 0.1, 0.01, 0.0011], eager=True),
                  dict(c=gens.FIDUCIAL, a=[1.0, 0.9995, 0.999, 0.99, 0.5, 0.1, 0.01, 0.0011], eager=False)]),
    Sub("inverse", inv_cases, check_inv, quick=400, thorough=40000,
        rule="a random cosmology and 8 distances; non-trivial: some distance is positive"),
    Sub("tables", table_cases, check_table, quick=30, thorough=1500,
        rule="a random cosmology, table settings and scale factors; non-trivial: the settings are not the default"),
]
