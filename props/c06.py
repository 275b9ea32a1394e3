"""C06: linear matter power spectrum."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo
from props.c05 import ks

ASSUMPTIONS = ["double precision", "wave numbers between 1e-4 and 1e2 h/Mpc",
               "the sigma(R) integral of the library is a 128-interval Romberg rule: 1.5% on the normalisation with baryon wiggles, 0.4% without"]
N = 8
NORM = {"default": 0.015, "eisenhu_osc": 0.015, "eisenhu": 0.004, "custom": 0.004}


def toy_transfer(cosmo, k, **kw):
    """A user-supplied transfer function (BBKS-like)."""
    np_ = J.jnp
    q = k / (cosmo.Omega_m * cosmo.h)
    return np_.log(1.0 + 2.34 * q) / (2.34 * q) * (1.0 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


def toy_ref(c, k):
    q = k / (refs.om(c) * c["h"])
    return np.log(1.0 + 2.34 * q) / (2.34 * q) * (1.0 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


def shape_ref(c, k, kind):
    t = toy_ref(c, k) if kind == "custom" else refs.eh_transfer(c, k, kind != "eisenhu")
    return k ** c["n_s"] * t**2


def lin_kwargs(kind):
    if kind == "custom":
        return {"transfer_fn": toy_transfer}
    if kind == "default":
        return {}
    return {"type": kind}


KINDS = ["default", "eisenhu_osc", "eisenhu", "custom"]


@memo
def pk_jit(kind, gamma):
    P = J.jc.power
    return J.jax.jit(lambda v, k, a: P.linear_matter_power(gens.from_vec(v, gamma), k, a, **lin_kwargs(kind)))


def power(c, k, a, kind="default"):
    return sut("linear_matter_power", pk_jit(kind, c["gamma"] is not None), np.array(gens.vec(c)), k, a)


def reference(c, k, a, kind):
    norm = c["sigma8"] ** 2 / refs.tophat_variance(lambda q: shape_ref(c, q, kind), 8.0)
    return norm * shape_ref(c, k, kind) * refs.growth(c, a)[0] ** 2


def wide():
    """Not more baryons than dark matter: the quadrature of the library does not resolve larger oscillations."""
    return gens.wide().filter(lambda c: c["Omega_b"] <= c["Omega_c"])


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=wide(), k=ks(), a=gens.scale_factors(0.01, 1.0, N, N), kind=s.sampled_from(KINDS),
        eager=s.integers(0, 29).map(lambda i: i == 29)))


def check(case, ctx):
    c, k, a, kind = case["c"], np.array(case["k"]), np.array(case["a"]), case["kind"]
    gens.labels(ctx, c)
    ctx.label(kind, "eager" if case["eager"] else "jit")
    k = np.clip(k, 1e-4, 1e2)
    ctx.nontrivial(np.any(a < 1))
    if case["eager"]:
        p = sut("linear_matter_power", J.jc.power.linear_matter_power, gens.make(c), k, a, **lin_kwargs(kind))
    else:
        p = power(c, k, a, kind)
    close(ctx, "linear power spectrum", p, reference(c, k, a, kind), rtol=NORM[kind] * gens.slack(c))
    # the shape and the growth do not share the error of the normalisation
    sh = shape_ref(c, k, kind)
    ratio = p / (sh * refs.growth(c, a)[0] ** 2)
    close(ctx, "shape of the linear power spectrum", ratio / ratio[0], np.ones(N), rtol=3e-3 * gens.slack(c))
    g = sut("growth_factor", J.jc.background.growth_factor, gens.make(c), a) if case["eager"] else None
    if g is not None:
        ratio = p / (sh * g**2)
        close(ctx, "P(k, a) = D(a)^2 P(k, 1)", ratio / ratio[0], np.ones(N), rtol=1e-5)


def metamorphic_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=wide(), k=ks(), a=gens.num(0.5, 0.05, 1.0), s8=gens.num(0.8, 0.5, 1.1), n=gens.num(0.96, 0.8, 1.1),
        kind=s.sampled_from(KINDS)))


def check_metamorphic(case, ctx):
    c, k, kind = case["c"], np.clip(np.array(case["k"]), 1e-4, 1e2), case["kind"]
    one = np.ones(N)
    gens.labels(ctx, c)
    ctx.nontrivial(case["s8"] != c["sigma8"] or case["a"] != 1.0)
    p = power(c, k, one, kind)
    p2 = power(dict(c, sigma8=case["s8"]), k, one, kind)
    close(ctx, "P scales as sigma8^2", p2 / p, one * (case["s8"] / c["sigma8"]) ** 2, rtol=1e-9)
    pa = power(c, k, one * case["a"], kind)
    close(ctx, "P(k, a) / P(k, 1) does not depend on k", pa / p, one * (pa / p)[0], rtol=1e-9)
    close(ctx, "P(k, a) / P(k, 1) = D^2", (pa / p)[:1], refs.growth(c, [case["a"]])[0] ** 2, rtol=2.5e-3 * gens.slack(c))
    # tilt
    p3 = power(dict(c, n_s=case["n"]), k, one, kind)
    r = p3 / p * k ** (c["n_s"] - case["n"])
    close(ctx, "tilt", r / r[0], one, rtol=1e-9)
    # the power spectrum at a = 1 does not depend on curvature and dark energy
    p4 = power(dict(gens.FIDUCIAL, **{q: c[q] for q in ("Omega_c", "Omega_b", "h", "n_s", "sigma8")}), k, one, kind)
    close(ctx, "P today depends on sigma8 and on the shape only", p, p4, rtol=1e-9)


@memo
def sigma_jit(kind):
    P, T = J.jc.power, J.jc.transfer
    kw = dict(lin_kwargs(kind))
    fn = kw.pop("transfer_fn", T.Eisenstein_Hu)
    return J.jax.jit(lambda v, r: P.sigmasqr(gens.from_vec(v, False), r, fn, **kw))


def sigma_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=wide(), R=gens.lognum(8.0, 3.0, 40.0), kind=s.sampled_from(KINDS)))


def check_sigma(case, ctx):
    """sigma(R) of the spectrum: the integral itself, and sigma(8 Mpc/h) = sigma8."""
    c, kind, r = case["c"], case["kind"], case["R"]
    gens.labels(ctx, c)
    ctx.label(kind)
    ctx.nontrivial(r != 8.0)
    got = sut("sigmasqr", sigma_jit(kind), np.array(gens.vec(c)), r)
    close(ctx, "sigma^2(R) of the unnormalised spectrum", got,
          np.asarray(refs.tophat_variance(lambda q: shape_ref(c, q, kind), r)), rtol=0.02 * gens.slack(c), key="sigma^2(R)")
    # the normalised spectrum has variance sigma8^2
    kk = np.exp(np.linspace(np.log(1e-4), np.log(60.0), 3001))
    p = power(c, kk, np.ones_like(kk), kind)
    v = refs.tophat_variance(lambda q: np.exp(np.interp(np.log(q), np.log(kk), np.log(p))), 8.0)
    close(ctx, "sigma(8 Mpc/h) = sigma8", np.asarray(v**0.5), np.asarray(c["sigma8"]), rtol=NORM[kind] / 2 * gens.slack(c))


def prim_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=wide(), k=ks()))


def check_prim(case, ctx):
    k = np.array(case["k"])
    ctx.nontrivial(case["c"]["n_s"] != 1)
    got = sut("primordial_matter_power", J.jc.power.primordial_matter_power, gens.make(case["c"]), k)
    close(ctx, "primordial power", got, k ** case["c"]["n_s"], rtol=1e-10)


@memo
def range_jit(given):
    def f(v, r, k0, width, tilt, lo, hi):
        kw = dict(kmin=lo, kmax=hi) if given else {}
        return J.jc.power.sigmasqr(gens.from_vec(v, False), r, bump, k0=k0, width=width, tilt=tilt, **kw)

    return J.jax.jit(f)


def bump(cosmo, k, k0, width, tilt):
    """A transfer function whose spectrum is around one wave number, which is given by keywords; the tilt makes up for the
    window's fall at large kR, so that the variance is around that wave number as well."""
    return J.jnp.exp(-0.25 * (J.jnp.log(k / k0) / width) ** 2) * (k / k0) ** (0.5 * (tilt - 3.0 - cosmo.n_s))


def range_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(n=gens.num(0.96, 0.8, 1.1), R=gens.lognum(8.0, 0.05, 200.0), k0=gens.lognum(0.1, 1e-3, 500.0), width=gens.num(1.5, 1.2, 2.0),
                                     given=s.booleans(), lo=gens.lognum(1e-3, 1e-4, 0.1), hi=gens.lognum(100.0, 10.0, 3000.0), low=s.booleans(), eager=s.integers(0, 15).map(lambda i: i == 15)))


def check_ranges(case, ctx):
    """The variance of a spectrum around any wave number, in spheres of any radius, over a given range."""
    n, r, k0, width = case["n"], case["R"], case["k0"], case["width"]
    if case.get("low"):
        # where the window does not oscillate
        k0 = min(k0, 0.02 / r)
    tilt = 4.0 if k0 * r > 1.0 else 0.0
    lo, hi = (case["lo"], case["hi"]) if case["given"] else (1e-4, 1e3)
    if tilt:
        hi = max(hi, 3.0 * k0) if case["given"] else hi
    u = np.linspace(np.log(lo), np.log(hi), 400001)
    k = np.exp(u)
    x = k * r
    w = np.where(x < 0.01, 1.0 - x**2 / 10.0, 3.0 * (np.sin(x) - x * np.cos(x)) / x**3)
    y = k0 ** (3.0 + n) * (k / k0) ** tilt * w**2 * np.exp(-0.5 * (np.log(k / k0) / width) ** 2) / (2.0 * np.pi**2)
    want = np.sum(0.5 * (y[1:] + y[:-1])) * (u[1] - u[0])
    late = np.sum(y[x > 2.5]) / np.sum(y)
    ctx.label("given range" if case["given"] else "default range", "oscillating window" if late > 0.02 else "smooth window", "eager" if case["eager"] else "jit")
    ctx.nontrivial(r != 8.0)
    c = dict(gens.FIDUCIAL, n_s=n)
    if case["eager"]:
        got = sut("sigmasqr", J.jc.power.sigmasqr, gens.make(c), r, bump, k0=k0, width=width, tilt=tilt, **(dict(kmin=lo, kmax=hi) if case["given"] else {}))
    else:
        got = sut("sigmasqr", range_jit(case["given"]), np.array(gens.vec(c)), r, k0, width, tilt, lo, hi)
    if late <= 0.02:
        close(ctx, "variance of a spectrum", got, np.asarray(want), rtol=3e-4, key="smooth window")
    else:
        # the intervals do not resolve the oscillations of the window
        close(ctx, "logarithm of the variance of a spectrum", np.log(np.maximum(got, 1e-300)), np.log(np.asarray(want)), atol=1.0, key="oscillating window")


SUBS = [
    Sub("ranges", range_cases, check_ranges, quick=250, thorough=20000,
        rule="a spectrum around a random wave number, a radius in [0.05, 200] Mpc/h and a range of wave numbers, given or not; non-trivial: R is not 8",
        examples=[dict(n=0.96, R=r, k0=k0, width=1.5, given=g, lo=1e-3, hi=1e3, eager=False) for g in (True, False) for r, k0 in ((1.0, 300.0), (0.1, 200.0), (100.0, 0.003), (20.0, 30.0))]),
    Sub("spectrum", cases, check, quick=400, thorough=40000,
        rule="a random cosmology, transfer function, 8 wave numbers and 8 scale factors; non-trivial: some a < 1",
        examples=[dict(c=gens.FIDUCIAL, k=[1e-3, 1e-2, 2e-2, 5e-2, 0.1, 0.2, 1.0, 10.0], a=[1.0, 0.9, 0.5, 0.1, 1.0, 0.3, 0.7, 0.05],
                       kind=t, eager=True) for t in KINDS]),
    Sub("relations", metamorphic_cases, check_metamorphic, quick=200, thorough=20000,
        rule="two related spectra (other sigma8, a, tilt, dark energy); non-trivial: sigma8 or a differ"),
    Sub("sigma", sigma_cases, check_sigma, quick=200, thorough=20000,
        rule="a random cosmology and radius in [3, 40] Mpc/h; non-trivial: R is not 8"),
    Sub("primordial", prim_cases, check_prim, quick=60, thorough=2000,
        rule="a random cosmology and 8 wave numbers; non-trivial: the tilt is not 1"),
]
