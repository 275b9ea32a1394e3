"""C15: derivatives with respect to the cosmology."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, Violation, close, require, sut
from vlib.lazy import J, memo
from props import c06, c09, c10

ASSUMPTIONS = ["double precision", "one-sided and central finite differences bracket the derivative at the "
               "kinks of interpolation tables", "derivatives with respect to a scale factor inside or at the end of the tables"]

NAMES = gens.PARAMS + ("gamma",)
STEPS = np.array([2e-4, 1e-4, 2e-4, 2e-4, 2e-4, 2e-4, 2e-4, 2e-4, 2e-4])


def stencil(F, v, n, *args):
    """Values of F around v: central and one-sided differences, second order."""
    h = STEPS[:n]
    shifts = np.concatenate([np.zeros((1, n))] + [s * np.diag(h) for s in (-2.0, -1.0, 1.0, 2.0)])
    shifts = np.pad(shifts, ((0, 0), (0, len(v) - n)))
    out = [np.asarray(F(v + d, *args)) for d in shifts]
    f0, out = out[0], np.array(out[1:]).reshape((4, n) + out[0].shape)
    hh = h.reshape((n,) + (1,) * (out.ndim - 2))
    central = (8 * (out[2] - out[1]) - (out[3] - out[0])) / (12 * hh)
    left = (3 * f0 - 4 * out[1] + out[0]) / (2 * hh)
    right = (-3 * f0 + 4 * out[2] - out[3]) / (2 * hh)
    return f0, central, left, right


def both(build, gamma):
    """Forward and reverse derivatives, and finite differences, of build(cosmology, ...)."""
    from concurrent.futures import ThreadPoolExecutor

    jax, jnp = J.jax, J.jnp
    n = 9 if gamma else 8
    f = lambda v, *args: build(gens.from_vec(v, gamma), *args)
    fns = [f, lambda v, *args: jnp.moveaxis(jax.jacfwd(f)(v, *args), -1, 0)[:n], lambda v, *args: jnp.moveaxis(jax.jacrev(f)(v, *args), -1, 0)[:n]]
    ready = []

    def run(v, *args):
        if not ready:
            # compile the three of them at the same time
            low = [jax.jit(g).lower(v, *args) for g in fns]
            with ThreadPoolExecutor(3) as pool:
                ready.extend(pool.map(lambda x: x.compile(), low))
        F, fwd, rev = ready
        return (np.asarray(fwd(v, *args)), np.asarray(rev(v, *args))) + stencil(F, v, n, *args)

    return run


def compare(ctx, names, out, rtol, key, floor=1e-30):
    fwd, back, f0, central, left, right = out
    n = fwd.shape[0]
    require(np.all(np.isfinite(f0)), "%s: value is not finite: %s" % (key, f0))
    lo = np.minimum(np.minimum(central, left), right)
    hi = np.maximum(np.maximum(central, left), right)
    # rounding errors of the differences, and a floor for derivatives that vanish
    scale = np.maximum(np.abs(f0), floor)[None]
    tol = rtol * np.maximum(np.abs(lo), np.abs(hi)) + rtol * 0.1 * scale
    for mode, d in (("forward", fwd), ("reverse", back)):
        bad = ~((d >= lo - tol) & (d <= hi + tol))
        err = np.maximum(np.maximum(lo - d, d - hi), 0) / tol
        ctx.err("%s %s" % (key, mode), np.max(np.where(np.isfinite(err), err, np.inf)))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("%s: %s-mode derivative of %s with respect to %s is %.8g, finite differences give %.8g (%.8g / %.8g from the sides)"
                            % (key, mode, names[i[1]] if len(i) > 1 else key, NAMES[i[0]], d[i], central[i], left[i], right[i]))
    t2 = 1e-6 * np.abs(fwd) + 1e-8 * scale
    if np.any(~(np.abs(fwd - back) <= t2)):
        i = tuple(int(x) for x in np.argwhere(~(np.abs(fwd - back) <= t2))[0])
        raise Violation("%s: forward and reverse derivatives with respect to %s differ: %.10g and %.10g" % (key, NAMES[i[0]], fwd[i], back[i]))


def setup(case, ctx):
    c = dict(case["c"])
    gens.labels(ctx, c)
    return c, np.array(gens.vec(c)), c["gamma"] is not None


# --- background -----------------------------------------------------------------

NA = 4
BACK = ["H", "Omega_m_a", "Omega_de_a", "f_de", "dchioverda", "radial_comoving_distance", "transverse_comoving_distance",
        "angular_diameter_distance", "growth_factor", "growth_rate", "a_of_chi"]


@memo
def back_jit(gamma):
    B = J.jc.background
    return both(lambda c, a: J.jnp.stack([getattr(B, n)(c, a) if n != "a_of_chi" else B.a_of_chi(c, 5000.0 * (1.0 - a) + 1.0) for n in BACK]), gamma)


def back_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), a=gens.scale_factors(0.01, 1.0, NA, NA)))


def check_back(case, ctx):
    c, v, g = setup(case, ctx)
    ctx.nontrivial(c["Omega_k"] != 0 or c["w0"] != -1 or c["wa"] != 0)
    out = sut("derivatives of the background", back_jit(g), v, np.array(case["a"]))
    compare(ctx, BACK, out, 1e-5, "background", floor=0.1)


# --- linear power -----------------------------------------------------------------

NK = 5


@memo
def pow_jit(gamma):
    jc, jnp = J.jc, J.jnp

    def f(c, k, a):
        T, P = jc.transfer.Eisenstein_Hu, jc.power
        return jnp.stack([T(c, k), T(c, k, type="eisenhu"), P.linear_matter_power(c, k, a),
                          P.linear_matter_power(c, k, a, transfer_fn=c06.toy_transfer)])

    return both(f, gamma)


def pow_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), k=s.lists(gens.lognum(0.1, 1e-4, 30.0), min_size=NK, max_size=NK),
                                     a=gens.scale_factors(0.05, 1.0, NK, NK)))


def check_pow(case, ctx):
    c, v, g = setup(case, ctx)
    ctx.nontrivial(max(case["k"]) > 0.01)
    out = sut("derivatives of the linear power", pow_jit(g), v, np.array(case["k"]), np.array(case["a"]))
    compare(ctx, ["transfer (wiggles)", "transfer (smooth)", "linear power", "linear power (user transfer)"],
            out, 1e-5, "linear power")


# --- halofit ------------------------------------------------------------------------


@memo
def nl_jit(pres, transfer, gamma):
    jc = J.jc
    T = {"eh": jc.transfer.Eisenstein_Hu, "user": c06.toy_transfer}[transfer]
    return both(lambda c, k, a: jc.power.halofit(c, k, a, T, prescription=pres)[None], gamma)


def nl_cases(combos):
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), g=gens.num(0.55, 0.4, 0.8), k=s.lists(gens.lognum(0.5, 1e-3, 20.0), min_size=3, max_size=3),
                                     a=gens.num(0.7, 0.2, 1.0), combo=s.sampled_from(combos)))


def check_nl(case, ctx):
    pres, transfer, gamma = case["combo"]
    if pres == "smith2003" and case["c"]["Omega_k"] < 0:
        case = dict(case, c=dict(case["c"], Omega_k=-case["c"]["Omega_k"]))
    if gamma:
        case = dict(case, c=dict(case["c"], gamma=case["g"]))
    c, v, g = setup(case, ctx)
    ctx.label(pres, transfer)
    ctx.nontrivial(max(case["k"]) > 0.05)
    out = sut("derivatives of the non linear power", nl_jit(pres, transfer, g), v, np.array(case["k"]), np.array([case["a"]]))
    compare(ctx, [pres], out, 2e-3, "halofit")


# --- spectra and likelihood -----------------------------------------------------------

ELL = np.array([20.0, 150.0, 900.0])


@memo
def cl_jit(kind):
    jc, jnp = J.jc, J.jnp

    def f(c, p):
        R, P, Bi = jc.redshift, jc.probes, jc.bias
        n1 = R.smail_nz(p[0], p[1], p[2], gals_per_arcmin2=10.0)
        n2 = R.kde_nz(jnp.stack([p[3], p[3] + 0.3]), jnp.array([1.0, 0.5]), bw=0.2, gals_per_arcmin2=5.0, zmax=5.0)
        n3 = R.systematic_shift(n1, p[4], gals_per_arcmin2=8.0)
        probes = [P.WeakLensing([n1, R.delta_nz(p[3])], multiplicative_bias=[p[5], 0.01]),
                  P.WeakLensing([n3], ia_bias=Bi.des_y1_ia_bias(p[6], 0.5, 0.6)),
                  P.NumberCounts([n2], Bi.inverse_growth_linear_bias(p[7]))]
        if kind == "toy":
            toy = lambda c, k, a, transfer_fn: c10.toy_power(c, k, a) * c.sigma8**2 * (1 + c.Omega_m * k) * c.h
            return jc.cl.angular_cl(c, ELL, probes, nonlinear_fn=toy)
        if kind == "linear":
            return jc.cl.angular_cl(c, ELL, probes, nonlinear_fn=jc.power.linear, transfer_fn=c06.toy_transfer)
        return jc.cl.angular_cl(c, ELL[1:], probes[1:])
    return f


@memo
def cl_both(kind, gamma):
    return both((cl_like if kind in ("sparse", "dense") else cl_jit)(kind), gamma)


@memo
def cl_like(kind):
    jc, jnp = J.jc, J.jnp

    def f(c, p, d):
        R, P, Bi = jc.redshift, jc.probes, jc.bias
        n1 = R.smail_nz(p[0], p[1], p[2], gals_per_arcmin2=10.0)
        n3 = R.systematic_shift(n1, p[4], gals_per_arcmin2=8.0)
        probes = [P.WeakLensing([n3], ia_bias=Bi.des_y1_ia_bias(p[6], 0.5, 0.6)), P.NumberCounts([n1], Bi.inverse_growth_linear_bias(p[7]))]
        toy = lambda c, k, a, transfer_fn: c10.toy_power(c, k, a) * c.sigma8**2 * (1 + c.Omega_m * k) * c.h
        mu, cov = jc.cl.gaussian_cl_covariance_and_mean(c, ELL, probes, nonlinear_fn=toy, f_sky=1e-3, sparse=kind == "sparse")
        L = jc.likelihood.gaussian_log_likelihood
        if kind == "sparse":
            return jnp.stack([L(d, mu, cov), L(d, mu, cov, include_logdet=False)])
        return jnp.stack([L(d, mu, cov), L(d, mu, cov, inverse_method="cholesky"), L(d, mu, cov, include_logdet=False)])

    return f


@memo
def like_mean():
    jc = J.jc

    @J.jax.jit
    def f(v, p):
        c = gens.from_vec(v, False)
        R, P, Bi = jc.redshift, jc.probes, jc.bias
        n1 = R.smail_nz(p[0], p[1], p[2])
        n3 = R.systematic_shift(n1, p[4])
        probes = [P.WeakLensing([n3], ia_bias=Bi.des_y1_ia_bias(p[6], 0.5, 0.6)), P.NumberCounts([n1], Bi.inverse_growth_linear_bias(p[7]))]
        return jc.cl.angular_cl(c, ELL, probes, nonlinear_fn=c10.toy_power).flatten()

    return f


def cl_cases():
    s = gens.st()
    p = s.tuples(gens.num(2.0, 1.0, 3.0), gens.num(2.0, 1.5, 3.0), gens.num(0.5, 0.3, 0.7), gens.num(0.8, 0.5, 1.5), gens.num(0.05, -0.1, 0.1),
                 gens.num(0.05, -0.2, 0.2), gens.num(1.0, -2.0, 2.0), gens.num(1.5, 0.5, 3.0), gens.num(1.05, 0.8, 1.2)).map(list)
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), p=p))


def check_cl(kind):
    def check(case, ctx):
        c, v, g = setup(case, ctx)
        ctx.nontrivial()
        p = np.array(case["p"])
        args = (v, p)
        if kind in ("sparse", "dense"):
            # fixed data: the spectra of a nearby model
            args = (v, p, p[8] * np.asarray(like_mean()(v, p)))
        out = sut("derivatives of " + kind, cl_both(kind, g), *args)
        names = ["C_ell(%d)" % i for i in range(20)] if kind not in ("sparse", "dense") else ["log likelihood"] * 3
        compare(ctx, names, out, {"halofit": 2e-3, "toy": 1e-4, "linear": 1e-4}.get(kind, 2e-4), kind)

    return check


# --- derivatives with respect to the scale factor --------------------------------------


@memo
def da_jit(gamma):
    jax, jnp, B = J.jax, J.jnp, J.jc.background

    @jax.jit
    def f(v, a):
        c = gens.from_vec(v, gamma)
        r = lambda x: B.radial_comoving_distance(c, x)[0]
        t = lambda x: B.transverse_comoving_distance(c, x)[0]
        d = lambda x: B.growth_factor(c, x)
        one = lambda x: jnp.stack([jax.grad(r)(x), jax.grad(t)(x), x * jax.grad(d)(x) / d(x), jax.jvp(r, (x,), (1.0,))[1]])
        return jnp.stack([one(x) for x in a])

    return f


def da_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), a=gens.scale_factors(0.01, 1.0, 3, 3)))


def check_da(case, ctx):
    c, v, g = setup(case, ctx)
    a = np.array(case["a"])
    ctx.nontrivial(np.any(a < 1))
    ctx.label("a = 1" if np.any(a == 1) else "a < 1")
    out = sut("derivatives with respect to a", da_jit(g), v, a)
    chi = refs.chi(c, a)
    dchi = -refs.RH / (a**2 * np.sqrt(refs.esqr(c, a)))
    k = c["Omega_k"]
    s = abs(k) ** 0.5
    jac = np.cosh(s * chi / refs.RH) if k > 0 else np.cos(s * chi / refs.RH) if k < 0 else 1.0
    close(ctx, "d chi / d a", out[:, 0], dchi, rtol=0.04)
    close(ctx, "d chi / d a (forward)", out[:, 3], dchi, rtol=0.04)
    close(ctx, "d f_k / d a", out[:, 1], dchi * jac, rtol=0.04, atol=20.0)
    close(ctx, "d ln D / d ln a", out[:, 2], refs.growth(c, a)[1], rtol=0.1)


SUBS = [
    Sub("background", back_cases, check_back, quick=250, thorough=20000,
        rule="a random cosmology and 4 scale factors, all parameters; non-trivial: not flat LCDM",
        examples=[dict(c=dict(gens.FIDUCIAL, gamma=g), a=[1.0, 0.5, 0.1, 0.9]) for g in (None, 0.55)]),
    Sub("linear", pow_cases, check_pow, quick=200, thorough=12000,
        rule="a random cosmology, 5 wave numbers and scale factors, all parameters; non-trivial: some k > 0.01",
        examples=[dict(c=dict(gens.FIDUCIAL, gamma=g), k=[1e-3, 0.01, 0.1, 1.0, 10.0], a=[1.0, 0.5, 0.1, 0.9, 0.7]) for g in (None,)]),
    Sub("takahashi", lambda: nl_cases([["takahashi2012", "user", 0], ["takahashi2012", "user", 1]]), check_nl, quick=100, thorough=20000,
        rule="a random cosmology, 3 wave numbers, a scale factor, a user transfer function; non-trivial: some k > 0.05"),
    Sub("smith", lambda: nl_cases([["smith2003", "user", 0]]), check_nl, quick=60, thorough=10000, rule="as takahashi"),
    Sub("spectra", cl_cases, check_cl("toy"), quick=12, thorough=2000,
        rule="a random cosmology and nuisance parameters of 4 tracers; all cases are non-trivial"),
    Sub("spectra_linear", cl_cases, check_cl("linear"), quick=8, thorough=1000, rule="as spectra, with the linear power spectrum"),
    Sub("spectra_halofit", cl_cases, check_cl("halofit"), quick=2, thorough=500, rule="as spectra, with halofit and 2 tracers"),
    Sub("likelihood_sparse", cl_cases, check_cl("sparse"), quick=12, thorough=2000,
        rule="a random cosmology and nuisance parameters, fixed data, model and covariance depending on the cosmology; all cases are non-trivial"),
    Sub("likelihood_dense", cl_cases, check_cl("dense"), quick=12, thorough=2000, rule="as likelihood_sparse, inverse and cholesky"),
    Sub("scale_factor", da_cases, check_da, quick=150, thorough=10000,
        rule="a random cosmology and 3 scale factors, 1 included; non-trivial: some a < 1",
        examples=[dict(c=dict(gens.FIDUCIAL, gamma=g), a=[1.0, 0.5, 0.1]) for g in (None, 0.55)]),
]
