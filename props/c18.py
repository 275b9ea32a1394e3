"""C18: the same values whatever the JAX transformation the computation runs in."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo
from props import c06, c09, c10, c16

ASSUMPTIONS = ["double precision", "functions that JAX can trace: not spline.integral, which compares its bounds"]

N = 4


def fns():
    jc, jnp = J.jc, J.jnp
    B, P, T = jc.background, jc.power, jc.transfer.Eisenstein_Hu
    R = jc.redshift
    one = lambda f: (lambda c, x, y: f(c, x))
    out = {n: one(getattr(B, n)) for n in ("w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "radial_comoving_distance", "dchioverda",
                                           "transverse_comoving_distance", "angular_diameter_distance", "growth_factor", "growth_rate")}
    out["a_of_chi"] = lambda c, x, y: B.a_of_chi(c, 3000.0 * (1 - x))
    out["transfer"] = lambda c, x, y: T(c, y)
    out["transfer smooth"] = lambda c, x, y: T(c, y, type="eisenhu")
    out["linear"] = lambda c, x, y: P.linear_matter_power(c, y, x)
    out["linear user"] = lambda c, x, y: P.linear_matter_power(c, y, x, transfer_fn=c06.toy_transfer)
    out["sigmasqr"] = lambda c, x, y: P.sigmasqr(c, 8.0, c06.toy_transfer) + 0.0 * x
    out["takahashi"] = lambda c, x, y: P.nonlinear_matter_power(c, y, x, transfer_fn=c06.toy_transfer)
    out["smith"] = lambda c, x, y: P.halofit(c, y, x, c06.toy_transfer, prescription="smith2003")
    out["ia bias"] = lambda c, x, y: jc.bias.des_y1_ia_bias(1.0, 0.5, 0.6)(c, 1 / x - 1)
    out["growth bias"] = lambda c, x, y: jc.bias.inverse_growth_linear_bias(1.5)(c, 1 / x - 1)
    out["smail"] = lambda c, x, y: R.smail_nz(2 + c.w0, 2.0, c.h)(1 / x - 1)
    out["shifted kde"] = lambda c, x, y: R.systematic_shift(R.kde_nz(jnp.stack([c.h, c.n_s]), jnp.stack([c.h, c.sigma8]), bw=0.2), c.Omega_b)(1 / x - 1)
    out["simps"] = lambda c, x, y: jc.scipy.integrate.simps(lambda t: jnp.exp(-t[:, None] * y * c.h), 0.0, c.n_s) + jc.scipy.integrate.simps(lambda t: jnp.cos(900 * t), 0.0, c.n_s, 1024) + 0.0 * x
    out["romb"] = lambda c, x, y: jc.scipy.integrate.romb(lambda t: jnp.exp(-t * c.h) * (1 + jnp.cos(60 * t)), 0.0, c.n_s, divmax=7) + 0.0 * x
    out["interp"] = lambda c, x, y: jc.scipy.interpolate.interp(x, jnp.array([0.0, 0.3, 1.1]) * c.n_s, jnp.stack([c.h, c.Omega_c, c.sigma8]))
    knots = np.array([0.0, 0.3, 0.5, 0.8, 1.0])
    data = lambda c: jnp.stack([c.h, c.Omega_c, c.sigma8, c.n_s, c.Omega_b])
    for k in (1, 2, 3):
        out["spline %d" % k] = lambda c, x, y, k=k: jc.scipy.interpolate.InterpolatedUnivariateSpline(knots, data(c), k=k)(x)
    sp = jc.scipy.interpolate.InterpolatedUnivariateSpline
    out["spline derivative"] = lambda c, x, y: sp(knots, data(c)).derivative(x) + sp(knots, data(c), k=2).derivative(x, n=2)
    out["antiderivative"] = lambda c, x, y: sp(knots, data(c)).antiderivative(x) + sp(knots, data(c), k=2).antiderivative(x)
    mat = lambda c: jnp.stack([jnp.stack([2 + data(c)[:3], c.Omega_b + data(c)[:3] / 5]), jnp.stack([c.Omega_b + data(c)[:3] / 5, 1 + data(c)[1:4]])])
    vec = lambda c: jnp.concatenate([data(c), data(c)[:1]])
    out["sparse"] = lambda c, x, y: jnp.dot(vec(c), jc.sparse.dot(jc.sparse.inv(mat(c)), vec(c))) * jc.sparse.det(mat(c)) + 0.0 * x
    out["likelihood"] = lambda c, x, y: jc.likelihood.gaussian_log_likelihood(vec(c), vec(c) ** 2, mat(c)) + 0.0 * x
    out["dense likelihood"] = lambda c, x, y: jc.likelihood.gaussian_log_likelihood(
        vec(c), vec(c) ** 2, jc.sparse.to_dense(mat(c)), inverse_method="cholesky") + 0.0 * x
    return out


NAMES = ["w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "radial_comoving_distance", "dchioverda", "transverse_comoving_distance",
         "angular_diameter_distance", "growth_factor", "growth_rate", "a_of_chi", "transfer", "transfer smooth", "linear", "linear user",
         "sigmasqr", "takahashi", "smith", "ia bias", "growth bias", "smail", "shifted kde", "simps", "romb", "interp", "spline 1", "spline 2", "spline 3",
         "spline derivative", "antiderivative", "sparse", "likelihood", "dense likelihood"]
HEAVY = ["linear", "linear user", "takahashi", "smith", "sigmasqr"]
LIGHT = [n for n in NAMES if n not in HEAVY]
TABLES = ["radial_comoving_distance", "transverse_comoving_distance", "growth_factor", "growth_rate", "a_of_chi", "growth bias"]
MODES = ["jit", "jit vector", "vmap cosmologies", "jit vmap cosmologies", "vmap points", "lax.map points", "jit scan points", "jvp", "vjp", "remat", "closure", "jit nested"]


def wrap(name, mode):
    """f(cosmology, second cosmology, x, y) -> values at (cosmology, x, y) computed within the given transformation."""
    jax, jnp, lax = J.jax, J.jnp, J.lax
    f = fns()[name]
    tree = jax.tree_util
    flat = lambda c, x, y: jnp.reshape(f(c, x, y), (N,))
    pt = lambda c: (lambda t: jnp.reshape(f(c, t[0], t[1]), ()) if name in SCALAR else jnp.reshape(f(c, t[:1], t[1:]), ()))
    first = lambda c, c2: tree.tree_map(lambda a, b: jnp.stack([jnp.asarray(b, float), jnp.asarray(a, float)]), c, c2)
    if mode == "jit":
        g = jax.jit(flat)
        return lambda c, c2, x, y: g(c, x, y)
    if mode == "jit vector":
        g = {gam: jax.jit(lambda v, x, y, gam=gam: flat(gens.from_vec(v, gam), x, y)) for gam in (False, True)}
        return lambda c, c2, x, y: g[c.gamma is not None](np.array([float(getattr(c, p)) for p in gens.PARAMS] + [float(c.gamma or 0)]), x, y)
    if mode == "vmap cosmologies":
        g = jax.vmap(flat, in_axes=(0, None, None))
        return lambda c, c2, x, y: g(first(c, c2), x, y)[1]
    if mode == "jit vmap cosmologies":
        g = jax.jit(jax.vmap(flat, in_axes=(0, None, None)))
        return lambda c, c2, x, y: g(first(c, c2), x, y)[1]
    if mode == "vmap points":
        return lambda c, c2, x, y: jax.vmap(pt(c))(jnp.stack([x, y], axis=1))
    if mode == "lax.map points":
        return lambda c, c2, x, y: lax.map(pt(c), jnp.stack([x, y], axis=1))
    if mode == "jit scan points":
        g = jax.jit(lambda c, t: lax.scan(lambda carry, u: (carry, pt(carry)(u)), tree.tree_map(jnp.asarray, c), t)[1])
        return lambda c, c2, x, y: g(c, jnp.stack([x, y], axis=1))
    if mode == "jvp":
        g = jax.jit(lambda c, x, y: jax.jvp(lambda c, x: flat(c, x, y), (tree.tree_map(jnp.asarray, c), x),
                                           (tree.tree_map(lambda t: jnp.ones_like(jnp.asarray(t, float)), c), jnp.ones_like(x)))[0])
        return lambda c, c2, x, y: g(c, x, y)
    if mode == "vjp":
        g = jax.jit(lambda c, x, y: jax.vjp(lambda c: flat(c, x, y), c)[0])
        return lambda c, c2, x, y: g(c, x, y)
    if mode == "remat":
        g = jax.checkpoint(flat)
        return lambda c, c2, x, y: g(tree.tree_map(jnp.asarray, c), jnp.asarray(x), jnp.asarray(y))
    if mode == "closure":
        return lambda c, c2, x, y: jax.jit(lambda t: flat(c, t, y))(x)
    g = jax.jit(lambda c, x, y: jax.jit(flat)(c, x, y) + 0.0 * jax.vmap(lambda t: jnp.sum(flat(c, x * t, y)))(jnp.ones(2))[0])
    return lambda c, c2, x, y: g(c, x, y)


SCALAR = ("interp",)
wrapped = memo(wrap)


def cases(names, modes):
    s = gens.st()

    @s.composite
    def build(draw):
        gamma = draw(s.sampled_from([None, None, 0.55]))
        cs = [dict(draw(gens.cosmo(gamma=False)), gamma=gamma) for _ in range(2)]
        return dict(cs=cs, name=draw(s.sampled_from(names)), modes=draw(s.lists(s.sampled_from(modes), min_size=2, max_size=3, unique=True)),
                    x=draw(gens.scale_factors(0.02, 1.0, N, N)), y=draw(s.lists(gens.lognum(0.1, 1e-3, 10.0), min_size=N, max_size=N)))

    return build()


def check(case, ctx):
    jnp = J.jnp
    name = case["name"]
    cs = [dict(c) for c in case["cs"]]
    if name == "smith":
        for c in cs:
            c["Omega_k"] = abs(c["Omega_k"])
    gens.labels(ctx, cs[0])
    ctx.label(name, *case["modes"])
    ctx.nontrivial()
    x, y = np.array(case["x"]), np.array(case["y"])
    f = fns()[name]
    want = np.reshape(sut(name, f, gens.make(cs[0]), x, y), (N,))
    atol = 1e-10 * np.max(np.abs(want)) + (1e-9 if "distance" in name else 0)
    for mode in case["modes"]:
        # fresh objects, so that nothing is left over from one mode to the next
        got = sut("%s under %s" % (name, mode), lambda: wrapped(name, mode)(gens.make(cs[0]), gens.make(cs[1]), jnp.asarray(x), jnp.asarray(y)))
        close(ctx, "%s under %s" % (name, mode), got, want, rtol=1e-8, atol=atol, key=mode)


# --- spectra, covariances, likelihoods of probes ---------------------------------------------

CL_MODES = ["jit", "vmap cosmologies", "vmap probes", "vmap ell", "lax.map cosmologies", "vjp", "jvp", "closure"]


@memo
def cl_fn(model, mode, quantity):
    jax, jnp, lax, jc = J.jax, J.jnp, J.lax, J.jc
    names, build = c16.MODELS[model]
    power = lambda c, k, a, transfer_fn: c10.toy_power(c, k, a) * c.sigma8**2 * (1 + c.Omega_m * k)

    def f(c, v, ell):
        cosmo, probe = gens.from_vec(c, False), build(c16.as_dict(v, names))
        if quantity == "cl":
            return jc.cl.angular_cl(cosmo, ell, [probe], nonlinear_fn=power)
        mu, cov = jc.cl.gaussian_cl_covariance_and_mean(cosmo, ell, [probe], nonlinear_fn=power, f_sky=0.3, sparse=quantity == "sparse")
        return jc.likelihood.gaussian_log_likelihood(jnp.reshape(mu, -1) * 1.01, mu, cov, include_logdet=True)[None] + jnp.zeros((1, 1))

    two = lambda a, b: jnp.stack([jnp.asarray(b), jnp.asarray(a)])
    if mode == "eager":
        return lambda c, c2, v, v2, ell: f(c, v, ell)
    if mode == "jit":
        g = jax.jit(f)
        return lambda c, c2, v, v2, ell: g(c, v, ell)
    if mode == "closure":
        return lambda c, c2, v, v2, ell: jax.jit(lambda v: f(c, v, ell))(v)
    if mode == "vmap cosmologies":
        g = jax.jit(jax.vmap(f, in_axes=(0, None, None)))
        return lambda c, c2, v, v2, ell: g(two(c, c2), v, ell)[1]
    if mode == "lax.map cosmologies":
        g = jax.jit(lambda cs, v, ell: lax.map(lambda c: f(c, v, ell), cs))
        return lambda c, c2, v, v2, ell: g(two(c, c2), v, ell)[1]
    if mode == "vmap probes":
        g = jax.jit(jax.vmap(f, in_axes=(None, 0, None)))
        return lambda c, c2, v, v2, ell: g(c, two(v, v2), ell)[1]
    if mode == "vmap ell":
        g = jax.jit(jax.vmap(f, in_axes=(None, None, 0)))
        return lambda c, c2, v, v2, ell: g(c, v, two(ell, ell * 1.5))[1]
    if mode == "vjp":
        g = jax.jit(lambda c, v, ell: jax.vjp(f, c, v, ell)[0])
        return lambda c, c2, v, v2, ell: g(c, v, ell)
    g = jax.jit(lambda c, v, ell: jax.jvp(f, (c, v, ell), (jnp.ones_like(c), jnp.ones_like(v), jnp.ones_like(ell)))[0])
    return lambda c, c2, v, v2, ell: g(c, v, ell)


def cl_cases(models, quantities):
    s = gens.st()

    @s.composite
    def build(draw):
        model = draw(s.sampled_from(models))
        v = lambda: [draw(gens.num(*c16.P[n])) for n in c16.MODELS[model][0]]
        return dict(model=model, quantity=draw(s.sampled_from(quantities)), mode=draw(s.sampled_from(CL_MODES)), v=v(), v2=v(),
                    c=draw(gens.cosmo(gamma=False)), c2=draw(gens.cosmo(gamma=False)), ell=[float(draw(s.integers(5, 90))), float(draw(s.integers(100, 2000)))])

    return build()


def check_cl(case, ctx):
    jnp = J.jnp
    args = [jnp.asarray(x) for x in (gens.vec(case["c"]), gens.vec(case["c2"]), case["v"], case["v2"], case["ell"])]
    gens.labels(ctx, case["c"])
    ctx.label(case["model"], case["quantity"], case["mode"])
    ctx.nontrivial()
    want = sut(case["quantity"], cl_fn(case["model"], "eager", case["quantity"]), *args)
    got = sut("%s under %s" % (case["quantity"], case["mode"]), cl_fn(case["model"], case["mode"], case["quantity"]), *args)
    close(ctx, "%s under %s" % (case["quantity"], case["mode"]), got, want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)))


# --- kernels and noise of any probe ------------------------------------------------------------

P_MODES = ["jit argument", "jit settings", "vmap batch", "lax.map batch", "vjp", "jvp", "jit closure", "scan carry"]


def probe_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(probe=gens.probe(max_bins=3), c=gens.cosmo(gamma=False), gamma=s.sampled_from([0.55, 0.55, None]), f=gens.num(1.05, 0.9, 1.1),
                                     modes=s.lists(s.sampled_from(P_MODES), min_size=2, max_size=3, unique=True)))


def check_probe(case, ctx):
    jax, jnp, lax = J.jax, J.jnp, J.lax
    tree = jax.tree_util
    d, c = case["probe"], dict(case["c"], gamma=case["gamma"])
    gens.probe_labels(ctx, d)
    ctx.label(*case["modes"])
    ctx.nontrivial(len(d["nzs"]) > 1)
    z = np.array([0.15, 0.5, 1.2])

    def f(p, cos):
        return p.kernel(cos, z, 70.0), p.noise()

    def numbers(x):
        return tree.tree_map(lambda t: jnp.asarray(t, float), x)

    want = sut("kernel and noise", f, gens.make_probe(d), gens.make(c))
    cos = gens.make(c)
    for mode in case["modes"]:
        p = gens.make_probe(d)
        batch = tree.tree_map(lambda x: jnp.stack([x * case["f"], x]), numbers(p))
        settings = {k: d[k] for k in ("m", "sigma_e") if k in d}
        run = {
            "jit argument": lambda: jax.jit(f)(p, cos),
            "jit closure": lambda: jax.jit(lambda cos: f(p, cos))(cos),
            # the settings as traced numbers, in lists where there is one per bin
            "jit settings": lambda: jax.jit(lambda t, cos: f(gens.make_probe(dict(d, **t)), cos))(settings, cos),
            "vmap batch": lambda: tree.tree_map(lambda x: x[1], jax.vmap(lambda p: f(p, cos))(batch)),
            "lax.map batch": lambda: tree.tree_map(lambda x: x[1], lax.map(lambda p: f(p, gens.make(c)), batch)),
            "vjp": lambda: jax.vjp(lambda p: f(p, cos), numbers(p))[0],
            "jvp": lambda: jax.jvp(lambda p: f(p, cos), (numbers(p),), (numbers(p),))[0],
            "scan carry": lambda: tree.tree_map(lambda x: x[0], lax.scan(lambda q, t: (q, f(q, gens.make(c))), numbers(p), jnp.arange(1))[1]),
        }[mode]
        got = sut("kernel and noise under %s" % mode, run)
        for name, x, y in zip(("kernel", "noise"), got, want):
            close(ctx, "%s under %s" % (name, mode), x, y, rtol=1e-8, atol=1e-10 * np.max(np.abs(y)))


K = list(c16.MODELS)
X, Y = [0.3, 0.5, 1.0, 0.9], [0.01, 0.1, 1.0, 3.0]
CS = [dict(gens.FIDUCIAL), dict(gens.FIDUCIAL, Omega_k=0.05, w0=-0.9)]

SUBS = [
    Sub("light", lambda: cases(LIGHT, MODES), check, quick=64, thorough=15000,
        rule="a function, two random cosmologies, 4 points and 2 or 3 transformations against the eager value; all cases are non-trivial"),
    Sub("tables", lambda: cases(TABLES, MODES), check, quick=45, thorough=10000, rule="as light, for the functions that keep tables",
        examples=[dict(cs=[dict(c, gamma=g) for c in CS], name=n, modes=["vmap points", "lax.map points", "closure"], x=X, y=Y) for n in TABLES[:4] for g in (None, 0.55)]),
    Sub("power", lambda: cases(HEAVY[1:], MODES[:1] + MODES[2:3] + MODES[4:9]), check, quick=9, thorough=4000, rule="as light, for the power spectra"),
    Sub("spectra", lambda: cl_cases(K[:3], ["cl"]), check_cl, quick=9, thorough=1500,
        rule="spectra of one of 3 structures of probes within a transformation against the eager value; all cases are non-trivial"),
    Sub("spectra2", lambda: cl_cases(K[3:], ["cl"]), check_cl, quick=9, thorough=1500, rule="as spectra, 3 other structures"),
    Sub("probes", probe_cases, check_probe, quick=14, thorough=4000,
        rule="kernel and noise of a random probe within 2 or 3 transformations against the eager values; non-trivial: more than one bin",
        examples=[dict(probe=c09.wl([c09.SM, c09.SHORT], [c09.IA[0], c09.IA[1]], [0.1, -0.2], [0.2, 0.3]), c=gens.FIDUCIAL, gamma=0.55, f=1.05,
                       modes=["jit argument", "jit settings", "scan carry"]),
                  dict(probe=c09.nc([c09.SM, c09.KDE], [c09.IA[1], c09.IA[0]]), c=gens.FIDUCIAL, gamma=0.55, f=1.05, modes=["jit argument", "vmap batch", "jvp"])]),
    Sub("likelihood", lambda: cl_cases(K[4:], ["sparse", "dense"]), check_cl, quick=10, thorough=1500, rule="as spectra, for likelihoods"),
]
