"""C23: single precision (the default of JAX) and integer inputs."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo
from props import c06, c08, c09, c10, c11, c12, c14

ASSUMPTIONS = ["run with JAX in its default, single precision, mode; double precision values of the library are checked by the other properties",
               "condition numbers up to 1e3 for the linear algebra"]


def x64(on):
    return J.jax.enable_x64(on)


def both(label, f, *args):
    """(single, double) precision results of f on numpy arguments."""
    lo = sut(label + " in single precision", f, *args)
    with x64(True):
        hi = sut(label + " in double precision", f, *args)
    return lo, hi


def finite(label, x):
    x = np.asarray(x)
    require(np.issubdtype(x.dtype, np.floating), "%s has dtype %s" % (label, x.dtype))
    require(np.all(np.isfinite(x)), "%s is not finite: %s" % (label, x))


# --- background ---------------------------------------------------------------------

EXACT = ["w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda"]


def back_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), a=gens.scale_factors(2e-3, 1.0, 8, 8), form=s.sampled_from(["np", "jnp", "float", "int", "int32", "int array", "int8"])))


def check_back(case, ctx):
    B, jnp = J.jc.background, J.jnp
    c, form = case["c"], case["form"]
    a = np.array(case["a"])
    a = {"np": a, "jnp": jnp.asarray(a), "float": float(a[0]), "int": 1, "int32": np.int32(1), "int array": np.ones((8,), int), "int8": jnp.ones((8,), jnp.int8)}[form]
    an = np.atleast_1d(np.asarray(a, float))
    if form == "jnp":
        an = np.asarray(a).astype(float)
    gens.labels(ctx, c)
    ctx.label(form)
    ctx.nontrivial()
    cos = gens.make(c)
    get = lambda n: np.atleast_1d(sut("%s at %s" % (n, form), getattr(B, n), cos, a))
    want = dict(w=refs.w(c, an), f_de=refs.f_de(c, an), Esqr=refs.esqr(c, an), H=refs.hubble(c, an), Omega_m_a=refs.om_a(c, an), Omega_de_a=refs.ode_a(c, an))
    want["dchioverda"] = refs.C_KMS / (want["H"] * an**2)
    for n in EXACT:
        got = get(n)
        if n != "w":
            finite(n, got)
        close(ctx, "%s at %s" % (n, form), np.broadcast_to(got, an.shape), want[n], rtol=2e-5, atol=2e-6, key=n)
    x = refs.chi(c, an)
    tol = 0.8 + 4e-4 * x
    got = get("radial_comoving_distance")
    finite("radial_comoving_distance", got)
    close(ctx, "radial_comoving_distance at %s" % form, got, x, atol=tol, key="radial")
    tr = refs.transverse(c, got)
    close(ctx, "transverse_comoving_distance at %s" % form, get("transverse_comoving_distance"), tr, rtol=2e-4, atol=0.05, key="transverse")
    close(ctx, "angular_diameter_distance at %s" % form, get("angular_diameter_distance"), tr * an, rtol=2e-4, atol=0.05, key="angular")
    back = np.atleast_1d(sut("a_of_chi", B.a_of_chi, cos, got))
    close(ctx, "a_of_chi at %s" % form, back, an, rtol=2e-4, key="a_of_chi")
    d, f = refs.growth(c, an)
    close(ctx, "growth_factor at %s" % form, get("growth_factor"), d, rtol=1.5e-3, key="growth_factor")
    close(ctx, "growth_rate at %s" % form, get("growth_rate"), f, rtol=4e-3, key="growth_rate")
    if form.startswith("int"):
        # z = 0, 1, 2 as integers
        z = np.array([0, 1, 2, 5])
        zf = z.astype(float)
        for name, b, ref in (("constant", dict(type="constant", b=1.3), None), ("growth", dict(type="growth", b=1.1), None), ("ia", dict(type="ia", A=1.0, eta=-0.7, z0=0.6), None)):
            close(ctx, "%s bias at integer redshifts" % name, np.broadcast_to(sut(name, gens.make_bias(b), cos, z), z.shape), refs.bias(c, b, zf), rtol=2e-3, key="bias")
        for d in (c09.SM, c09.KDE, c09.SHIFT):
            n = gens.make_nz(d)
            close(ctx, "%s distribution at integer redshifts" % d["type"], sut(d["type"], n, z), sut(d["type"], n, zf), rtol=1e-5, atol=1e-6, key="nz")
        u = J.jc.utils
        close(ctx, "z2a at integers", sut("z2a", u.z2a, z), 1 / (1 + zf), rtol=1e-6)
        close(ctx, "a2z at integers", sut("a2z", u.a2z, np.array([1, 2])), [0.0, -0.5], rtol=1e-6)


# --- power ----------------------------------------------------------------------------

POWER = {"linear": dict(nonlinear_fn="linear"), "takahashi2012": {}, "smith2003": dict(prescription="smith2003")}


def power_fn(kind, form):
    P, T = J.jc.power, J.jc.transfer

    def f(v, g, k, a):
        c = gens.from_vec(v, g)
        if kind == "eh":
            return T.Eisenstein_Hu(c, k, type="eisenhu") + 2.0 * T.Eisenstein_Hu(c, k)
        if kind == "linear":
            return P.linear_matter_power(c, k, a)
        if kind == "takahashi2012":
            return P.nonlinear_matter_power(c, k, a, c06.toy_transfer)
        return P.halofit(c, k, a, c06.toy_transfer, prescription="smith2003")

    return f


@memo
def power_jit(kind, g, grad):
    f = power_fn(kind, None)
    if grad:
        h = lambda v, k, a: J.jax.jacfwd(lambda v: J.jnp.log(f(v, g, k, a)))(v) if grad == "forward" else J.jax.jacrev(lambda v: J.jnp.log(f(v, g, k, a)))(v)
    else:
        h = lambda v, k, a: f(v, g, k, a)
    return J.jax.jit(h)


def power_cases(kinds, grads):
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), k=s.lists(gens.lognum(0.1, 1e-4, 30.0), min_size=4, max_size=4), a=gens.scale_factors(0.2, 1.0, 4, 4),
                                     kind=s.sampled_from(kinds), ints=s.sampled_from(["", "", "k a"] if grads == [""] else [""]), grad=s.sampled_from(grads)))


def check_power(case, ctx):
    c, kind = dict(case["c"]), case["kind"]
    if kind == "smith2003":
        c["Omega_k"] = abs(c["Omega_k"])
    gens.labels(ctx, c)
    ctx.label(kind, "integers: " + case["ints"], case["grad"] or "values")
    ctx.nontrivial()
    k, a = np.array(case["k"]), np.array(case["a"])
    if "k" in case["ints"]:
        k = np.array([1, 2, 5, 10])
    if "a" in case["ints"]:
        a = np.array([1, 1, 1, 1])
    g = c["gamma"] is not None
    # single precision values of the parameters, for both
    v = np.array(gens.vec(c), np.float32).astype(float)
    kk, aa = k.astype(np.float32).astype(float), a.astype(np.float32).astype(float)
    fn = power_jit(kind, g, "")
    lo = sut("%s in single precision" % kind, fn, v, k if "k" in case["ints"] else kk, a if "a" in case["ints"] else aa)
    with x64(True):
        hi = sut("%s in double precision" % kind, fn, v, kk, aa)
    finite(kind, lo)
    close(ctx, "%s in single precision" % kind, lo, hi, rtol=3e-4, key=kind)
    if case["grad"]:
        fn = power_jit(kind, g, case["grad"])
        lo = sut("%s derivatives of %s in single precision" % (case["grad"], kind), fn, v, k if "k" in case["ints"] else kk, a if "a" in case["ints"] else aa)
        with x64(True):
            hi = sut("%s derivatives of %s in double precision" % (case["grad"], kind), fn, v, kk, aa)
        finite("derivatives of " + kind, lo)
        close(ctx, "%s derivatives of %s in single precision" % (case["grad"], kind), lo, hi, rtol=2e-3, atol=2e-3 * np.max(np.abs(hi)), key="derivatives " + kind)


# --- spectra ---------------------------------------------------------------------------

def cl_cases():
    s = gens.st()
    ell = s.lists(s.one_of(s.integers(2, 300), s.integers(300, 100000), s.sampled_from([2, 215, 216, 1290, 1291, 46341, 65536])), min_size=3, max_size=3, unique=True)
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), probes=c10.probe_lists(2, 2), ell=ell, form=s.sampled_from(["int", "int", "int32", "float", "float32", "uint16"]),
                                     grad=s.booleans(), sparse=s.booleans()))


def check_cl(case, ctx):
    CL, jnp, jax = J.jc.cl, J.jnp, J.jax
    c, probes = case["c"], case["probes"]
    ell = np.sort(np.array(case["ell"]))
    form = case["form"]
    if form == "uint16":
        ell = np.minimum(ell, 60000 + np.arange(3))
    e = {"int": ell, "int32": jnp.asarray(ell, jnp.int32), "float": ell.astype(float), "float32": jnp.asarray(ell, jnp.float32), "uint16": ell.astype(np.int16 if ell[-1] < 30000 else int)}[form]
    for p in probes:
        gens.probe_labels(ctx, p)
    ctx.label(form, "ell > 1290" if ell[-1] > 1290 else "ell <= 1290")
    ctx.nontrivial()
    v = np.array(gens.vec(c))

    def run(ell):
        objs = [gens.make_probe(p) for p in probes]

        def f(v):
            cos = gens.from_vec(v, False)
            s = CL.angular_cl(cos, ell, objs, nonlinear_fn=c10.toy_power)
            n = CL.noise_cl(ell, objs)
            return s, n, CL.gaussian_cl_covariance(ell, objs, s, n, 0.3, case["sparse"])

        if not case["grad"]:
            return jax.jit(f)(v), None
        return jax.jit(f)(v), jax.jit(jax.grad(lambda v: jnp.sum(jnp.log(f(v)[0][0]))))(v)

    (s, n, cov), g = sut("spectra in single precision, ell of type %s" % form, run, e)
    with x64(True):
        (s2, n2, cov2), g2 = sut("spectra in double precision", run, ell.astype(float))
    for name, x in (("angular_cl", s), ("noise_cl", n), ("covariance", cov)):
        finite(name, x)
    m = c10.n_tracers(probes)
    pr = c10.pairs(m)
    auto = {i: s2[q] for q, (i, j) in enumerate(pr) if i == j}
    scale = np.array([np.sqrt(auto[i] * auto[j]) for i, j in pr])
    close(ctx, "angular_cl in single precision, ell of type %s" % form, s, s2, rtol=1e-3, atol=1e-3 * scale, key="angular_cl")
    close(ctx, "noise_cl in single precision", n, n2, rtol=1e-5, key="noise_cl")
    if case["sparse"]:
        d = np.sqrt(cov2[np.arange(len(pr)), np.arange(len(pr))])
        tol = 3e-3 * d[:, None] * d[None]
    else:
        d = np.sqrt(np.diag(cov2))
        tol = 3e-3 * d[:, None] * d[None] * (cov2 != 0)
    close(ctx, "covariance in single precision, ell of type %s" % form, cov, cov2, atol=tol, key="covariance")
    # the covariance against its definition, from the single precision spectra
    full = cov if not case["sparse"] else c12.dense(np.asarray(cov))
    want = c11.covariance_ref(m, ell.astype(float), c11.to_matrices(m, s.astype(float) + n), 0.3)
    dd = np.sqrt(np.diag(want))
    close(ctx, "definition of the covariance", full, want, atol=1e-4 * dd[:, None] * dd[None] + 1e-37)
    if g is not None:
        ctx.label("gradient")
        finite("gradient", g)
        close(ctx, "gradient in single precision", g[:8], g2[:8], rtol=1e-2, atol=2e-3 * np.max(np.abs(g2)), key="gradient")


# --- utilities --------------------------------------------------------------------------

def util_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(what=s.sampled_from(["likelihood", "sparse", "spline", "interp", "simps", "romb", "odeint", "integers"]), m=s.integers(1, 4), n=s.integers(1, 4),
                                     seed=s.integers(0, 2**31), scale=s.sampled_from([0, -9, -16])))


def check_util(case, ctx):
    jc, jnp = J.jc, J.jnp
    rng = np.random.RandomState(case["seed"])
    m, n, what = case["m"], case["n"], case["what"]
    ctx.label(what)
    ctx.nontrivial()
    f = 10.0 ** case["scale"]
    if what in ("likelihood", "sparse"):
        cov = c14.spd(rng, m, n) * f
        full = c12.dense(cov)
        r = rng.normal(size=m * n) * f**0.5
        want = r @ np.linalg.solve(full, r)
        logdet = np.linalg.slogdet(full / f)[1] + m * n * np.log(f)
        e = np.linalg.eigvalsh(full)
        tol = 2e-5 * e[-1] / e[0]
        L = jc.likelihood.gaussian_log_likelihood
        if what == "likelihood":
            for name, C, kw in (("sparse", cov, {}), ("inverse", full, {}), ("cholesky", full, dict(inverse_method="cholesky"))):
                got = sut("likelihood", L, jnp.asarray(r), jnp.zeros(m * n), jnp.asarray(C), **kw)
                finite("likelihood", got)
                close(ctx, "likelihood in single precision, " + name, got, np.asarray(-0.5 * (want + logdet)), rtol=tol, atol=tol * (want + m * n * 10), key="likelihood")
            return
        got = c12.dense(np.asarray(sut("inv", jc.sparse.inv, jnp.asarray(cov))))
        close(ctx, "inv in single precision", got, np.linalg.inv(full), atol=tol / e[0], key="inv")
        sg, ld = sut("slogdet", jc.sparse.slogdet, jnp.asarray(cov))
        close(ctx, "slogdet in single precision", np.array([sg, ld]), [1.0, logdet], rtol=tol, atol=tol * m * n, key="slogdet")
        return
    if what == "integers":
        # integer arrays wherever the arguments are exact integers
        a = rng.randint(-5, 6, size=(m, m, n)) + 30 * np.eye(m, dtype=int)[:, :, None]
        v = rng.randint(-5, 6, size=m * n)
        full = c12.dense(a)
        close(ctx, "product of integers", sut("dot", jc.sparse.dot, a, v), full @ v)
        close(ctx, "inverse of integers", c12.dense(np.asarray(sut("inv", jc.sparse.inv, a))), np.linalg.inv(full), atol=1e-5)
        sg, ld = sut("slogdet", jc.sparse.slogdet, a)
        close(ctx, "slogdet of integers", np.array([sg, ld]), np.array(np.linalg.slogdet(full)), rtol=1e-4)
        close(ctx, "likelihood of integers", sut("likelihood", jc.likelihood.gaussian_log_likelihood, v, 0 * v, full @ full.T), np.asarray(
            -0.5 * (v @ np.linalg.solve(full @ full.T, v) + np.linalg.slogdet(full @ full.T)[1])), rtol=1e-3, atol=1e-2)
        x = np.cumsum(rng.randint(1, 4, size=m + 4))
        y = rng.randint(-9, 10, size=m + 4)
        q = rng.randint(x[0], x[-1] + 1, size=5)
        from scipy.interpolate import CubicSpline

        want = CubicSpline(x, y)(q)
        tol = 1e-4 * (10 + np.max(np.abs(want)))
        S = jc.scipy.interpolate.InterpolatedUnivariateSpline(x, y)
        close(ctx, "spline of integers", sut("spline", S, q), want, atol=tol)
        close(ctx, "derivative of a spline of integers", sut("spline", S.derivative, q), CubicSpline(x, y)(q, 1), atol=20 * tol)
        close(ctx, "antiderivative of a spline of integers", sut("spline", S.antiderivative, q), CubicSpline(x, y).antiderivative()(q), atol=20 * tol)
        close(ctx, "linear interpolation of integers", sut("interp", jc.scipy.interpolate.interp, q, x, y), np.interp(q, x, y), atol=1e-4)
        lo, hi = sorted(rng.randint(-3, 4, size=2))
        close(ctx, "simps of integers", sut("simps", jc.scipy.integrate.simps, lambda t: t**2, int(lo), int(hi), 8), np.asarray((hi**3 - lo**3) / 3.0), rtol=1e-4, atol=1e-4)
        close(ctx, "romb of integers", sut("romb", jc.scipy.integrate.romb, lambda t: t**2, int(lo), int(hi)), np.asarray((hi**3 - lo**3) / 3.0), rtol=1e-4, atol=1e-4)
        return
    x = np.cumsum(rng.uniform(0.5, 1.5, size=m + 5))
    y = rng.normal(size=m + 5)
    q = rng.uniform(x[0], x[-1], size=6)
    p = rng.normal(size=3)
    k = 1 + case["seed"] % 3

    def run():
        I = jc.scipy.interpolate
        if what == "spline":
            s = I.InterpolatedUnivariateSpline(x, y, k=k)
            return jnp.concatenate([s(q), s.derivative(q), s.antiderivative(q)])
        if what == "interp":
            return I.interp(q, jnp.asarray(x), jnp.asarray(y))
        if what == "simps":
            return jnp.atleast_1d(jc.scipy.integrate.simps(lambda t: jnp.exp(p[0] * t) + p[1], p[1], p[2], 64))
        if what == "romb":
            return jnp.atleast_1d(jc.scipy.integrate.romb(lambda t: jnp.exp(p[0] * t) + p[1], p[1], p[2]))
        t = jnp.linspace(0.0, 2.0, 20)
        return jc.scipy.ode.odeint(lambda y, t: jnp.stack([y[1], -y[0] * (1.5 + jnp.sin(t)) + p[0]]), jnp.asarray(p[:2]), t)

    lo, hi = both(what, run)
    finite(what, lo)
    close(ctx, what + " in single precision", lo, hi, atol=3e-4 * (1e-3 + np.max(np.abs(hi))), key=what)


SUBS = [
    Sub("background", back_cases, check_back, quick=70, thorough=20000, x64=False,
        rule="a random cosmology and scale factors of several types, integers included, in single precision; all cases are non-trivial",
        examples=[dict(c=dict(gens.FIDUCIAL, Omega_k=k), a=[1.0, 0.5, 0.1, 0.02, 0.3, 0.7, 0.9, 0.99], form=f) for k, f in ((0.0, "int"), (0.1, "int array"), (-0.1, "int8"), (0.0, "jnp"))]),
    Sub("power", lambda: power_cases(["eh", "linear"], [""]), check_power, quick=30, thorough=10000, x64=False,
        rule="power spectra in single against double precision, integer wave numbers and scale factors; all cases are non-trivial"),
    Sub("halofit", lambda: power_cases(["takahashi2012", "smith2003"], [""]), check_power, quick=30, thorough=10000, x64=False, rule="as power"),
    Sub("derivatives", lambda: power_cases(["eh", "linear"], ["forward", "reverse"]), check_power, quick=8, thorough=3000, x64=False,
        rule="derivatives of the power spectra in single against double precision; all cases are non-trivial"),
    Sub("derivatives2", lambda: power_cases(["takahashi2012", "smith2003"], ["forward", "reverse"]), check_power, quick=8, thorough=3000, x64=False, rule="as derivatives"),
    Sub("spectra", cl_cases, check_cl, quick=11, thorough=2000, x64=False,
        rule="spectra, noise, covariance and gradients of random probes in single against double precision, multipoles of several types; all cases are non-trivial",
        examples=[dict(c=gens.FIDUCIAL, probes=c10.EX[0], ell=[200, 250, 60000], form="int", grad=False, sparse=True)]),
    Sub("spectra2", cl_cases, check_cl, quick=11, thorough=2000, x64=False, rule="as spectra"),
    Sub("utilities", util_cases, check_util, quick=90, thorough=20000, x64=False,
        rule="likelihoods, sparse algebra, splines, quadratures in single precision or of integers; all cases are non-trivial"),
]
