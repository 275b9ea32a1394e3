"""C16: derivatives with respect to nuisance parameters, data vectors, covariances, splines and tables."""
import numpy as np

from vlib import gens
from vlib.core import Sub, Violation, close, require, sut
from vlib.lazy import J, memo
from props import c10, c12, c14

ASSUMPTIONS = ["double precision", "lists of parameters as JAX arrays or numbers, inside the usual ranges of the parameters"]

H = 1e-4


def stencil(F, v):
    n = len(v)
    shifts = [np.zeros(n)] + [s * H * e for s in (-2, -1, 1, 2) for e in np.eye(n)]
    out = [np.asarray(F(v + d)) for d in shifts]
    f0, out = out[0], np.array(out[1:]).reshape((4, n) + out[0].shape)
    central = (8 * (out[2] - out[1]) - (out[3] - out[0])) / (12 * H)
    left = (3 * f0 - 4 * out[1] + out[0]) / (2 * H)
    right = (-3 * f0 + 4 * out[2] - out[3]) / (2 * H)
    return f0, central, left, right


def compare(ctx, key, names, got, st, rtol, floor):
    """got[i]: derivative with respect to parameter i."""
    f0, central, left, right = st
    lo, hi = np.minimum(np.minimum(central, left), right), np.maximum(np.maximum(central, left), right)
    tol = rtol * np.maximum(np.abs(lo), np.abs(hi)) + rtol * np.maximum(np.abs(f0)[None], floor)
    got = np.asarray(got)
    require(got.shape == lo.shape, "%s: derivatives have shape %s, expected %s" % (key, got.shape, lo.shape))
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    err = np.maximum(np.maximum(lo - got, got - hi), 0) / tol
    ctx.err(key, np.max(np.where(np.isfinite(err), err, np.inf)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("%s: derivative with respect to %s is %.8g, finite differences give %.8g (value %.8g)"
                        % (key, names[i[0]], got[i], central[i], f0[i[1:]]))


# --- models of probes: the parameters are a vector -----------------------------------

SMAIL = ("a", "b", "z0")


def n1(p):
    return J.jc.redshift.smail_nz(p["a"], p["b"], p["z0"], gals_per_arcmin2=p["gals"])


def n2(p):
    jnp = J.jnp
    return J.jc.redshift.kde_nz(jnp.stack([p["zc1"], p["zc2"]]), jnp.stack([p["wt1"], p["wt2"]]), bw=0.2, gals_per_arcmin2=2.0, zmax=5.0)


def n3(p):
    return J.jc.redshift.systematic_shift(n2(p), p["dz"], gals_per_arcmin2=p["gals"], zmax=5.0)


def n4(p):
    return J.jc.redshift.systematic_shift(n1(p), p["dz"])


def ia(p):
    return J.jc.bias.des_y1_ia_bias(p["A"], p["eta"], p["zp"])


def g(p):
    return J.jc.bias.inverse_growth_linear_bias(p["bg"])


def cst(p):
    return J.jc.bias.constant_linear_bias(p["bc"])


P = dict(a=(2.0, 1.0, 3.0), b=(2.0, 1.5, 3.0), z0=(0.5, 0.3, 0.7), gals=(2.0, 1.0, 10.0), zc1=(0.7, 0.4, 1.0), zc2=(1.1, 0.8, 1.5),
         wt1=(0.7, 0.3, 1.0), wt2=(0.5, 0.3, 1.0), dz=(0.05, -0.1, 0.1), A=(1.0, -2.0, 2.0), eta=(0.5, -2.0, 2.0), zp=(0.6, 0.3, 1.0),
         bg=(1.5, 0.5, 3.0), bc=(1.5, 0.5, 3.0), m1=(0.05, -0.2, 0.2), m2=(-0.05, -0.2, 0.2), zs=(1.0, 0.5, 2.0))
N1, N2 = ("a", "b", "z0"), ("zc1", "zc2", "wt1", "wt2")

MODELS = {
    "lensing": (N1 + ("m1",), lambda p: J.jc.probes.WeakLensing([n1(p)], multiplicative_bias=p["m1"])),
    "lensing, shifted bins, m and IA lists": (N1 + N2 + ("dz", "m1", "m2", "A", "eta", "zp", "bg"), lambda p: J.jc.probes.WeakLensing(
        [n4(p), n2(p)], ia_bias=[ia(p), g(p)], multiplicative_bias=[p["m1"], p["m2"]])),
    "lensing, one IA": (N1 + N2 + ("dz", "A", "eta", "zp"), lambda p: J.jc.probes.WeakLensing([n1(p), n3(p)], ia_bias=ia(p))),
    "lensing planes": (N1 + ("zs", "m1"), lambda p: J.jc.probes.WeakLensing([n1(p), J.jc.redshift.delta_nz(p["zs"])], multiplicative_bias=p["m1"])),
    "counts, one bias": (N1 + N2 + ("dz", "bg"), lambda p: J.jc.probes.NumberCounts([n1(p), n3(p)], g(p))),
    "counts, bias list": (N1 + N2 + ("dz", "bc", "bg"), lambda p: J.jc.probes.NumberCounts([n4(p), n2(p)], [cst(p), g(p)])),
}


def as_dict(v, names):
    d = dict(zip(names, v))
    d.setdefault("gals", 2.0)
    return d


Z = np.array([0.15, 0.4, 0.75, 1.2, 2.0])


@memo
def model_jit(model, what):
    jax, jc, jnp = J.jax, J.jc, J.jnp
    names, build = MODELS[model]

    def value(probe, c):
        cosmo = gens.from_vec(c, False)
        if what == "kernel":
            return probe.kernel(cosmo, Z, 80.0)
        return jc.cl.angular_cl(cosmo, np.array([30.0, 300.0]), [probe], nonlinear_fn=c10.toy_power)

    f = lambda v, c: value(build(as_dict(v, names)), c)
    # through the probe as a pytree, as done by users who differentiate with respect to it
    w = lambda probe, c, cot: jnp.sum(cot * value(probe, c))

    def tree(v, c, cot):
        probe = build(as_dict(v, names))
        return jax.tree_util.tree_leaves(jax.grad(w)(probe, c, cot)), jax.jvp(lambda x: jax.tree_util.tree_leaves(build(as_dict(x, names))), (v,), (jnp.ones(len(names)),))[1]

    return jax.jit(f), jax.jit(lambda v, c: jnp.moveaxis(jax.jacfwd(f)(v, c), -1, 0)), jax.jit(lambda v, c: jnp.moveaxis(jax.jacrev(f)(v, c), -1, 0)), jax.jit(tree)


def model_cases(models):
    s = gens.st()

    @s.composite
    def build(draw):
        model = draw(s.sampled_from(models))
        return dict(model=model, v=[draw(gens.num(*P[n])) for n in MODELS[model][0]], c=draw(gens.cosmo(gamma=False)), seed=draw(s.integers(0, 2**31)))

    return build()


def check_model(what):
    def check(case, ctx):
        model = case["model"]
        names = MODELS[model][0]
        v, c = np.array(case["v"]), np.array(gens.vec(case["c"]))
        ctx.label(model)
        gens.labels(ctx, case["c"])
        ctx.nontrivial()
        F, fwd, rev, tree = model_jit(model, what)
        st = stencil(lambda x: sut(what, F, x, c), v)
        floor = 0.1 * np.max(np.abs(st[0]), axis=-1, keepdims=True)
        d = sut("forward derivatives of " + what, fwd, v, c)
        compare(ctx, what + " forward", names, d, st, 1e-4, floor)
        compare(ctx, what + " reverse", names, sut("reverse derivatives of " + what, rev, v, c), st, 1e-4, floor)
        cot = np.random.RandomState(case["seed"]).normal(size=st[0].shape)
        grads, tangents = sut("gradient with respect to the probe", tree, v, c, cot)
        require(len(grads) == len(tangents), "the gradient of the probe has another structure")
        total = sum(np.sum(np.asarray(a) * np.asarray(b)) for a, b in zip(grads, tangents))
        want = np.sum(d * cot[None])
        close(ctx, "gradient with respect to the probe object", total, np.asarray(want), rtol=1e-6, atol=1e-8 * np.sum(np.abs(d * cot[None])))

    return check


# --- redshift distributions and biases ---------------------------------------------------

OBJECTS = {
    "smail": (N1, lambda p, c, z: n1(p)(z)),
    "kde": (N2, lambda p, c, z: n2(p)(z)),
    "shifted smail": (N1 + ("dz",), lambda p, c, z: n4(p)(z)),
    "shifted kde": (N2 + ("dz",), lambda p, c, z: n3(p)(z)),
    "constant bias": (("bc",), lambda p, c, z: cst(p)(c, z)),
    "growth bias": (("bg",), lambda p, c, z: g(p)(c, z)),
    "ia": (("A", "eta", "zp"), lambda p, c, z: ia(p)(c, z)),
}


@memo
def object_jit(name):
    jax, jnp = J.jax, J.jnp
    names, fn = OBJECTS[name]
    f = lambda v, c, z: fn(as_dict(v, names), gens.from_vec(c, False), z)
    return jax.jit(f), [jax.jit(lambda v, c, z, d=d: jnp.moveaxis(d(f)(v, c, z), -1, 0)) for d in (jax.jacfwd, jax.jacrev)]


def object_cases():
    s = gens.st()

    @s.composite
    def build(draw):
        name = draw(s.sampled_from(sorted(OBJECTS)))
        return dict(name=name, v=[draw(gens.num(*P[n])) for n in OBJECTS[name][0]], c=draw(gens.cosmo(gamma=False)),
                    z=[draw(gens.num(0.5, 0.05, 2.5)) for _ in range(4)])

    return build()


def check_object(case, ctx):
    names = OBJECTS[case["name"]][0]
    v, c, z = np.array(case["v"]), np.array(gens.vec(case["c"])), np.array(case["z"])
    ctx.label(case["name"])
    ctx.nontrivial(len(names) > 1)
    F, ders = object_jit(case["name"])
    st = stencil(lambda x: sut(case["name"], F, x, c, z), v)
    for mode, d in zip(("forward", "reverse"), ders):
        compare(ctx, case["name"] + " " + mode, names, sut("%s derivatives of %s" % (mode, case["name"]), d, v, c, z), st, 1e-5, 0.1)


# --- likelihood ------------------------------------------------------------------------------


def like_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(m=s.integers(1, 4), n=s.integers(1, 4), seed=s.integers(0, 2**31), sparse=s.booleans(),
                                     logdet=s.booleans(), method=s.sampled_from(["inverse", "cholesky"]), scale=s.sampled_from([0, -6, 3]), mode=s.sampled_from(["grad", "jit", "forward"])))


def check_like(case, ctx):
    """Closed forms: with r = mu - d and y = C^-1 r,  dL/dd = y,  dL/dmu = -y,  dL/dC = (y y^T - C^-1) / 2."""
    jax = J.jax
    L = J.jc.likelihood
    rng = np.random.RandomState(case["seed"])
    m, n = case["m"], case["n"]
    N, f = m * n, 10.0 ** case["scale"]
    cov = c14.spd(rng, m, n) * f
    full, given = c12.dense(cov), cov
    if not case["sparse"]:
        x = rng.normal(size=(N, N))
        given = full = full + 0.05 * f * x @ x.T / N
    data, mu = rng.normal(size=N) * f**0.5, rng.normal(size=N) * f**0.5
    ctx.label("sparse" if case["sparse"] else "dense " + case["method"], "with logdet" if case["logdet"] else "without", case["mode"])
    ctx.nontrivial(N > 1)
    fn = lambda d, p, c: L.gaussian_log_likelihood(d, p, c, include_logdet=case["logdet"], inverse_method=case["method"])
    der = (jax.jacfwd if case["mode"] == "forward" else jax.grad)(fn, argnums=(0, 1, 2))
    if case["mode"] == "jit":
        der = jax.jit(der)
    gd, gm, gc = sut("derivatives of the likelihood", der, J.jnp.asarray(data), J.jnp.asarray(mu), J.jnp.asarray(given))
    inv = np.linalg.inv(full)
    y = inv @ (mu - data)
    G = 0.5 * (np.outer(y, y) - (inv if case["logdet"] else 0.0))
    cond = np.linalg.cond(full)
    sc = np.max(np.abs(y))
    close(ctx, "dL / d data", gd, y, rtol=1e-9, atol=1e-13 * cond * sc)
    close(ctx, "dL / d mean", gm, -y, rtol=1e-9, atol=1e-13 * cond * sc)
    # the Cholesky factorisation only reads a symmetric matrix: compare symmetric parts
    if case["sparse"]:
        G = G.reshape(m, n, m, n)
        G = np.transpose(G[:, np.arange(n), :, np.arange(n)], (1, 2, 0))
        gc = 0.5 * (gc + np.swapaxes(gc, 0, 1))
    else:
        gc = 0.5 * (gc + gc.T)
    close(ctx, "dL / d covariance", gc, G, rtol=1e-8, atol=1e-12 * cond * (sc**2 + np.max(np.abs(inv))))


# --- sparse algebra, splines, interpolation, noise ----------------------------------------------


def util_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(seed=s.integers(0, 2**31), kind=s.sampled_from(["inv", "slogdet", "dot", "spline", "natural", "interp", "noise", "noise"]),
                                     k=s.sampled_from([1, 2, 3]), n=s.integers(5, 9)))


def check_util(case, ctx):
    jax, jnp, jc = J.jax, J.jnp, J.jc
    rng = np.random.RandomState(case["seed"])
    kind = case["kind"]
    ctx.label(kind)
    ctx.nontrivial()
    if kind in ("inv", "slogdet", "dot"):
        m, n = 1 + case["n"] % 3, 3
        a = c14.spd(rng, m, n) + 0.1 * rng.normal(size=(m, m, n)) * 0.1
        da = rng.normal(size=a.shape)
        D, dD = c12.dense(a), c12.dense(da)
        if abs(np.linalg.det(D)) < 1e-12 or np.linalg.cond(D) > 1e6:
            return
        inv = np.linalg.inv(D)
        if kind == "inv":
            got = sut("derivative of inv", lambda: jax.jvp(jc.sparse.inv, (jnp.asarray(a),), (jnp.asarray(da),))[1])
            want = -inv @ dD @ inv
            close(ctx, "derivative of inv", c12.dense(got), want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)))
        elif kind == "slogdet":
            got = sut("gradient of slogdet", jax.grad(lambda x: jc.sparse.slogdet(x)[1]), jnp.asarray(a))
            close(ctx, "gradient of slogdet", np.sum(got * da), np.asarray(np.trace(inv @ dD)), rtol=1e-7, atol=1e-9 * np.max(np.abs(inv)))
            got = sut("gradient of det", jax.grad(jc.sparse.det), jnp.asarray(a))
            d = np.linalg.det(D)
            close(ctx, "gradient of det", np.sum(got * da), np.asarray(d * np.trace(inv @ dD)), rtol=1e-7, atol=1e-9 * abs(d) * np.max(np.abs(inv)))
        else:
            x, y = rng.normal(size=m * n), rng.normal(size=m * n)
            got = sut("gradient of dot", jax.grad(lambda s: jnp.dot(jnp.asarray(x), jc.sparse.dot(s, jnp.asarray(y)))), jnp.asarray(a))
            close(ctx, "gradient of dot", np.sum(got * da), np.asarray(x @ dD @ y), rtol=1e-9, atol=1e-10)
            got = sut("gradient of dot", jax.grad(lambda t: jnp.sum(jc.sparse.dot(t[None, :], jnp.asarray(a), jnp.asarray(y)[:, None]))), jnp.asarray(x))
            close(ctx, "gradient of the bilinear form", got, D @ y, rtol=1e-9, atol=1e-10)
        return
    n = case["n"]
    x = np.cumsum(rng.uniform(0.3, 1.0, size=n))
    y = rng.normal(size=n)
    # away from the knots (of quadratic splines too)
    q = x[:-1] + np.diff(x) * rng.uniform(0.05, 0.45, size=n - 1)
    if kind in ("spline", "natural"):
        I = jc.scipy.interpolate.InterpolatedUnivariateSpline
        kw = dict(k=3, endpoints="natural") if kind == "natural" else dict(k=case["k"])
        f = lambda yy, t: I(jnp.asarray(x), yy, **kw)(t)
        # linear in y: each column is the spline of a unit vector
        got = sut("jacobian of the spline", jax.jacrev(f), jnp.asarray(y), jnp.asarray(q))
        want = np.stack([sut("spline", f, e, q) for e in np.eye(n)], axis=1)
        close(ctx, "d spline / d y", got, want, rtol=1e-8, atol=1e-9)
        slope = sut("derivative of the spline", jax.vmap(jax.grad(lambda t: f(jnp.asarray(y), t))), jnp.asarray(q))
        close(ctx, "d spline / d x = derivative()", slope, sut("derivative", lambda: I(x, y, **kw).derivative(q)), rtol=1e-8, atol=1e-9)
        area = sut("derivative of the antiderivative", jax.vmap(jax.grad(lambda t: I(x, y, **kw).antiderivative(t))), jnp.asarray(q))
        close(ctx, "d antiderivative / d x = spline", area, sut("spline", f, y, q), rtol=1e-8, atol=1e-9)
        if kind == "spline" and case["k"] > 1:
            st = stencil(lambda v: sut("spline", lambda u: I(u, jnp.asarray(y), **kw)(q), v), x)
            got = sut("jacobian of the spline", jax.jacfwd(lambda u: I(u, jnp.asarray(y), **kw)(jnp.asarray(q))), jnp.asarray(x))
            compare(ctx, "d spline / d knots", ["knot %d" % i for i in range(n)], got.T, st, 1e-4, 1.0)
    elif kind == "interp":
        f = lambda t, xx, yy: jc.scipy.interpolate.interp(t, xx, yy)
        got = sut("derivative of interp", jax.jacfwd(f, argnums=2), jnp.asarray(q), jnp.asarray(x), jnp.asarray(y))
        want = np.stack([np.interp(q, x, e) for e in np.eye(n)], axis=1)
        close(ctx, "d interp / d fp", got, want, rtol=1e-9, atol=1e-10)
        got = np.diag(sut("derivative of interp", jax.jacrev(f), jnp.asarray(q), jnp.asarray(x), jnp.asarray(y)))
        close(ctx, "d interp / d x", got, np.diff(y) / np.diff(x), rtol=1e-9, atol=1e-10)
    else:
        R, PR = jc.redshift, jc.probes
        gal, sg = rng.uniform(1, 10, size=3), rng.uniform(0.1, 0.5)
        counts = case["k"] != 1
        def f(t):
            other = R.systematic_shift(R.smail_nz(2.0, 2.0, 0.6), 0.05, gals_per_arcmin2=t[1]) if counts else R.delta_nz(0.5, gals_per_arcmin2=t[1])
            bins = [R.smail_nz(2.0, 2.0, 0.5, gals_per_arcmin2=t[0]), other]
            p = PR.NumberCounts(bins, jc.bias.constant_linear_bias(1.0)) if counts else PR.WeakLensing(bins, sigma_e=sg)
            q = R.kde_nz(np.array([0.5, 0.7]), np.ones(2), bw=0.1, gals_per_arcmin2=t[2])
            ps = [p, PR.WeakLensing([q], sigma_e=sg)]
            return jc.cl.noise_cl(jnp.array([10.0, 20.0]), ps if case["k"] < 3 else ps[::-1])
        v = sut("noise", f, jnp.asarray(gal))
        rows = [(0, 0), (3, 1), (5, 2)] if case["k"] < 3 else [(0, 2), (3, 0), (5, 1)]
        want = np.zeros((6, 2, 3))
        for r, i in rows:
            want[r, :, i] = -v[r, 0] / gal[i]
        for mode in (jax.jacfwd, jax.jacrev):
            got = sut("derivative of the noise", mode(f), jnp.asarray(gal))
            close(ctx, "d noise / d number density", got, want, rtol=1e-9, atol=1e-25)
        # the covariance is a bilinear form of signal + noise
        ell = jnp.array([10.0, 20.0, 35.0])
        p = [PR.NumberCounts([R.smail_nz(2.0, 2.0, 0.5), R.smail_nz(2.0, 2.0, 0.7)], jc.bias.constant_linear_bias(1.0))]
        C = lambda s, n, fs: jc.cl.gaussian_cl_covariance(ell, p, s, n, f_sky=fs)
        s0, n0, ds = (rng.uniform(0.5, 2.0, size=(3, 3)) for _ in range(3))
        args = tuple(jnp.asarray(t) for t in (s0, n0, 0.3))
        d1 = sut("derivative of the covariance", lambda: jax.jvp(C, args, (jnp.asarray(ds), jnp.zeros((3, 3)), 0.0))[1])
        d2 = sut("derivative of the covariance", lambda: jax.jvp(C, args, (jnp.zeros((3, 3)), jnp.asarray(ds), 0.0))[1])
        d3 = sut("derivative of the covariance", jax.jacrev(C, argnums=2), *args)
        c0 = sut("covariance", C, *args)
        close(ctx, "d covariance / d signal", d1, 0.5 * (sut("covariance", C, s0 + ds, n0, 0.3) - sut("covariance", C, s0 - ds, n0, 0.3)), rtol=1e-9, atol=1e-12)
        close(ctx, "d covariance / d noise", d2, d1, rtol=1e-9, atol=1e-14)
        close(ctx, "d covariance / d sky fraction", d3, -c0 / 0.3, rtol=1e-9, atol=1e-14)


KEYS = list(MODELS)
ones = [[P[n][0] for n in MODELS[k][0]] for k in KEYS]

SUBS = [
    Sub("kernels", lambda: model_cases(KEYS), check_model("kernel"), quick=60, thorough=10000,
        rule="one of 6 structures of probes, random parameters of its bins, biases and systematics; all cases are non-trivial",
        examples=[dict(model=k, v=v, c=gens.FIDUCIAL, seed=1) for k, v in zip(KEYS, ones)]),
    Sub("spectra_wl", lambda: model_cases(KEYS[:4]), check_model("cl"), quick=8, thorough=1500,
        rule="spectra of one of 4 structures of lensing probes; all cases are non-trivial",
        examples=[dict(model=KEYS[1], v=ones[1], c=gens.FIDUCIAL, seed=1)]),
    Sub("spectra_nc", lambda: model_cases(KEYS[4:]), check_model("cl"), quick=8, thorough=1500,
        rule="spectra of one of 2 structures of clustering probes; all cases are non-trivial"),
    Sub("distributions", object_cases, check_object, quick=150, thorough=20000,
        rule="a distribution or bias with random parameters at 4 redshifts; non-trivial: several parameters",
        examples=[dict(name=k, v=[P[n][0] for n in OBJECTS[k][0]], c=gens.FIDUCIAL, z=[0.1, 0.5, 1.0, 2.0]) for k in OBJECTS]),
    Sub("likelihood", like_cases, check_like, quick=60, thorough=10000,
        rule="random data, mean, sparse or dense covariance, options; closed forms; non-trivial: more than one datum"),
    Sub("utilities", util_cases, check_util, quick=70, thorough=15000,
        rule="derivatives of sparse algebra, splines, interpolation and noise, closed forms; all cases are non-trivial"),
]
