"""C24: functions of scale factor, redshift or wave number act on each element of their input, whatever its shape and its neighbours."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo
from props import c06, c09

ASSUMPTIONS = ["double precision", "wave numbers and scale factors of halofit in one dimension, or one of them a single value", "redshifts of the kernels in one dimension",
               "where the library removes or adds dimensions of size one, the values are compared"]

BG = ["w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda", "growth_factor", "growth_rate"]
AT1 = ["radial_comoving_distance", "transverse_comoving_distance", "angular_diameter_distance", "a_of_chi"]  # scalars give one element
NZ = ["smail", "kde", "shift", "shift of kde", "shift of shift", "delta"]
BIAS = ["constant bias", "growth bias", "ia bias"]
TK = ["eisenhu_osc", "eisenhu", "primordial", "transfer toy"]
POWER = ["linear k", "linear a"]
SPL = ["spline 1", "spline 2", "spline 3", "spline natural", "derivative", "antiderivative", "interp"]
UTIL = ["z2a", "a2z"]
NAMES = BG + AT1 + NZ + BIAS + TK + POWER + SPL + UTIL

SHAPES = [[], [1], [4], [7], [2, 3], [3, 1], [1, 4], [2, 1, 3], [0], [40], [600], [41, 40], [5003]]
FORMS = ["np", "jnp", "strided", "fortran", "reversed", "jit"]


def fn(name, c, rng):
    """(function of a variable t in (0, 1], scalar shape)"""
    jc, jnp = J.jc, J.jnp
    B = jc.background
    if name in BG:
        return (lambda t: getattr(B, name)(c, t))
    if name == "a_of_chi":
        return lambda t: B.a_of_chi(c, 6000.0 * t)
    if name in AT1:
        return lambda t: getattr(B, name)(c, t)
    if name in NZ:
        R = jc.redshift
        sm, kd = R.smail_nz(1.5, 2.1, 0.6), R.kde_nz(jnp.array([0.4, 0.9, 1.3]), jnp.array([1.0, 0.4, 0.7]), bw=0.15)
        o = {"smail": sm, "kde": kd, "shift": R.systematic_shift(sm, 0.1), "shift of kde": R.systematic_shift(kd, -0.1),
             "shift of shift": R.systematic_shift(R.systematic_shift(sm, 0.1), 0.05), "delta": R.delta_nz(0.5)}[name]
        return lambda t: o(2.0 * t)
    if name in BIAS:
        b = jc.bias
        o = {"constant bias": b.constant_linear_bias(1.3), "growth bias": b.inverse_growth_linear_bias(0.9), "ia bias": b.des_y1_ia_bias(1.1, -0.7, 0.5)}[name]
        return lambda t: o(c, 2.0 * t)
    if name in ("eisenhu", "eisenhu_osc"):
        return lambda t: jc.transfer.Eisenstein_Hu(c, 3.0 * t * t, type=name)
    if name == "primordial":
        return lambda t: jc.power.primordial_matter_power(c, 3.0 * t * t)
    if name == "transfer toy":
        return lambda t: jc.power.linear_matter_power(c, 3.0 * t * t, 1.0, transfer_fn=c06.toy_transfer)
    if name == "linear k":
        return lambda t: jc.power.linear_matter_power(c, 3.0 * t * t, 0.6, transfer_fn=c06.toy_transfer)
    if name == "linear a":
        return lambda t: jc.power.linear_matter_power(c, 0.2, t, transfer_fn=c06.toy_transfer)
    if name in UTIL:
        return getattr(jc.utils, name)
    I = jc.scipy.interpolate
    x, y = np.linspace(-0.1, 1.1, 9) ** 3, rng.normal(size=9)
    if name == "interp":
        return lambda t: I.interp(t, jnp.asarray(x), jnp.asarray(y))
    k = int(rng.randint(1, 4)) if name in ("derivative", "antiderivative") else 3 if name == "spline natural" else int(name[-1])
    s = I.InterpolatedUnivariateSpline(x, y, k=k, **(dict(endpoints="natural") if name == "spline natural" else {}))
    return s.derivative if name == "derivative" else s.antiderivative if name == "antiderivative" else s


SQUEEZED = POWER + ["transfer toy"]


def dress(t, form):
    """The same values in another layout of memory."""
    if form == "strided":
        out = np.full(t.shape + (2,), 1e9)
        out[..., 0] = t
        return out[..., 0]
    if form == "fortran":
        return np.asfortranarray(t) if t.ndim else t
    if form == "reversed":
        return t[::-1].copy()[::-1] if t.ndim else t
    if form in ("jnp", "jit"):
        return J.jnp.asarray(t)
    return t


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(name=s.sampled_from(NAMES), shapes=s.lists(s.sampled_from(SHAPES), min_size=2, max_size=3), form=s.sampled_from(FORMS), seed=s.integers(0, 2**31),
                                     gamma=s.sampled_from([None, None, 0.6]), Omega_k=s.sampled_from([0.0, 0.1, -0.1])))


def check(case, ctx):
    name = case["name"]
    rng = np.random.RandomState(case["seed"])
    c = gens.make(dict(gens.FIDUCIAL, Omega_k=case["Omega_k"], gamma=case["gamma"], w0=-0.9, wa=0.1))
    f = fn(name, c, rng)
    g = J.jax.jit(f) if case["form"] == "jit" else f
    pool = rng.uniform(0.05, 1.0, size=40)
    pool[rng.randint(40, size=6)] = [1.0, 0.25, 0.05, 1.0, 0.5, 0.25]
    base = sut(name, f, pool)  # every shape against this one
    require(base.shape == (40,), "%s of 40 values has shape %s" % (name, base.shape))
    scale = 1e-10 * np.max(np.abs(base))
    ctx.label(name, case["form"])
    for shape in case["shapes"]:
        n = int(np.prod(shape)) if shape else 1
        i = rng.randint(40, size=n)
        t = pool[i].reshape(shape)
        ctx.label("shape %s" % shape)
        ctx.nontrivial(n > 1)
        arg = dress(t, case["form"])
        got = sut("%s at shape %s" % (name, shape), g, arg)
        require(np.array_equal(np.asarray(arg), t), "%s modifies its argument" % name)
        if name in SQUEEZED or not shape:
            require(got.size == n, "%s at shape %s has shape %s" % (name, shape, got.shape))
            require(tuple(x for x in got.shape if x != 1) == tuple(x for x in shape if x != 1), "%s at shape %s has shape %s" % (name, shape, got.shape))
        else:
            require(got.shape == tuple(shape), "%s at shape %s has shape %s" % (name, shape, got.shape))
        close(ctx, "%s at shape %s, one element at a time" % (name, shape), got.ravel(), base[i], rtol=1e-9, atol=scale, key=name)
    # one number
    i = int(rng.randint(40))
    got = sut("%s at a number" % name, g, float(pool[i]))
    require(got.size == 1, "%s at a number has shape %s" % (name, got.shape))
    close(ctx, "%s at a number" % name, got.ravel(), base[[i]], rtol=1e-9, atol=scale, key=name)


# --- several arguments ------------------------------------------------------------

BSHAPES = [[], [1], [3], [2, 3], [2, 1], [1, 3], [2, 1, 3], [3, 3], [3, 1]]


def broadcast_cases(*whats):
    s = gens.st()
    return s.fixed_dictionaries(dict(what=s.sampled_from(whats),
                                     k=s.sampled_from(BSHAPES), a=s.sampled_from(BSHAPES), n=s.integers(1, 5), seed=s.integers(0, 2**31), c=gens.cosmo()))


@memo
def point_power(kind, gamma):
    P = J.jc.power
    f = P.linear_matter_power if kind == "linear" else P.halofit
    return J.jax.jit(J.jax.vmap(lambda v, k, a: f(gens.from_vec(v, gamma), k, a, c06.toy_transfer), in_axes=(None, 0, 0)))


def check_broadcast(case, ctx):
    jc, jnp = J.jc, J.jnp
    rng = np.random.RandomState(case["seed"])
    spec = case["c"]
    if case["what"].startswith("halofit"):
        spec = dict(spec, Omega_k=max(spec["Omega_k"], 0.0))
    c = gens.make(spec)
    what, n = case["what"], case["n"]
    ctx.label(what)
    gens.labels(ctx, spec)
    if what.startswith("kernel"):
        p = {"kernel wl": c09.wl([c09.SM, c09.SHORT, c09.PLANE[1]], m=[0.1, -0.2, 0.3]), "kernel wl IA": c09.wl([c09.SM, c09.KDE], c09.IA[:2], 0.1),
             "kernel nc": c09.nc([c09.SHIFT, c09.KDE], c09.IA[1])}[what]
        p = gens.make_probe(p)
        z = rng.uniform(0.05, 2.5, size=n)
        ell = float(rng.uniform(1, 500))
        got = sut(what, p.kernel, c, z, ell)
        require(got.shape == (p.n_tracers, n), "%s at %d redshifts has shape %s" % (what, n, got.shape))
        one = np.concatenate([sut(what, p.kernel, c, float(t), ell) for t in z], axis=1)
        ctx.nontrivial(n > 1)
        close(ctx, "%s one redshift at a time" % what, got, one, rtol=1e-9, atol=1e-10 * np.max(np.abs(one)))
        return
    if what == "linear":
        ks, as_ = case["k"], case["a"]
        try:
            shape = np.broadcast_shapes(tuple(ks), tuple(as_))
        except ValueError:
            as_ = ks
            shape = tuple(ks)
        P = jc.power.linear_matter_power
    else:
        ks, as_ = {"halofit k": ([n], []), "halofit a": ([], [n]), "halofit ka": ([n], [n])}[what]
        if what == "halofit k" and case["seed"] % 2:
            ks, as_ = case["k"], [1]
        shape = np.broadcast_shapes(tuple(ks), tuple(as_)) if as_ != [1] else tuple(ks)
        P = jc.power.halofit if case["seed"] % 3 else jc.power.nonlinear_matter_power
    k, a = np.exp(rng.uniform(np.log(0.01), np.log(3.0), size=ks)), rng.uniform(0.3, 1.0, size=as_)
    ctx.label("k %s, a %s" % (ks, as_))
    ctx.nontrivial(k.size > 1 or a.size > 1)
    got = sut("%s at shapes %s, %s" % (what, ks, as_), P, c, k, a, c06.toy_transfer)
    squeeze = tuple(x for x in shape if x != 1)
    require(tuple(x for x in got.shape if x != 1) == squeeze, "%s at shapes %s, %s has shape %s" % (what, ks, as_, got.shape))
    kk, aa = [np.ravel(x) for x in np.broadcast_arrays(k, a)]
    m = max(kk.size, 1)
    pad = 6 - m % 6 if m % 6 else 0
    want = point_power("linear" if what == "linear" else "halofit", spec["gamma"] is not None)(
        np.array(gens.vec(spec)), np.concatenate([kk, np.full(pad, 0.1)]), np.concatenate([aa, np.full(pad, 0.5)]))[:m]
    close(ctx, "%s at shapes %s, %s one point at a time" % (what, ks, as_), got.ravel(), np.ravel(want), rtol=1e-8, key=what)


SUBS = [
    Sub("shapes" + k, cases, check, quick=45, thorough=15000,
        rule="one of %d functions, two or three shapes and a memory layout, against the values at a vector; non-trivial: some shape has several elements" % len(NAMES),
        examples=[dict(name=nm, shapes=[[2, 3], [], [2, 1, 3], [7], [5003] if j % 2 else [130]], form=FORMS[j % len(FORMS)], seed=j, gamma=None, Omega_k=0.1) for j, nm in enumerate(NAMES) if j % 3 == r])
    for r, k in enumerate(("", "2", "3"))] + [
    Sub("arguments", lambda: broadcast_cases("halofit k", "halofit a", "halofit ka", "kernel wl", "kernel wl IA", "kernel nc"), check_broadcast, quick=14, thorough=6000,
        rule="wave numbers and scale factors of shapes that broadcast, or redshifts of a kernel, one point at a time; non-trivial: several points",
        # a column vector of wave numbers used to give a matrix
        examples=[dict(what="halofit k", k=k, a=[], n=1, seed=7, c=gens.FIDUCIAL) for k in ([2, 1], [2, 1, 3])]),
    Sub("linear", lambda: broadcast_cases("linear"), check_broadcast, quick=40, thorough=6000,
        rule="wave numbers and scale factors of shapes that broadcast, in the linear spectrum; non-trivial: several points",
        examples=[dict(what="linear", k=k, a=a, n=1, seed=i, c=gens.FIDUCIAL) for i, (k, a) in enumerate([([3, 3], [3]), ([3], [3, 3]), ([3, 1], [3]), ([3], [3, 1]), ([3, 3], [3, 1])])]),
]
