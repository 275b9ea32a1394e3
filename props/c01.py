"""C01: expansion history of FLRW cosmologies with CPL dark energy."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "cosmologies with E^2 > 0 over the sampled range"]


def cases():
    s = gens.st()
    a = s.one_of(gens.scale_factors(1e-3, 1.0), gens.scale_factors(0.05, 2.0), gens.scale_factors(1e-8, 1.0))
    return s.fixed_dictionaries(dict(
        c=gens.wide(hi=2.0), a=a, form=s.sampled_from(["np", "jnp", "float", "2d", "int"])))


def shape_input(values, form):
    if form == "np":
        return np.array(values)
    if form == "jnp":
        return J.jnp.array(values)
    if form == "2d":
        return np.array(values)[None, :]
    if form == "int":
        return 1
    return float(values[0])


def check(case, ctx):
    jc = J.jc
    c, B = case["c"], J.jc.background
    gens.labels(ctx, c)
    ctx.label("input " + case["form"])
    a = shape_input(case["a"], case["form"])
    an = np.asarray(a, float)
    cos = gens.make(c)
    ctx.nontrivial(c["Omega_k"] != 0 or c["w0"] != -1 or c["wa"] != 0 or np.any(an < 1))
    t = dict(rtol=1e-10, atol=1e-12)
    get = lambda n: sut(n, getattr(B, n), cos, a)
    ref = refs
    close(ctx, "w", np.broadcast_to(get("w"), an.shape), ref.w(c, an), **t)
    close(ctx, "f_de", get("f_de"), ref.f_de(c, an), **t)
    close(ctx, "Esqr", get("Esqr"), ref.esqr(c, an), **t)
    close(ctx, "H", get("H"), ref.hubble(c, an), **t)
    close(ctx, "Omega_m_a", get("Omega_m_a"), ref.om_a(c, an), **t)
    close(ctx, "Omega_de_a", get("Omega_de_a"), ref.ode_a(c, an), **t)
    # closure: matter + dark energy + curvature fill the universe at every time
    ok = c["Omega_k"] / an**2 / ref.esqr(c, an)
    close(ctx, "closure", get("Omega_m_a") + get("Omega_de_a") + ok, np.ones_like(an), rtol=1e-9)
    # derived parameters
    for name, want in (("Omega_m", ref.om(c)), ("Omega_de", ref.ode(c)), ("Omega", 1 - c["Omega_k"]),
                       ("sqrtk", abs(c["Omega_k"]) ** 0.5), ("k", -np.sign(c["Omega_k"])),
                       ("Omega_k", c["Omega_k"]), ("Omega_c", c["Omega_c"]), ("Omega_b", c["Omega_b"]),
                       ("h", c["h"]), ("n_s", c["n_s"]), ("sigma8", c["sigma8"]),
                       ("w0", c["w0"]), ("wa", c["wa"])):
        close(ctx, "parameter " + name, sut(name, lambda: np.asarray(getattr(cos, name), float)),
              np.asarray(want), rtol=1e-12, atol=1e-14)
    require((cos.gamma is None) == (c["gamma"] is None), "gamma of the cosmology")
    if c["gamma"] is not None:
        close(ctx, "parameter gamma", cos.gamma, c["gamma"], rtol=1e-12)
    # redshift <-> scale factor
    u = __import__("jax_cosmo.utils", fromlist=["x"])
    z = sut("a2z", u.a2z, a)
    close(ctx, "a2z", z, 1.0 / an - 1.0, rtol=1e-12, atol=1e-14)
    close(ctx, "z2a", sut("z2a", u.z2a, 1.0 / an - 1.0), an, rtol=1e-12)


def ode_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.wide(gamma=False), a=gens.lognum(0.5, 0.01, 0.98)))


def check_ode(case, ctx):
    """Differential form: energy conservation links w, f_de, H and the density fractions."""
    jax, B = J.jax, J.jc.background
    c, a = case["c"], case["a"]
    gens.labels(ctx, c)
    ctx.nontrivial(c["wa"] != 0 or c["w0"] != -1)
    cos = gens.make(c)
    wa = float(sut("w", B.w, cos, a))
    d = sut("d f_de / d ln a", lambda: jax.grad(lambda x: B.f_de(cos, x))(a) * a)
    close(ctx, "df_de/dlna = -3(1+w)", d, np.asarray(-3 * (1 + wa)), rtol=1e-9, atol=1e-10)
    dh = sut("d ln H / d ln a", lambda: jax.grad(lambda x: J.jnp.log(B.H(cos, x)))(a) * a)
    m = float(sut("Omega_m_a", B.Omega_m_a, cos, a))
    e = float(sut("Omega_de_a", B.Omega_de_a, cos, a))
    want = -0.5 * (3 * m + 2 * (1 - m - e) + 3 * (1 + wa) * e)
    close(ctx, "dlnH/dlna", dh, np.asarray(want), rtol=1e-9, atol=1e-10)
    chi = sut("dchioverda", B.dchioverda, cos, a)
    close(ctx, "a^2 H dchi/da = c", chi * a**2 * float(sut("H", B.H, cos, a)), np.asarray(refs.C_KMS), rtol=1e-10)


SUBS = [
    Sub("formulae", cases, check, quick=600, thorough=60000,
        rule="a random cosmology and scale factors; non-trivial: curvature, w0, wa or a differ from LCDM today",
        examples=[dict(c=gens.FIDUCIAL, a=[1.0], form="int"),
                  dict(c=dict(gens.FIDUCIAL, wa=0.3, Omega_k=-0.1), a=[0.5, 0.1], form="np")]),
    Sub("conservation", ode_cases, check_ode, quick=150, thorough=10000,
        rule="a random cosmology and scale factor; non-trivial: dark energy is not a cosmological constant"),
]
