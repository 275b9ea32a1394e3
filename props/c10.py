"""C10: angular power spectra in the Limber approximation, and their order."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo
from props import c06, c09

ASSUMPTIONS = ["double precision", "ell between 2 and 5000", "distributions with negligible tails beyond their zmax",
               "no galaxies at z = 0 in the tests with halofit or linear spectra"]


def toy_power(cosmo, k, a, transfer_fn=None, **kw):
    """A user-supplied power spectrum, smooth, close to the real one."""
    return 4.0e4 * (k / 0.02) / (1.0 + (k / 0.02) ** 2) ** 1.7 * a**1.5 * (1.0 + 0.3 * k / (1.0 + k) * a)


def toy_power_ref(k, z):
    return toy_power(None, k, 1.0 / (1.0 + z))


def pairs(m):
    return [(i, j) for i in range(m) for j in range(i, m)]


def n_tracers(probes):
    return sum(len(p["nzs"]) for p in probes)


def compare(ctx, c, probes, ell, got, pk, rtol):
    zmax = max(d["zmax"] for p in probes for d in p["nzs"])
    want = refs.limber(c, probes, ell, pk, zmax)
    m = n_tracers(probes)
    auto = {i: want[q] for q, (i, j) in enumerate(pairs(m)) if i == j}
    scale = np.array([np.sqrt(auto[i] * auto[j]) for i, j in pairs(m)])
    close(ctx, "angular power spectra", got, want, rtol=rtol, atol=rtol / 2 * scale)


def probe_lists(max_probes=3, max_bins=2):
    s = gens.st()
    return gens.twins(s.lists(gens.probe(max_bins=max_bins), min_size=1, max_size=max_probes), max_probes * max_bins)


def distant(probes):
    """No galaxies at the observer, where the quadrature of the library does not resolve the spectrum."""
    z = np.linspace(0.0, 3.0, 301)
    shapes = [refs.nz_shape(d)(z) for p in probes for d in p["nzs"] if d["type"] != "delta"]
    return all(y[0] < 0.02 * np.max(y) for y in shapes)


def ell_values(n=3):
    s = gens.st()
    one = s.one_of(gens.lognum(100.0, 2.0, 5000.0), s.sampled_from([2, 10, 1000]))
    return s.lists(one, min_size=n, max_size=n)


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(cs=s.tuples(gens.cosmo(gamma=False), gens.cosmo(gamma=False)).map(list), g=s.sampled_from([None, None, 0.55]),
                                     probes=probe_lists(), int_ell=s.booleans(),
                                     ell=s.one_of(ell_values(3), ell_values(3), ell_values(1), s.sampled_from([list(np.round(np.geomspace(2.0, 8000.0, n), 3)) for n in (20, 60, 120)]))))


def check(case, ctx):
    jc = J.jc
    probes = case["probes"]
    for p in probes:
        gens.probe_labels(ctx, p)
    ctx.label("%d tracers" % n_tracers(probes))
    ctx.nontrivial(n_tracers(probes) > 1)
    ell = np.array(case["ell"])
    if case["int_ell"]:
        ell = np.round(ell).astype(int)
    objs = [gens.make_probe(p) for p in probes]
    fn = J.jax.jit(lambda v: jc.cl.angular_cl(gens.from_vec(v, case["g"] is not None), ell, objs, nonlinear_fn=toy_power))
    for c in case["cs"]:
        c = dict(c, gamma=case["g"])
        gens.labels(ctx, c)
        got = sut("angular_cl", fn, np.array(gens.vec(c)))
        m = n_tracers(probes)
        require(got.shape == (m * (m + 1) // 2, len(ell)), "shape of angular_cl %s for %d tracers" % (got.shape, m))
        compare(ctx, c, probes, ell, got, toy_power_ref, 0.01)


FULL = ["default", "linear", "custom", "user"]


def full_cases(kinds):
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), probes=probe_lists(2, 1).filter(distant), ell=ell_values(2), kind=s.sampled_from(kinds)))


def user_power(cosmo, k, a, transfer_fn):
    return 1e4 * transfer_fn(cosmo, k) ** 2 * k * a**2 * cosmo.sigma8**2


def keywords(kind):
    return {"default": {}, "linear": dict(nonlinear_fn=J.jc.power.linear), "custom": dict(transfer_fn=c06.toy_transfer),
            "user": dict(nonlinear_fn=user_power, transfer_fn=c06.toy_transfer)}[kind]


@memo
def pk_table(kind, gamma):
    P = J.jc.power
    f = lambda v, k, a: P.nonlinear_matter_power(gens.from_vec(v, gamma), k, a, **keywords(kind))
    return J.jax.jit(J.jax.vmap(f, in_axes=(None, None, 0)))


def check_full(case, ctx):
    """With the power spectra of the library, for the given transfer function and prescription."""
    jc = J.jc
    c, probes, kind, ell = case["c"], case["probes"], case["kind"], np.array(case["ell"], float)
    gens.labels(ctx, c)
    ctx.label(kind)
    ctx.nontrivial()
    kw = keywords(kind)
    cos = gens.make(c)
    # the spectrum of the library on a grid
    zmax = max(d["zmax"] for p in probes for d in p["nzs"])
    zg, kg = np.linspace(0.0, zmax, 41), np.exp(np.linspace(np.log(1e-4), np.log(200.0), 150))
    if kind == "user":
        table = user_power(cos, kg[None, :], 1.0 / (1.0 + zg)[:, None], c06.toy_transfer)
    else:
        table = pk_table(kind, c["gamma"] is not None)(np.array(gens.vec(c)), kg, 1.0 / (1.0 + zg))
    from scipy.interpolate import RectBivariateSpline

    spl = RectBivariateSpline(zg, np.log(kg), np.log(np.asarray(table)))
    objs = [gens.make_probe(p) for p in probes]
    got = sut("angular_cl", J.jax.jit(lambda c: jc.cl.angular_cl(c, ell, objs, **kw)), cos)
    compare(ctx, c, probes, ell, got, lambda k, z: np.exp(spl.ev(z, np.log(np.clip(k, 1e-4, 200.0)))), 0.02)


EX = [[c09.wl([c09.SM, c09.SHORT], c09.IA[0], 0.1), c09.nc([c09.KDE], c09.IA[1])],
      [c09.nc([c09.SM], c09.IA[2]), c09.wl([c09.PLANE[1], c09.DEEP, c09.PLANE[0]], m=[0.1, -0.2, 0.3]), c09.nc([c09.SHIFT], c09.IA[1])]]
# the lensing of the cosmic microwave background and galaxies
CMB = [c09.wl([c09.FAR[0]]), c09.nc([c09.KDE], c09.IA[1]), c09.wl([c09.SM])]
# probes that differ in their configuration, or in the kind of their bias, only
TWINS = [c09.nc([c09.KDE], dict(type="constant", b=1.5)), c09.nc([dict(c09.KDE, bw=0.2)], dict(type="constant", b=1.5)), c09.nc([c09.KDE], dict(type="growth", b=1.5))]

SUBS = [
    Sub("limber", cases, check, quick=24, thorough=3000,
        rule="1 to 3 random probes, two cosmologies, 1 to 120 multipoles, a given power spectrum; non-trivial: several tracers",
        examples=[dict(cs=[gens.FIDUCIAL, dict(gens.FIDUCIAL, Omega_k=-0.1, w0=-0.8)], g=None, probes=p, ell=[2, 50, 2000], int_ell=i == 0)
                  for i, p in enumerate(EX + [CMB, TWINS])]),
    Sub("limber2", cases, check, quick=24, thorough=3000, rule="as limber"),
    Sub("limber3", cases, check, quick=24, thorough=3000, rule="as limber"),
    Sub("halofit", lambda: full_cases(FULL[:1]), check_full, quick=6, thorough=600,
        rule="random probes and cosmology, with the spectrum of the library; all cases are non-trivial",
        examples=[dict(c=gens.FIDUCIAL, probes=EX[0], ell=[20.0, 800.0], kind=FULL[0])]),
    Sub("spectra", lambda: full_cases(FULL[1:]), check_full, quick=8, thorough=900,
        rule="random probes and cosmology, with linear or user spectra and transfer functions; all cases are non-trivial",
        examples=[dict(c=gens.FIDUCIAL, probes=EX[0], ell=[20.0, 800.0], kind=k) for k in FULL[1:]]),
]
