"""C08: redshift distributions."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "distributions wider than the 256 intervals of the normalisation integral, and the error of that integral at the kinks of clipped shifts tolerated"]
ARCMIN2 = (180.0 * 60.0 / np.pi) ** 2


def zs(n=6):
    s = gens.st()
    return s.lists(s.one_of(gens.num(0.5, 0.0, 3.0), gens.num(0.5, 0.0, 10.0)), min_size=n, max_size=n)


def specs():
    s = gens.st()

    def free(d, a, b, z0, gals):
        return dict(d, a=a, b=b, z0=z0, gals=gals)

    wide = s.builds(free, s.just(dict(type="smail")), gens.num(2.0, 1.0, 4.0), gens.num(1.5, 0.8, 3.0),
                    gens.num(0.5, 0.25, 1.4), gens.lognum(1.0, 0.1, 60.0)).flatmap(
        lambda d: s.sampled_from((10.0, 4.0, 2.0, 1.0)).map(lambda zm: dict(d, zmax=zm)))
    kde = s.builds(lambda zc, w, bw, zm, g: dict(type="kde", zcat=zc, w=w[:len(zc)], bw=bw, zmax=zm, gals=g),
                   s.lists(gens.num(0.7, 0.0, 3.0), min_size=1, max_size=5), s.tuples(gens.num(1.0, 0.05, 2.0), *[s.one_of(*[gens.num(1.0, 0.05, 2.0)] * 5, s.just(0.0))] * 4).map(list),
                   s.sampled_from((0.1, 0.2, 0.4)), s.sampled_from((10.0, 5.0)), gens.lognum(1.0, 0.1, 60.0))
    base = s.one_of(wide, kde)
    shift = s.builds(lambda p, dz, g: dict(type="shift", parent=p, dz=dz, gals=g, zmax=p["zmax"]), base,
                     gens.num(0.05, -0.2, 0.3), gens.lognum(1.0, 0.1, 60.0))
    twice = s.builds(lambda p, dz: dict(type="shift", parent=p, dz=dz, gals=1.0, zmax=p["zmax"]), shift, gens.num(0.05, -0.1, 0.1))
    return s.one_of(base, base, shift, twice)


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(nz=specs(), z=zs()))


def norm_tol(d):
    """1e-3, plus what the kinks of clipped shifts cost a quadrature of 256 intervals."""
    fine = np.linspace(0.0, d["zmax"], 100001)
    coarse = np.linspace(0.0, d["zmax"], 257)
    y, f = refs.nz_shape(d)(coarse), refs.nz_shape(d)(fine)
    s = np.sum(y[:-1:2] + 4 * y[1::2] + y[2::2]) * (coarse[1] - coarse[0]) / 3.0
    return 1e-3 + (2.0 * abs(s / np.trapezoid(f, fine) - 1.0) if d["type"] == "shift" else 0.0)


def check(case, ctx):
    d, z = case["nz"], np.array(case["z"])
    ctx.label(d["type"], "zmax %g" % d["zmax"])
    ctx.nontrivial(d["type"] != "smail" or d["zmax"] != 10.0)
    p = gens.make_nz(d)
    want = refs.nz(d)(z)
    peak = np.max(refs.nz(d)(np.linspace(0.0, d["zmax"], 500)))
    first = sut("n(z)", p, z)
    tol = norm_tol(d)
    close(ctx, "n(z)", first, want, rtol=tol, atol=1e-5 * peak, key="n(z) " + d["type"])
    close(ctx, "n(z) again", sut("n(z)", p, z), first, rtol=1e-12, atol=1e-14)
    # the shape is exact
    shape = refs.nz_shape(d)(z)
    ok = shape > 1e-6 * np.max(shape)
    if ok.any():
        r = first[ok] / shape[ok]
        close(ctx, "shape of n(z)", r / r[0], np.ones(r.size), rtol=1e-8)
    zz = np.linspace(0.0, d["zmax"], 3001)
    n = sut("n(z)", p, zz)
    require(np.all(n >= 0), "negative n(z)")
    close(ctx, "n(z) integrates to one", np.asarray(np.trapezoid(n, zz)), np.asarray(1.0), rtol=tol)
    one = sut("n(z) at a scalar", p, float(z[0]))
    close(ctx, "n(z) at a scalar", np.ravel(one), first[:1], rtol=1e-8, atol=1e-12)
    require(np.size(one) == 1, "n(z) at a scalar has %d values" % np.size(one))
    require(p.zmax == d["zmax"], "zmax %r, expected %r" % (p.zmax, d["zmax"]))
    close(ctx, "galaxies per arcmin2", p.gals_per_arcmin2, d["gals"], rtol=1e-12)
    close(ctx, "galaxies per steradian", p.gals_per_steradian, d["gals"] * ARCMIN2, rtol=1e-8)
    if d["type"] == "smail":
        # the documented defaults: one galaxy per arcmin2, up to redshift ten
        q = J.jc.redshift.smail_nz(d["a"], d["b"], d["z0"])
        require(q.zmax == 10.0, "default zmax %r" % (q.zmax,))
        close(ctx, "default density", q.gals_per_arcmin2, 1.0, rtol=1e-12)
        close(ctx, "default density per steradian", q.gals_per_steradian, ARCMIN2, rtol=1e-8)


def delta_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(z0=gens.num(1.0, 0.1, 3.0), z=zs(), gals=gens.lognum(1.0, 0.1, 60.0)))


def check_delta(case, ctx):
    z0 = case["z0"]
    # neighbours at any distance, down to the resolution of the floating point numbers
    near = [z0 * (1 + s * 10.0**-e) for e in (2, 4, 5, 6, 8, 12) for s in (-1, 1)]
    z = np.array(case["z"] + [z0] + near)
    p = J.jc.redshift.delta_nz(z0, gals_per_arcmin2=case["gals"])
    ctx.nontrivial()
    got = sut("delta n(z)", p, z)
    require(got.dtype.kind == "f", "n(z) of a plane has values of type %s" % got.dtype)
    close(ctx, "delta n(z)", got, np.where(z == z0, 1.0, 0.0), rtol=1e-12)
    close(ctx, "galaxies per steradian", p.gals_per_steradian, case["gals"] * ARCMIN2, rtol=1e-8)


def weight_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(zcat=s.lists(gens.num(0.7, 0.1, 2.0), min_size=4, max_size=4), z=zs(),
                                     w=s.lists(s.integers(0, 4), min_size=4, max_size=4).filter(any), large=s.sampled_from([0, 0, 0, 300, 513, 700, 1300]), f=gens.lognum(1.0, 0.01, 100.0)))


def check_weight(case, ctx):
    """KDE: an overall factor of the weights does not matter, and a weight counts a galaxy several times."""
    R = J.jc.redshift
    x, w, z = np.array(case["zcat"]), np.array(case["w"]), np.array(case["z"])
    if case.get("large"):
        # as many galaxies around those four
        rng = np.random.RandomState(case["large"])
        i = np.sort(rng.randint(0, 4, size=case["large"]))
        x, w = x[i] + rng.uniform(-0.05, 0.05, size=i.size), np.minimum(w[i] + rng.randint(0, 2, size=i.size), 4)
    counts, w = w, w * 1.0
    ctx.label("%d galaxies" % x.size)
    ctx.nontrivial(len(set(case["w"])) > 1)
    a = sut("kde n(z)", R.kde_nz(x, w, bw=0.2), z)
    want = refs.nz(dict(type="kde", zcat=x, w=w, bw=0.2, zmax=10.0, gals=1.0))(z)
    close(ctx, "n(z) of a catalogue", a, want, rtol=1e-3, atol=1e-6)
    close(ctx, "factor of the weights", sut("kde n(z)", R.kde_nz(x, w * case["f"], bw=0.2), z), a, rtol=1e-9, atol=1e-12)
    xx = np.repeat(x, counts)
    close(ctx, "weights as multiplicities", sut("kde n(z)", R.kde_nz(xx, np.ones(len(xx)), bw=0.2), z), a, rtol=1e-9, atol=1e-12)
    s = np.argsort(-x)
    close(ctx, "order of the catalogue", sut("kde n(z)", R.kde_nz(x[s], w[s], bw=0.2), z), a, rtol=1e-9, atol=1e-12)


SUBS = [
    Sub("distributions", cases, check, quick=250, thorough=20000,
        rule="a random smail, kde or (twice) shifted distribution and redshifts; non-trivial: not a smail with the default zmax"),
    Sub("planes", delta_cases, check_delta, quick=60, thorough=2000,
        rule="a source plane and redshifts, its own included; all cases are non-trivial",
        examples=[dict(z0=1.0, z=[0.0, 0.5, 2.0], gals=2.0)]),
    Sub("catalogues", weight_cases, check_weight, quick=60, thorough=5000,
        rule="a weighted catalogue of 4 galaxies, or of up to 1300; non-trivial: the weights differ",
        examples=[dict(zcat=[0.5, 0.9, 1.3, 1.7], w=[1, 2, 0, 3], f=2.0, large=n, z=[0.1, 0.5, 0.9, 1.3, 1.7, 2.2]) for n in (0, 700, 1025)]),
]
