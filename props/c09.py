"""C09: radial kernels of the tracers."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "ell >= 1, redshifts between 0.01 and 6",
               "distributions whose tails beyond their zmax are negligible"]


def cases(**kw):
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.cosmo(), probe=gens.probe(**kw), z=s.lists(s.one_of(gens.num(0.5, 0.01, 1.5), gens.num(0.5, 0.01, 6.0)), min_size=6, max_size=6),
        ell=s.one_of(gens.lognum(100.0, 1.0, 5000.0), s.sampled_from([1, 2, 3, 50, 1000, 50000]))))


def check(case, ctx):
    c, d, z, ell = case["c"], case["probe"], np.array(case["z"]), case["ell"]
    gens.labels(ctx, c)
    gens.probe_labels(ctx, d)
    ctx.nontrivial(len(d["nzs"]) > 1 or d["type"] == "nc" or d["ia"] is not None or d["m"] != 0.0)
    p = gens.make_probe(d)
    require(p.n_tracers == len(d["nzs"]), "n_tracers = %r" % p.n_tracers)
    require(p.zmax == max(x["zmax"] for x in d["nzs"]), "zmax = %r" % p.zmax)
    cos = gens.make(c)
    k = sut("kernel", p.kernel, cos, z, ell)
    compare(ctx, c, d, z, ell, k)


def compare(ctx, c, d, z, ell, k):
    want = refs.kernel(refs.Tab(c, n=3), d, z, ell)
    zz = np.linspace(0.02, 3.0, 40)
    scale = np.max(np.abs(refs.kernel(refs.Tab(c, n=3), d, zz, ell)), axis=1, keepdims=True)
    if d["type"] == "nc":
        close(ctx, "number counts kernel", k, want, rtol=3e-3, atol=1e-4 * scale)
    else:
        close(ctx, "weak lensing kernel" + ("" if d["ia"] is None else " with IA"), k, want, rtol=0.01, atol=4e-3 * scale)


SM = dict(type="smail", a=2.0, b=1.5, z0=0.5, gals=1.0, zmax=10.0)
DEEP = dict(type="smail", a=2.0, b=1.5, z0=1.2, gals=2.0, zmax=10.0)
SHORT = dict(type="smail", a=2.0, b=2.0, z0=0.4, gals=1.0, zmax=3.0)
KDE = dict(type="kde", zcat=[0.5, 1.0, 1.3], w=[1.0, 0.5, 0.8], bw=0.1, gals=3.0, zmax=5.0)
SHIFT = dict(type="shift", parent=SM, dz=0.1, gals=1.0, zmax=10.0)
PLANE = [dict(type="delta", z0=z, gals=1.0, zmax=10.0) for z in (0.4, 1.0, 2.0)]
# the lensing of the cosmic microwave background, and planes beyond what their bins integrate to
FAR = [dict(type="delta", z0=z, gals=1.0, zmax=zm) for z, zm in ((900.0, 10.0), (30.0, 10.0), (5.0, 3.0), (2.0, 1.0))]
IA = [dict(type="ia", A=1.0, eta=0.5, z0=0.6), dict(type="growth", b=1.5), dict(type="constant", b=-1.0)]


def wl(nzs, ia=None, m=0.0, sigma_e=0.26):
    return dict(type="wl", nzs=nzs, ia=ia, m=m, sigma_e=sigma_e)


def nc(nzs, bias):
    return dict(type="nc", nzs=nzs, bias=bias)


Z = [0.05, 0.3, 0.8, 1.1, 1.9, 3.0]


def bias_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), bias=gens.bias(), z=s.lists(s.one_of(gens.num(1.0, 0.0, 3.0), gens.num(1.0, 0.0, 30.0), gens.lognum(10.0, 0.01, 200.0)), min_size=5, max_size=5)))


def check_bias(case, ctx):
    """Biases by themselves, at any redshift."""
    c, d, z = case["c"], case["bias"], np.array(case["z"])
    ctx.label(d["type"])
    gens.labels(ctx, c)
    ctx.nontrivial(d["type"] != "constant")
    b, cos = gens.make_bias(d), gens.make(c)
    got = sut("bias", b, cos, z)
    close(ctx, "bias", got, refs.bias(c, d, z), rtol=3e-3 if d["type"] == "growth" else 1e-9)
    if d["type"] == "growth":
        close(ctx, "bias times growth", got * sut("growth_factor", J.jc.background.growth_factor, cos, 1.0 / (1.0 + z)), d["b"] * np.ones_like(z), rtol=1e-9)
    close(ctx, "bias at a scalar", np.ravel(sut("bias", b, cos, float(z[0]))), got[:1], rtol=1e-9)


def sub(name, probes, **kw):
    ex = [dict(c=c, probe=p, z=Z, ell=ell) for p, c, ell in zip(
        probes, [gens.FIDUCIAL, dict(gens.FIDUCIAL, gamma=0.6), dict(gens.FIDUCIAL, Omega_k=0.1, wa=0.2)] * 3, [300, 2.5, 1, 10, 50000] * 3)]
    return Sub(name, lambda: cases(**kw), check, quick=45, thorough=6000, examples=ex,
               rule="a random probe (bins, biases, systematics), cosmology, 6 redshifts and ell; "
                    "non-trivial: several bins, or a bias, or a systematic effect")


SUBS = [
    sub("lensing", [wl([SM]), wl([SHORT, DEEP, SHIFT], IA, [0.1, -0.2, 0.3]), wl([KDE, SM], IA[0], 0.2)],
        kinds=("wl",), min_bins=2, max_bins=3, delta=False),
    sub("planes", [wl([PLANE[1]], m=0.1), wl([PLANE[1], SM, PLANE[0], KDE]), wl([PLANE[0], PLANE[2], SHORT], m=[0.1, 0.2, -0.1]),
                   wl([SM, PLANE[2], DEEP]), wl([FAR[0]]), wl([SHORT, FAR[2], FAR[3], FAR[1]])],
        kinds=("wl",), min_bins=2, max_bins=4, nz_kinds=("smail", "delta", "far", "kde"), ia=("none",)),
    Sub("biases", bias_cases, check_bias, quick=60, thorough=5000,
        rule="a bias, cosmology and 5 redshifts up to 200; non-trivial: not a constant",
        examples=[dict(c=gens.FIDUCIAL, bias=b, z=[0.0, 0.5, 9.0, 14.0, 150.0]) for b in IA]),
    sub("clustering", [nc([SM], IA[2]), nc([SHIFT, KDE, DEEP], IA), nc([KDE, SM], IA[1])], kinds=("nc",), min_bins=1, max_bins=3),
]
