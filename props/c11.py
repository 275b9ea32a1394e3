"""C11: noise spectra and Gaussian covariance of angular power spectra."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J
from props import c09, c10

ASSUMPTIONS = ["double precision", "at least two multipoles, strictly increasing"]
ARCMIN2 = (180.0 * 60.0 / np.pi) ** 2


def noise_ref(probes):
    out = []
    for p in probes:
        for i, d in enumerate(p["nzs"]):
            s2 = refs.pick(p["sigma_e"], i) ** 2 if p["type"] == "wl" else 1.0
            out.append(s2 / (d["gals"] * ARCMIN2))
    return np.array(out)


def ells():
    s = gens.st()
    step = s.one_of(s.integers(1, 60), gens.num(10.0, 0.5, 200.0))
    return s.tuples(s.integers(2, 300), s.one_of(*[s.lists(step, min_size=1, max_size=5)] * 5, s.lists(step, min_size=20, max_size=50))).map(
        lambda t: [float(x) for x in np.cumsum([t[0]] + t[1])])


def cases(max_probes=3, max_bins=3):
    s = gens.st()
    return s.fixed_dictionaries(dict(
        probes=gens.twins(s.lists(gens.probe(max_bins=max_bins), min_size=1, max_size=max_probes), 6), ell=ells(), int_ell=s.booleans(),
        seed=s.integers(0, 2**31), f_sky=s.one_of(s.just(None), gens.lognum(0.25, 0.01, 1.0)), jit=s.booleans(), numpy=s.booleans()))


def covariance_ref(m, ell, obs, f_sky):
    """Dense covariance, cov[(ij, l), (kl, l')], for the matrices obs[l, i, j]."""
    n = len(ell)
    dl = np.gradient(np.asarray(ell, float))
    pr = c10.pairs(m)
    cov = np.zeros((len(pr), n, len(pr), n))
    for q, (i, j) in enumerate(pr):
        for r, (k, l) in enumerate(pr):
            v = (obs[:, i, k] * obs[:, j, l] + obs[:, i, l] * obs[:, j, k]) / ((2 * ell + 1) * dl * f_sky)
            cov[q, np.arange(n), r, np.arange(n)] = v
    return cov.reshape(len(pr) * n, len(pr) * n)


def to_matrices(m, cls):
    out = np.zeros((cls.shape[1], m, m))
    for q, (i, j) in enumerate(c10.pairs(m)):
        out[:, i, j] = out[:, j, i] = cls[q]
    return out


def check(case, ctx):
    CL = J.jc.cl
    probes = case["probes"]
    m = c10.n_tracers(probes)
    ctx.label("%d tracers" % m, "%d probes" % len(probes), "jit" if case["jit"] else "eager")
    ctx.nontrivial(m > 1)
    ell = np.array(case["ell"])
    if case["int_ell"]:
        ell = np.unique(np.round(ell).astype(int))
        if len(ell) < 2:
            ell = np.array([ell[0], ell[0] + 1])
    n = len(ell)
    objs = [gens.make_probe(p) for p in probes]
    noise = sut("noise_cl", CL.noise_cl, ell, objs)
    nref = noise_ref(probes)
    pr = c10.pairs(m)
    close(ctx, "noise_cl", noise, np.array([np.full(n, nref[i] if i == j else 0.0) for i, j in pr]), rtol=1e-7, atol=1e-30)
    # a signal: any positive definite matrix of spectra at each multipole
    rng = np.random.RandomState(case["seed"])
    x = rng.normal(size=(n, m, m + 2)) * np.exp(rng.uniform(-3, 3, size=(n, m, 1))) * 1e-4
    sig = x @ np.transpose(x, (0, 2, 1))
    cls, noise = np.array([sig[:, i, j] for i, j in pr]), np.array(noise)
    if not case.get("numpy"):
        cls, noise = J.jnp.array(cls), J.jnp.array(noise)
    f_sky = case["f_sky"]
    kw = {} if f_sky is None else {"f_sky": f_sky}
    obs = sig + np.array([np.diag(nref)] * n)
    want = covariance_ref(m, ell, obs, 0.25 if f_sky is None else f_sky)
    wrap = J.jax.jit if case["jit"] else (lambda f: f)
    sp = sut("sparse covariance", wrap(lambda c, no: CL.gaussian_cl_covariance(ell, objs, c, no, sparse=True, **kw)), cls, noise)
    de = sut("dense covariance", wrap(lambda c, no: CL.gaussian_cl_covariance(ell, objs, c, no, sparse=False, **kw)), cls, noise)
    require(sp.shape == (len(pr), len(pr), n), "shape of the sparse covariance %s" % (sp.shape,))
    scale = 1e-12 * np.sqrt(np.outer(np.diag(want), np.diag(want)))
    close(ctx, "dense covariance", de, want, rtol=1e-6, atol=scale)
    close(ctx, "sparse covariance", np.asarray(J.jc.sparse.to_dense(sp)), want, rtol=1e-6, atol=scale)
    default = sut("default covariance", wrap(lambda c, no: CL.gaussian_cl_covariance(ell, objs, c, no, **kw)), cls, noise)
    require(default.shape == sp.shape, "the covariance is sparse by default")
    close(ctx, "covariance is symmetric", de, de.T, rtol=1e-9, atol=scale)
    if np.linalg.eigvalsh(want / np.sqrt(np.outer(np.diag(want), np.diag(want)))).min() > 1e-6:
        e = np.linalg.eigvalsh(de / np.sqrt(np.outer(np.diag(de), np.diag(de))))
        require(e.min() > 0, "covariance is not positive definite: %s" % e.min())


def mean_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.cosmo(), probes=s.lists(gens.probe(max_bins=2), min_size=1, max_size=2), ell=ells(), int_ell=s.booleans(),
        f_sky=s.one_of(s.just(None), gens.lognum(0.25, 0.01, 1.0)), sparse=s.sampled_from([None, True, False]),
        kind=s.sampled_from(["user", "toy"])))


def check_mean(case, ctx):
    """gaussian_cl_covariance_and_mean: the flattened spectra and their covariance, with the given options."""
    CL = J.jc.cl
    c, probes, f_sky = case["c"], case["probes"], case["f_sky"]
    gens.labels(ctx, c)
    m = c10.n_tracers(probes)
    ctx.label("%d tracers" % m, "sparse %s" % case["sparse"], case["kind"])
    ctx.nontrivial()
    ell = np.array(case["ell"])
    if case["int_ell"]:
        ell = np.unique(np.round(ell).astype(int))
        if len(ell) < 2:
            ell = np.array([ell[0], ell[0] + 1])
    objs = [gens.make_probe(p) for p in probes]
    pk = dict(nonlinear_fn=c10.toy_power) if case["kind"] == "toy" else c10.keywords("user")
    kw = dict(pk)
    if f_sky is not None:
        kw["f_sky"] = f_sky
    if case["sparse"] is not None:
        kw["sparse"] = case["sparse"]
    cos = gens.make(c)
    mu, cov = sut("gaussian_cl_covariance_and_mean", J.jax.jit(
        lambda c: CL.gaussian_cl_covariance_and_mean(c, ell, objs, **kw)), cos)
    cls = sut("angular_cl", J.jax.jit(lambda c: CL.angular_cl(c, ell, objs, **pk)), cos)
    close(ctx, "mean", mu, cls.reshape(-1), rtol=1e-7, atol=1e-30)
    if case["sparse"]:
        require(cov.ndim == 3, "sparse covariance has %d dimensions" % cov.ndim)
        cov = np.asarray(J.jc.sparse.to_dense(cov))
    obs = to_matrices(m, cls) + np.diag(noise_ref(probes))
    want = covariance_ref(m, ell, obs, 0.25 if f_sky is None else f_sky)
    scale = 1e-12 * np.sqrt(np.outer(np.diag(want), np.diag(want)))
    close(ctx, "covariance of the spectra", cov, want, rtol=1e-6, atol=scale)


MANY = [c09.wl([dict(c09.SM, gals=1.0 + i) for i in range(6)], sigma_e=[0.2 + 0.02 * i for i in range(6)]),
        c09.nc([dict(c09.KDE, gals=3.0 + i) for i in range(5)], c09.IA[1])]

SUBS = [
    Sub("covariance", cases, check, quick=110, thorough=15000,
        rule="1 to 3 probes of 1 to 3 bins, a random positive definite signal, multipoles and sky fraction; non-trivial: several tracers",
        examples=[dict(probes=c10.EX[1], ell=[10, 12, 20, 50], int_ell=True, seed=1, f_sky=None, jit=False, numpy=True),
                  dict(probes=MANY, ell=[10.0, 12.5, 20.0], int_ell=False, seed=2, f_sky=0.4, jit=True),
                  dict(probes=c10.EX[1], ell=list(range(2, 152)), int_ell=True, seed=4, f_sky=0.1, jit=False, numpy=True)]),
    Sub("mean", mean_cases, check_mean, quick=16, thorough=1500,
        rule="random probes, cosmology, options and a given power spectrum; all cases are non-trivial",
        examples=[dict(c=gens.FIDUCIAL, probes=c10.EX[0], ell=[10, 20, 40], int_ell=True, f_sky=0.4, sparse=s, kind="toy") for s in (None, True)]),
]
