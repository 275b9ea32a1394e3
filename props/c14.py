"""C14: Gaussian log likelihood."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J
from props.c12 import dense

ASSUMPTIONS = ["double precision", "symmetric positive definite covariances whose correlations have condition numbers below 1e8"]


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        m=s.one_of(*[s.integers(1, 5)] * 7, s.integers(6, 9)), n=s.sampled_from([1, 2, 3, 4, 5, 20, 60]), seed=s.integers(0, 2**31), scale=s.sampled_from([0, 0, 3, -9, -20, 30]),
        span=s.sampled_from([0, 0, 3, 8]),
        sparse=s.booleans(), logdet=s.sampled_from([None, True, False]), method=s.sampled_from([None, "inverse", "cholesky"]),
        jit=s.booleans(), ints=s.sampled_from([None] * 4 + ["data", "mean", "both"])))


def spd(rng, m, n):
    out = np.zeros((n, m, m))
    for q in range(n):
        u, _ = np.linalg.qr(rng.normal(size=(m, m)))
        x = u @ np.diag(10.0 ** rng.uniform(-2, 1, size=m)) @ u.T
        out[q] = 0.5 * (x + x.T)
    return np.transpose(out, (1, 2, 0))


def check(case, ctx):
    L = J.jc.likelihood
    rng = np.random.RandomState(case["seed"])
    m, n = case["m"], case["n"]
    N = m * n
    f = 10.0 ** case["scale"]
    cov = spd(rng, m, n) * f
    if case["sparse"]:
        full, given = dense(cov), cov
    else:
        x = rng.normal(size=(N, N))
        full = dense(cov) + 0.05 * f * x @ x.T / N
        given = full
    data, mu = rng.normal(size=N) * f**0.5, rng.normal(size=N) * f**0.5
    # observables of very different sizes: the variances span up to twice that many decades
    d = np.repeat(10.0 ** rng.uniform(-case["span"], case["span"], size=m), n)
    given = given * np.outer(d, d) if not case["sparse"] else given * np.einsum("in,jn->ijn", *[d.reshape(m, n)] * 2)
    data, mu = data * d, mu * d
    # counts, for example
    ints = case.get("ints") if case["scale"] == case["span"] == 0 else None
    if ints in ("data", "both"):
        data = np.round(3 * data).astype(int)
    if ints in ("mean", "both"):
        mu = np.round(3 * mu).astype(int)
    kw = {}
    if case["logdet"] is not None:
        kw["include_logdet"] = case["logdet"]
    if case["method"] is not None:
        kw["inverse_method"] = case["method"]
    ctx.label("sparse" if case["sparse"] else "dense", "logdet %s" % case["logdet"], "method %s" % case["method"], *(["integers"] if ints else []))
    ctx.nontrivial(N > 1)
    fn = lambda d, p, c: L.gaussian_log_likelihood(d, p, c, **kw)
    jnp = J.jnp
    args = [jnp.asarray(x) for x in (data, mu, given)]
    if not case["jit"] and case["seed"] % 2:
        args = [data, mu, given]
    got = sut("gaussian_log_likelihood", J.jax.jit(fn) if case["jit"] else fn, *args)
    # oracle: eigenvalues
    e, u = np.linalg.eigh(full / f)
    chi2 = np.sum((u.T @ ((data - mu) / d)) ** 2 / e) / f
    logdet = np.sum(np.log(e)) + N * np.log(f) + 2 * np.sum(np.log(d))
    want = -0.5 * (chi2 + (logdet if case["logdet"] is not False else 0.0))
    require(np.shape(got) == (), "the likelihood is not a scalar: shape %s" % (np.shape(got),))
    close(ctx, "log likelihood", got, np.asarray(want), rtol=1e-8, atol=1e-8 * (chi2 + abs(logdet)))
    # relations: the data and the mean play the same role; the parts add up
    close(ctx, "symmetry", sut("gaussian_log_likelihood", fn, args[1], args[0], args[2]), got, rtol=1e-8, atol=1e-10)
    at_mean = sut("gaussian_log_likelihood", fn, args[1], args[1], args[2])
    require(at_mean >= got - 1e-9 * abs(got), "the likelihood is not largest at the mean")
    # scipy's density, up to its constant
    if case["logdet"] is not False and N > 1 and case["scale"] == 0 and not case["span"]:
        from scipy.stats import multivariate_normal

        ref = multivariate_normal(mu, full, allow_singular=True).logpdf(data) + 0.5 * N * np.log(2 * np.pi)
        close(ctx, "scipy density", got, np.asarray(ref), rtol=1e-7, atol=1e-7)


SUBS = [
    Sub("likelihood", cases, check, quick=200, thorough=20000,
        rule="random data, mean, sparse or dense covariance and options; non-trivial: more than one datum",
        examples=[dict(m=2, n=3, seed=i, scale=0, span=0, sparse=sp, logdet=ld, method=me, jit=False)
                  for i, (sp, ld, me) in enumerate([(True, True, None), (False, True, "cholesky"), (False, None, "inverse"), (True, False, None), (False, False, "cholesky")])]
        # determinants out of the range of floating point numbers
        + [dict(m=3, n=60, seed=i, scale=sc, span=0, sparse=sp, logdet=True, method=me, jit=i % 2 == 0)
           for i, (sp, me, sc) in enumerate([(True, None, -9), (False, "inverse", -9), (False, "cholesky", -20), (False, None, 30), (True, "cholesky", 30)])]
        + [dict(m=2, n=3, seed=i, scale=0, span=0, sparse=sp, logdet=True, method=None, jit=False, ints=w) for i, (sp, w) in enumerate([(sp, w) for sp in (True, False) for w in ("data", "mean")])]),
]
