"""C22: linear interpolation."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "at least 3 nodes, strictly monotonic, with the spacings within a factor of 1e4 of each other", "queries inside the nodes"]


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(n=s.one_of(s.integers(3, 40), s.sampled_from([50, 64, 100, 128, 200, 256, 257, 300, 512])), many=s.integers(0, 9).map(lambda i: i == 9), seed=s.integers(0, 2**31), spread=s.sampled_from([0.0, 0.5, 2.0, 4.0]), decreasing=s.booleans(),
                                     scale=s.sampled_from([1.0, 1.0, 1e-6, 1e4]), offset=s.sampled_from([0.0, 0.0, 1.0, -3.0, 1e3, -1e6]), flip=s.booleans(),
                                     form=s.sampled_from(["np", "jnp", "float", "0d", "2d", "3d", "empty", "jit", "vmap"])))


def check(case, ctx):
    jax, jnp = J.jax, J.jnp
    interp = J.jc.scipy.interpolate.interp
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    h = np.exp(rng.uniform(-case["spread"], case["spread"], size=n - 1))
    x = np.concatenate([[0.0], np.cumsum(h)])
    x = (x / x[-1] + case["offset"]) * case["scale"]
    y = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    i = rng.randint(0, n - 1, size=20)
    q = x[i] + (x[i + 1] - x[i]) * rng.uniform(0, 1, size=20)
    q = np.concatenate([q, x[[0, n // 2, -1]], 0.5 * (x[:3][1:] + x[:2])])[:24]
    if case.get("many"):
        q = np.concatenate([q, rng.uniform(x[0], x[-1], size=rng.choice([104, 1000, 5000]))])
    q = np.clip(q, x[0], x[-1])
    want = np.interp(q, x, y)
    xx, yy = (x[::-1], y[::-1]) if case["decreasing"] else (x, y)
    ctx.label(case["form"], "decreasing" if case["decreasing"] else "increasing", "spread %g" % case["spread"])
    ctx.nontrivial(case["spread"] > 0)
    # rounding of the abscissae is amplified by the slopes
    slope = np.max(np.abs(np.diff(y) / np.diff(x)))
    tol = 1e-10 * np.max(np.abs(y)) + 1e-13 * slope * np.max(np.abs(x))
    form = case["form"]
    if form in ("float", "0d"):
        got = []
        for t in q[:8]:
            v = sut("interp", interp, float(t) if form == "float" else jnp.asarray(t), xx, yy)
            require(v.shape == (), "interp at a scalar has shape %s" % (v.shape,))
            got.append(v)
        got, want = np.array(got), want[:8]
    elif form in ("2d", "3d"):
        q = q[:len(q) // 4 * 4]
        want = want[:len(q)]
        shape = (2, -1) if form == "2d" else (2, 2, -1)
        got = sut("interp", interp, q.reshape(shape), jnp.asarray(xx), jnp.asarray(yy))
        require(got.shape == q.reshape(shape).shape, "interp at shape %s has shape %s" % (q.reshape(shape).shape, got.shape))
        got = got.ravel()
    elif form == "empty":
        got = sut("interp", interp, np.zeros((0,)), xx, yy)
        require(got.shape == (0,), "interp at no point has shape %s" % (got.shape,))
        return
    elif form == "jit":
        got = sut("interp", jax.jit(interp), q, xx, yy)
    elif form == "vmap":
        got = sut("interp", jax.vmap(interp, in_axes=(None, None, 0)), q, xx, jnp.stack([yy, 2 * yy]))
        close(ctx, "interp of a batch", got[1], 2 * want, atol=2 * tol)
        got = got[0]
    else:
        got = sut("interp", interp, jnp.asarray(q) if form == "jnp" else q, xx, yy)
    close(ctx, "interp", got, want, atol=tol)
    lo, hi = np.min(y), np.max(y)
    require(np.all(got >= lo - tol) and np.all(got <= hi + tol), "values outside of the range of the data: %s not in [%g, %g]" % (got, lo, hi))
    # orientation
    close(ctx, "orientation of the nodes", sut("interp", interp, q, xx[::-1], yy[::-1]), np.interp(q, x, y), atol=tol)
    # refinement: nodes added on the segments change nothing
    m = 0.5 * (x[1:] + x[:-1])
    x2 = np.sort(np.concatenate([x, m]))
    close(ctx, "refinement", sut("interp", interp, q, x2, np.interp(x2, x, y)), np.interp(q, x, y), atol=4 * tol)


SUBS = [
    Sub("interp", cases, check, quick=160, thorough=40000,
        rule="random uneven nodes in either order, data and queries of any shape; non-trivial: uneven nodes",
        examples=[dict(n=n, seed=3, spread=2.0, decreasing=d, scale=1.0, offset=0.0, flip=False, form=f) for n in (3, 12, 64, 256) for d in (True, False) for f in ("np", "float")]
        + [dict(n=n, seed=4, spread=2.0, decreasing=d, scale=1.0, offset=0.0, flip=False, form=f, many=True) for n in (8, 256) for d in (True, False) for f in ("np", "2d")]
        # nodes far from zero
        + [dict(n=40, seed=i, spread=0.5, decreasing=i % 2 == 0, scale=1.0, offset=o, flip=False, form="np") for i, o in enumerate([1e3, -1e5, 1e6, 1e7])]),
]
