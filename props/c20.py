"""C20: interpolating splines."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "knots whose spacings are within a factor of 100 of each other"]


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        kind=s.sampled_from(["1", "2", "3", "natural"]), n=s.one_of(s.integers(4, 20), s.integers(4, 20), s.integers(4, 20), s.sampled_from([33, 65, 100, 150])), many=s.integers(0, 7).map(lambda i: i == 7), seed=s.integers(0, 2**31), spread=s.sampled_from([0.0, 0.5, 2.0]),
        scale=s.sampled_from([1.0, 1.0, 1e3, 1e-4]), shift=s.sampled_from([0.0, 0.0, -5.0, 30.0]), form=s.sampled_from(["np", "jnp", "scalar", "2d", "jit"])))


def data(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"] + {"1": -2, "2": -1}.get(case["kind"], 0)  # from the smallest number of points
    h = np.exp(rng.uniform(-case["spread"], case["spread"], size=n - 1))
    x = np.concatenate([[0.0], np.cumsum(h)]) / np.sum(h)
    x = (x * 3.0 + case["shift"]) * case["scale"]
    y = rng.normal(size=n) if case["seed"] % 3 else np.sin(x / case["scale"]) + 0.1 * x / case["scale"]
    t = rng.uniform(-0.15, 1.15, size=12)
    q = x[0] + t * (x[-1] - x[0])
    if case.get("many"):
        # many queries, some of them far outside
        t = np.concatenate([t, rng.uniform(-0.2, 1.2, size=1283), rng.uniform(-2.0, 3.0, size=4)])
        q = x[0] + t * (x[-1] - x[0])
    q = np.concatenate([q, x[[0, min(1, n - 1), n // 2, -2, -1]]])
    return x, y, q, rng


def reference(case, x, y):
    from scipy.interpolate import CubicSpline, InterpolatedUnivariateSpline, PPoly

    if case["kind"] == "natural":
        return CubicSpline(x, y, bc_type="natural")
    if case["kind"] == "3":
        return CubicSpline(x, y, bc_type="not-a-knot")
    if case["kind"] == "1":
        return PPoly(np.array([np.diff(y) / np.diff(x), y[:-1]]), x)
    s = InterpolatedUnivariateSpline(x, y, k=2)
    return PPoly.from_spline(s._eval_args)


def make(case, x, y):
    k = case["kind"]
    kw = dict(k=3, endpoints="natural") if k == "natural" else dict(k=int(k))
    if k == "3" and case["seed"] % 2:
        kw = {}  # the default
    return J.jc.scipy.interpolate.InterpolatedUnivariateSpline(x, y, **kw)


def call(case, fn, q, q_extra=()):
    """The values of fn at q, given as scalars, arrays of 1 or 2 dimensions, eager or jitted."""
    form = case["form"]
    if form == "scalar" and len(q) < 40:
        return np.array([np.asarray(sut("spline", fn, float(t))).reshape(()) for t in q])
    if form == "2d":
        n = len(q) // 2 * 2
        out = np.asarray(sut("spline", fn, J.jnp.asarray(q[:n].reshape(2, -1))))
        require(out.shape == (2, n // 2), "shape %s for 2-d queries" % (out.shape,))
        return np.concatenate([out.ravel(), np.ravel(sut("spline", fn, q[n:]))])
    if form == "jit":
        return sut("spline", J.jax.jit(fn), q)
    return sut("spline", fn, J.jnp.asarray(q) if form == "jnp" else q)


def check(case, ctx):
    x, y, q, rng = data(case)
    kind = case["kind"]
    k = 3 if kind == "natural" else int(kind)
    ctx.label("kind " + kind, "form " + case["form"], "minimal" if case["n"] == 4 else "more points")
    ctx.nontrivial(case["n"] > 4)
    s = make(case, x, y)
    ref = reference(case, x, y)
    span = x[-1] - x[0]
    amp = np.max(np.abs(ref(np.concatenate([q, np.linspace(x[0], x[-1], 60)]))))
    hmin = np.min(np.diff(x))
    close(ctx, "spline", call(case, s, q), ref(q), rtol=1e-8, atol=1e-8 * amp)
    close(ctx, "spline passes through its points", sut("spline", s, x), y, rtol=1e-9, atol=1e-9 * amp)
    # derivatives, away from the knots where the highest one jumps
    kn = ref.x
    inside = np.min(np.abs(q[:, None] - kn[None]), axis=1) > 1e-6 * span
    if kind != "2":
        # at a knot given exactly, it is the one of the piece on the right, as in scipy
        inside |= np.isin(q, x)
    for n in range(k + 1):
        got = call(case, lambda t, n=n: s.derivative(t, n=n) if n != 1 or case["seed"] % 2 else s.derivative(t), q)
        ok = inside | (n == 0)
        close(ctx, "derivative %d" % n, np.asarray(got)[ok] if np.shape(got) else np.broadcast_to(got, q.shape)[ok], (ref.derivative(n)(q) if n else ref(q))[ok],
              rtol=1e-7, atol=1e-8 * amp / hmin**n)
    # integrals; the antiderivative is defined up to a constant
    F = ref.antiderivative()
    base = make(case, x, y)
    got = call(case, base.antiderivative, q)
    close(ctx, "antiderivative", got - got[-5], F(q) - F(q[-5]), rtol=1e-8, atol=1e-8 * amp * span)
    for i in range(3):
        a, b = [float(t) for t in rng.choice(q, size=2, replace=False)]
        got = sut("integral", s.integral, a, b)
        close(ctx, "integral", np.reshape(got, ()), np.asarray(F(b) - F(a)), rtol=1e-8, atol=1e-8 * amp * span)
        back = sut("integral", s.integral, b, a)
        close(ctx, "integral with swapped bounds", np.reshape(back, ()), -np.reshape(got, ()), rtol=1e-9, atol=1e-12 * amp * span)
    a = float(q[0])
    close(ctx, "integral over nothing", np.reshape(sut("integral", s.integral, a, a), ()), np.asarray(0.0), atol=1e-12 * amp * span)
    # against the class of scipy whose interface it has
    if kind != "natural":
        from scipy.interpolate import InterpolatedUnivariateSpline

        other = InterpolatedUnivariateSpline(x, y, k=k)
        close(ctx, "scipy's spline", sut("spline", s, q), other(q), rtol=1e-7, atol=1e-7 * amp)
        inner = (q >= x[0]) & (q <= x[-1])
        aa, bb = float(q[inner][0]), float(q[inner][-2])
        close(ctx, "scipy's integral", np.reshape(sut("integral", s.integral, aa, bb), ()), np.asarray(other.integral(aa, bb)), rtol=1e-7, atol=1e-7 * amp * span)


def poly_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(kind=s.sampled_from(["1", "2", "3"]), n=s.integers(4, 12), seed=s.integers(0, 2**31), spread=s.sampled_from([0.0, 1.0]),
                                     scale=s.just(1.0), shift=s.sampled_from([0.0, -5.0]), form=s.just("np"), coef=s.lists(gens.num(1.0, -3.0, 3.0), min_size=4, max_size=4)))


def check_poly(case, ctx):
    """A spline of degree k reproduces polynomials of degree k everywhere, and is linear in its data."""
    x, y, q, rng = data(case)
    k = int(case["kind"])
    ctx.label("kind %d" % k)
    ctx.nontrivial(k > 1)
    p = np.polynomial.Polynomial(case["coef"][:k + 1])
    s = make(case, x, p(x))
    amp = np.max(np.abs(p(q))) + 1.0
    close(ctx, "polynomial", sut("spline", s, q), p(q), rtol=1e-8, atol=1e-8 * amp)
    for n in range(1, k + 1):
        got = sut("derivative", s.derivative, q, n)
        close(ctx, "derivative of a polynomial", np.broadcast_to(got, q.shape), p.deriv(n)(q) + 0 * q, rtol=1e-6, atol=1e-7 * amp / np.min(np.diff(x)) ** n)
    a, b = float(q[0]), float(q[1])
    P = p.integ()
    close(ctx, "integral of a polynomial", np.reshape(sut("integral", s.integral, a, b), ()), np.asarray(P(b) - P(a)), rtol=1e-8, atol=1e-8 * amp)
    f = case["coef"][0]
    lin = sut("spline", make(case, x, y * f + p(x)), q)
    close(ctx, "linearity", lin, f * sut("spline", make(case, x, y), q) + p(q), rtol=1e-7, atol=1e-7 * (amp + np.max(np.abs(lin))))
    # translation and scale of x
    moved = make(dict(case), 2.0 * x + 1.0, y)
    close(ctx, "scale of x", sut("spline", moved, 2.0 * q + 1.0), sut("spline", make(case, x, y), q), rtol=1e-7, atol=1e-7 * np.max(np.abs(lin) + 1))
    # reversal
    rev = make(case, -x[::-1], y[::-1])
    inner = (q > x[0]) & (q < x[-1])
    close(ctx, "reversal", sut("spline", rev, -q)[inner], sut("spline", make(case, x, y), q)[inner], rtol=1e-7, atol=1e-7 * (np.max(np.abs(lin)) + 1))


EX = dict(n=6, seed=2, spread=0.5, scale=1.0, shift=0.0, form="np")
SUBS = [
    Sub("scipy", cases, check, quick=55, thorough=15000,
        rule="random knots, data, degree, end conditions and queries inside and outside of the knots; non-trivial: more points than the minimum",
        examples=[dict(EX, kind=k, n=n) for k in ("1", "2", "3", "natural") for n in (4, 7)] + [dict(EX, kind=k, n=n, many=m) for k in ("1", "2", "3", "natural") for n, m in ((6, True), (120, False))]),
    Sub("scipy2", cases, check, quick=55, thorough=15000, rule="as scipy"),
    Sub("relations", poly_cases, check_poly, quick=60, thorough=8000,
        rule="a random polynomial on random knots, linearity, scaling and reversal; non-trivial: degree 2 or 3"),
]
