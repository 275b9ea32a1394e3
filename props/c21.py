"""C21: quadrature and ordinary differential equations."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision", "vectorised integrands", "smooth integrands and right-hand sides"]


def units():
    """The unit of the variable of integration: nothing may depend on it."""
    return gens.st().sampled_from([1.0, 1.0, 1e3, 1e-3])


# --- Simpson -----------------------------------------------------------------------


def bounds():
    s = gens.st()
    return s.tuples(gens.num(0.0, -5.0, 5.0), gens.num(1.0, -6.0, 6.0)).map(list)


def simps_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(b=bounds(), N=s.one_of(s.integers(1, 40).map(lambda i: 2 * i), s.sampled_from([2, 4, 128, 256, 512, 1024, 5000])), default=s.booleans(),
                                     coef=s.lists(gens.num(1.0, -3.0, 3.0), min_size=4, max_size=4), w=gens.num(1.0, 0.2, 4.0), cols=s.integers(0, 3),
                                     ts=units(), jit=s.booleans()))


def check_simps(case, ctx):
    jnp = J.jnp
    simps = J.jc.scipy.integrate.simps
    a, b = case["b"]
    N = 128 if case["default"] else case["N"]
    w, coef = case["w"], case["coef"]
    ctx.label("N = %d" % N if N in (2, 4, 128) else "N > 4", "a > b" if a > b else "a < b", "%d columns" % case["cols"], "jit" if case["jit"] else "eager")
    ctx.nontrivial(a != b)
    wrap = J.jax.jit if case["jit"] else (lambda f: f)

    ts = case.get("ts", 1.0)
    ctx.label("unit %g" % ts)

    def integral(f, lo=a, hi=b):
        g = lambda t: f(t / ts) / ts
        if case["default"]:
            return sut("simps", wrap(lambda u, v: simps(g, u, v)), lo * ts, hi * ts)
        return sut("simps", wrap(lambda u, v: simps(g, u, v, N)), lo * ts, hi * ts)

    # cubic polynomials are exact
    p = np.polynomial.Polynomial(coef)
    P = p.integ()
    size = np.sum(np.abs(coef)) * 6.0**4 * 10
    poly = lambda t: coef[0] + coef[1] * t + coef[2] * t**2 + coef[3] * t**3
    got = integral(poly)
    close(ctx, "cubic polynomials", got, np.asarray(P(b) - P(a)), rtol=1e-11, atol=1e-13 * size)
    close(ctx, "swapped bounds", integral(poly, b, a), -got, rtol=1e-11, atol=1e-13 * size)
    # the composite rule on any function, also vector valued
    x = a + (b - a) * np.arange(N + 1) / N
    cols = np.arange(1, case["cols"] + 1)
    # about as fast as the rule can resolve, so that its value shows the number of intervals
    v = w * max(1.0, N / 16)
    if case["cols"]:
        f = lambda t, m=jnp: m.cos(v * t[:, None] + cols) * m.exp(0.1 * t[:, None])
    else:
        f = lambda t, m=jnp: m.cos(v * t) * m.exp(0.1 * t)
    y = f(x, np)
    from scipy.integrate import simpson

    want = simpson(y, dx=(b - a) / N, axis=0)
    close(ctx, "Simpson's rule", integral(f), np.asarray(want), rtol=1e-9, atol=1e-11 * (1 + abs(b - a)))
    # the error bound of the rule: (b - a) h^4 max |f''''| / 180
    g = lambda t: J.jnp.cos(w * t)
    h = abs(b - a) / N
    exact = (np.sin(w * b) - np.sin(w * a)) / w
    close(ctx, "error bound", integral(g), np.asarray(exact), atol=1.01 * abs(b - a) * h**4 * w**4 / 180 + 1e-12)


# --- Romberg -------------------------------------------------------------------------


def romb_ref(f, a, b, divmax):
    """Romberg tableau."""
    R = [[0.5 * (b - a) * (f(a) + f(b))]]
    for i in range(1, divmax + 1):
        n = 2**i
        h = (b - a) / n
        t = 0.5 * R[i - 1][0] + h * np.sum(f(a + h * np.arange(1, n, 2)))
        row = [t]
        for k in range(1, i + 1):
            row.append((4.0**k * row[k - 1] - R[i - 1][k - 1]) / (4.0**k - 1))
        R.append(row)
    return R[divmax][divmax], abs(R[divmax][divmax] - R[divmax - 1][divmax - 1])


def romb_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(b=bounds(), divmax=s.sampled_from([None, 1, 2, 3, 5, 7, 9, 12]), w=gens.num(1.0, 0.2, 4.0), c=gens.num(1.0, -2.0, 2.0),
                                     coef=s.lists(gens.num(1.0, -2.0, 2.0), min_size=1, max_size=12), args=s.booleans(), error=s.booleans(), ts=units(), jit=s.booleans()))


def check_romb(case, ctx):
    jnp = J.jnp
    romb = J.jc.scipy.integrate.romb
    a, b = case["b"]
    w, c = case["w"], case["c"]
    kw = {} if case["divmax"] is None else dict(divmax=case["divmax"])
    div = case["divmax"] or 6
    ctx.label("divmax %s" % case["divmax"], "with arguments" if case["args"] else "no arguments", "a > b" if a > b else "a < b")
    ctx.nontrivial(a != b)
    g = lambda t, u, v, m: m.cos(u * t) + v * m.exp(-0.2 * t**2)
    want, err = romb_ref(lambda t: g(t, w, c, np), a, b, div)
    ts = case.get("ts", 1.0)
    ctx.label("unit %g" % ts)

    def rule(w):
        if case["args"]:
            return lambda lo, hi, **k: romb(lambda t, u, v: g(t / ts, u, v, jnp) / ts, lo * ts, hi * ts, args=(w, c), **kw, **k)
        return lambda lo, hi, **k: romb(lambda t: g(t / ts, w, c, jnp) / ts, lo * ts, hi * ts, **kw, **k)

    fn = rule(w)
    wrap = J.jax.jit if case["jit"] else (lambda f: f)
    size = (1 + abs(c)) * (1 + abs(b - a))
    # oscillations that the rule barely resolves: its value shows the number of points
    wf = w * 2.0**div / 8
    close(ctx, "Romberg's rule, fast", sut("romb", wrap(rule(wf)), a, b), np.asarray(romb_ref(lambda t: g(t, wf, c, np), a, b, div)[0]), rtol=1e-9, atol=1e-11 * size)
    got = sut("romb", wrap(fn), a, b)
    close(ctx, "Romberg's rule", got, np.asarray(want), rtol=1e-9, atol=1e-11 * size)
    if case["error"]:
        out = sut("romb with its error", fn, a, b, return_error=True)
        require(len(out) == 2, "return_error gives %d results" % len(out))
        close(ctx, "value of romb with its error", out[0], np.asarray(want), rtol=1e-9, atol=1e-11 * size)
        close(ctx, "error of romb", out[1], np.asarray(err), rtol=1e-6, atol=1e-11 * size)
    close(ctx, "swapped bounds", sut("romb", fn, b, a), -got, rtol=1e-9, atol=1e-11 * size)
    # polynomials up to degree 2 divmax + 1 are exact
    p = np.polynomial.Polynomial(case["coef"][:2 * div + 2])
    P = p.integ()
    q = lambda t: sum(x * (t / ts)**i for i, x in enumerate(p.coef)) / ts
    mag = np.sum(np.abs(p.coef) * 6.0 ** np.arange(len(p.coef))) * 12
    close(ctx, "polynomials", sut("romb", lambda: romb(q, a * ts, b * ts, **kw)), np.asarray(P(b) - P(a)), rtol=1e-9, atol=1e-12 * mag)
    if div >= 7 and abs(b - a) < 3:
        from scipy.integrate import quad

        close(ctx, "the integral", got, np.asarray(quad(lambda t: g(t, w, c, np), a, b, epsabs=1e-12)[0]), atol=1e-8)


# --- Runge-Kutta ---------------------------------------------------------------------------


def ode_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(n=s.integers(1, 3), steps=s.integers(2, 40), seed=s.integers(0, 2**31), span=gens.num(1.0, 0.1, 3.0), back=s.booleans(), ts=units(), jit=s.booleans(),
                                     t0=gens.num(0.0, -2.0, 2.0), coef=s.lists(gens.num(1.0, -2.0, 2.0), min_size=4, max_size=4)))


def rk4(f, y0, t):
    out, y = [y0], y0
    for a, b in zip(t[:-1], t[1:]):
        h = b - a
        k1 = f(y, a)
        k2 = f(y + h / 2 * k1, a + h / 2)
        k3 = f(y + h / 2 * k2, a + h / 2)
        k4 = f(y + h * k3, b)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out.append(y)
    return np.array(out)


def check_ode(case, ctx):
    from scipy.integrate import solve_ivp

    odeint = __import__("jax_cosmo.scipy.ode", fromlist=["odeint"]).odeint
    rng = np.random.RandomState(case["seed"])
    n, jnp = case["n"], J.jnp
    M = rng.normal(size=(n, n))
    v = rng.normal(size=n)
    t = np.concatenate([[0.0], np.cumsum(rng.uniform(0.5, 1.5, size=case["steps"] - 1))])
    t = case["t0"] + case["span"] * t / max(t[-1], 1e-9)
    if case["back"]:
        t = t[::-1]
    y0 = rng.normal(size=n)
    ctx.label("%d components" % n, "backwards" if case["back"] else "forwards", "jit" if case["jit"] else "eager")
    ctx.nontrivial(case["steps"] > 2)
    wrap = J.jax.jit if case["jit"] else (lambda f: f)
    f = lambda y, x, m=jnp: m.sin(x) * v + m.tanh(M @ y)
    ts = case.get("ts", 1.0)
    ctx.label("unit %g" % ts)
    got = sut("odeint", wrap(lambda y, x: odeint(lambda y, x: f(y, x / ts) / ts, y, x)), y0, t * ts)
    require(got.shape == (len(t), n), "shape of odeint %s" % (got.shape,))
    close(ctx, "initial value", got[0], y0, rtol=1e-12, atol=1e-14)
    close(ctx, "fourth order Runge-Kutta", got, rk4(lambda y, x: f(y, x, np), y0, t), rtol=1e-9, atol=1e-11)
    ref = solve_ivp(lambda x, y: f(y, x, np), (t[0], t[-1]), y0, t_eval=t, rtol=1e-10, atol=1e-12, method="DOP853").y.T
    h = np.max(np.abs(np.diff(t)))
    L = 1 + np.linalg.norm(M)
    close(ctx, "solution", got, ref, atol=(0.05 * h**4 * L**4 * (np.exp(min(L, 3.0) * case["span"])) + 1e-8))
    # quadrature of cubic polynomials is exact, for a scalar state
    p = np.polynomial.Polynomial(case["coef"])
    P = p.integ()
    cubic = lambda x: sum(k * x**i for i, k in enumerate(case["coef"]))
    q = sut("odeint", wrap(lambda y, x: odeint(lambda y, x: cubic(x / ts) / ts, y, x)), 0.5, t * ts)
    require(q.shape == (len(t),), "shape of odeint %s for a scalar state" % (q.shape,))
    close(ctx, "quadrature of cubics", q, 0.5 + P(t) - P(t[0]), rtol=1e-9, atol=1e-10)


EX = dict(b=[0.0, 1.0], w=1.0, c=1.0, coef=[1.0, 2.0, -1.0, 0.5], jit=False)
SUBS = [
    Sub("simpson", simps_cases, check_simps, quick=80, thorough=15000,
        rule="random bounds, number of intervals and integrands with 0 to 3 columns; non-trivial: the bounds differ",
        examples=[dict(EX, N=4, default=d, cols=2) for d in (True, False)]),
    Sub("romberg", romb_cases, check_romb, quick=40, thorough=6000,
        rule="random bounds, order, integrands, arguments; non-trivial: the bounds differ",
        examples=[dict(EX, divmax=None, args=True, error=True)]),
    Sub("runge_kutta", ode_cases, check_ode, quick=50, thorough=8000,
        rule="a random non linear system on a random uneven grid, forwards or backwards; non-trivial: more than one step"),
]
