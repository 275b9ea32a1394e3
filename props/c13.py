"""C13: inverse and determinant of sparse matrices of diagonal blocks."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J
from props.c12 import dense

ASSUMPTIONS = ["double precision", "condition numbers up to 1e6 for the inverse, or those of the correlations of a covariance"]


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        m=s.one_of(*[s.integers(1, 5)] * 9, s.integers(6, 10)), n=s.one_of(*[s.integers(1, 6)] * 9, s.integers(7, 150)), seed=s.integers(0, 2**31),
        kind=s.sampled_from(["general", "spd", "permutation", "trailing", "triangular"]), scale=s.integers(-12, 12), jit=s.booleans()))


def matrix(case):
    """Well conditioned small matrices for each diagonal index, as blocks."""
    rng = np.random.RandomState(case["seed"])
    m, n, kind = case["m"], case["n"], case["kind"]
    out = np.zeros((n, m, m))
    for q in range(n):
        u, _ = np.linalg.qr(rng.normal(size=(m, m)))
        v, _ = np.linalg.qr(rng.normal(size=(m, m)))
        s = 10.0 ** rng.uniform(-1.5, 1.5, size=m)
        x = u @ np.diag(s) @ v
        if kind == "spd":
            x = u @ np.diag(s) @ u.T
        elif kind == "permutation":
            # zeros on the diagonal: elimination needs pivoting
            x = np.zeros((m, m))
            x[np.arange(m), rng.permutation(m)] = s * rng.choice([-1, 1], size=m)
        elif kind == "trailing":
            x[-1, -1] = 0.0
        elif kind == "triangular":
            x = np.tril(rng.normal(size=(m, m)), -1) + np.diag(s * rng.choice([-1, 1], size=m))
        out[q] = x
    if kind == "spd":
        out = 0.5 * (out + np.swapaxes(out, 1, 2))
    return np.transpose(out, (1, 2, 0)) * 10.0 ** case["scale"]


def check(case, ctx):
    S = J.jc.sparse
    a = matrix(case)
    m, n = case["m"], case["n"]
    d = dense(a)
    ctx.label(case["kind"], "%d blocks" % m, "block size %d" % n)
    ctx.nontrivial(m > 1 and n > 1)
    wrap = J.jax.jit if case["jit"] else (lambda f: f)
    sign, logdet = sut("slogdet", wrap(S.slogdet), a)
    rs, rl = np.linalg.slogdet(d)
    if rs == 0 or rl < -1e3 - 40 * abs(case["scale"]) * m * n:
        return
    small = np.transpose(a, (2, 0, 1))
    cond = max(np.linalg.cond(x) for x in small)
    if cond > 1e7:
        return
    tol = 1e-12 * m * n + 1e-14 * cond * m * n
    close(ctx, "sign of the determinant", sign, np.asarray(rs))
    close(ctx, "log of the determinant", logdet, np.asarray(rl), rtol=1e-11, atol=tol)
    if abs(rl) < 600:
        close(ctx, "det", sut("det", wrap(S.det), a), np.asarray(rs * np.exp(rl)), rtol=1e-9 + tol)
    b = sut("inv", wrap(S.inv), a)
    require(b.shape == a.shape, "shape of the inverse %s" % (b.shape,))
    want = np.linalg.inv(d)
    # scale of the rounding errors of each small inverse
    mag = np.array([np.max(np.abs(np.linalg.inv(x))) for x in small])
    atol = dense(np.broadcast_to(mag * 1e-13 * cond, a.shape).copy())
    close(ctx, "inverse", dense(b), want, rtol=1e-9, atol=atol + 1e-300)
    unit = sut("dot", S.dot, a, b)
    close(ctx, "A A^-1 = 1", dense(unit), np.eye(m * n), atol=1e-12 * cond)


def graded_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(m=s.integers(1, 5), n=s.integers(1, 6), seed=s.integers(0, 2**31), span=s.sampled_from([1, 4, 8]),
                                     diagonal=s.integers(0, 3).map(lambda i: i == 3), jit=s.booleans()))


def check_graded(case, ctx):
    """Covariances of observables of very different sizes: only their correlations are well conditioned."""
    S = J.jc.sparse
    m, n, span = case["m"], case["n"], case["span"]
    rng = np.random.RandomState(case["seed"])
    ctx.label("diagonal" if case["diagonal"] else "correlated", "%d decades" % (4 * span))
    ctx.nontrivial(m > 1 and n > 1)
    k = np.zeros((n, m, m))
    for q in range(n):
        u = rng.uniform(0.1, 0.4, size=m) * rng.choice([-1, 1], size=m)
        k[q] = np.diag(rng.uniform(0.5, 2.0, size=m)) + (0 if case["diagonal"] else np.outer(u, u))
    d = 10.0 ** rng.uniform(-span, span, size=(n, m))
    a = np.transpose(k * d[:, :, None] * d[:, None, :], (1, 2, 0))
    wrap = J.jax.jit if case["jit"] else (lambda f: f)
    b = sut("inv", wrap(S.inv), a)
    got = np.transpose(b, (2, 0, 1)) * d[:, :, None] * d[:, None, :]
    close(ctx, "inverse, in units of the observables", got, np.linalg.inv(k), atol=1e-9)
    sign, logdet = sut("slogdet", wrap(S.slogdet), a)
    close(ctx, "sign of the determinant", sign, np.asarray(1.0))
    close(ctx, "log of the determinant", logdet, np.asarray(np.sum(np.linalg.slogdet(k)[1]) + 2 * np.sum(np.log(d))), rtol=1e-10, atol=1e-8)


def sing_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(m=s.integers(1, 4), n=s.integers(1, 5), seed=s.integers(0, 2**31), where=s.integers(0, 100),
                                     kind=s.sampled_from(["row", "column", "block"])))


def check_sing(case, ctx):
    """Singular matrices: one row, column or small matrix vanishes."""
    S = J.jc.sparse
    rng = np.random.RandomState(case["seed"])
    m, n = case["m"], case["n"]
    a = rng.normal(size=(m, m, n))
    q, i = case["where"] % n, case["where"] % m
    ctx.label(case["kind"])
    ctx.nontrivial(m > 1)
    if case["kind"] == "row":
        a[i, :, q] = 0
    elif case["kind"] == "column":
        a[:, i, q] = 0
    else:
        a[:, :, q] = 0
    sign, logdet = sut("slogdet", S.slogdet, a)
    require(sign == 0 and logdet == -np.inf, "singular matrix: sign %s, logdet %s" % (sign, logdet))
    require(sut("det", S.det, a) == 0, "singular matrix: the determinant is not 0")


def prod_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(m=s.integers(1, 4), n=s.integers(1, 5), s1=s.integers(0, 2**31), s2=s.integers(0, 2**31), f=gens.num(2.0, -3.0, 3.0)))


def check_prod(case, ctx):
    S = J.jc.sparse
    m, n, f = case["m"], case["n"], case["f"]
    k = dict(m=m, n=n, scale=0, kind="general")
    a, b = matrix(dict(k, seed=case["s1"])), matrix(dict(k, seed=case["s2"]))
    ctx.nontrivial(m > 1 and n > 1)
    sl = lambda x: [float(t) for t in sut("slogdet", S.slogdet, x)]
    (sa, la), (sb, lb) = sl(a), sl(b)
    sp, lp = sl(sut("dot", S.dot, a, b))
    close(ctx, "sign of det(A B)", sp, np.asarray(sa * sb))
    close(ctx, "log det(A B) = log det A + log det B", lp, np.asarray(la + lb), atol=1e-7)
    if abs(f) > 0.01:
        s2, l2 = sl(a * f)
        close(ctx, "sign of det(f A)", s2, np.asarray(sa * np.sign(f) ** (m * n)))
        close(ctx, "log det(f A)", l2, np.asarray(la + m * n * np.log(abs(f))), atol=1e-9)
    st, lt = sl(np.swapaxes(a, 0, 1))
    close(ctx, "det(A^T) = det(A)", np.array([st, lt]), np.array([sa, la]), atol=1e-9)


SUBS = [
    Sub("inverse", cases, check, quick=250, thorough=30000,
        rule="random square sparse matrices of several structures and scales; non-trivial: several blocks of several elements",
        examples=[dict(m=2, n=2, seed=1, kind="trailing", scale=0, jit=False), dict(m=3, n=3, seed=3, kind="permutation", scale=0, jit=False)]
        + [dict(m=m, n=n, seed=m + n, kind=k, scale=0, jit=False) for m, n in ((8, 20), (2, 140)) for k in ("general", "spd", "trailing")]),
    Sub("graded", graded_cases, check_graded, quick=100, thorough=10000,
        rule="covariances whose variances span up to 32 decades, with well conditioned correlations; non-trivial: several blocks of several elements"),
    Sub("singular", sing_cases, check_sing, quick=80, thorough=5000,
        rule="a random sparse matrix with a vanishing row, column or small matrix; non-trivial: several blocks"),
    Sub("algebra", prod_cases, check_prod, quick=80, thorough=10000,
        rule="two random sparse matrices and a factor; non-trivial: several blocks of several elements"),
]
