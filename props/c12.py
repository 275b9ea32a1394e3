"""C12: products with sparse matrices of diagonal blocks."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J

ASSUMPTIONS = ["double precision or 64-bit integers"]


def dense(s):
    """The dense matrix, entry by entry from the documented layout."""
    ny, nx, n = s.shape
    out = np.zeros((ny * n, nx * n), s.dtype)
    for i in range(ny):
        for j in range(nx):
            for q in range(n):
                out[i * n + q, j * n + q] = s[i, j, q]
    return out


def values(rng, shape, kind):
    if kind == "int":
        return rng.randint(-9, 10, size=shape)
    x = rng.normal(size=shape)
    if kind == "scales":
        x = x * 10.0 ** rng.uniform(-6, 6, size=shape)
    if kind == "zeros":
        x = x * (rng.uniform(size=shape) < 0.5)
    return x


FORMS = ["sv", "sd", "vs", "ds", "ss", "dsd"]


def cases():
    s = gens.st()
    d = s.integers(1, 4)
    # sometimes many blocks, long diagonals or many columns
    d = s.one_of(d, d, d, d, d, d, d, s.integers(5, 12))
    n, p = [s.one_of(*[s.integers(1, 5)] * 6, s.integers(6, m)) for m in (150, 40)]
    return s.fixed_dictionaries(dict(form=s.sampled_from(FORMS), a=d, b=d, c=d, n=n, p=p, q=p,
                                     kind=s.sampled_from(["normal", "int", "scales", "zeros"]), seed=s.integers(0, 2**31), jit=s.booleans(), mix=s.sampled_from([None, None, 0, 1, 2])))


def check(case, ctx):
    S = J.jc.sparse
    rng = np.random.RandomState(case["seed"])
    a, b, c, n, p, q, form = [case[x] for x in ("a", "b", "c", "n", "p", "q", "form")]
    ctx.label(form, case["kind"], "one element per diagonal" if n == 1 else "square" if a == b else "rectangular")
    ctx.nontrivial(n > 1 and a != b)
    draw = lambda *shape: values(rng, shape, case["kind"])
    jnp = J.jnp
    m = draw(a, b, n)
    md = dense(m)
    close(ctx, "to_dense", sut("to_dense", S.to_dense, m), md)
    require(bool(S.is_sparse(m)), "is_sparse of a sparse matrix")
    if form == "sv":
        args, low = (m, draw(b * n)), S.sparse_dot_vec
        want = md @ args[1]
    elif form == "sd":
        args, low = (m, draw(b * n, p)), S.sparse_dot_dense
        want = md @ args[1]
    elif form == "vs":
        args, low = (draw(a * n), m), S.vec_dot_sparse
        want = args[0] @ md
    elif form == "ds":
        args, low = (draw(p, a * n), m), S.dense_dot_sparse
        want = args[0] @ md
    elif form == "ss":
        m2 = draw(b, c, n)
        args, low = (m, m2), S.sparse_dot_sparse
        want = md @ dense(m2)
    else:
        args, low = (draw(p, a * n), m, draw(b * n, q)), S.dense_dot_sparse_dot_dense
        want = args[0] @ md @ args[2]
    for x in args:
        require(bool(S.is_sparse(x)) == (np.ndim(x) == 3), "is_sparse of %d dimensions" % np.ndim(x))
    if case["mix"] is not None and case["kind"] == "int":
        # one factor with fractions
        ctx.label("mixed types")
        args = tuple(x + 0.25 * (x % 4) if i == case["mix"] else x for i, x in enumerate(args))
        full = [dense(x) if x.ndim == 3 else x for x in args]
        want = full[0] @ full[1] if len(full) == 2 else full[0] @ full[1] @ full[2]
    # rounding scale of the sums of products
    mag = [np.abs(dense(x) if x.ndim == 3 else x).astype(float) for x in args]
    scale = mag[0] @ mag[1] if len(mag) == 2 else mag[0] @ mag[1] @ mag[2]
    if form == "ss":
        same = lambda x: dense(x)
    else:
        same = lambda x: x
    jargs = [jnp.asarray(x) for x in args]
    got = sut("dot " + form, J.jax.jit(S.dot) if case["jit"] else S.dot, *(jargs if case["jit"] else args))
    if form == "ss":
        require(got.ndim == 3, "the product of sparse matrices is sparse")
    close(ctx, "dot", same(got), want, rtol=1e-12, atol=1e-13 * scale)
    got = sut(low.__name__ if hasattr(low, "__name__") else form, low, *jargs)
    close(ctx, "low level product", same(got), want, rtol=1e-12, atol=1e-13 * scale)
    if all(x.dtype.kind == "i" for x in args):
        require(np.issubdtype(got.dtype, np.integer), "integer products are integers, got %s" % got.dtype)


def algebra_cases():
    s = gens.st()
    d = s.integers(1, 3)
    return s.fixed_dictionaries(dict(a=d, b=d, c=d, d=d, n=s.integers(1, 4), seed=s.integers(0, 2**31)))


def check_algebra(case, ctx):
    """Associativity and distributivity of the products, on the sparse format itself."""
    S = J.jc.sparse
    rng = np.random.RandomState(case["seed"])
    a, b, c, d, n = [case[x] for x in "abcdn"]
    A, B, C, B2 = rng.normal(size=(a, b, n)), rng.normal(size=(b, c, n)), rng.normal(size=(c, d, n)), rng.normal(size=(b, c, n))
    v = rng.normal(size=c * n)
    ctx.nontrivial(len({a, b, c}) > 1)
    dot = lambda *x: sut("dot", S.dot, *x)
    close(ctx, "(A B) C = A (B C)", dot(dot(A, B), C), dot(A, dot(B, C)), rtol=1e-10, atol=1e-11)
    close(ctx, "A (B + B') = A B + A B'", dot(A, B + B2), dot(A, B) + dot(A, B2), rtol=1e-10, atol=1e-11)
    close(ctx, "(A B) v = A (B v)", dot(dot(A, B), v), dot(A, dot(B, v)), rtol=1e-10, atol=1e-11)
    At = np.swapaxes(dot(A, B), 0, 1)
    close(ctx, "(A B)^T = B^T A^T", At, dot(np.swapaxes(B, 0, 1), np.swapaxes(A, 0, 1)), rtol=1e-10, atol=1e-11)


SUBS = [
    Sub("products", cases, check, quick=300, thorough=30000,
        rule="random block counts, block size, product form and entries; non-trivial: rectangular with blocks larger than 1x1",
        examples=[dict(form=f, a=2, b=3, c=2, n=2, p=3, q=2, kind="int", seed=7, jit=False, mix=i) for f in FORMS for i in (None, 0, 1, 2)]
        + [dict(form=f, a=11, b=9, c=10, n=130, p=6, q=7, kind=k, seed=8, jit=False, mix=None) for f in FORMS for k in ("int", "zeros")]),
    Sub("algebra", algebra_cases, check_algebra, quick=60, thorough=6000,
        rule="three conformable sparse matrices and a vector; non-trivial: they are not all square"),
]
