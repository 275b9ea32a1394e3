"""C25: inputs outside of the documented domain are rejected, not computed with; others are accepted."""
import numpy as np

from vlib import gens
from vlib.core import Sub, Violation, close, must_raise, require, sut
from vlib.lazy import J
from props import c06, c10, c12

ASSUMPTIONS = ["rejections that the library states: sparse products and inverses, orders of splines and quadratures, prescriptions and methods, planes in kernels of extended tracers"]


def shapes():
    s = gens.st()
    d = s.integers(1, 3)
    kinds = [s.tuples(d, d, d), s.tuples(s.integers(1, 6), s.integers(1, 6)), s.tuples(s.integers(1, 6))]
    odd = [s.tuples(), s.tuples(d, d, d, d)]
    weird = s.one_of(*(kinds * 3 + odd)).map(list)

    # half of the time, conformable inputs with at most one changed
    @s.composite
    def near(draw):
        a, b, c, n = [draw(d) for _ in range(4)]
        p, q = draw(s.integers(1, 4)), draw(s.integers(1, 4))
        form = draw(s.sampled_from(c12.FORMS))
        out = {"sv": [[a, b, n], [b * n]], "sd": [[a, b, n], [b * n, p]], "vs": [[a * n], [a, b, n]], "ds": [[p, a * n], [a, b, n]],
               "ss": [[a, b, n], [b, c, n]], "dsd": [[p, a * n], [a, b, n], [b * n, q]]}[form]
        kind = draw(s.sampled_from(["none", "none", "size", "swap", "shape", "blocks", "transpose", "extra"]))
        i = draw(s.integers(0, len(out) - 1))
        if kind == "size":
            j = draw(s.integers(0, len(out[i]) - 1))
            out[i][j] += draw(s.sampled_from([-1, 1, 2])) if out[i][j] > 1 else 1
        elif kind == "swap":
            out = out[::-1]
        elif kind == "shape":
            out[i] = draw(weird)
        elif kind == "blocks" and len(out[i]) == 3:
            # same dense size, other blocks
            x = out[i]
            out[i] = [x[0] * x[2], x[1] * x[2], 1] if draw(s.booleans()) else [1, x[1], x[0] * x[2]]
        elif kind == "transpose":
            out[i] = out[i][::-1]
        elif kind == "extra":
            out.append(draw(weird))
        return out

    return s.one_of(near(), near(), s.lists(weird, min_size=1, max_size=4))


def product(args):
    """(product, whether it is sparse) by the documented rules, or None when they reject it; "any" if nothing is documented."""
    nd = [x.ndim for x in args]
    D = [c12.dense(x) if x.ndim == 3 else x for x in args]
    if len(args) == 2:
        if min(nd) < 1 or max(nd) > 3 or 3 not in nd:
            return None if (min(nd) < 1 or max(nd) > 3) else "any"
        if D[0].shape[-1] != D[1].shape[0]:
            return None
        if nd == [3, 3] and args[0].shape[2] != args[1].shape[2]:
            return None
        return D[0] @ D[1], nd == [3, 3]
    if len(args) == 3:
        if nd != [2, 3, 2] or D[0].shape[1] != D[1].shape[0] or D[1].shape[1] != D[2].shape[0]:
            return None
        return D[0] @ D[1] @ D[2], False
    return None


def sparse_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(shapes=shapes(), seed=s.integers(0, 2**31), jit=s.booleans()))


def check_sparse(case, ctx):
    S, jnp, jax = J.jc.sparse, J.jnp, J.jax
    rng = np.random.RandomState(case["seed"])
    args = [rng.normal(size=x) for x in case["shapes"]]
    jargs = [jnp.asarray(x) for x in args]
    want = product(args)
    label = "dot of shapes %s" % case["shapes"]
    dot = jax.jit(lambda *x: S.dot(*x)) if case["jit"] else S.dot
    if want is None:
        ctx.label("rejected")
        ctx.nontrivial()
        must_raise(label, ValueError, dot, *jargs)
    elif want == "any":
        ctx.label("no sparse matrix")
        try:
            got = np.asarray(dot(*jargs))
        except (ValueError, TypeError):
            got = None
        if got is not None:
            require(args[0].shape[-1] == args[1].shape[0], "%s: accepted, and returned %s" % (label, got))
            close(ctx, label, got, args[0] @ args[1], rtol=1e-10, atol=1e-10, key="dense dot")
    else:
        ctx.label("accepted")
        got = sut(label, dot, *jargs)
        if want[1]:
            require(got.ndim == 3, "%s is not sparse but of shape %s" % (label, got.shape))
            got = c12.dense(got)
        close(ctx, label, got, want[0], rtol=1e-10, atol=1e-10, key="dot")
    x, jx = args[0], jargs[0]
    if x.ndim == 3:
        close(ctx, "to_dense", sut("to_dense", S.to_dense, jx), c12.dense(x))
        if x.shape[0] != x.shape[1]:
            for name in ("inv", "slogdet", "det"):
                must_raise("%s of a sparse matrix of shape %s" % (name, x.shape), ValueError, getattr(S, name), jx)
            must_raise("check_sparse(square) of shape %s" % (x.shape,), ValueError, S.check_sparse, jx, square=True)
        else:
            d = c12.dense(x)
            if np.linalg.cond(d) < 1e6:
                close(ctx, "det", sut("det", S.det, jx), np.linalg.det(d), rtol=1e-8)
    else:
        for name in ("to_dense", "inv", "slogdet", "det", "check_sparse"):
            must_raise("%s of an array of shape %s" % (name, x.shape), ValueError, getattr(S, name), jx)
    require(bool(S.is_sparse(jx)) == (x.ndim == 3), "is_sparse of shape %s" % (x.shape,))


# --- other rejections -----------------------------------------------------------

NLA = ["plane NLA", "plane counts"]
OTHERS = ["simps", "spline order", "spline lengths", "spline ndim", "spline points", "spline derivative", "quadratic natural", "halofit", "transfer", "likelihood method",
          "likelihood sizes", "likelihood sparse sizes", "likelihood sparse square", "cosmology"] + NLA


def other_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(kind=s.sampled_from(OTHERS), c=gens.cosmo(gamma=False), seed=s.integers(0, 2**31), n=s.integers(1, 6), jit=s.booleans()))


EXC = {"simps": ValueError, "halofit": NotImplementedError, "transfer": NotImplementedError, "likelihood method": NotImplementedError, "plane NLA": NotImplementedError,
       "plane counts": NotImplementedError, "cosmology": TypeError, "likelihood sparse square": ValueError}
WORDS = ["", "halofit", "Smith2003", "takahashi", "takahashi2020", "EH98", "eh98", "eisenhu_no_wiggles", "eisenhu_osc2", "lu", "Cholesky", "inv", "mead2016", "linear", None, 1]


def check_other(case, ctx):
    jc, jnp, jax = J.jc, J.jnp, J.jax
    kind, n = case["kind"], case["n"]
    rng = np.random.RandomState(case["seed"])
    ctx.label(kind, "jit" if case["jit"] else "eager")
    ctx.nontrivial()
    word = WORDS[rng.randint(len(WORDS))]
    Spline = jc.scipy.interpolate.InterpolatedUnivariateSpline
    x, y = np.cumsum(rng.uniform(0.5, 2.0, n + 5)), rng.normal(size=n + 5)
    wrap = (lambda f: jax.jit(f)) if case["jit"] else (lambda f: f)
    exc = EXC.get(kind, Exception)
    bads = bad = None
    cos = gens.make(case["c"])
    if kind == "simps":
        simps = jc.scipy.integrate.simps
        good = lambda: wrap(lambda a: simps(jnp.exp, a, 1.0, 2 * n))(0.0)
        bad = lambda: wrap(lambda a: simps(jnp.exp, a, 1.0, 2 * n - 1))(0.0)
        what = "simps with %d intervals" % (2 * n - 1)
    elif kind.startswith("spline") or kind.startswith("quadratic"):
        k = int(rng.randint(1, 4))
        good = lambda: wrap(lambda y: Spline(x, y, k=k)(0.5 * (x[0] + x[1])))(y)
        call = lambda x, y, **kw: wrap(lambda y: Spline(x, y, **kw)(1.0))(y)
        if kind == "spline order":
            bads = [(lambda kk=kk: call(x, y, k=kk), "a spline of degree %r" % kk) for kk in (0, 4, 5, -1, 7)]
        elif kind == "spline lengths":
            bads = [(lambda m=m: call(x, np.resize(y, m), k=k), "a spline of %d abscissae and %d ordinates" % (len(x), m)) for m in len(y) + np.array([-3, -1, 1, 3])]
            bads += [(lambda: call(x, y[:1], k=k), "a spline with one ordinate"), (lambda: call(x[:1], y, k=k), "a spline with one abscissa")]
        elif kind == "spline ndim":
            bads = [(lambda: call(np.stack([x, x + 0.1]), np.stack([y, y]), k=1), "a spline of two-dimensional arrays"),
                    (lambda: call(x, np.stack([y, y], axis=1), k=k), "a spline of two-dimensional data")]
        elif kind == "spline points":
            bads = [(lambda m=m, d=d: call(x[:m], y[:m], k=d), "a spline of degree %d of %d points" % (d, m)) for d in (1, 2, 3) for m in range(1, d + 1)]
        elif kind == "spline derivative":
            bads = [(lambda d=d, k=k: wrap(lambda y: Spline(x, y, k=k).derivative(1.0, d))(y), "derivative %d of a spline of degree %d" % (d, k))
                    for k in (1, 2, 3) for d in (k + 1, k + 2, -1)]
        else:
            bads = [(lambda: call(x, y, k=2, endpoints="natural"), "a natural spline of degree 2"), (lambda: call(x[:3], y[:3], k=2, endpoints="natural"), "a natural spline of degree 2 of 3 points")]
    elif kind == "halofit":
        good = lambda: wrap(lambda a: jc.power.linear_matter_power(cos, 0.1, a, c06.toy_transfer))(0.5)
        bads = [(lambda word=word: wrap(lambda a: jc.power.halofit(cos, jnp.array([0.1]), a, transfer_fn=c06.toy_transfer, prescription=word))(jnp.array([0.5])),
                 "halofit with prescription %r" % (word,)) for word in [word, "takahashi2020", "smith"]]
    elif kind == "transfer":
        good = lambda: wrap(lambda k: jc.transfer.Eisenstein_Hu(cos, k, type="eisenhu_osc"))(0.1)
        bads = [(lambda word=word: wrap(lambda k: jc.transfer.Eisenstein_Hu(cos, k, type=word))(0.1), "Eisenstein_Hu of type %r" % (word,)) for word in WORDS]
    elif kind.startswith("likelihood"):
        L = jc.likelihood.gaussian_log_likelihood
        r = rng.normal(size=2 * n)
        C = np.eye(2 * n) + 0.1
        sp = np.ones((2, 2, n)) + 2 * np.eye(2)[:, :, None]
        if kind == "likelihood method":
            good = lambda: wrap(lambda r: L(r, 0 * r, C))(r)
            bads = [(lambda m=m: wrap(lambda r: L(r, 0 * r, jnp.asarray(C), bool(n % 2), m))(r), "a likelihood with inverse_method=%r" % (m,)) for m in WORDS + ["choleskyinverse", "chol", "inverses"]]
        elif kind == "likelihood sizes":
            meth = ["inverse", "cholesky"][rng.randint(2)]
            good = lambda: wrap(lambda r: L(r, 0 * r, C, True, meth))(r)
            bads = [(lambda m=m, meth=meth: wrap(lambda r: L(r, jnp.zeros(2 * n), jnp.eye(m), True, meth))(r), "a likelihood of %d data with a covariance of size %d" % (2 * n, m))
                    for m in (2 * n - 1, 2 * n + 1, 2 * n + 3, 4 * n) for meth in ("inverse", "cholesky")]
        elif kind == "likelihood sparse sizes":
            good = lambda: wrap(lambda r: L(r, 0 * r, jnp.asarray(sp)))(r)
            bads = [(lambda q=q: wrap(lambda q: L(q, 0 * q, jnp.asarray(sp)))(q), "a likelihood of %d data with a sparse covariance of size %d" % (len(q), 2 * n))
                    for q in (np.resize(r, m) for m in (2 * n + 1, 2 * n + 2, 2 * n - 1, 4 * n))]
        else:
            good = lambda: wrap(lambda r: L(r, 0 * r, jnp.asarray(sp)))(r)
            bad, what = lambda: wrap(lambda r: L(r, 0 * r, jnp.asarray(sp[:1])))(r), "a likelihood with a rectangular sparse covariance"
    elif kind == "cosmology":
        name = gens.PARAMS[rng.randint(8)]
        good = lambda: jc.background.H(jc.Planck15(**{name: case["c"][name]}), 0.5)
        which = rng.randint(3)
        if which == 0:
            bad, what = lambda: jc.Cosmology(**{k: v for k, v in case["c"].items() if k not in (name, "gamma")}), "a cosmology without %s" % name
        else:
            other = ["Omega_m", "H0", "ns", "w", "sigma_8", "Omega_de", "Omega_r", "A_s", name.upper() + "_"][rng.randint(9)]
            f = jc.Planck15 if which == 1 else (lambda **kw: jc.Cosmology(**dict(case["c"], **kw)))
            bad, what = lambda: f(**{other: 0.3}), "a cosmology with parameter %s" % other
    else:
        R, P, B = jc.redshift, jc.probes, jc.bias
        b = B.constant_linear_bias(1.2)
        nzs = [R.smail_nz(2.0, 1.5, 0.5)] * int(rng.randint(0, 3))
        i = rng.randint(len(nzs) + 1)
        nzs = nzs[:i] + [R.delta_nz(1.0)] + nzs[i:]
        z = jnp.array([0.3, 0.8])
        if kind == "plane counts":
            p = P.NumberCounts(nzs, b if n % 2 else [b] * len(nzs))
        else:
            p = P.WeakLensing(nzs, ia_bias=b if n % 2 else [b] * len(nzs))
        good = lambda: P.WeakLensing(nzs).kernel(cos, z, 100.0)
        bad, what = lambda: wrap(lambda c: p.kernel(c, z, 100.0))(cos), "%s (plane at %d of %d bins)" % (kind, i, len(nzs))
        if n % 3 == 0 and case["jit"]:
            bad = lambda: jc.cl.angular_cl(cos, jnp.array([10.0, 100.0]), [p], nonlinear_fn=c10.toy_power)
    bads = bads or [(bad, what)]
    what = bads[0][1]
    first = sut("valid counterpart of " + what, good)
    for bad, text in bads:
        must_raise(text, exc, bad)
    # and what is valid is still accepted, with the same result
    again = sut("valid counterpart of %s, after it was rejected" % what, good)
    close(ctx, "values after a rejection", again, first, rtol=1e-12)
    require(np.all(np.isfinite(first)), "valid counterpart of %s: %s" % (what, first))


SUBS = [
    Sub("sparse", sparse_cases, check_sparse, quick=160, thorough=20000,
        rule="arrays of random shapes, or of conformable shapes with at most one change, accepted or rejected by the documented rules; non-trivial: rejected",
        examples=[dict(shapes=[[2, 3, 2], [3, 2, 2]], seed=1, jit=False), dict(shapes=[[2, 2, 2], [4, 3, 1]], seed=1, jit=False), dict(shapes=[[2, 2, 3], [6, 1, 1]], seed=2, jit=True),
                  dict(shapes=[[2, 2, 2], [1, 2, 4]], seed=2, jit=True), dict(shapes=[[2, 2, 1], [1, 2, 2]], seed=2, jit=False)]),
    Sub("others", other_cases, check_other, quick=70, thorough=10000,
        rule="an invalid input of one of the documented kinds, its valid counterpart before and after; all cases are non-trivial",
        examples=[dict(kind=k, c=gens.FIDUCIAL, seed=i, n=2 + i % 2, jit=i % 2 == 0) for i, k in enumerate(OTHERS)]),
]
