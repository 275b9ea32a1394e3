"""C05: Eisenstein & Hu transfer function."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, require, sut
from vlib.lazy import J, memo

ASSUMPTIONS = ["double precision", "wave numbers between 1e-5 and 1e3 h/Mpc", "Omega_b > 0"]
N = 8


def ks(n=N):
    s = gens.st()
    return s.lists(s.one_of(gens.lognum(0.1, 1e-5, 1e3), gens.num(0.1, 0.005, 0.5)), min_size=n, max_size=n)


@memo
def tk_jit(kind):
    jc = J.jc
    kw = {} if kind == "default" else {"type": kind}
    return J.jax.jit(lambda v, k: jc.transfer.Eisenstein_Hu(gens.from_vec(v, False), k, **kw))


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.wide(), k=ks(), kind=s.sampled_from(["default", "eisenhu_osc", "eisenhu"]),
        form=s.sampled_from(["jit", "jit", "jit", "np", "float", "2d"])))


def check(case, ctx):
    c, k, kind = case["c"], np.array(case["k"]), case["kind"]
    gens.labels(ctx, c)
    ctx.label(kind, case["form"])
    ctx.nontrivial(np.any(k > 1e-3))
    wiggle = kind != "eisenhu"
    if case["form"] == "jit":
        t = sut("Eisenstein_Hu", tk_jit(kind), np.array(gens.vec(c)), k)
    else:
        k = {"np": k, "float": float(k[0]), "2d": k.reshape(2, -1)}[case["form"]]
        kw = {} if kind == "default" else {"type": kind}
        t = sut("Eisenstein_Hu", J.jc.transfer.Eisenstein_Hu, gens.make(c), k, **kw)
    close(ctx, "transfer function", t, refs.eh_transfer(c, k, wiggle), rtol=1e-6, atol=1e-12)
    big = np.asarray(k) < 2e-5
    require(np.all(np.abs(np.asarray(t)[big] - 1) < 2e-3), "transfer function at large scales: %s" % t)
    require(np.all(np.abs(t) < 1 + 1e-6), "transfer function above 1: %s" % t)


def inv_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.wide(), d=gens.wide(), k=ks(), kind=s.sampled_from(["eisenhu_osc", "eisenhu"])))


def check_inv(case, ctx):
    """It depends on Omega_c, Omega_b and h only."""
    c = case["c"]
    d = dict(case["d"], **{p: c[p] for p in ("Omega_c", "Omega_b", "h")})
    ctx.nontrivial(c != d)
    k = np.array(case["k"])
    a = sut("Eisenstein_Hu", tk_jit(case["kind"]), np.array(gens.vec(c)), k)
    b = sut("Eisenstein_Hu", tk_jit(case["kind"]), np.array(gens.vec(d)), k)
    close(ctx, "only Omega_c, Omega_b and h matter", a, b, rtol=1e-9)


SUBS = [
    Sub("formulae", cases, check, quick=1500, thorough=100000,
        rule="a random cosmology and 8 wave numbers; non-trivial: some k > 1e-3 h/Mpc",
        examples=[dict(c=gens.FIDUCIAL, k=[1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 1.0, 10.0], kind=t, form=f)
                  for t in ("default", "eisenhu") for f in ("np", "float", "2d")]),
    Sub("parameters", inv_cases, check_inv, quick=150, thorough=10000,
        rule="two cosmologies sharing Omega_c, Omega_b and h; non-trivial: they differ otherwise"),
]
