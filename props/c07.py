"""C07: non linear matter power spectrum."""
import numpy as np

from vlib import gens, refs
from vlib.core import Sub, close, sut
from vlib.lazy import J, memo
from props import c06

ASSUMPTIONS = ["double precision", "wave numbers between 1e-4 and 30 h/Mpc, scale factors between 0.15 and 1",
               "a non linear scale between 0.13 and 3000 h/Mpc",
               "the smith2003 prescription only where it is defined: flat and open universes"]
N = 6
TAB = np.exp(refs._LKH)


def kvalues(n=N):
    s = gens.st()
    return s.lists(s.one_of(gens.lognum(0.3, 1e-4, 30.0), gens.lognum(1.0, 0.05, 10.0)), min_size=n, max_size=n)


@memo
def nl_jit(pres, kind, gamma):
    jc, jnp = J.jc, J.jnp
    P = jc.power

    def f(v, k, a):
        c = gens.from_vec(v, gamma)
        fn = jc.transfer.Eisenstein_Hu if kind == "default" else c06.toy_transfer

        def nl(k, a):
            if pres == "default":
                kw = {} if kind == "default" else {"transfer_fn": fn}
                return P.nonlinear_matter_power(c, k, a, **kw)
            return P.halofit(c, k, a, fn, prescription=pres)

        both = nl(jnp.concatenate([k, k]), jnp.repeat(a, N))
        return both.reshape(2, N), nl(k, a[1:]), nl(k[:1], a)

    return J.jax.jit(f)


@memo
def lin_jit(kind, gamma):
    P = J.jc.power

    def f(v, k, a):
        c = gens.from_vec(v, gamma)
        kw = c06.lin_kwargs(kind)
        one = lambda x: (P.linear_matter_power(c, k, x, **kw), P.linear_matter_power(c, TAB, x, **kw))
        return J.jax.vmap(one)(a)

    return J.jax.jit(f)


def cases(combos):
    s = gens.st()
    return s.fixed_dictionaries(dict(
        c=gens.cosmo(gamma=False), g=gens.num(0.55, 0.4, 0.8), k=kvalues(),
        a=s.lists(gens.num(0.7, 0.15, 1.0), min_size=2, max_size=2), combo=s.sampled_from(combos)))


def check(case, ctx):
    c, k, a = dict(case["c"]), np.array(case["k"]), np.array(case["a"])
    pres, kind, gamma = case["combo"]
    if pres == "smith2003" and c["Omega_k"] < 0:
        c["Omega_k"] = -c["Omega_k"]
    if gamma:
        c["gamma"] = case["g"]
    gens.labels(ctx, c)
    ctx.label(pres, "transfer " + kind)
    if c["Omega_c"] + c["Omega_b"] == 1.0:
        ctx.label("nothing but matter")
    ctx.nontrivial(np.any(k > 0.1))
    v = np.array(gens.vec(c))
    pl, grid = sut("linear_matter_power", lin_jit(kind, bool(gamma)), v, k, a)
    both, one_a, one_k = sut("nonlinear power", nl_jit(pres, kind, bool(gamma)), v, k, a)
    for i in range(2):
        ref = refs.halofit(c, k, a[i], pl[i], grid[i], "smith2003" if pres == "smith2003" else "takahashi2012")
        if ref is None:
            ctx.label("no non linear scale")
            continue
        want, par = ref
        close(ctx, "halofit", both[i], want, rtol=0.02, key="halofit " + pres, info="k_nl, n_eff, C = %s" % (par,))
        low = k < 0.003
        close(ctx, "linear at large scales", both[i][low], pl[i][low], rtol=0.02)
    close(ctx, "one scale factor for all k", one_a, both[1], rtol=1e-7)
    close(ctx, "one k at all scale factors", one_k, both[:, 0], rtol=1e-7)


TAKA = [["default", "default", 0], ["default", "default", 1], ["takahashi2012", "custom", 0]]
SMITH = [["smith2003", "default", 0], ["smith2003", "custom", 1]]


def plug_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False), g=gens.num(0.55, 0.4, 0.8), k=kvalues(), a=s.lists(gens.num(0.7, 0.15, 1.0), min_size=N, max_size=N),
                                     combo=s.sampled_from([["linear", "default", 0], ["linear", "custom", 1], ["user", "custom", 0],
                                                            ["user", "default", 1], ["smith", "custom", 0], ["none", "custom", 0]])))


@memo
def plug_jit(which, kind, gamma):
    jc = J.jc
    P = jc.power

    def user(cosmo, k, a, transfer_fn):
        return cosmo.sigma8**2 * transfer_fn(cosmo, k) * (1.0 + k) ** -2 * a

    def smith(cosmo, k, a, transfer_fn):
        return P.halofit(cosmo, k, a, transfer_fn, prescription="smith2003")

    def f(v, k, a):
        c = gens.from_vec(v, gamma)
        fn = jc.transfer.Eisenstein_Hu if kind == "default" else c06.toy_transfer
        kw = {} if kind == "default" else {"transfer_fn": fn}
        if which != "none":
            kw["nonlinear_fn"] = {"linear": P.linear, "user": user, "smith": smith}[which]
        got = P.nonlinear_matter_power(c, k, a, **kw)
        want = {"linear": lambda: P.linear_matter_power(c, k, a, transfer_fn=fn),
                "user": lambda: user(c, k, a, fn),
                "smith": lambda: P.halofit(c, k, a, fn, prescription="smith2003"),
                "none": lambda: P.halofit(c, k, a, fn, prescription="takahashi2012")}[which]()
        return got, want

    return J.jax.jit(f)


def check_plug(case, ctx):
    """nonlinear_matter_power evaluates exactly the prescription and the transfer function it is given."""
    c = dict(case["c"])
    if c["Omega_k"] < 0:
        c["Omega_k"] = -c["Omega_k"]
    which, kind, gamma = case["combo"]
    if gamma:
        c["gamma"] = case["g"]
    ctx.label(which, "transfer " + kind)
    ctx.nontrivial()
    got, want = sut("nonlinear_matter_power", plug_jit(which, kind, bool(gamma)),
                    np.array(gens.vec(c)), np.array(case["k"]), np.array(case["a"]))
    close(ctx, "prescription " + which, got, want, rtol=1e-9)


SUBS = [
    Sub("takahashi2012", lambda: cases(TAKA), check, quick=150, thorough=15000,
        rule="a random cosmology, transfer function, 6 wave numbers, 2 scale factors; non-trivial: some k > 0.1 h/Mpc",
        examples=[dict(c=gens.FIDUCIAL, g=0.55, k=[1e-3, 0.1, 0.5, 1.0, 5.0, 20.0], a=[1.0, 0.5], combo=t) for t in TAKA]),
    Sub("smith2003", lambda: cases(SMITH), check, quick=100, thorough=10000,
        rule="as takahashi2012",
        examples=[dict(c=gens.FIDUCIAL, g=0.55, k=[1e-3, 0.1, 0.5, 1.0, 5.0, 20.0], a=[1.0, 0.5], combo=t) for t in SMITH]
        # nothing but matter, exactly
        + [dict(c=dict(gens.FIDUCIAL, Omega_c=0.95, Omega_b=0.05, h=0.6, sigma8=s8), g=0.55, k=[1e-3, 0.1, 0.5, 1.0, 5.0, 20.0], a=[1.0, 0.5], combo=SMITH[0]) for s8 in (0.6, 0.75)]),
    Sub("plugins", plug_cases, check_plug, quick=60, thorough=4000,
        rule="nonlinear_matter_power with a given prescription and transfer function; non-trivial: one of them is not the default"),
]
