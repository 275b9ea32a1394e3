"""C17: the objects of the library as JAX pytrees, and the bookkeeping of their parameters."""
import copy
import pickle

import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J
from props import c09

ASSUMPTIONS = ["double precision", "objects built from numbers, arrays and lists of objects"]

ZS = np.array([0.2, 0.55, 1.3])


def spline_specs():
    s = gens.st()
    return s.fixed_dictionaries(dict(type=s.just("spline"), seed=s.integers(0, 2**31), n=s.integers(5, 8), k=s.sampled_from(["1", "2", "3", "natural"])))


FORMS = [None, None, "int", "int", "np", "0d", "jnp"]


def specs():
    """Objects of any class; their numbers may be Python integers, numpy scalars or arrays, their zmax may be large."""
    s = gens.st()

    def vary(t):
        d, form, zmax = t
        if form is not None:
            d = dict(d, form=form)
        return deeper(d, zmax) if zmax else d

    return s.tuples(plain_specs(), s.sampled_from(FORMS), s.sampled_from([None, None, None, 12.0, 15.0])).map(vary).map(integers)


def deeper(d, zmax):
    if "nzs" in d:
        return dict(d, nzs=[deeper(x, zmax) for x in d["nzs"]])
    return dict(d, zmax=zmax) if "zmax" in d else d


INTEGERS = dict(cosmology=("n_s", "sigma8", "Omega_k", "w0", "wa", "gamma"), smail=("a", "b", "gals"), delta=("z0", "gals"), kde=("gals",), shift=("dz", "gals"), constant=("b",), growth=("b",),
                ia=("A", "eta"), wl=("m",), nc=())


def integers(d, form=None):
    """With form "int", round the parameters that may be whole numbers."""
    form = form or d.get("form")
    if form != "int" or d["type"] == "spline":
        return d
    d = dict(d)
    for k in INTEGERS[d["type"]]:
        if d.get(k) is not None:
            low = 0 if k in ("Omega_k", "wa", "dz", "A", "eta", "m") else 1
            one = lambda v: int(round(v)) if k in ("Omega_k", "wa", "w0", "dz", "A", "eta", "m") else max(low, int(round(v)))
            d[k] = [one(v) for v in d[k]] if isinstance(d[k], list) else one(d[k])
    for k in ("nzs", "bias", "ia", "parent"):
        if d.get(k) is not None:
            d[k] = [integers(x, form) for x in d[k]] if isinstance(d[k], list) else integers(d[k], form)
    return d


def convert(x, form):
    return {"np": np.float64, "0d": np.asarray, "jnp": J.jnp.asarray}[form](x)


def plain_specs():
    s = gens.st()
    return s.one_of(gens.cosmo().map(lambda c: dict(c, type="cosmology")), gens.nz(("smail", "kde", "shift", "delta", "deep")), gens.bias(),
                    gens.probe(), gens.probe(), spline_specs())


def build(d):
    form = d.get("form")
    d = {k: v for k, v in d.items() if k != "form"}
    if form in ("np", "0d", "jnp") and d["type"] != "spline":
        # the numbers that are parameters, in another form
        o = build(d)
        tree = J.jax.tree_util
        if d["type"] == "cosmology":
            return gens.make({k: (convert(v, form) if v is not None else None) for k, v in d.items() if k != "type"})
        leaves, treedef = tree.tree_flatten(o)
        return tree.tree_unflatten(treedef, [convert(x, form) for x in leaves])
    t = d["type"]
    if t == "cosmology":
        return gens.make({k: v for k, v in d.items() if k != "type"})
    if t in ("smail", "kde", "shift", "delta"):
        return gens.make_nz(d)
    if t in ("constant", "growth", "ia"):
        return gens.make_bias(d)
    if t in ("wl", "nc"):
        return gens.make_probe(d)
    rng = np.random.RandomState(d["seed"])
    kw = dict(k=3, endpoints="natural") if d["k"] == "natural" else dict(k=int(d["k"]))
    x = np.cumsum(rng.uniform(0.2, 1.0, size=d["n"]))
    return J.jc.scipy.interpolate.InterpolatedUnivariateSpline(x, rng.normal(size=d["n"]), **kw)


def n_leaves(d):
    t = d["type"]
    if t == "cosmology":
        return 8 + (d["gamma"] is not None)
    count = {"smail": lambda: 4, "kde": lambda: 3, "delta": lambda: 2, "constant": lambda: 1, "growth": lambda: 1, "ia": lambda: 3, "spline": lambda: 3}
    if t == "shift":
        return n_leaves(d["parent"]) + 2
    if t in count:
        return count[t]()
    n = sum(n_leaves(x) for x in d["nzs"])
    one = lambda b: sum(map(n_leaves, b)) if isinstance(b, list) else n_leaves(b)
    if t == "nc":
        return n + one(d["bias"])
    return n + (len(d["m"]) if isinstance(d["m"], list) else 1) + (one(d["ia"]) if d["ia"] is not None else 0)


def observe(o, d):
    """What a user sees of the object, as arrays."""
    B, jnp = J.jc.background, J.jnp
    t = d["type"]
    cos = gens.make(dict(gens.FIDUCIAL, gamma=0.55, Omega_k=0.05))
    if t == "cosmology":
        names = gens.PARAMS + ("Omega_m", "Omega_de", "Omega", "k", "sqrtk") + (("gamma",) if d["gamma"] is not None else ())
        return [jnp.stack([jnp.asarray(getattr(o, n), float) for n in names]), B.growth_rate(o, ZS / 2), B.transverse_comoving_distance(o, ZS / 2)]
    if t in ("smail", "kde", "shift", "delta"):
        return [o(ZS), jnp.asarray(o.gals_per_arcmin2), jnp.asarray(o.gals_per_steradian), jnp.asarray(o.zmax)]
    if t in ("constant", "growth", "ia"):
        return [o(cos, ZS)]
    if t == "spline":
        return [o(2 * ZS), o.derivative(2 * ZS), o.antiderivative(2 * ZS)]
    return [o.kernel(cos, ZS, 70.0), o.noise(), jnp.asarray(o.zmax), jnp.asarray(o.n_tracers)]


def same(ctx, name, got, want, rtol=1e-9):
    require(len(got) == len(want), name)
    for i, (g, w) in enumerate(zip(got, want)):
        w = np.asarray(w, float)
        close(ctx, name, np.asarray(g, float), w, rtol=rtol, atol=1e-9 * (np.max(np.abs(w)) if w.size else 0.0), info="(observation %d)" % i)


TRIPS = ["flatten", "identity map", "jit identity", "jit argument", "scan carry", "vmap none", "vmap batch", "cond", "closure", "copy", "deepcopy",
         "pickle", "used before", "placeholders"]


def cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(obj=specs(), trip=s.lists(s.sampled_from(TRIPS), min_size=1, max_size=3)))


def take(trip, o, d):
    """Send the object through a JAX transformation (or a copy); return objects equivalent to it."""
    jax, jnp = J.jax, J.jnp
    tree = jax.tree_util
    if trip == "flatten":
        leaves, treedef = tree.tree_flatten(o)
        return tree.tree_unflatten(treedef, leaves)
    if trip == "identity map":
        return tree.tree_map(lambda x: x, o)
    if trip == "jit identity":
        return jax.jit(lambda x: x)(o)
    if trip == "scan carry":
        return jax.lax.scan(lambda x, t: (x, t), tree.tree_map(lambda x: jnp.asarray(x, float), o), jnp.arange(2))[0]
    if trip == "cond":
        p = tree.tree_map(lambda x: jnp.asarray(x, float), o)
        return jax.jit(lambda b, x: jax.lax.cond(b, lambda y: y, lambda y: tree.tree_map(lambda t: t * 0.5, y), x))(True, p)
    if trip == "copy":
        return copy.copy(o)
    if trip == "deepcopy":
        return copy.deepcopy(o)
    if trip == "pickle":
        return pickle.loads(pickle.dumps(o))
    if trip == "used before":
        observe(o, d)
        return o
    if trip == "placeholders":
        # structures with other leaves, as JAX builds for its own use
        treedef = tree.tree_structure(o)
        n = treedef.num_leaves
        q = tree.tree_unflatten(treedef, [object()] * n)
        require(tree.tree_structure(q) == treedef and len(tree.tree_leaves(q)) == n, "the structure depends on the values of the leaves")
        return o
    if trip == "vmap batch":
        # a batch of objects, made and taken apart again
        b = tree.tree_map(lambda x: jnp.stack([jnp.asarray(x, float)] * 3) * jnp.reshape(jnp.array([0.9, 1.0, 1.1]), (3,) + (1,) * jnp.ndim(x)), o)
        return tree.tree_map(lambda x: x[1], b)
    return o


def check(case, ctx):
    jax, jnp = J.jax, J.jnp
    tree = jax.tree_util
    d = case["obj"]
    label = d["type"] + (" gamma" if d.get("gamma") is not None else "")
    ctx.label(label, *case["trip"])
    ctx.nontrivial(case["trip"] != ["identity map"])
    ctx.label("numbers as %s" % d.get("form"))
    o = sut_obj("constructor", lambda: build(d))
    want = [np.asarray(x) for x in sut("observing " + label, observe, o, d)]
    o = build(d)
    leaves, treedef = tree.tree_flatten(o)
    require(len(leaves) == n_leaves(d), "%s has %d leaves, expected %d" % (label, len(leaves), n_leaves(d)))
    cur = o
    for trip in case["trip"]:
        if trip in ("jit argument", "closure", "vmap none"):
            fn = {"jit argument": lambda: jax.jit(lambda x: observe(x, d))(cur),
                  "closure": lambda: jax.jit(lambda t: [x + t for x in observe(cur, d)])(0.0),
                  "vmap none": lambda: [x[0] for x in jax.vmap(lambda x, t: [y + 0.0 * t for y in observe(x, d)], in_axes=(None, 0))(cur, jnp.arange(2.0))]}
            same(ctx, "%s as %s" % (label, trip), sut("%s as %s" % (label, trip), fn[trip]), want)
            continue
        name = "%s after %s" % (label, trip)
        try:
            cur = take(trip, cur, d)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "Violation":
                raise
            require(False, "%s: %s %s" % (name, type(e).__name__, str(e).split("\n")[0][:200]))
        require(type(cur) is type(o), "%s is a %s" % (name, type(cur).__name__))
        require(tree.tree_structure(cur) == treedef, "%s has another structure: %s" % (name, tree.tree_structure(cur)))
        for a, b in zip(tree.tree_leaves(cur), leaves):
            close(ctx, "leaves of " + name, np.asarray(a, float), np.asarray(b, float), rtol=1e-12)
        same(ctx, name, sut(name, observe, cur, d), want)


# --- each leaf is one parameter --------------------------------------------------------------


def map_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(obj=specs(), f=gens.num(1.05, 0.9, 1.1)))


def spec_map(d, f):
    """Every parameter (not the configuration) times f."""
    t = d["type"]
    out = dict(d)
    if t == "cosmology":
        for k in gens.PARAMS + ("gamma",):
            out[k] = d[k] * f if d[k] is not None else None
    elif t in ("smail", "delta"):
        for k in ("a", "b", "z0", "gals"):
            if k in d:
                out[k] = d[k] * f
    elif t == "kde":
        out.update(zcat=[z * f for z in d["zcat"]], w=[w * f for w in d["w"]], gals=d["gals"] * f)
    elif t == "shift":
        out.update(parent=spec_map(d["parent"], f), dz=d["dz"] * f, gals=d["gals"] * f)
    elif t in ("constant", "growth"):
        out["b"] = d["b"] * f
    elif t == "ia":
        for k in ("A", "eta", "z0"):
            out[k] = d[k] * f
    else:
        both = lambda b: [spec_map(x, f) for x in b] if isinstance(b, list) else spec_map(b, f)
        out["nzs"] = both(d["nzs"])
        if t == "nc":
            out["bias"] = both(d["bias"])
        else:
            out["ia"] = both(d["ia"]) if d["ia"] is not None else None
            out["m"] = [x * f for x in d["m"]] if isinstance(d["m"], list) else d["m"] * f
    return out


def check_map(case, ctx):
    """Leaves are the parameters: an object whose leaves are scaled is the object with scaled parameters."""
    tree = J.jax.tree_util
    d, f = case["obj"], case["f"]
    label = d["type"] + (" gamma" if d.get("gamma") is not None else "")
    ctx.label(label)
    ctx.nontrivial(f != 1)
    if d["type"] == "spline":
        # data and coefficients of a spline: its values are linear in them
        o = build(d)
        x, y, c = tree.tree_leaves(o)
        q = tree.tree_unflatten(tree.tree_structure(o), [x, y * f, c * f])
        same(ctx, "scaled spline", sut("scaled spline", observe, q, d), [f * np.asarray(v) for v in observe(o, d)])
        return
    o = tree.tree_map(lambda x: x * f, build(d))
    dd = spec_map(d, f)
    same(ctx, label + " with scaled leaves", sut(label + " with scaled leaves", observe, o, dd), sut(label, observe, build(dd), dd), rtol=1e-7)


def grad_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), which=s.sampled_from(gens.PARAMS + ("gamma",)), over=s.dictionaries(
        s.sampled_from(gens.PARAMS[:5] + ("Omega_k", "w0", "wa")), gens.num(0.3, 0.05, 0.9), max_size=4), gamma=s.booleans()))


def check_grad(case, ctx):
    """The gradient with respect to a cosmology is a cosmology that holds the derivative for each parameter."""
    jax = J.jax
    c, p = case["c"], case["which"]
    if p == "gamma" and c["gamma"] is None:
        c = dict(c, gamma=0.55)
    gens.labels(ctx, c)
    ctx.label("d " + p)
    ctx.nontrivial()
    cos = gens.make(c)
    names = [n for n in gens.PARAMS + ("gamma",) if c[n] is not None]
    g = sut("gradient", lambda: [getattr(jax.grad(lambda x: getattr(x, p) ** 2)(cos), n) for n in names])
    close(ctx, "gradient of a parameter", np.array(g, float), np.array([2 * c[p] if n == p else 0.0 for n in names]), rtol=1e-12)
    g = sut("gradient", lambda: [getattr(jax.grad(lambda x: x.Omega_de * x.Omega_m)(cos), n) for n in names])
    om = c["Omega_c"] + c["Omega_b"]
    ode = 1 - c["Omega_k"] - om
    want = [ode - om if n in ("Omega_c", "Omega_b") else -om if n == "Omega_k" else 0.0 for n in names]
    close(ctx, "gradient of derived parameters", np.array(g, float), np.array(want), rtol=1e-12, atol=1e-14)
    # named cosmologies and overrides
    over = dict(case["over"])
    if case["gamma"]:
        over["gamma"] = 0.6
    P15 = dict(Omega_c=0.2589, Omega_b=0.04860, Omega_k=0.0, h=0.6774, n_s=0.9667, sigma8=0.8159, w0=-1.0, wa=0.0, gamma=None)
    o = J.jc.Planck15(**over)
    for n, v in dict(P15, **over).items():
        require(getattr(o, n) is None if v is None else abs(float(getattr(o, n)) - v) < 1e-12, "Planck15(%s).%s is %r, expected %r" % (over, n, getattr(o, n), v))
    text = str(sut("printing a cosmology", lambda: [str(o)])[0])
    for n in gens.PARAMS:
        require(str(getattr(o, n)) in text, "%s = %s does not appear in %r" % (n, getattr(o, n), text))


def batch_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(obj=specs(), fs=s.lists(gens.num(1.0, 0.9, 1.1), min_size=2, max_size=3)))


def check_batch(case, ctx):
    """A batch of objects under vmap behaves as the objects one by one."""
    jax, jnp = J.jax, J.jnp
    tree = jax.tree_util
    d, fs = case["obj"], case["fs"]
    label = d["type"] + (" gamma" if d.get("gamma") is not None else "")
    ctx.label(label)
    ctx.nontrivial(len(set(fs)) > 1)
    if d["type"] == "cosmology" and d["Omega_k"] == 0:
        ctx.label("flat")
    scale = (lambda o, f: tree.tree_map(lambda x: x * f, o)) if d["type"] != "spline" else (
        lambda o, f: tree.tree_unflatten(tree.tree_structure(o), [a * b for a, b in zip(tree.tree_leaves(o), (1.0, f, f))]))
    o = tree.tree_map(lambda x: jnp.asarray(x, float), build(d))
    one = [[np.asarray(x) for x in sut("observing " + label, observe, scale(o, f), d)] for f in fs]
    batch = sut_obj("stacking " + label, lambda: tree.tree_map(lambda *x: jnp.stack(x), *[scale(o, f) for f in fs]))
    got = sut("vmap over " + label, jax.vmap(lambda x: observe(x, d)), batch)
    same(ctx, "vmap over " + label, got, [np.stack(x) for x in zip(*one)], rtol=1e-8)
    made = sut_obj("making a batch of " + label, lambda: jax.vmap(lambda f: scale(o, f))(jnp.array(fs)))
    got = sut("vmap over made " + label, jax.jit(jax.vmap(lambda x: observe(x, d))), made)
    same(ctx, "vmap over made " + label, got, [np.stack(x) for x in zip(*one)], rtol=1e-8)


def sut_obj(label, fn):
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        require(False, "%s raised %s: %s" % (label, type(e).__name__, str(e).split("\n")[0][:200]))


EXTRA = [dict(gens.FIDUCIAL, type="cosmology", gamma=0.55), dict(gens.FIDUCIAL, type="cosmology", w0=-1, wa=0, n_s=1, Omega_k=0, gamma=1), dict(c09.SM, zmax=15.0), c09.wl([c09.SM, c09.SHORT], c09.IA[0], 0.1), c09.wl([c09.SM, c09.SHORT], [c09.IA[0], c09.IA[1]], [0.1, -0.2], [0.2, 0.3]),
         c09.wl([c09.PLANE[0], c09.KDE], None, 0.2, 0.3), c09.nc([c09.SHIFT], c09.IA[1]), dict(type="spline", seed=1, n=6, k="natural"), dict(type="spline", seed=1, n=6, k="2")]

# --- configurations --------------------------------------------------------------------------

CONFIG_TRIPS = [t for t in TRIPS if t not in ("jit argument", "closure", "vmap none", "used before")]


def config_cases():
    """Probes, distributions with configuration of the user's own, and containers that the user derives."""
    s = gens.st()
    value = s.sampled_from([True, False, 3, 2.5, "name", (1, 2), None])
    extra = s.dictionaries(s.sampled_from(["name", "survey", "flag"]), value, max_size=2)
    return s.fixed_dictionaries(dict(kind=s.sampled_from(["nc", "nc", "wl", "own", "own", "smail", "list"]), extra=extra, rsd=s.booleans(),
                                     sigma=s.sampled_from([0.26, 0.3, [0.3]]),
                                     params=s.lists(gens.num(1.0, -2, 2), max_size=3), trip=s.lists(s.sampled_from(CONFIG_TRIPS), min_size=1, max_size=3)))


OWN = {}


def own():
    """A container as a user would write one."""
    if not OWN:
        base = J.jc.jax_utils.container

        class Offset(base):
            def __call__(self, x):
                return sum((p * x**i for i, p in enumerate(self.params)), 0.0 * x) * (2.0 if self.config.get("flag") else 1.0)

        Offset.__qualname__ = "Offset"
        globals()["Offset"] = Offset
        OWN["Offset"] = J.jax.tree_util.register_pytree_node_class(Offset)
    return OWN["Offset"]


def check_config(case, ctx):
    """Transformations and copies return objects with the configuration that the user gave."""
    tree, jc = J.jax.tree_util, J.jc
    kind, extra = case["kind"], case["extra"]
    ctx.label(kind, *case["trip"])
    ctx.nontrivial(bool(extra) or case["rsd"] or kind == "own")
    nz = jc.redshift.smail_nz(1.0, 2.0, 0.9, gals_per_arcmin2=3.0)
    want = dict(extra)
    if kind == "own":
        o = sut_obj("a container", lambda: own()(*case["params"], **extra))
    elif kind == "smail":
        want["zmax"] = 4.0
        o = sut_obj("smail_nz", lambda: jc.redshift.smail_nz(1.0, 2.0, 0.9, gals_per_arcmin2=3.0, zmax=4.0, **extra))
    elif kind == "wl":
        want["sigma_e"] = case["sigma"]
        o = sut_obj("WeakLensing", lambda: jc.probes.WeakLensing([nz], sigma_e=case["sigma"], **extra))
    else:
        want["has_rsd"] = case["rsd"]
        o = sut_obj("NumberCounts", lambda: jc.probes.NumberCounts([nz], jc.bias.constant_linear_bias(1.0), has_rsd=case["rsd"], **extra))
    cur, d = ([o, nz] if kind == "list" else o), None
    for trip in case["trip"]:
        cur = sut_obj("%s of %s" % (trip, kind), lambda: take(trip, cur, d))
        q = cur[0] if kind == "list" else cur
        require(type(q) is type(o), "%s of %s gives %s" % (trip, kind, type(q).__name__))
        for k, v in want.items():
            require(k in q.config and q.config[k] == v, "after %s, %s has the configuration %s, expected %s = %r" % (trip, kind, q.config, k, v))
        require(q.config == o.config, "after %s, %s has the configuration %s, expected %s" % (trip, kind, q.config, o.config))
        require(len(q.params) == len(o.params), "parameters of %s after %s" % (kind, trip))
        if kind == "own":
            close(ctx, "values of a container", np.asarray(sut("a container", q, J.jnp.asarray(ZS)), float), np.asarray(o(ZS), float), rtol=1e-12)


SUBS = [
    Sub("configurations", config_cases, check_config, quick=120, thorough=6000,
        rule="a probe, distribution or container of the user's own with extra configuration, and one to three transformations or copies; non-trivial: there is such a configuration",
        examples=[dict(kind=k, extra=dict(name="lens", flag=True), rsd=True, sigma=0.3, params=[1.0, 2.0], trip=["flatten", "jit identity", "vmap batch"]) for k in ("nc", "own", "wl", "smail", "list")]),
    Sub("round_trips", cases, check, quick=70, thorough=20000,
        rule="an object of any class and one to three transformations that must return an equivalent one; non-trivial: not only the identity map",
        examples=[dict(obj=o, trip=["flatten", "jit argument"]) for o in EXTRA]),
    Sub("round_trips2", cases, check, quick=70, thorough=20000, rule="as round_trips"),
    Sub("leaves", map_cases, check_map, quick=80, thorough=15000,
        rule="an object of any class whose leaves are scaled by a factor; non-trivial: the factor is not one",
        examples=[dict(obj=o, f=1.05) for o in EXTRA]),
    Sub("batches", batch_cases, check_batch, quick=28, thorough=8000,
        rule="a batch of two or three scaled copies of an object under vmap; non-trivial: the copies differ",
        examples=[dict(obj=o, fs=[1.0, 1.05]) for o in EXTRA]),
    Sub("gradients", grad_cases, check_grad, quick=150, thorough=10000,
        rule="gradient with respect to a random cosmology; overrides of the Planck 2015 parameters; all cases are non-trivial"),
]
