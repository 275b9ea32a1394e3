"""C19: results do not depend on what was computed before."""
import copy
import json

import numpy as np

from vlib import gens
from vlib.core import Sub, Violation, close, require, sut
from vlib.lazy import J, memo
from props import c06, c17

ASSUMPTIONS = ["double precision", "objects are not modified by their users", "when the cosmology itself is traced, its tables are first used "
               "outside of inner staged scopes (see known_findings.txt for the others)"]

A = np.array([0.11, 0.4, 0.73, 1.0])
K = np.array([0.01, 0.1, 1.0, 3.0])
Z = np.array([0.1, 0.45, 0.9, 1.6])


def biases():
    b = J.jc.bias
    return {"growth bias": b.inverse_growth_linear_bias(1.3), "constant bias": b.constant_linear_bias(0.7), "ia bias": b.des_y1_ia_bias(1.1, 0.6, 0.5)}


def cosmology_ops(shared=None):
    """Operations on a cosmology, some with objects that all steps of a history share."""
    jc = J.jc
    shared = shared or biases()
    B, P = jc.background, jc.power
    ops = {n: (lambda c, a, f=getattr(B, n): f(c, a)) for n in ("growth_factor", "growth_rate", "radial_comoving_distance", "transverse_comoving_distance",
                                                              "angular_diameter_distance", "H", "Omega_m_a")}
    ops["a_of_chi"] = lambda c, a: B.a_of_chi(c, 4000.0 * (1.0 - a))
    ops["table 1"] = lambda c, a: B.radial_comoving_distance(c, a, log10_amin=-2, steps=64)
    ops["table 2"] = lambda c, a: B.radial_comoving_distance(c, a, steps=100)
    ops["table 3"] = lambda c, a: B.radial_comoving_distance(c, a, log10_amin=-1)
    for n in shared:
        ops[n] = lambda c, a, n=n: shared[n](c, 1 / a - 1)
    ops["transfer"] = lambda c, a: jc.transfer.Eisenstein_Hu(c, a)
    ops["linear"] = lambda c, a: P.linear_matter_power(c, K[1], a, transfer_fn=c06.toy_transfer)
    # another transfer function of the same name, and its options
    ops["linear 2"] = lambda c, a: P.linear_matter_power(c, K[1], a, transfer_fn=toy_transfer)
    ops["linear 3"] = lambda c, a: P.linear_matter_power(c, K[1], a, transfer_fn=toy_transfer, q=0.5)
    return ops


def toy_transfer(cosmo, k, q=0.1):
    return 1.0 / (1.0 + (k / q) ** 2)


OPS = ["growth_factor", "growth_rate", "radial_comoving_distance", "transverse_comoving_distance", "angular_diameter_distance", "H", "Omega_m_a", "a_of_chi",
       "table 1", "table 2", "table 3", "growth bias", "growth bias", "ia bias", "constant bias", "transfer", "linear", "linear 2", "linear 3"]
MODES = ["eager", "eager", "eager", "jit closure", "jit argument", "grad a", "vmap a", "lax.map a", "scan a", "aborted jit", "aborted grad", "grad cosmology", "eval_shape"]


class Abort(Exception):
    pass


def apply(op, mode, c, shared=None):
    """Values of the operation at A, for the cosmology object, through the given mode; None if there is no value."""
    jax, jnp, lax = J.jax, J.jnp, J.lax
    f = cosmology_ops(shared)[op]
    pt = lambda t: jnp.reshape(f(c, jnp.reshape(t, (1,))), ())
    if mode == "eager":
        return f(c, A)
    if mode == "jit closure":
        return jax.jit(lambda a: f(c, a))(A)
    if mode == "jit argument":
        return jax.jit(lambda c, a: f(c, a))(c, A)
    if mode == "grad a":
        return jnp.stack([jax.value_and_grad(pt)(a)[0] for a in A])
    if mode == "vmap a":
        return jax.vmap(pt)(jnp.asarray(A))
    if mode == "lax.map a":
        return lax.map(pt, jnp.asarray(A))
    if mode == "scan a":
        return jax.jit(lambda x: lax.scan(lambda s, a: (s, pt(a)), 0.0, x)[1])(A)
    if mode == "grad cosmology":
        return jnp.sum(f(c, A)) + 0.0 * jax.grad(lambda c: jnp.sum(f(c, A)))(c).Omega_c
    if mode == "eval_shape":
        jax.eval_shape(lambda a: f(c, a), A)
        return None

    def failing(a):
        x = f(c, a)
        raise Abort(str(x.shape))

    try:
        (jax.jit if mode == "aborted jit" else jax.grad)(lambda a: jnp.sum(failing(jnp.reshape(a, -1))))(A if mode == "aborted jit" else 0.5)
    except Abort:
        pass
    return None


_fresh = {}


@memo
def fresh_jit(op, gamma):
    f = cosmology_ops()[op]
    return J.jax.jit(lambda v: f(gens.from_vec(v, gamma), A))


def fresh(op, spec):
    """The oracle: the same operation alone, on an object that was never used."""
    return sut(op, fresh_jit(op, spec["gamma"] is not None), np.array(gens.vec(spec)))


# changes of two parameters which keep their sum, or the dark energy, as it was: to the last bit, for parameters that are multiples of 1/256
EXCHANGES = {"Omega_m fixed": ("Omega_c", "Omega_b"), "Omega_de fixed": ("Omega_c", "Omega_k"), "w0 + wa fixed": ("w0", "wa")}


def rounded(c):
    return dict(c, **{n: max(1, round(abs(c[n]) * 256)) / 256 * (1 if c[n] >= 0 else -1) if c[n] else 0.0 for n in ("Omega_c", "Omega_b", "Omega_k", "w0", "wa")})


def exchange(c, what, d=1 / 128):
    up, down = EXCHANGES[what]
    return dict(c, **{up: c[up] + d, down: c[down] - d})


def cosmology_cases():
    s = gens.st()

    @s.composite
    def build(draw):
        base = rounded(draw(gens.cosmo(gamma=False)))
        pool = [base]
        for _ in range(draw(s.integers(0, 2))):
            name = draw(s.sampled_from(gens.PARAMS + ("gamma",) + tuple(EXCHANGES)))
            if name in EXCHANGES:
                pool.append(exchange(base, name))
                continue
            new = {"Omega_c": 0.31, "Omega_b": 0.061, "h": 0.61, "n_s": 0.91, "sigma8": 0.71, "Omega_k": 0.13 if base["Omega_k"] <= 0 else -0.13,
                   "w0": -0.77, "wa": 0.17 if base["w0"] < -0.7 else -0.17, "gamma": 0.57}[name]
            pool.append(dict(base, **{name: new}))
        ops = draw(s.lists(s.tuples(s.integers(0, len(pool) - 1), s.sampled_from(OPS[:-3] + OPS), s.sampled_from(MODES)).map(list), min_size=2, max_size=9))
        # derived objects: made from used ones
        return dict(pool=pool, ops=ops, derive=draw(s.lists(s.tuples(s.integers(0, 8), s.integers(0, len(pool) - 1), s.sampled_from(["scale", "copy", "deepcopy", "identity", "replace"])).map(list), max_size=2)))

    return build()


def derive(kind, o, spec):
    tree = J.jax.tree_util
    if kind == "scale":
        return tree.tree_map(lambda x: x * 1.02, o), {k: (v * 1.02 if v is not None else None) for k, v in spec.items()}
    if kind == "copy":
        return copy.copy(o), spec
    if kind == "deepcopy":
        return copy.deepcopy(o), spec
    if kind == "identity":
        return tree.tree_map(lambda x: x, o), spec
    leaves, treedef = tree.tree_flatten(o)
    leaves[4] = leaves[4] * 1.1
    leaves[0] = leaves[0] * 0.9
    return tree.tree_unflatten(treedef, leaves), dict(spec, sigma8=spec["sigma8"] * 1.1, Omega_c=spec["Omega_c"] * 0.9)


def check_cosmology(case, ctx):
    specs = [dict(x) for x in case["pool"]]
    objs = [gens.make(x) for x in specs]
    before = [str(o) for o in objs]
    ctx.nontrivial(len(case["ops"]) > 2)
    a0 = A.copy()
    shared = biases()
    history = []
    for step, (i, op, mode) in enumerate(case["ops"]):
        for at, src, kind in case["derive"]:
            if at == step:
                o, sp = derive(kind, objs[src], specs[src])
                objs.append(o)
                specs.append(sp)
                before.append(str(o))
                history.append("%d = %s of %d" % (len(objs) - 1, kind, src))
                ctx.label("derived: " + kind)
                # use it at once
                want = fresh(op, sp)
                got = sut("%s of a derived cosmology after %s" % (op, history), cosmology_ops(shared)[op], o, A)
                close(ctx, "%s of a derived cosmology after %s" % (op, history), got, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(want)), key="derived")
        history.append("%s(%d) %s" % (op, i, mode))
        ctx.label(op, mode)
        label = "%s after %s" % (op, history)
        if op == "linear" and mode == "grad cosmology":
            mode = "jit argument"  # dear
        got = sut(label, apply, op, mode, objs[i], shared)
        if got is None:
            continue
        want = fresh(op, specs[i])
        if mode == "grad cosmology":
            want = np.sum(want)
        close(ctx, label, got, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(want)), key=op)
    # in the end every object still gives the values of a new one
    for i, (o, sp) in enumerate(zip(objs, specs)):
        for op in ("growth_factor", "radial_comoving_distance", "a_of_chi", "growth bias"):
            want = fresh(op, sp)
            label = "%s(%d) eager after %s" % (op, i, history)
            close(ctx, label, sut(label, cosmology_ops(shared)[op], o, A), want, rtol=1e-8, atol=1e-9 * np.max(np.abs(want)), key=op)
    require([str(o) for o in objs] == before, "the parameters of a cosmology changed: %s" % [str(o) for o in objs])
    require(np.array_equal(A, a0), "the input array was modified")


# --- objects that live for one call only -------------------------------------------------------


def temporary_cases():
    s = gens.st()
    step = s.tuples(s.sampled_from(gens.PARAMS + ("gamma",) + tuple(EXCHANGES)), s.sampled_from(["transfer", "transfer", "growth_factor", "radial_comoving_distance", "a_of_chi", "linear", "linear", "growth bias", "n(z)", "noise"])).map(list)
    return s.fixed_dictionaries(dict(c=gens.cosmo(gamma=False).map(rounded), steps=s.lists(step, min_size=2, max_size=5), times=s.integers(2, 3)))


def check_temporary(case, ctx):
    """A new object in each step, gone after it: nothing of it may be found again under its address."""
    ctx.nontrivial(len({p for p, _ in case["steps"]}) > 1)
    ops = {op for _, op in case["steps"]}
    ctx.label(*ops)
    for op in sorted(ops):
        history = []
        for name, step_op in case["steps"] * (1 if op == "linear" else case["times"]):
            if step_op != op:
                continue
            for f in (1.0, 1.07):
                spec = dict(case["c"])
                if name in EXCHANGES:
                    spec = exchange(spec, name, 1 / 128 if f == 1.0 else -1 / 256)
                elif name == "gamma":
                    spec["gamma"] = 0.5 * f
                else:
                    spec[name] = spec[name] * f + (0.05 * (f - 1) if name in ("Omega_k", "wa") else 0.0)
                history.append("%s * %g" % (name, f))
                label = "%s of a new object after %s" % (op, history)
                if op == "n(z)":
                    z0 = 0.3 + spec["Omega_c"]
                    got = sut(label, lambda: J.jc.redshift.smail_nz(2.0, 1.5, z0)(Z))
                    want = _fresh.setdefault("smail jit", J.jax.jit(lambda z0: J.jc.redshift.smail_nz(2.0, 1.5, z0)(Z)))(z0)
                elif op == "noise":
                    s8 = spec["sigma8"]
                    got = sut(label, lambda: J.jc.probes.WeakLensing([J.jc.redshift.smail_nz(2.0, 1.5, 0.5, gals_per_arcmin2=s8)], sigma_e=0.3 * s8).noise())
                    want = np.array([(0.3 * s8) ** 2 / (s8 * (10800 / np.pi) ** 2)])
                else:
                    got, want = sut(label, lambda: cosmology_ops()[op](gens.make(spec), A)), fresh(op, spec)
                close(ctx, label, got, np.asarray(want), rtol=1e-7, atol=1e-9 * np.max(np.abs(want)), key=op)


# --- redshift distributions, biases and probes --------------------------------------------------

NZ_MODES = ["eager", "eager", "jit closure", "jit argument", "grad z", "grad object", "vmap z", "lax.map z", "aborted jit", "eval_shape"]
P_MODES = ["eager", "jit closure", "jit argument", "aborted jit", "noise"]


NZ_DERIVED = ["shift", "shift", "shift far", "scale", "copy", "deepcopy", "identity", "replace"]


def nz_derive(kind, o, spec):
    """An object made from another one, and how to build it anew."""
    tree = J.jax.tree_util
    if kind in ("shift", "shift far"):
        dz = -0.12 if kind == "shift" else 0.3
        return J.jc.redshift.systematic_shift(o, dz, gals_per_arcmin2=3.0, zmax=5.0), dict(type="shift", parent=spec, dz=dz, gals=3.0, zmax=5.0)
    if kind == "copy":
        return copy.copy(o), spec
    if kind == "deepcopy":
        return copy.deepcopy(o), spec
    if kind == "identity":
        return tree.tree_map(lambda x: x, o), spec
    if kind == "scale":
        return tree.tree_map(lambda x: x * 1.05, o), c17.spec_map(spec, 1.05)
    leaves, treedef = tree.tree_flatten(o)
    leaves[-1] = leaves[-1] * 2.0
    return tree.tree_unflatten(treedef, leaves), dict(spec, gals=spec["gals"] * 2.0)


def nz_cases():
    s = gens.st()

    @s.composite
    def build(draw):
        kind = draw(s.sampled_from(["smail", "kde", "shift", "shift"]))
        base = draw(gens.nz((kind,)))
        pool = [base]
        inner = lambda d: inner(d["parent"]) if d["type"] == "shift" else d

        def change(d, what):
            if d["type"] == "shift" and what != "dz":
                return dict(d, parent=change(d["parent"], what), zmax=4.0 if what == "zmax" else d["zmax"], gals=9.0 if what == "gals" else d["gals"])
            new = dict(zmax=4.0, gals=9.0, dz=-0.07, a=2.4, b=1.95, z0=0.47, bw=0.15, zcat=[0.66] + d.get("zcat", [0.6])[1:])
            return dict(d, **{what: new[what]}) if what in d else d

        for _ in range(draw(s.integers(0, 2))):
            pool.append(change(base, draw(s.sampled_from(["zmax", "gals", "dz", "a", "b", "z0", "bw", "zcat"]))))
        ops = draw(s.lists(s.tuples(s.integers(0, len(pool) - 1), s.sampled_from(["n(z)", "n(z)", "wl", "wl ia", "nc", "pz"]), s.sampled_from(NZ_MODES)).map(list), min_size=2, max_size=8))
        made = s.tuples(s.integers(0, 7), s.integers(0, len(pool) - 1), s.sampled_from(NZ_DERIVED)).map(list)
        return dict(pool=pool, ops=ops, derive=draw(s.lists(made, max_size=2)))

    return build()


def nz_op(op, o, z):
    P, jnp = J.jc.probes, J.jnp
    cos = gens.make(dict(gens.FIDUCIAL, gamma=0.55))
    if op == "n(z)":
        return o(z)
    if op == "pz":
        return o.pz_fn(z)
    bias = J.jc.bias.constant_linear_bias(1.2)
    p = P.WeakLensing([o]) if op == "wl" else P.WeakLensing([o, o], ia_bias=bias, multiplicative_bias=[0.1, 0.2]) if op == "wl ia" else P.NumberCounts([o], bias)
    return jnp.sum(p.kernel(cos, z, 30.0), axis=0) + jnp.sum(p.noise())


def nz_apply(op, mode, o):
    jax, jnp, lax = J.jax, J.jnp, J.lax
    f = lambda o, z: nz_op(op, o, z)
    pt = lambda t: jnp.reshape(f(o, jnp.reshape(t, (1,))), ())
    if mode == "eager":
        return f(o, Z)
    if mode == "jit closure":
        return jax.jit(lambda z: f(o, z))(Z)
    if mode == "jit argument":
        return jax.jit(f)(o, Z)
    if mode == "grad z":
        return jnp.stack([jax.value_and_grad(pt)(z)[0] for z in Z])
    if mode == "grad object":
        return jax.value_and_grad(lambda o: jnp.sum(f(o, Z)))(o)[0]
    if mode == "vmap z":
        return jax.vmap(pt)(jnp.asarray(Z))
    if mode == "lax.map z":
        return lax.map(pt, jnp.asarray(Z))
    if mode == "eval_shape":
        jax.eval_shape(lambda z: f(o, z), Z)
        return None

    def failing(z):
        f(o, z)
        raise Abort()

    try:
        jax.jit(failing)(Z)
    except Abort:
        pass
    return None


def check_nz(case, ctx):
    specs = list(case["pool"])
    objs = [gens.make_nz(x) for x in specs]
    ctx.nontrivial(len(case["ops"]) > 2)
    history = []
    steps = [(i, op, mode) for i, op, mode in case["ops"]]
    n = 0
    while steps:
        i, op, mode = steps.pop(0)
        for at, src, kind in case.get("derive", []):
            if at == n:
                o, sp = nz_derive(kind, objs[src], specs[src])
                objs.append(o)
                specs.append(sp)
                history.append("%d = %s of %d" % (len(objs) - 1, kind, src))
                ctx.label("derived: " + kind)
                # use it at once, after its parent
                steps = [(i, op, mode), (src, "n(z)", "eager")] + steps
                i, op, mode = len(objs) - 1, "n(z)", "eager"
        n += 1
        history.append("%s(%d) %s" % (op, i, mode))
        ctx.label(specs[i]["type"], op, mode)
        label = "%s of %s after %s" % (op, specs[i]["type"], history)
        key = json.dumps(["nz", op, specs[i]], sort_keys=True)
        if key not in _fresh:
            _fresh[key] = sut(op, nz_op, op, gens.make_nz(specs[i]), Z)
        want = _fresh[key]
        got = sut(label, nz_apply, op, mode, objs[i])
        if got is None:
            continue
        if mode == "grad object":
            want = np.sum(want)
        close(ctx, label, got, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(want)), key=op)
    for i, o in enumerate(objs):
        key = json.dumps(["nz", "n(z)", specs[i]], sort_keys=True)
        if key not in _fresh:
            _fresh[key] = sut("n(z)", nz_op, "n(z)", gens.make_nz(specs[i]), Z)
        label = "n(z) of %d after %s" % (i, history)
        close(ctx, label, sut(label, o, Z), _fresh[key], rtol=1e-8, atol=1e-10, key="n(z)")
        require(abs(o.gals_per_arcmin2 - specs[i]["gals"]) < 1e-12 * specs[i]["gals"] and o.zmax == specs[i]["zmax"], "gals_per_arcmin2 or zmax changed")


# --- the same probes with several cosmologies, in any order ---------------------------------------


def probe_cases():
    s = gens.st()

    @s.composite
    def build(draw):
        base = draw(gens.cosmo())
        name = draw(s.sampled_from(gens.PARAMS[:3] + gens.PARAMS[5:]))
        other = dict(base, **{name: {"Omega_c": 0.31, "Omega_b": 0.061, "h": 0.61, "Omega_k": 0.13 if base["Omega_k"] <= 0 else -0.13, "w0": -0.77,
                                     "wa": -0.17}[name]})
        probe = draw(gens.probe(max_bins=2))
        # a probe of the same structure that differs in its settings
        p2 = json.loads(json.dumps(probe))
        what = draw(s.sampled_from(["zmax", "gals", "sigma_e", "m", "same"]))
        for d in p2["nzs"]:
            if what in ("zmax", "gals"):
                d[what] = d[what] * (0.9 if what == "zmax" else 2)
        if p2["type"] == "wl" and what in ("sigma_e", "m"):
            new = [0.31, 0.35][:len(p2["nzs"])] if what == "sigma_e" else [0.11, -0.12][:len(p2["nzs"])]
            p2[what] = new if isinstance(p2[what], list) else new[0]
        ops = draw(s.lists(s.tuples(s.integers(0, 1), s.integers(0, 1), s.sampled_from(P_MODES), s.sampled_from([20.0, 333.0])).map(list), min_size=3, max_size=7))
        return dict(cs=[base, other], probes=[probe, p2], ops=ops, what=what)

    return build()


def check_probe(case, ctx):
    jax = J.jax
    objs, cos = [gens.make_probe(p) for p in case["probes"]], [gens.make(c) for c in case["cs"]]
    gens.probe_labels(ctx, case["probes"][0])
    ctx.label("differs in " + case["what"])
    ctx.nontrivial(len({(i, j) for i, j, _, _ in case["ops"]}) > 1)
    history = []
    for i, j, mode, ell in case["ops"]:
        history.append("probe %d, cosmology %d, ell %g, %s" % (i, j, ell, mode))
        fp, fc = gens.make_probe(case["probes"][i]), gens.make(case["cs"][j])
        label = "kernel or noise after %s" % history
        if mode == "noise":
            close(ctx, label, sut(label, objs[i].noise), np.asarray(sut("noise", fp.noise)), rtol=1e-9, key="noise")
            continue
        p, c = objs[i], cos[j]
        if mode == "aborted jit":
            def failing(z):
                p.kernel(c, z, ell)
                raise Abort()
            try:
                jax.jit(failing)(Z)
            except Abort:
                pass
            continue
        f = {"eager": lambda: p.kernel(c, Z, ell), "jit closure": lambda: jax.jit(lambda z: p.kernel(c, z, ell))(Z),
             "jit argument": lambda: jax.jit(lambda p, c, z: p.kernel(c, z, ell))(p, c, Z)}[mode]
        want = np.asarray(reference(case["probes"][i], case["cs"][j], ell))
        close(ctx, label, sut(label, f), want, rtol=1e-7, atol=1e-8 * np.max(np.abs(want)), key="kernel")


def reference(probe, c, ell):
    key = json.dumps(["probe", probe, c, ell], sort_keys=True)
    if key not in _fresh:
        # parameters and settings as the values of one computation, which no cache of an earlier one can serve
        p, cos = gens.make_probe(probe), gens.make(c)
        _fresh[key] = sut("kernel", J.jax.jit(lambda t: p.kernel(cos, Z + t, ell)), 0.0)
    return _fresh[key]


# --- inside one transformation of the cosmology ---------------------------------------------------


def traced_cases():
    s = gens.st()
    op = s.tuples(s.sampled_from(OPS[:-1]), s.sampled_from(["plain", "plain", "vmap", "map", "jit", "jvp"])).map(list)
    return s.fixed_dictionaries(dict(c=gens.cosmo(), ops=s.lists(op, min_size=2, max_size=6), outer=s.sampled_from(["jit", "grad", "vmap", "jvp", "lax.map"])))


def traced(ops, gamma, outer):
    jax, jnp, lax = J.jax, J.jnp, J.lax
    table = cosmology_ops()

    def body(v):
        c = gens.from_vec(v, gamma)
        out = []
        for op, scope in ops:
            f = table[op]
            pt = lambda t: jnp.reshape(f(c, jnp.reshape(t, (1,))), ())
            a = jnp.asarray(A)
            if scope in ("map", "jit"):
                f(c, a)  # the table is first used out of the inner scope
            out.append({"plain": lambda: f(c, a), "vmap": lambda: jax.vmap(pt)(a), "map": lambda: lax.map(pt, a), "jit": lambda: jax.jit(lambda x: f(c, x))(a),
                        "jvp": lambda: jax.jvp(lambda x: f(c, x), (a,), (jnp.ones_like(a),))[0]}[scope]())
        return jnp.stack(out)

    if outer == "jit":
        return jax.jit(body)
    if outer == "grad":
        return jax.jit(lambda v: jax.vjp(body, v)[0])
    if outer == "vmap":
        return lambda v: jax.vmap(body)(jnp.stack([v * 1.01, v]))[1]
    if outer == "jvp":
        return lambda v: jax.jvp(body, (v,), (jnp.ones_like(v),))[0]
    return lambda v: lax.map(body, jnp.stack([v * 1.01, v]))[1]


def check_traced(case, ctx):
    c, ops = case["c"], [tuple(x) for x in case["ops"]]
    gens.labels(ctx, c)
    ctx.label(case["outer"], *[s for _, s in ops])
    ctx.nontrivial(len(ops) > 2)
    # tables with other settings replace the stored one, so that inner scopes have to make a new one
    safe = []
    for op, scope in ops:
        safe.append((op, scope if not (op.startswith("table") or "distance" in op or op == "a_of_chi") or scope in ("plain", "vmap", "jvp") else "plain"))
    got = sut("sequence %s under %s of the cosmology" % (safe, case["outer"]), traced(safe, c["gamma"] is not None, case["outer"]), J.jnp.asarray(gens.vec(c), float))
    for (op, scope), g in zip(safe, got):
        want = fresh(op, c)
        close(ctx, "%s (%s) in %s under %s" % (op, scope, safe, case["outer"]), g, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(want)), key=op)


def known_leak():
    """Recorded finding: first use of a table of a traced cosmology inside a staged scope, then use outside."""
    jax, jnp, lax = J.jax, J.jnp, J.lax
    B = J.jc.background

    def f(v):
        c = gens.from_vec(v, False)
        inner = lax.map(lambda a: B.growth_factor(c, jnp.reshape(a, (1,)))[0], jnp.asarray(A))
        return jnp.sum(inner) + B.growth_factor(c, jnp.asarray(A))[0]

    sut("growth_factor inside lax.map, then outside, under jit of the cosmology", jax.jit(f), np.array(gens.vec(gens.FIDUCIAL)))


C2 = dict(gens.FIDUCIAL, w0=-0.8)
SUBS = [
    Sub("cosmologies", cosmology_cases, check_cosmology, quick=15, thorough=6000,
        rule="up to three cosmologies that differ in one parameter, objects derived from used ones, and 2 to 9 operations, some of them aborted; non-trivial: more than 2 operations",
        examples=[dict(pool=[gens.FIDUCIAL, C2], ops=[[0, "a_of_chi", "eager"], [0, "table 1", "eager"], [0, "radial_comoving_distance", "eager"], [1, "growth_rate", "jit closure"], [1, "growth_factor", "eager"]], derive=[[3, 0, "replace"]]),
                  dict(pool=[gens.FIDUCIAL], ops=[[0, "linear 3", "eager"], [0, "linear 2", "eager"], [0, "linear", "eager"]], derive=[]),
                  dict(pool=[dict(gens.FIDUCIAL, gamma=0.55), C2], ops=[[0, "growth_rate", "jit closure"], [0, "growth_factor", "grad a"], [1, "growth_factor", "aborted jit"], [1, "table 3", "lax.map a"], [1, "a_of_chi", "eager"]], derive=[[1, 0, "scale"]])]),
    Sub("cosmologies2", cosmology_cases, check_cosmology, quick=15, thorough=6000, rule="as cosmologies"),
    Sub("cosmologies3", cosmology_cases, check_cosmology, quick=15, thorough=6000, rule="as cosmologies"),
    Sub("distributions", nz_cases, check_nz, quick=25, thorough=8000,
        rule="up to three distributions that differ in one setting and 2 to 8 operations on them or on probes made of them; non-trivial: more than 2 operations",
        examples=[dict(pool=[dict(type="smail", a=2.0, b=2.0, z0=0.5, gals=1.0, zmax=10.0), dict(type="smail", a=2.0, b=2.0, z0=0.5, gals=1.0, zmax=4.0)],
                       ops=[[0, "n(z)", "jit closure"], [0, "n(z)", "eager"], [1, "wl", "jit argument"], [0, "wl", "jit argument"], [1, "n(z)", "grad object"]]),
                  dict(pool=[dict(type="smail", a=2.0, b=2.0, z0=0.3, gals=1.0, zmax=10.0)], ops=[[0, "n(z)", "eager"], [0, "wl", "eager"], [0, "n(z)", "jit argument"]],
                       derive=[[1, 0, "shift"], [2, 0, "replace"]])]),
    Sub("probes", probe_cases, check_probe, quick=25, thorough=6000,
        rule="two probes of one structure and two cosmologies, used in any order; non-trivial: more than one combination is used"),
    Sub("temporaries", temporary_cases, check_temporary, quick=10, thorough=2000,
        rule="2 to 5 steps, repeated, on objects that exist in this step only; non-trivial: several parameters are changed",
        examples=[dict(c=gens.FIDUCIAL, steps=[["sigma8", "linear"], ["Omega_c", "linear"], ["w0", "growth_factor"], ["Omega_c", "n(z)"], ["sigma8", "noise"], ["Omega_m fixed", "transfer"], ["Omega_de fixed", "radial_comoving_distance"], ["w0 + wa fixed", "growth_factor"]], times=2)]),
    Sub("traced", traced_cases, check_traced, quick=14, thorough=4000,
        rule="2 to 6 operations on one traced cosmology under a transformation; non-trivial: more than 2 operations", known=[("staged-scope", known_leak)]),
]
