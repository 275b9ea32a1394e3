"""C26: a spectrum depends on its own pair of tracers only."""
import numpy as np

from vlib import gens
from vlib.core import Sub, close, require, sut
from vlib.lazy import J
from props import c09, c10

ASSUMPTIONS = ["double precision", "tracers rearranged within the same maximal redshift: the integration range of a spectrum is that of the deepest tracer of the call"]

MOVES = ["permute bins", "permute probes", "split", "drop", "duplicate", "subset of ell", "merge"]


def cases():
    s = gens.st()

    @s.composite
    def build(draw):
        zmax = draw(s.sampled_from((10.0, 5.0, 3.0)))
        probes = []
        n = draw(s.sampled_from((1, 2, 2)))
        for _ in range(n):
            p = draw(gens.probe(nz_kinds=("smail", "kde", "shift"), min_bins=2 if n == 1 else 1, max_bins=4 if n == 1 else 3))
            probes.append(same_zmax(p, zmax))
        if n < 3 and draw(s.integers(0, 2)) == 2 and len(probes[-1]["nzs"]) < 3:
            probes.append(gens.twin(probes[-1], draw(s.integers(0, 3))))
        return dict(c=draw(gens.cosmo()), probes=probes, ell=draw(c10.ell_values(3)), moves=draw(s.lists(s.sampled_from(MOVES), min_size=1, max_size=2)),
                    seed=draw(s.integers(0, 2**31)), f_sky=draw(gens.num(0.25, 0.01, 1.0)), many=draw(s.sampled_from([0, 0, 30, 100])))

    return build()


def same_zmax(p, zmax):
    def one(d):
        d = dict(d, zmax=zmax)
        if "parent" in d:
            d["parent"] = one(d["parent"])
        return d

    return dict(p, nzs=[one(d) for d in p["nzs"]])


PER_BIN = {"wl": ("ia", "m", "sigma_e"), "nc": ("bias",)}


def take(p, idx):
    """The probe of the given bins of p."""
    q = dict(p, nzs=[p["nzs"][i] for i in idx])
    for name in PER_BIN[p["type"]]:
        if isinstance(p[name], list):
            q[name] = [p[name][i] for i in idx]
    return q


def as_lists(p):
    n = len(p["nzs"])
    return dict(p, **{k: (p[k] if isinstance(p[k], list) or p[k] is None else [p[k]] * n) for k in PER_BIN[p["type"]]})


def ids(probes):
    out, n = [], 0
    for p in probes:
        out.append(list(range(n, n + len(p["nzs"]))))
        n += len(p["nzs"])
    return out


def moved(rng, n):
    """A permutation that is not the identity, if there is one."""
    perm = list(rng.permutation(n))
    return perm[1:] + perm[:1] if perm == list(range(n)) else perm


def move(rng, name, probes, lab, ell, keep):
    """A rearranged copy: (probes, labels of their bins, indices of the multipoles)."""
    if name == "permute bins":
        i = rng.randint(len(probes))
        perm = moved(rng, len(lab[i]))
        probes = probes[:i] + [take(probes[i], perm)] + probes[i + 1:]
        lab = lab[:i] + [[lab[i][j] for j in perm]] + lab[i + 1:]
    elif name == "permute probes":
        perm = moved(rng, len(probes))
        probes, lab = [probes[i] for i in perm], [lab[i] for i in perm]
    elif name == "split":
        probes, lab = [take(p, [j]) for p in probes for j in range(len(p["nzs"]))], [[x] for l in lab for x in l]
    elif name == "drop":
        i = rng.randint(len(probes))
        n = len(lab[i])
        if n > 1:
            idx = [j for j in range(n) if j != rng.randint(n)] or [0]
            probes = probes[:i] + [take(probes[i], idx)] + probes[i + 1:]
            lab = lab[:i] + [[lab[i][j] for j in idx]] + lab[i + 1:]
        elif len(probes) > 1:
            probes, lab = probes[:i] + probes[i + 1:], lab[:i] + lab[i + 1:]
    elif name == "duplicate":
        i = rng.randint(len(probes))
        j = rng.randint(len(lab[i]))
        probes, lab = probes + [take(probes[i], [j])], lab + [[lab[i][j]]]
    elif name == "merge":
        # probes of the same kind into one with lists of parameters
        for t in ("wl", "nc"):
            same = [i for i, p in enumerate(probes) if p["type"] == t and (t == "nc" or p["ia"] is None)]
            if len(same) > 1:
                ps = [as_lists(probes[i]) for i in same]
                new = dict(ps[0], nzs=sum([p["nzs"] for p in ps], []), **{k: (sum([p[k] for p in ps], []) if ps[0][k] is not None else None) for k in PER_BIN[t]})
                nl = sum([lab[i] for i in same], [])
                probes = [p for i, p in enumerate(probes) if i not in same] + [new]
                lab = [l for i, l in enumerate(lab) if i not in same] + [nl]
                break
    else:
        keep = sorted(rng.choice(len(keep), 2, replace=False))
    return probes, lab, keep


def index(m):
    return {p: i for i, p in enumerate(c10.pairs(m))}


def check(case, ctx):
    cl = J.jc.cl
    rng = np.random.RandomState(case["seed"])
    c, probes, ell = case["c"], case["probes"], np.sort(np.array(case["ell"], float))
    ell = np.sort(np.concatenate([ell, np.geomspace(3.0, 4000.0, case.get("many", 0))])) + np.arange(3 + case.get("many", 0))  # distinct
    gens.labels(ctx, c)
    lab = ids(probes)
    m = sum(map(len, lab))
    new, nlab, keep = probes, lab, list(range(len(ell)))
    for name in case["moves"]:
        ctx.label(name)
        new, nlab, keep = move(rng, name, new, nlab, ell, keep)
    ctx.label("%d tracers" % m)
    ctx.nontrivial(nlab != lab or len(keep) < len(ell))
    if len(ell) > 3:
        ctx.label("%d multipoles" % len(ell))
    flat = sum(nlab, [])
    vec = np.array(gens.vec(c))

    def spectra(ps, l):
        objs = [gens.make_probe(p) for p in ps]

        def f(v):
            cos = gens.from_vec(v, c["gamma"] is not None)
            s = cl.angular_cl(cos, l, objs, nonlinear_fn=c10.toy_power)
            n = cl.noise_cl(l, objs)
            return s, n

        return sut("spectra", J.jax.jit(f), vec), objs

    (sig, noi), objs = spectra(probes, ell)
    (sig2, noi2), objs2 = spectra(new, ell[keep])
    n = len(flat)
    require(sig2.shape == (n * (n + 1) // 2, len(keep)), "shape of angular_cl %s for %d tracers" % (sig2.shape, n))
    i1, i2 = index(m), index(n)
    where = [i1[tuple(sorted((flat[i], flat[j])))] for i, j in c10.pairs(n)]
    auto = np.array([sig[i1[(i, i)]] for i in range(m)])
    scale = np.array([np.sqrt(auto[flat[i]] * auto[flat[j]]) for i, j in c10.pairs(n)])[:, keep]
    close(ctx, "spectra after %s" % case["moves"], sig2, sig[where][:, keep], rtol=1e-8, atol=1e-9 * scale, key="spectra")
    # noise of a tracer with itself; a duplicated tracer has no common noise with its copy (they are different tracers of the call)
    want = np.array([noi[i1[(flat[i], flat[i])]] if i == j else np.zeros(len(ell)) for i, j in c10.pairs(n)])[:, keep]
    close(ctx, "noise after %s" % case["moves"], noi2, want, rtol=1e-12, key="noise")
    # the spectra at one multipole are a matrix of scalar products
    for q in range(len(ell)):
        mat = np.zeros((m, m))
        for (i, j), k in i1.items():
            mat[i, j] = mat[j, i] = sig[k, q]
        d = np.sqrt(np.diag(mat))
        w = np.linalg.eigvalsh(mat / d[:, None] / d)
        ctx.err("smallest eigenvalue", max(-w[0], 0.0) / 1e-9)
        require(w[0] >= -1e-9, "the spectra at ell = %g are not a positive matrix: correlation eigenvalues %s" % (ell[q], w))
    # covariance
    if len(keep) < len(ell) or n > 4 or len(ell) > 40:
        return
    cov = np.asarray(sut("covariance", cl.gaussian_cl_covariance, ell, objs, J.jnp.asarray(sig), J.jnp.asarray(noi), case["f_sky"], True))
    cov2 = np.asarray(sut("covariance", cl.gaussian_cl_covariance, ell, objs2, J.jnp.asarray(sig2), J.jnp.asarray(noi2), case["f_sky"], True))
    if len(set(flat)) == len(flat):
        ctx.label("covariance")
        dg = np.sqrt(np.abs(cov[np.arange(len(cov)), np.arange(len(cov))]))
        s = (dg[:, None] * dg[None])[np.ix_(where, where)]
        close(ctx, "covariance after %s" % case["moves"], cov2, cov[np.ix_(where, where)], rtol=1e-8, atol=1e-8 * s, key="covariance")


def scaling_cases():
    s = gens.st()
    return s.fixed_dictionaries(dict(c=gens.cosmo(), f=gens.num(1.5, 0.3, 3.0), m=gens.num(0.1, -0.3, 0.5), A=gens.num(1.0, -2.0, 3.0), ell=c10.ell_values(2),
                                     nzs=s.lists(gens.nz(("smail", "kde"), (5.0,)), min_size=2, max_size=2)))


def check_scaling(case, ctx):
    """Linearity of the tracers in their biases, and of the spectra in the power spectrum."""
    cl, P, B = J.jc.cl, J.jc.probes, J.jc.bias
    ell, f, m = np.array(case["ell"], float), case["f"], case["m"]
    ctx.nontrivial(f != 1.0 and m != 0.0 and case["A"] != 0.0)
    gens.labels(ctx, case["c"])
    vec = np.array(gens.vec(case["c"]))

    # traced biases: one compilation
    def run(args):
        v, f, m, A, amp = args
        nzs = [gens.make_nz(x) for x in case["nzs"]]
        ps = [P.WeakLensing(nzs, ia_bias=B.constant_linear_bias(A), multiplicative_bias=[m, 2 * m]), P.NumberCounts(nzs[:1], B.inverse_growth_linear_bias(f))]
        pk = lambda cosmo, k, a, transfer_fn: amp * c10.toy_power(cosmo, k, a)
        return cl.angular_cl(gens.from_vec(v, case["c"]["gamma"] is not None), ell, ps, nonlinear_fn=pk)

    run = J.jax.jit(run)
    S = lambda f=1.0, m=0.0, A=0.0, amp=1.0: sut("angular_cl", run, (vec, f, m, A, amp))
    base = S()
    # tracers: lensing 0, 1 and counts 2
    ctx_close = lambda name, x, y: close(ctx, name, x, y, rtol=1e-9, atol=1e-12 * np.max(np.abs(y)))
    g = lambda w: np.array([w[i] * w[j] for i, j in c10.pairs(3)])[:, None]
    ctx_close("bias", S(f=f), base * g([1, 1, f]))
    ctx_close("multiplicative bias", S(m=m), base * g([1 + m, 1 + 2 * m, 1]))
    ctx_close("power", S(amp=f), base * f)
    # quadratic in the intrinsic alignments, linear for the cross spectra
    a = case["A"]
    s1, s2, sa = S(A=1.0), S(A=-1.0), S(A=a)
    want = base + a * (s1 - s2) / 2 + a * a * ((s1 + s2) / 2 - base)
    close(ctx, "intrinsic alignments", sa, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(base), axis=1, keepdims=True) + 1e-9 * np.abs(s1 - s2))
    close(ctx, "cross spectra are linear in the alignments", ((s1 + s2) / 2)[[2, 4]], base[[2, 4]], rtol=1e-8, atol=1e-9 * np.abs(s1 - s2)[[2, 4]])


EX = [dict(c=gens.FIDUCIAL, probes=[same_zmax(p, 5.0) for p in c10.EX[0]], ell=[10, 100, 1000], moves=[mv], seed=3, f_sky=0.3) for mv in ("permute probes", "drop")]
EX += [dict(EX[0], moves=["subset of ell"], many=100), dict(EX[1], moves=["permute bins", "subset of ell"], many=30)]
EX += [dict(c=gens.FIDUCIAL, probes=[same_zmax(c09.wl([c09.PLANE[1], c09.SM, c09.PLANE[0]], m=[0.1, 0.2, -0.1]), 5.0)], ell=[10, 100, 1000], moves=[mv], seed=4, f_sky=0.3)
       for mv in ("permute bins", "split")]
EX += [dict(EX[0], probes=[same_zmax(p, 5.0) for p in c10.TWINS], moves=[mv], seed=2) for mv in ("drop", "permute probes")]

FOUR = [c09.SM, c09.DEEP, dict(c09.SM, z0=0.4), dict(c09.SM, z0=0.8)]
EX += [dict(EX[0], probes=[same_zmax(p, 5.0)], moves=[mv], seed=3) for p, mv in (
    (c09.nc(FOUR, [dict(type="constant", b=x) for x in (2.0, 1.5, 1.7, 1.0)]), "permute bins"),
    (c09.wl(FOUR, [dict(type="ia", A=x, eta=0.5, z0=0.6) for x in (2.0, -1.0, 1.0, 0.5)], [0.1, -0.1, 0.2, 0.0]), "split"))]

SUBS = [Sub("arrangements" + k, cases, check, quick=11, thorough=3000, examples=EX[i:i + 2],
            rule="random probes of one maximal redshift and one or two rearrangements (bins, probes, splits, drops, duplicates); non-trivial: something moved")
        for i, k in ((0, ""), (2, "2"), (4, "3"), (6, "4"), (8, "5"))] + [
    Sub("scaling", scaling_cases, check_scaling, quick=10, thorough=2000,
        rule="a random cosmology, two distributions, bias, multiplicative bias and alignment amplitudes; non-trivial: all differ from their neutral value"),
]
