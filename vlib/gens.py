"""Generators.  Every case is plain JSON; numbers live on integer grids around a
simple value, so that Hypothesis shrinks towards that value."""
import math

PARAMS = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")

FIDUCIAL = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8,
                Omega_k=0.0, w0=-1.0, wa=0.0, gamma=None)

RANGES = dict(Omega_c=(0.15, 0.5), Omega_b=(0.02, 0.08), h=(0.5, 0.9), n_s=(0.8, 1.1),
              sigma8=(0.5, 1.1))


def st():
    import hypothesis.strategies as s

    return s


def num(base, lo, hi, n=200, digits=6):
    """A number in [lo, hi] that shrinks to base."""

    def f(i):
        v = base + ((hi - base) if i > 0 else (base - lo)) * i / n
        return float("%.*g" % (digits, v))

    return st().integers(-n, n).map(f)


def lognum(base, lo, hi, n=200, digits=6):
    lb, ll, lh = math.log(base), math.log(lo), math.log(hi)

    def f(i):
        v = math.exp(lb + ((lh - lb) if i > 0 else (lb - ll)) * i / n)
        return min(max(float("%.*g" % (digits, v)), lo), hi)

    return st().integers(-n, n).map(f)


WIDE = dict(Omega_c=(0.02, 0.9), Omega_b=(0.005, 0.15), h=(0.4, 1.1), n_s=(0.6, 1.4),
            sigma8=(0.2, 1.6), Omega_k=(-0.5, 0.5), w0=(-2.0, -0.35), wa=(-2.0, 0.4))


def slack(c):
    """Factor on the accuracy of tables and quadratures: 4 far from the concordance model."""
    near = all(lo <= c[k] <= hi for k, (lo, hi) in RANGES.items())
    near = near and abs(c["Omega_k"]) <= 0.2 and -1.4 <= c["w0"] <= -0.6 and -0.6 <= c["wa"] <= 0.4
    return 1.0 if near and (c["gamma"] is None or 0.3 <= c["gamma"] <= 0.9) else 4.0


def regular(c, lo=1e-3, hi=1.0):
    """No bounce or turn-around, even nearly, between the scale factors lo and hi."""
    a = [lo * (hi / lo) ** (i / 200.0) for i in range(201)]
    m = c["Omega_c"] + c["Omega_b"]
    for x in a:
        e = -3 * (1 + c["w0"] + c["wa"]) * math.log(x) + 3 * c["wa"] * (x - 1)
        if m / x**3 + c["Omega_k"] / x**2 + (1 - m - c["Omega_k"]) * math.exp(e) < max(0.05, 0.5 * m / x**3):
            return False
    return True


def wide(gamma=True, hi=1.0):
    """Cosmologies far from the concordance one in any of their parameters."""
    s = st()

    @s.composite
    def build(draw):
        c = draw(cosmo(gamma=gamma))
        for k, (a, b) in WIDE.items():
            if draw(s.integers(0, 2)) == 2:
                c[k] = draw(num(FIDUCIAL[k], a, b))
        if c["gamma"] is not None and draw(s.booleans()):
            c["gamma"] = draw(num(0.55, 0.2, 1.0))
        c["wa"] = min(c["wa"], -0.3 - c["w0"])
        return c

    return s.one_of(cosmo(gamma=gamma), build().filter(lambda c: regular(c, hi=hi)))


def cosmo(curved=True, de=True, gamma=True):
    """Cosmologies: flat / open / closed, LCDM / wCDM / w0wa, with or without gamma."""
    s = st()

    @s.composite
    def build(draw):
        c = dict(FIDUCIAL)
        for k in ("Omega_c", "Omega_b", "h", "n_s", "sigma8"):
            c[k] = draw(num(FIDUCIAL[k], *RANGES[k]))
        if curved:
            kind = draw(s.sampled_from(("flat", "open", "closed", "tiny")))
            if kind == "open":
                c["Omega_k"] = draw(num(0.1, 0.01, 0.2))
            elif kind == "closed":
                c["Omega_k"] = draw(num(-0.1, -0.2, -0.01))
            elif kind == "tiny":
                c["Omega_k"] = draw(s.sampled_from((1e-4, -1e-4, 1e-3, -1e-3)))
        if de:
            kind = draw(s.sampled_from(("lcdm", "w0wa", "wcdm")))
            if kind != "lcdm":
                c["w0"] = draw(num(-0.9, -1.4, -0.6))
            if kind == "w0wa":
                hi = min(0.4, -0.3 - c["w0"])
                c["wa"] = draw(num(min(0.1, hi), -0.6, hi))
        if gamma and draw(s.integers(0, 3)) == 3:
            c["gamma"] = draw(num(0.55, 0.4, 0.8))
        # values that code may single out
        special = draw(s.sampled_from((None,) * 8 + ("n_s", "sigma8", "quintessence", "freezing", "einstein", "same matter")))
        if special in ("n_s", "sigma8"):
            c[special] = 1.0
        elif special == "quintessence" and de:
            c.update(w0=-1.0, wa=draw(s.sampled_from((0.3, -0.3, 0.1))))
        elif special == "freezing" and de:
            c.update(w0=-0.8, wa=-0.2)
        elif special == "einstein" and curved:
            # as much curvature as baryons
            c["Omega_k"] = draw(s.sampled_from((1, -1))) * c["Omega_b"]
        elif special == "same matter":
            c.update(Omega_c=0.25, Omega_b=0.05)
        return c

    return build()


def vec(c):
    """Parameter vector; gamma in the last entry (0 when absent)."""
    return [c[p] for p in PARAMS] + [c["gamma"] if c["gamma"] is not None else 0.0]


def make(c, **over):
    from .lazy import J

    d = dict(c, **over)
    return J.jc.Cosmology(**d)


def from_vec(v, with_gamma):
    from .lazy import J

    d = dict(zip(PARAMS, v))
    if with_gamma:
        d["gamma"] = v[8]
    return J.jc.Cosmology(**d)


def labels(ctx, c):
    ctx.label("Omega_k > 0" if c["Omega_k"] > 0 else "Omega_k < 0" if c["Omega_k"] < 0 else "flat")
    ctx.label("w0wa" if c["wa"] else "wCDM" if c["w0"] != -1.0 else "LCDM")
    ctx.label("gamma growth" if c["gamma"] is not None else "ODE growth")


def arr(elem, min_size=1, max_size=6):
    return st().lists(elem, min_size=min_size, max_size=max_size)


def scale_factors(lo=0.002, hi=1.0, min_size=1, max_size=6):
    """Scale factors, with the ends and early and late times all likely."""
    s = st()
    one = s.one_of(num(0.5, lo, hi), lognum(0.5, lo, hi), s.sampled_from([hi, lo, 0.5]),
                   num(0.99, 0.9, hi))
    return s.lists(one, min_size=min_size, max_size=max_size)


# --- redshift distributions -------------------------------------------------


def nz(kinds=("smail", "kde", "shift"), zmaxes=(10.0, 5.0, 3.0)):
    """Specifications of redshift distributions with negligible tails beyond z = 3
    (and beyond their zmax), unless they are deep, with zmax = 10."""
    s = st()

    @s.composite
    def build(draw):
        kind = draw(s.sampled_from(kinds))
        gals = draw(lognum(1.0, 0.2, 40.0))
        if kind == "delta":
            return dict(type="delta", z0=draw(num(1.0, 0.1, 2.5)), gals=gals, zmax=draw(s.sampled_from((10.0, 3.0))))
        if kind == "far":
            # e.g. the lensing of the cosmic microwave background
            return dict(type="delta", z0=draw(lognum(900.0, 2.5, 950.0)), gals=gals, zmax=draw(s.sampled_from((10.0, 3.0))))
        if kind == "deep":
            return dict(type="smail", a=draw(num(2.0, 1.0, 3.0)), b=draw(num(1.5, 1.5, 2.2)), z0=draw(num(1.4, 0.7, 1.8)),
                        gals=gals, zmax=10.0)
        zmax = draw(s.sampled_from(zmaxes))
        if kind == "smail":
            return dict(type="smail", a=draw(num(2.0, 1.0, 3.0)), b=draw(num(2.0, 1.7, 3.0)), z0=draw(num(0.5, 0.3, 0.6)),
                        gals=gals, zmax=zmax)
        if kind == "kde":
            n = draw(s.sampled_from((1, 3)))
            return dict(type="kde", bw=draw(s.sampled_from((0.1, 0.2))), gals=gals, zmax=zmax,
                        zcat=[draw(num(0.7, 0.2, 1.8)) for _ in range(n)], w=[draw(num(1.0, 0.2, 1.0)) for _ in range(n)])
        parent = draw(nz(("smail", "kde"), (zmax,)))
        return dict(type="shift", parent=parent, dz=draw(num(0.05, -0.15, 0.15)) if draw(s.integers(0, 7)) < 7 else 0.0, gals=gals, zmax=zmax)

    return build()


def make_nz(d):
    from .lazy import J

    R, np = J.jc.redshift, J.numpy
    kw = dict(gals_per_arcmin2=d["gals"], zmax=d["zmax"])
    if d["type"] == "smail":
        return R.smail_nz(d["a"], d["b"], d["z0"], **kw)
    if d["type"] == "delta":
        return R.delta_nz(d["z0"], **kw)
    if d["type"] == "kde":
        return R.kde_nz(np.array(d["zcat"]), np.array(d["w"]), bw=d["bw"], **kw)
    return R.systematic_shift(make_nz(d["parent"]), d["dz"], **kw)


# --- biases and probes --------------------------------------------------------


BIASES = ("constant", "growth", "ia")


def bias(kinds=BIASES):
    s = st()

    @s.composite
    def build(draw):
        kind = draw(s.sampled_from(kinds))
        if kind == "ia":
            d = dict(type=kind, A=draw(num(1.0, -2.0, 3.0)), eta=draw(num(0.5, -2.0, 2.0)), z0=draw(num(0.6, 0.2, 1.0)))
            d.update(draw(s.sampled_from(({},) * 5 + (dict(eta=0.0), dict(A=1.0), dict(z0=0.62), dict(eta=-1.0)))))
            return d
        return dict(type=kind, b=draw(num(1.5, 0.5, 3.0) if draw(s.integers(0, 5)) < 5 else s.just(1.0)))

    return build()


def make_bias(d):
    from .lazy import J

    B = J.jc.bias
    if isinstance(d, list):
        return [make_bias(x) for x in d]
    if d["type"] == "constant":
        return B.constant_linear_bias(d["b"])
    if d["type"] == "growth":
        return B.inverse_growth_linear_bias(d["b"])
    return B.des_y1_ia_bias(d["A"], d["eta"], d["z0"])


EXTENDED = ("smail", "kde", "shift", "deep")


def probe(kinds=("wl", "nc"), min_bins=1, max_bins=4, nz_kinds=EXTENDED, delta=True, ia=("none", "single", "list")):
    s = st()

    @s.composite
    def build(draw):
        kind = draw(s.sampled_from(kinds))
        n = draw(s.integers(min_bins, max_bins))
        per_bin = lambda elem: [draw(elem) for _ in range(n)]
        # biases of one kind, or mixed
        b = bias(draw(s.sampled_from((BIASES, BIASES, BIASES[:1], BIASES[1:2], BIASES[2:]))))
        if kind == "nc":
            return dict(type="nc", nzs=per_bin(nz(nz_kinds)),
                        bias=per_bin(b) if draw(s.booleans()) else draw(b))
        with_ia = draw(s.sampled_from(ia))
        kk = nz_kinds + (("delta", "delta", "delta") if delta and with_ia == "none" else ())
        p = dict(type="wl", nzs=per_bin(nz(kk)), ia=None, m=0.0, sigma_e=0.26)
        if with_ia != "none":
            p["ia"] = per_bin(b) if with_ia == "list" else draw(b)
        m = draw(s.sampled_from(("zero", "single", "list")))
        if m != "zero":
            e = num(0.05, -0.3, 0.3)
            p["m"] = per_bin(e) if m == "list" else draw(e)
        sg = draw(s.sampled_from(("default", "single", "list")))
        if sg != "default":
            e = num(0.3, 0.1, 0.5)
            p["sigma_e"] = per_bin(e) if sg == "list" else draw(e)
        return p

    return build()


def twin(p, i):
    """A probe that differs from p in one respect only, and not in the numbers of its parameters."""
    nzs = p["nzs"]
    if i == 0:
        # the same probe, with other ellipticities or another kind of bias
        if p["type"] == "wl":
            return dict(p, sigma_e=0.4)
        swap = lambda b: dict(b, type={"constant": "growth", "growth": "constant"}.get(b["type"], b["type"]))
        return dict(p, bias=[swap(b) for b in p["bias"]] if isinstance(p["bias"], list) else swap(p["bias"]))
    if i == 1:
        return dict(p, nzs=[dict(d, gals=3.0 * d["gals"]) for d in nzs])
    if i == 2 and any(d["type"] == "kde" for d in nzs):
        return dict(p, nzs=[dict(d, bw=0.3 - d["bw"]) if d["type"] == "kde" else d for d in nzs])
    return dict(p, nzs=nzs[::-1])


def twins(probes, max_bins=5):
    """Lists of probes to which a twin of one of them is sometimes added."""
    s = st()

    def add(t):
        ps, i, q = t
        p = ps[q % len(ps)]
        n = sum(len(x["nzs"]) for x in ps) + len(p["nzs"])
        return ps + [twin(p, i)] if i is not None and n <= max_bins else ps

    return s.tuples(probes, s.sampled_from((None, None, None, None, None, 0, 1, 2, 3)), s.integers(0, 3)).map(add)


def make_probe(d):
    from .lazy import J

    P = J.jc.probes
    nzs = [make_nz(x) for x in d["nzs"]]
    if d["type"] == "nc":
        return P.NumberCounts(nzs, make_bias(d["bias"]))
    kw = {}
    if d["ia"] is not None:
        kw["ia_bias"] = make_bias(d["ia"])
    default = lambda x, v: isinstance(x, (int, float)) and x == v
    if not default(d["m"], 0.0):
        kw["multiplicative_bias"] = d["m"]
    if not default(d["sigma_e"], 0.26):
        kw["sigma_e"] = d["sigma_e"]
    return P.WeakLensing(nzs, **kw)


def probe_labels(ctx, d):
    types = [x["type"] for x in d["nzs"]]
    ctx.label(d["type"], "%d bins" % len(types))
    ctx.label(*["n(z) " + t for t in types])
    if d["type"] == "nc":
        ctx.label("bias per bin" if isinstance(d["bias"], list) else "one bias")
    else:
        ctx.label("IA " + ("none" if d["ia"] is None else "list" if isinstance(d["ia"], list) else "single"))
        ctx.label("m " + ("list" if isinstance(d["m"], list) else "single" if d["m"] else "zero"))
        if "delta" in types and len(set(types)) > 1:
            ctx.label("planes and extended bins")


