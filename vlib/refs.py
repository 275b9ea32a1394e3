"""Reference models in numpy / scipy, written from the published formulae and the
documentation, sharing no code with the library under test."""
import math

import numpy as np

C_KMS = 299792.458
RH = 2997.92458
TCMB = 2.726


def om(c):
    return c["Omega_c"] + c["Omega_b"]


def ode(c):
    return 1.0 - c["Omega_k"] - om(c)


def w(c, a):
    return c["w0"] + c["wa"] * (1.0 - np.asarray(a))


def f_de(c, a):
    a = np.asarray(a, float)
    return -3.0 * (1.0 + c["w0"] + c["wa"]) * np.log(a) + 3.0 * c["wa"] * (a - 1.0)


def esqr(c, a):
    a = np.asarray(a, float)
    return om(c) / a**3 + c["Omega_k"] / a**2 + ode(c) * np.exp(f_de(c, a))


def hubble(c, a):
    return 100.0 * np.sqrt(esqr(c, a))


def om_a(c, a):
    a = np.asarray(a, float)
    return om(c) / a**3 / esqr(c, a)


def ode_a(c, a):
    return ode(c) * np.exp(f_de(c, a)) / esqr(c, a)


_GL = np.polynomial.legendre.leggauss(64)


def chi(c, a):
    """Comoving distance in Mpc/h by Gauss-Legendre quadrature in sqrt(a)."""
    a = np.asarray(a, float)
    lo, hi = np.sqrt(a)[..., None], 1.0
    x = 0.5 * (hi - lo) * _GL[0] + 0.5 * (hi + lo)
    aa = x**2
    f = 2.0 * x / (aa**2 * np.sqrt(esqr(c, aa)))
    return RH * np.sum(f * _GL[1], axis=-1) * 0.5 * (hi - lo[..., 0])


def transverse(c, x):
    k = c["Omega_k"]
    if k == 0:
        return x
    s = math.sqrt(abs(k))
    return RH / s * (np.sinh(s * x / RH) if k > 0 else np.sin(s * x / RH))


def growth(c, a):
    """(D, f) at the scale factors a, D(1) = 1."""
    a = np.atleast_1d(np.asarray(a, float))
    if c["gamma"] is not None:
        f = om_a(c, a) ** c["gamma"]
        lo = np.log(a)[:, None]
        x = 0.5 * (0.0 - lo) * _GL[0] + 0.5 * lo
        y = np.sum(om_a(c, np.exp(x)) ** c["gamma"] * _GL[1], axis=1) * 0.5 * (-lo[:, 0])
        return np.exp(-y), f
    from scipy.integrate import odeint

    m, k, d, w0, wa = om(c), c["Omega_k"], ode(c), c["w0"], c["wa"]

    def rhs(y, x):
        s = math.exp(x)
        tm, tk = m / s**3, k / s**2
        td = d * math.exp(-3.0 * (1.0 + w0 + wa) * x + 3.0 * wa * (s - 1.0))
        e2 = tm + tk + td
        ww = w0 + wa * (1.0 - s)
        # d ln E / d ln a
        dl = -0.5 * (3.0 * tm + 2.0 * tk + 3.0 * (1.0 + ww) * td) / e2
        return [y[1], -(2.0 + dl) * y[1] + 1.5 * tm / e2 * y[0]]

    x0 = math.log(1e-5)
    pts = np.unique(np.concatenate([[x0], np.log(a), [0.0]]))
    sol = odeint(rhs, [1e-5, 1e-5], pts, rtol=1e-9, atol=1e-14)
    i = np.searchsorted(pts, np.log(a))
    return sol[i, 0] / sol[-1, 0], sol[i, 1] / sol[i, 0]


def eh_transfer(c, k, wiggle=True):
    """Eisenstein & Hu (1998), equations in the order of the paper, k in h/Mpc."""
    k = np.asarray(k, float)
    h = c["h"]
    kk = k * h  # 1/Mpc
    th = TCMB / 2.7
    w_m, w_b = om(c) * h * h, c["Omega_b"] * h * h
    fb = c["Omega_b"] / om(c)
    fc = c["Omega_c"] / om(c)
    zeq = 2.50e4 * w_m * th**-4  # 2
    keq = 7.46e-2 * w_m * th**-2  # 3
    b1 = 0.313 * w_m**-0.419 * (1.0 + 0.607 * w_m**0.674)
    b2 = 0.238 * w_m**0.223
    zd = 1291.0 * w_m**0.251 / (1.0 + 0.659 * w_m**0.828) * (1.0 + b1 * w_b**b2)  # 4
    rr = lambda z: 31.5 * w_b * th**-4 * (1e3 / z)  # 5
    rd, req = rr(zd), rr(zeq)
    s = 2.0 / (3.0 * keq) * math.sqrt(6.0 / req) * math.log(
        (math.sqrt(1.0 + rd) + math.sqrt(rd + req)) / (1.0 + math.sqrt(req)))  # 6
    ksilk = 1.6 * w_b**0.52 * w_m**0.73 * (1.0 + (10.4 * w_m) ** -0.95)  # 7
    if not wiggle:
        ag = 1.0 - 0.328 * math.log(431.0 * w_m) * fb + 0.38 * math.log(22.3 * w_m) * fb**2  # 31
        geff = om(c) * h * (ag + (1.0 - ag) / (1.0 + (0.43 * kk * s) ** 4))  # 30
        q = k * th**2 / geff  # 28
        l0 = np.log(2.0 * math.e + 1.8 * q)
        c0 = 14.2 + 731.0 / (1.0 + 62.5 * q)
        return l0 / (l0 + c0 * q * q)  # 29
    q = kk / (13.41 * keq)  # 10
    a1 = (46.9 * w_m) ** 0.670 * (1.0 + (32.1 * w_m) ** -0.532)
    a2 = (12.0 * w_m) ** 0.424 * (1.0 + (45.0 * w_m) ** -0.582)
    alc = a1**-fb * a2 ** -(fb**3)  # 11
    bb1 = 0.944 / (1.0 + (458.0 * w_m) ** -0.708)
    bb2 = (0.395 * w_m) ** -0.0266
    bec = 1.0 / (1.0 + bb1 * (fc**bb2 - 1.0))  # 12

    def t0(al, be):  # 19, 20
        cc = 14.2 / al + 386.0 / (1.0 + 69.9 * q**1.08)
        ll = np.log(math.e + 1.8 * be * q)
        return ll / (ll + cc * q * q)

    f = 1.0 / (1.0 + (kk * s / 5.4) ** 4)  # 18
    tc = f * t0(1.0, bec) + (1.0 - f) * t0(alc, bec)  # 17
    y = (1.0 + zeq) / (1.0 + zd)
    sy = math.sqrt(1.0 + y)
    g = y * (-6.0 * sy + (2.0 + 3.0 * y) * math.log((sy + 1.0) / (sy - 1.0)))  # 15
    alb = 2.07 * keq * s * (1.0 + rd) ** -0.75 * g  # 14
    bnode = 8.41 * w_m**0.435  # 23
    st = s / (1.0 + (bnode / (kk * s)) ** 3) ** (1.0 / 3.0)  # 22
    beb = 0.5 + fb + (3.0 - 2.0 * fb) * math.sqrt((17.2 * w_m) ** 2 + 1.0)  # 24
    x = kk * st
    j0 = np.where(x < 1e-4, 1.0 - x * x / 6.0, np.sin(x) / np.where(x == 0, 1.0, x))
    tb = (t0(1.0, 1.0) / (1.0 + (kk * s / 5.2) ** 2)
          + alb / (1.0 + (beb / (kk * s)) ** 3) * np.exp(-((kk / ksilk) ** 1.4))) * j0  # 21
    return fb * tb + fc * tc  # 16


_LK = np.linspace(math.log(1e-5), math.log(1e3), 6001)


def tophat_variance(pk_fn, radius):
    """sigma^2(R) of a power spectrum, top-hat filter."""
    k = np.exp(_LK)
    x = k * radius
    with np.errstate(all="ignore"):
        win = np.where(x < 1e-2, 1.0 - x * x / 10.0, 3.0 * (np.sin(x) - x * np.cos(x)) / x**3)
    y = pk_fn(k) * k**3 * win**2 / (2.0 * math.pi**2)
    return np.trapezoid(y, _LK)


def shape_power(c, k, wiggle=True):
    return np.asarray(k, float) ** c["n_s"] * eh_transfer(c, k, wiggle) ** 2


def linear_power(c, k, a, wiggle=True):
    norm = c["sigma8"] ** 2 / tophat_variance(lambda q: shape_power(c, q, wiggle), 8.0)
    return norm * shape_power(c, k, wiggle) * growth(c, a)[0] ** 2


_LKH = np.linspace(math.log(1e-4), math.log(1e4), 1601)


def halofit(c, k, a, plin, lin_grid, prescription="takahashi2012"):
    """Halofit of a linear spectrum at one scale factor.

    plin: linear spectrum at k;  lin_grid: the same spectrum at exp(_LKH).
    None when there is no non linear scale between 0.13 and 3e3 h/Mpc.
    """
    from scipy.optimize import brentq

    kk = np.exp(_LKH)
    d2 = kk**3 * lin_grid / (2.0 * math.pi**2)

    def integral(r, f):
        y = kk * r
        return np.trapezoid(d2 * np.exp(-(y**2)) * f(y), _LKH)

    var = lambda x: math.log(max(integral(math.exp(x), lambda y: 1.0), 1e-300))
    lo, hi = math.log(3e-4), math.log(8.0)
    if var(lo) <= 0.0 or var(hi) >= 0.0:
        return None
    lr = brentq(var, lo, hi, xtol=1e-10)
    r = math.exp(lr)
    s0 = integral(r, lambda y: 1.0)
    d1 = -2.0 * integral(r, lambda y: y**2) / s0  # dln sigma^2 / dln R
    dd = (-4.0 * integral(r, lambda y: y**2) + 4.0 * integral(r, lambda y: y**4)) / s0 - d1**2
    n, cv = -3.0 - d1, -dd
    m, de, ww = float(om_a(c, a)), float(ode_a(c, a)), float(w(c, a))
    f1b, f2b, f3b = m**-0.0307, m**-0.0585, m**0.0743
    if prescription == "takahashi2012":
        x = de * (1.0 + ww)
        an = 10 ** (1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3 + 0.2250 * n**4 - 0.6038 * cv + 0.1749 * x)
        bn = 10 ** (-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * cv + 0.2279 * x)
        cn = 10 ** (0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * cv)
        gn = 0.1971 - 0.0843 * n + 0.8460 * cv
        al = abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * cv)
        be = 2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3 + 0.3980 * n**4 - 0.1682 * cv
        mu, nu = 0.0, 10 ** (5.2105 + 3.6902 * n)
        f1, f2, f3 = f1b, f2b, f3b
    else:
        an = 10 ** (1.4861 + 1.8369 * n + 1.6762 * n**2 + 0.7940 * n**3 + 0.1670 * n**4 - 0.6206 * cv)
        bn = 10 ** (0.9463 + 0.9466 * n + 0.3084 * n**2 - 0.9400 * cv)
        cn = 10 ** (-0.2807 + 0.6669 * n + 0.3214 * n**2 - 0.0793 * cv)
        gn = 0.8649 + 0.2989 * n + 0.1631 * cv
        al = 1.3884 + 0.3700 * n - 0.1452 * n**2
        be = 0.8291 + 0.9854 * n + 0.3401 * n**2
        mu, nu = 10 ** (-3.5442 + 0.1908 * n), 10 ** (0.9589 + 1.2857 * n)
        fr = de / (1.0 - m) if m != 1.0 else 1.0  # of no influence there
        f1 = fr * f1b + (1 - fr) * m**-0.0732
        f2 = fr * f2b + (1 - fr) * m**-0.1423
        f3 = fr * f3b + (1 - fr) * m**0.0725
    k = np.asarray(k, float)
    y = k * r
    dl = k**3 * plin / (2.0 * math.pi**2)
    dq = dl * (1.0 + dl) ** be / (1.0 + al * dl) * np.exp(-(y / 4.0 + y**2 / 8.0))
    dh = an * y ** (3.0 * f1) / (1.0 + bn * y**f2 + (cn * f3 * y) ** (3.0 - gn))
    dh = dh / (1.0 + mu / y + nu / y**2)
    return (dq + dh) * 2.0 * math.pi**2 / k**3, (1.0 / r, n, cv)


# --- redshift distributions and tracers ------------------------------------------


def nz_shape(d):
    """Un-normalised n(z)."""
    if d["type"] == "smail":
        return lambda z: z ** d["a"] * np.exp(-((z / d["z0"]) ** d["b"]))
    if d["type"] == "kde":
        x, wt, bw = np.array(d["zcat"]), np.array(d["w"]), d["bw"]

        def f(z):
            z = np.asarray(z, float)
            return np.sum(wt * np.exp(-0.5 * ((z[..., None] - x) / bw) ** 2), axis=-1) / (bw * math.sqrt(2 * math.pi) * wt.sum())

        return f
    parent = nz_shape(d["parent"])
    return lambda z: parent(np.clip(np.asarray(z, float) - d["dz"], 0.0, None))


def nz_norm(d):
    f = nz_shape(d)
    z = np.linspace(0.0, d["zmax"], 20001)
    return np.trapezoid(f(z), z)


def nz(d):
    f, n = nz_shape(d), nz_norm(d)
    return lambda z: f(z) / n


def bias(c, d, z):
    z = np.asarray(z, float)
    if d["type"] == "constant":
        return d["b"] * np.ones_like(z)
    if d["type"] == "growth":
        return d["b"] / growth(c, 1.0 / (1.0 + z))[0]
    return d["A"] * ((1.0 + z) / (1.0 + d["z0"])) ** d["eta"]


def spin2(ell):
    return np.sqrt(np.maximum((ell + 2.0) * (ell + 1.0) * ell * (ell - 1.0), 0.0)) / (ell + 0.5) ** 2


class Tab:
    """Background of one cosmology, tabulated finely up to zmax."""

    def __init__(self, c, zmax=10.0, n=1501):
        self.c = c
        self.z = zmax * np.linspace(0.0, 1.0, n) ** 1.5
        self.chi_z = chi(c, 1.0 / (1.0 + self.z))

    def chi(self, z):
        return np.interp(z, self.z, self.chi_z)


def lensing_efficiency(t, d, z):
    """int n(z') (1 - chi / chi') dz' over z' > z."""
    z = np.asarray(z, float)
    x = chi(t.c, 1.0 / (1.0 + z))
    if d["type"] == "delta":
        xs = float(chi(t.c, np.array(1.0 / (1.0 + d["z0"]))))
        return np.clip(1.0 - x / xs, 0.0, None)
    zz = np.linspace(0.0, d.get("zmax", 10.0), 2001)[1:]
    n, xx = nz(d)(zz), chi(t.c, 1.0 / (1.0 + zz))
    return np.trapezoid(n * np.clip(1.0 - x[..., None] / xx, 0.0, None), zz, axis=-1)


def pick(v, i):
    return v[i] if isinstance(v, list) else v


def kernel(t, p, z, ell):
    """Radial kernels of a probe, shape [bins, z]."""
    c, z = t.c, np.asarray(z, float)
    hub = hubble(c, 1.0 / (1.0 + z))
    x = chi(c, 1.0 / (1.0 + z))
    out = []
    for i, d in enumerate(p["nzs"]):
        if p["type"] == "nc":
            out.append(nz(d)(z) * bias(c, pick(p["bias"], i), z) * hub)
            continue
        q = 1.5 * 100.0**2 * om(c) / C_KMS * (1.0 + z) * x * lensing_efficiency(t, d, z) * spin2(ell)
        if p["ia"] is not None:
            a_ia = bias(c, pick(p["ia"], i), z)
            d_z = growth(c, 1.0 / (1.0 + z))[0]
            q = q - 5e-14 * 2.775e11 * om(c) / d_z * a_ia * nz(d)(z) * hub * spin2(ell)
        out.append(q * (1.0 + pick(p["m"], i)))
    return np.array(out)


def limber(c, probes, ells, pk, zmax, n=700):
    """C_ell of all pairs i <= j of tracers, shape [pairs, ell]; pk(k, z) -> P at the points."""
    # finer at low redshift
    z = zmax * (np.arange(n) + 0.5) ** 2 / n**2
    edges = zmax * np.arange(n + 1) ** 2 / n**2
    dz = np.diff(edges)
    x = chi(c, 1.0 / (1.0 + z))
    out = []
    t = Tab(c, n=3)
    ker = None
    for ell in ells:
        # the spin factor is the only dependence on ell
        if ker is None:
            ker = [(p, kernel(t, p, z, 1e8)) for p in probes]
        w_l = np.concatenate([k * (spin2(float(ell)) if p["type"] == "wl" else 1.0) for p, k in ker])
        p_k = pk((ell + 0.5) / x, z)
        f = dz * C_KMS / hubble(c, 1.0 / (1.0 + z)) * p_k / x**2 / C_KMS**2
        m = len(w_l)
        out.append([np.sum(f * w_l[i] * w_l[j]) for i in range(m) for j in range(i, m)])
    return np.array(out).T
