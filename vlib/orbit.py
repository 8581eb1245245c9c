"""Two-body motion, computed with 40 digits from the classical Kepler, Barker and hyperbolic Kepler equations."""
import mpmath as mp


def perifocal(mu, q, e, dt):
    """Position and velocity in the orbit plane, x axis towards the pericentre, dt after pericentre passage."""
    with mp.workdps(45):
        mu, q, e, dt = mp.mpf(mu), mp.mpf(q), mp.mpf(e), mp.mpf(dt)
        if e < 1:
            a = q / (1 - e)
            n = mp.sqrt(mu / a**3)
            m = n * dt
            m = m - 2 * mp.pi * mp.nint(m / (2 * mp.pi))
            x = _root(lambda u: u - e * mp.sin(u) - m, lambda u: 1 - e * mp.cos(u), -mp.pi - 1, mp.pi + 1)
            c, s, b = mp.cos(x), mp.sin(x), mp.sqrt(1 - e * e)
            r = a * (1 - e * c)
            return [a * (c - e), a * b * s], [-a * a * n * s / r, a * a * n * b * c / r]
        if e > 1:
            a = q / (e - 1)
            n = mp.sqrt(mu / a**3)
            m = n * dt
            hi = mp.asinh(abs(m) / (e - 1)) + 1
            x = _root(lambda u: e * mp.sinh(u) - u - m, lambda u: e * mp.cosh(u) - 1, -hi, hi)
            c, s, b = mp.cosh(x), mp.sinh(x), mp.sqrt(e * e - 1)
            r = a * (e * c - 1)
            return [a * (e - c), a * b * s], [-a * a * n * s / r, a * a * n * b * c / r]
        p = 2 * q
        w = 3 * mp.sqrt(mu / p**3) * dt  # t^3/2... Barker: tan + tan^3/3 = 2 sqrt(mu/p^3) dt
        y = mp.cbrt(abs(w) + mp.sqrt(w * w + 1))
        t = (y - 1 / y) * (1 if w >= 0 else -1)
        r = q * (1 + t * t)
        h = mp.sqrt(mu * p)
        return [q * (1 - t * t), 2 * q * t], [-mu / h * mp.sin(2 * mp.atan(t)), mu / h * (1 + mp.cos(2 * mp.atan(t)))]


def _root(f, fp, lo, hi):
    x = (lo + hi) / 2
    for _ in range(400):
        v = f(x)
        if v == 0:
            return x
        if v > 0:
            hi = x
        else:
            lo = x
        y = x - v / fp(x)
        if not lo < y < hi:
            y = (lo + hi) / 2
        if abs(y - x) <= mp.mpf(10) ** -42 * max(1, abs(x)) or hi - lo < mp.mpf(10) ** -42:
            return y
        x = y
    return x


def state(mu, q, e, inc, node, argp, tp, t):
    """(x, y, z, vx, vy, vz) as floats; angles in radians."""
    with mp.workdps(45):
        (x, y), (u, v) = perifocal(mu, q, e, mp.mpf(t) - mp.mpf(tp))
        ci, si, cn, sn, cw, sw = mp.cos(inc), mp.sin(inc), mp.cos(node), mp.sin(node), mp.cos(argp), mp.sin(argp)
        px, py, pz = cw * cn - sw * sn * ci, cw * sn + sw * cn * ci, sw * si
        qx, qy, qz = -sw * cn - cw * sn * ci, -sw * sn + cw * cn * ci, cw * si
        return [float(z) for z in (px * x + qx * y, py * x + qy * y, pz * x + qz * y, px * u + qx * v, py * u + qy * v, pz * u + qz * v)]
