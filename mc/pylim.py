"""Limiter functions of the Python kernel (numbers as in clawpack.pyclaw.limiters.tvd), written scalar by scalar."""
import numpy as np


def ultra(r, c, th):
    return max(0., min(th * 2. * r / max(c, 0.001), th * 2. / (1. - min(c, 0.999))))


def phi(k, r, c):
    c1, c2, s2 = max(c, 0.001), min(c, 0.999), (1. + c) / 3.
    lin = 1. + s2 * (r - 1.)                # third-order linear scheme
    vl = 2. * r / (1. + r) if r > 0 else 0.
    if k == 1:
        return max(0., min(1., r))
    if k == 2:
        return max(0., min(1., 2. * r), min(2., r))
    if k == 3:
        return vl
    if k == 4:
        return max(0., min(0.5 + 0.5 * r, 2., 2. * r))
    if k == 5:
        return r
    if k == 6:
        return 0.5 + 0.5 * r
    if k == 7:
        return r * (r + 1.) / (r * r + 1.)
    if k == 8:
        return 0.5 * (1. + r) * (1. - abs(1. - r)**3 / (1. + abs(r)**3))
    if k == 9:
        x = min(r, 1. / max(r, 1e-5))
        return vl * (1. + x * (1. - x) * (1. - x * x))
    if k == 10:
        return lin
    if k == 11:
        return max(0., min(0.99 * 2. / c * r, lin, 0.99 * 2. / (1. - c)))
    if k in (12, 13, 14):
        th = {12: 0.95, 13: 0.75, 14: 0.5}[k]
        s1, pm = 2. / c1, 2. / (1. - c2)
        return min(max((1. - th) * s1, lin), max((1. - th) * pm * r, th * s1 * r), th * pm)
    if k == 15:
        return max(0., min(1., 2. * r / c1), min(r, 2. / (1. - c2)))
    if k == 16:
        return min(ultra(r, c, 0.95), max(1., r))
    if k in (17, 18):
        return max(0., min(ultra(r, c, 1. if k == 17 else 0.95), max(1. + (s2 - 1. / 3.) * (r - 1.), 1. + (s2 + 1. / 3.) * (r - 1.))))
    if k == 19:
        if r < 0:
            return 0.
        if abs(r - 1.) < 1e-6:
            return 1.
        return 2. * r / (r - 1.)**2 * (c * (r - 1.) + 1. - r**c) / (c1 * (1. - c2))
    if k == 20:
        if r <= 0:
            return 0.
        p = 4. / c * (1. - s2) if r <= 1. else 4. / (1. - c) * s2
        return (1. - s2 + s2 * r) * (1. - abs((1. - r) / (1. + r))**p)
    inf = float('inf')
    ar = abs(r)
    if k == 21:
        e = 1e-3
        c = max(0.05, c)                    # (the code also means to cut at 0.95 but does not)
        up = (1. - e) * min(2. * ar / (c + e), (8. - 2. * c) / (ar * (c - 1. - e)**2) if ar else inf)
        lo = -2. * (c * c - 3. * c + 8.) * (1. - e) / (ar * (c**3 - c * c - c + 1. + e)) if ar else -inf
        return max(lo, min(1. + (1. + c) / 3. * (r - 1.), up))
    if k == 22:
        return max(-3. / ar if ar else -inf, min(lin, 2. * ar / (0.6 + ar), 5. / ar if ar else inf))
    if k == 23:
        return ultra(r, c, 1.)
    raise ValueError(k)


def step(q, sgn, nu, k):
    """One step of the limited scheme for q_t + sgn q_x = 0 on a periodic grid, Courant number nu."""
    n = len(q)
    d = [q[i] - q[i - 1] for i in range(n)]
    G = []
    for i in range(n):
        if d[i] == 0.:
            G.append(0.)
            continue
        u = d[i - 1] if sgn > 0 else d[(i + 1) % n]
        # the kernel forms the ratio from products, (u d)/(d d)
        r = (u * d[i]) / (d[i] * d[i])
        G.append(0.5 * nu * (1. - nu) * phi(k, r, nu) * d[i])
    return np.array([q[i] - (nu * d[i] if sgn > 0 else -nu * d[(i + 1) % n]) - (G[(i + 1) % n] - G[i]) for i in range(n)])
