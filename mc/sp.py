"""Reference for the SharpClaw semi-discretization in numpy: reconstruction from its defining
formulas (WENO of any odd order derived in rational arithmetic from the substencil polynomials
and the Jiang-Shu smoothness integrals; TVD slopes), fluctuations from the trusted Riemann
solvers, dimension by dimension."""
from fractions import Fraction as Fr
import functools
import numpy as np
from . import wp


def _polyavg(k, left):
    """Matrix V with V[j][m] = average of x**m over cell j (cells left..left+k-1, unit width, cell 0 = [-1/2,1/2])."""
    V = []
    for j in range(k):
        a = Fr(2 * (left + j) - 1, 2); b = Fr(2 * (left + j) + 1, 2)
        V.append([(b ** (m + 1) - a ** (m + 1)) / (m + 1) for m in range(k)])
    return V


def _solve(A, B):
    n = len(A); m = len(B[0])
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def _eye(n):
    return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]


@functools.lru_cache(None)
def weno_tables(order):
    """(k, cR[r][j], dR[r], B[r]) for reconstruction at the right edge of cell 0; substencil r
    consists of cells -r .. k-1-r; B[r] is the matrix of the smoothness indicator."""
    k = (order + 1) // 2
    cR, B = [], []
    for r in range(k):
        V = _polyavg(k, -r)
        P = _solve(V, _eye(k))              # coefficients of x^m from cell averages: P[m][j]
        x = Fr(1, 2)
        cR.append([sum(P[m][j] * x ** m for m in range(k)) for j in range(k)])
        # smoothness: sum_l int (p^(l))^2
        S = [[Fr(0)] * k for _ in range(k)]
        for l in range(1, k):
            for m1 in range(l, k):
                f1 = 1
                for t in range(l):
                    f1 *= m1 - t
                for m2 in range(l, k):
                    f2 = 1
                    for t in range(l):
                        f2 *= m2 - t
                    e = m1 + m2 - 2 * l
                    if e % 2 == 0:
                        S[m1][m2] += Fr(f1 * f2) * 2 * Fr(1, 2) ** (e + 1) / (e + 1)
        Bm = [[sum(P[a][i] * S[a][b] * P[b][j] for a in range(k) for b in range(k)) for j in range(k)] for i in range(k)]
        B.append(Bm)
    # ideal weights: combination reproducing the reconstruction on the large stencil
    n = 2 * k - 1
    V = _polyavg(n, -(k - 1))
    P = _solve(V, _eye(n))
    big = [sum(P[m][j] * Fr(1, 2) ** m for m in range(n)) for j in range(n)]
    # substencil r uses large-stencil cells (k-1-r)+j; solve successively from the last cell on
    d = [Fr(0)] * k
    for r in range(k):                       # last cell of the large stencil belongs to r=0 only
        pos = n - 1 - r                      # cell used by substencils 0..r
        acc = big[pos]
        for q in range(r):
            j = pos - (k - 1 - q)
            acc -= d[q] * cR[q][j]
        d[r] = acc / cR[r][pos - (k - 1 - r)]
    assert sum(d) == 1 and all(x > 0 for x in d)
    f = lambda a: np.array([[float(x) for x in row] for row in a])
    return k, f(cR), np.array([float(x) for x in d]), [f(b) for b in B]


def weno(order, q):
    """q (m,N) -> ql, qr (m,N): values at the left and right edges of each cell (NaN where the stencil does not fit)."""
    k, c, d, B = weno_tables(order)
    m, N = q.shape
    ql = np.full((m, N), np.nan); qr = np.full((m, N), np.nan)
    i = np.arange(k - 1, N - k + 1)
    for side in (0, 1):
        sg = 1 if side == 1 else -1          # mirrored stencil for the left edge
        num = 0.; den = 0.
        for r in range(k):
            cells = np.stack([q[:, i + sg * (j - r)] for j in range(k)])          # (k,m,I)
            ref = cells[0]
            cd = cells - ref                                                      # smoothness is invariant under shifts
            beta = np.einsum('jmi,jl,lmi->mi', cd, B[r], cd)
            val = np.einsum('j,jmi->mi', c[r], cells)
            w = d[r] / (1e-36 + np.abs(beta)) ** 2
            num = num + w * val
            den = den + w
        (qr if side == 1 else ql)[:, i] = num / den
    return ql, qr


def phi(meth, r):
    if meth == 5:                            # Cada & Torrilhon
        pp = (2. + r) / 3.
        return np.maximum(0., np.minimum(pp, np.maximum(-r / 3., np.maximum(0., np.minimum(2. * r, np.minimum(pp, 2.))))))
    return wp.phi(meth, r)


def tvd(lims, q):
    m, N = q.shape
    ql = np.full((m, N), np.nan); qr = np.full((m, N), np.nan)
    i = np.arange(1, N - 1)
    dm = q[:, i] - q[:, i - 1]
    dp = q[:, i + 1] - q[:, i]
    for c in range(m):
        f = np.zeros(len(i))
        nz = dm[c] != 0
        f[nz] = phi(lims[c], dp[c][nz] / dm[c][nz]) * dm[c][nz]
        qr[c, i] = q[c, i] + 0.5 * f
        ql[c, i] = q[c, i] - 0.5 * f
    return ql, qr


def _w5(h):
    """h: dict offset->array (differences at interfaces i-2..i+2 as seen from interface i, mirrored where needed).
    Returns the stencil dependent part of the fifth order WENO value."""
    t1 = h[-2] - h[-1]; t2 = h[-1] - h[0]; t3 = h[0] - h[1]
    b1 = 13. * t1 ** 2 + 3. * (h[-2] - 3. * h[-1]) ** 2
    b2 = 13. * t2 ** 2 + 3. * (h[-1] + h[0]) ** 2
    b3 = 13. * t3 ** 2 + 3. * (3. * h[0] - h[1]) ** 2
    w = [1. / (1e-36 + b) ** 2 for b in (b1, b2, b3)]
    a = [0.1 * w[0], 0.6 * w[1], 0.3 * w[2]]
    s = a[0] + a[1] + a[2]
    # increments from the cell value to the interface of the three candidate parabolas
    p = [(2. * h[-2] - 7. * h[-1]) / 6. * 0. + (-2. * h[-2] + 5. * h[-1]) / 6. , (h[-1] + 2. * h[0]) / 6., (4. * h[0] - h[1]) / 6.]
    return (a[0] * p[0] + a[1] * p[1] + a[2] * p[2]) / s


def riem(rp, ixy, L, R, aL, aR):
    """Riemann problems with left states L and right states R (columns); returns waves etc. per column."""
    me, M = L.shape
    # interface i of the solver: left = qr(i-1), right = ql(i)
    z = lambda a, n: np.concatenate([a[:, :1]] * 1 + [a], axis=1) if n else a
    ql = np.concatenate([R[:, :1], R], axis=1)
    qr = np.concatenate([L, L[:, -1:]], axis=1)
    if rp.py is not None:
        w, s, am, ap = rp.py(np.asfortranarray(L), np.asfortranarray(R), aL, aR, rp.pd)
        return w, s, am, ap
    N = M + 1
    mx = N - 2 * wp.NG
    ql = np.asfortranarray(ql); qr = np.asfortranarray(qr)
    if rp.ma:
        al = np.asfortranarray(np.concatenate([aR[:, :1], aR], axis=1))
        ar = np.asfortranarray(np.concatenate([aL, aL[:, -1:]], axis=1))
    else:
        al = ar = np.zeros((1, N), order='F')
    w = np.zeros((rp.me, rp.mw, N), order='F'); s = np.zeros((rp.mw, N), order='F')
    am = np.zeros((rp.me, N), order='F'); ap = np.zeros((rp.me, N), order='F')
    ints = [mx, rp.me, rp.mw, rp.ma, wp.NG, mx]
    if rp.nd > 1:
        ints = [ixy] + ints
    rp._call(0, ints, [ql, qr, al, ar, w, s, am, ap])
    return w[..., 1:], s[..., 1:], am[:, 1:], ap[:, 1:]


def recon(rp, ixy, q, aux, opt, fwave):
    lt, cd = opt.get('lim_type', 2), opt.get('chard', 0)
    N = q.shape[1]
    if lt == -1:
        return q.copy(), q.copy()
    if cd == 0 or lt == 3:
        if lt == 1:
            lims = opt['lim'] if len(opt['lim']) > 1 else opt['lim'] * q.shape[0]
            return tvd(lims, q)
        return weno(opt.get('weno', 5) if lt == 2 else 5, q)
    if cd > 1:
        return char(q, opt, rp.pd['gamma'])
    # wave based: interface i (column i-1 of the waves) lies between cells i-1 and i
    aL, aR = (aux[:, :-1], aux[:, 1:]) if rp.ma else (None, None)
    w, s, am, ap = riem(rp, ixy, q[:, :-1], q[:, 1:], aL, aR)
    W = np.full(w.shape[:2] + (N,), np.nan); W[..., 1:] = w
    S = np.full((w.shape[1], N), np.nan); S[..., 1:] = s
    ql = q.copy(); qr = q.copy()
    if lt == 1:
        lims = opt['lim'] if len(opt['lim']) > 1 else opt['lim'] * rp.mw
        for p in range(rp.mw):
            i = np.arange(2, N - 1)
            n2 = (W[:, p, i] ** 2).sum(0)
            dl = (W[:, p, i] * W[:, p, i - 1]).sum(0)
            dr = (W[:, p, i] * W[:, p, i + 1]).sum(0)
            up = np.where(S[p, i] > 0, dl, dr)
            f = np.zeros(len(i))
            nz = n2 > 0
            f[nz] = 0.5 * phi(lims[p], up[nz] / n2[nz])
            qr[:, i - 1] += f * W[:, p, i]
            ql[:, i] -= f * W[:, p, i]
        qr[:, :1] = np.nan; qr[:, -2:] = np.nan
        ql[:, :2] = np.nan; ql[:, -1:] = np.nan
        return ql, qr
    if fwave:
        W = W / S
        W[~np.isfinite(W)] = 0.
    i = np.arange(3, N - 2)
    for p in range(rp.mw):
        th = {o: (W[:, p, i + o] * W[:, p, i]).sum(0) for o in (-2, -1, 0, 1, 2)}
        n2 = th[0]
        ok = n2 > 1e-14
        inv = np.where(ok, 1. / np.where(ok, n2, 1.), 0.)
        uR = np.where(ok, _w5(th), 0.)                                   # from the left cell upward
        uL = np.where(ok, -_w5({o: th[-o] for o in th}), 0.)             # from the right cell downward
        qr[:, i - 1] += uR * inv * W[:, p, i]
        ql[:, i] += uL * inv * W[:, p, i]
    qr[:, :2] = np.nan; qr[:, -3:] = np.nan
    ql[:, :3] = np.nan; ql[:, -2:] = np.nan
    return ql, qr


def eigen(q, gamma):
    """Roe eigenvectors of the 1D Euler equations between cells i-1 and i: L[i], R[i] (rows / columns)."""
    N = q.shape[1]
    L = np.full((N, 3, 3), np.nan); R = np.full((N, 3, 3), np.nan)
    for i in range(1, N):
        st = []
        for c in (i - 1, i):
            rho, m, E = q[:, c]
            p = (gamma - 1.) * (E - 0.5 * m * m / rho)
            st.append((np.sqrt(rho), m / rho, (E + p) / rho))
        w = st[0][0] + st[1][0]
        u = (st[0][0] * st[0][1] + st[1][0] * st[1][1]) / w
        H = (st[0][0] * st[0][2] + st[1][0] * st[1][2]) / w
        c = np.sqrt((gamma - 1.) * (H - 0.5 * u * u))
        R[i] = [[1., 1., 1.], [u - c, u, u + c], [H - u * c, 0.5 * u * u, H + u * c]]
        L[i] = np.linalg.inv(R[i])
    return L, R


def char(q, opt, gamma):
    """Characteristic-wise (char_decomp 2) and transmission-based (3) reconstruction."""
    N = q.shape[1]
    L, R = eigen(q, gamma)
    d = np.full(q.shape, np.nan); d[:, 1:] = q[:, 1:] - q[:, :-1]
    ql = np.full(q.shape, np.nan); qr = np.full(q.shape, np.nan)
    tv = opt.get('lim_type', 2) == 1
    lims = opt.get('lim', [0])
    lims = lims if len(lims) > 1 else list(lims) * 3
    lo, hi = (2, N - 1) if tv else (3, N - 2)
    for i in range(lo, hi):
        a = q[:, i - 1].copy(); b = q[:, i].copy()
        if opt.get('chard') == 3:
            cen = (d[:, i - 1] + 6. * d[:, i] - d[:, i + 1]) / 12.
            a += cen
            b -= (d[:, i + 1] + 6. * d[:, i] - d[:, i - 1]) / 12.
        for p in range(3):
            r = R[i][:, p]
            if tv:
                h = {o: float(L[i][p] @ d[:, i + o]) for o in (-1, 0, 1)}
                lim = lambda x, y: 0. if abs(y) <= 1e-14 else 0.5 * float(phi(lims[p], np.array([x / y]))[0]) * y
                a += r * lim(h[0], h[-1])
                b -= r * lim(h[1], h[0])
                continue
            if opt.get('chard') == 3:        # the p-th wave of each interface, seen from interface i
                h = {o: float(L[i][p] @ (R[i + o][:, p] * float(L[i + o][p] @ d[:, i + o]))) for o in (-2, -1, 0, 1, 2)}
                a += r * (_w5(h) - (h[-1] + 6. * h[0] - h[1]) / 12.)
                b -= r * (_w5({o: h[-o] for o in h}) - (h[1] + 6. * h[0] - h[-1]) / 12.)
            else:
                h = {o: float(L[i][p] @ d[:, i + o]) for o in (-2, -1, 0, 1, 2)}
                a += r * _w5(h)
                b -= r * _w5({o: h[-o] for o in h})
        qr[:, i - 1] = a; ql[:, i] = b
    return ql, qr


def dq(rp, q, aux, ng, dx, dt, opt, fwave=False, capa=-1):
    """q, aux with ng ghost cells; returns (dt * dq/dt in the interior, Courant number)."""
    nd = q.ndim - 1
    out = np.zeros(q.shape)
    cfl = 0.
    kap = np.ones(q.shape[1:]) if capa < 0 else aux[capa]
    for d in range(nd):
        Q = np.moveaxis(q, d + 1, 1); A = None if aux is None else np.moveaxis(aux, d + 1, 1)
        K = np.moveaxis(kap, d, 0); D = np.moveaxis(out, d + 1, 1)
        N = Q.shape[1]
        c = np.arange(ng - 1, N - ng + 1)                                  # interior and one more on each side
        for rest in np.ndindex(*Q.shape[2:]):
            if not all(ng - 1 <= r <= Q.shape[2 + k] - ng for k, r in enumerate(rest)):
                continue
            ix = (slice(None), slice(None)) + rest
            q1 = Q[ix]; a1 = None if A is None else A[ix]
            ql, qr = recon(rp, d + 1, q1, a1, opt, fwave)
            dtdx = dt / (dx[d] * K[(slice(None),) + rest])
            L, R = qr[:, c[:-1]], ql[:, c[1:]]                             # interfaces ng .. N-ng
            w, s, am, ap = riem(rp, d + 1, L, R, None if not rp.ma else a1[:, c[:-1]], None if not rp.ma else a1[:, c[1:]])
            dx_ = dtdx[c[1:]]; dm_ = dtdx[c[:-1]]
            cfl = max(cfl, (dx_ * s).max(), (-dm_ * s).max())
            ci = c[1:-1]
            w2, s2, am2, ap2 = riem(rp, d + 1, ql[:, ci], qr[:, ci], None if not rp.ma else a1[:, ci], None if not rp.ma else a1[:, ci])
            D[(slice(None), ci) + rest] -= dtdx[ci] * (ap[:, :-1] + am[:, 1:] + am2 + ap2)
    inner = (slice(None),) + (slice(ng, -ng),) * nd
    return out[inner], cfl


def pad(a, kinds, ng, reflect=None):
    from .c05 import reference
    nd = a.ndim - 1
    bcs = [[kinds, kinds]] * nd if isinstance(kinds, str) else kinds
    return reference(a, bcs, ng, reflect)


def compare(prob, idx, opt, dtf=0.2, dx=None, capa=None, kinds='p', steps=1, kern='Fortran', q=None, tol=1e-10):
    from . import common as C
    from . import problems as P
    p = P.PROBLEMS[prob]
    nd = p['nd']
    n = list(np.asarray(idx).shape)
    dx = [1.] * nd if dx is None else list(dx)
    q0, aux = P.fields(prob, idx, capa)
    if q is not None:
        q0 = q
    ic = -1 if capa is None else aux.shape[0] - 1
    dt = dtf * min(dx) * (1. if capa is None else float(np.min(capa))) / p['smax']
    over = dict(opt, fam='sharp', itg='Euler')
    if ic >= 0:
        over['capa'] = ic
    sp = P.spec(prob, n, up=[a * b for a, b in zip(n, dx)], kern=kern, bc=kinds if isinstance(kinds, str) else [list(k) for k in kinds], **over)
    solver, sol = C.build(sp, q0, aux, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
    rp = wp.RP(C.get_rp(p['rp'], kern), nd, solver.num_eqn, solver.num_waves, 0 if aux is None else aux.shape[0], sp['pd'])
    fw = bool(solver.fwave)
    cur = q0
    bad = []
    for k in range(steps):
        solver.evolve_to_time(sol)
        ng = solver.num_ghost
        got = np.array(sol.state.q)
        cfl = float(solver.cfl.get_cached_max())
        ref, c = dq(rp, pad(cur, kinds, ng, solver.reflect_index), None if aux is None else pad(aux, kinds, ng), ng, dx, dt, opt, fw, ic)
        ref = cur + ref
        fin = np.isfinite(ref)
        if not fin.any():
            bad.append(('skip', 'reference not finite'))
            break
        scale = max(1., float(np.max(np.abs(ref[fin]))))
        err = np.where(fin, np.where(np.isfinite(got), np.abs(got - ref), np.inf), 0.)
        if err.max() > tol * scale:
            w = np.unravel_index(np.argmax(err), got.shape)
            bad.append(('q', 'step %d: cell %s component %d is %r, reference %r' % (k + 1, tuple(int(x) for x in w[1:]), w[0], float(got[w]), float(ref[w]))))
        if fin.all() and not abs(cfl - c) <= 1e-9 * max(1., c):
            bad.append(('cfl', 'step %d: Courant number %r, reference %r' % (k + 1, cfl, c)))
        if aux is not None and not np.array_equal(sol.state.aux, aux):
            bad.append(('aux', 'aux values changed'))
        if bad or not fin.all():
            break
        cur = got
    solver = sol = None
    return bad
