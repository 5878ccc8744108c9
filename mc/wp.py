"""Reference wave-propagation method (LeVeque 1997, Langseth & LeVeque 2000) in numpy.

Written from the published algorithm on arrays that already contain two ghost cells per
side; only the Riemann solvers (outside the repository under study) are called, through
their Fortran entry points.
"""
import ctypes
import numpy as np

_cap = ctypes.pythonapi.PyCapsule_GetPointer
_cap.restype = ctypes.c_void_p
_cap.argtypes = [ctypes.py_object, ctypes.c_char_p]
NG = 2


class RP(object):
    """The Riemann solvers of a clawpack.riemann module (or a Python Riemann solver)."""
    def __init__(self, rp, num_dim, num_eqn, num_waves, num_aux, pd=None):
        self.nd, self.me, self.mw, self.ma, self.pd = num_dim, num_eqn, num_waves, num_aux, pd or {}
        self.py = None
        if callable(rp) and not hasattr(rp, 'rp1') and num_dim == 1:
            self.py = rp
            return
        if hasattr(rp, 'cparam'):
            for k in self.pd:
                if hasattr(rp.cparam, k):
                    setattr(rp.cparam, k, self.pd[k])
        self.mod = rp
        names = {1: ['rp1'], 2: ['rpn2', 'rpt2'], 3: ['rpn3', 'rpt3', 'rptt3']}[num_dim]
        proto = ctypes.CFUNCTYPE(None)
        self.f = []
        for n in names:
            if hasattr(rp, n):
                ptr = _cap(getattr(rp, n)._cpointer, None)
                self.f.append(ctypes.cast(ptr, ctypes.c_void_p).value)
            else:
                self.f.append(None)

    def _call(self, k, ints, arrs):
        args = [ctypes.byref(ctypes.c_int(int(i))) for i in ints] + \
               [a.ctypes.data_as(ctypes.c_void_p) for a in arrs]
        ctypes.CFUNCTYPE(None, *([ctypes.c_void_p] * len(args)))(self.f[k])(*[ctypes.cast(a, ctypes.c_void_p) for a in args])

    def normal(self, ixy, q, aux):
        """q (me,N), aux (ma,N) -> wave (me,mw,N), s (mw,N), amdq, apdq (me,N); interface i is between i-1 and i."""
        N = q.shape[1]
        if self.py is not None:
            al = ar = None
            if self.ma:
                al, ar = aux[:, :-1], aux[:, 1:]
            w, s, am, ap = self.py(q[:, :-1], q[:, 1:], al, ar, self.pd)
            def sh(a):
                return np.concatenate([np.zeros(a.shape[:-1] + (1,)), a], axis=-1)
            return sh(w), sh(s), sh(am), sh(ap)
        mx = N - 2 * NG
        q = np.asfortranarray(q)
        aux = np.asfortranarray(aux) if self.ma else np.zeros((1, N), order='F')
        w = np.zeros((self.me, self.mw, N), order='F'); s = np.zeros((self.mw, N), order='F')
        am = np.zeros((self.me, N), order='F'); ap = np.zeros((self.me, N), order='F')
        ints = [mx, self.me, self.mw, self.ma, NG, mx]
        if self.nd > 1:
            ints = [ixy] + ints
        self._call(0, ints, [q, q, aux, aux, w, s, am, ap])
        return w, s, am, ap

    def trans(self, ixy, icoor, imp, q, aux1, aux2, aux3, asdq):
        N = q.shape[1]
        mx = N - 2 * NG
        q = np.asfortranarray(q); asdq = np.asfortranarray(asdq)
        if not self.ma:
            aux1 = aux2 = aux3 = np.zeros((1, N) + ((3,) if self.nd == 3 else ()), order='F')
        a = [np.asfortranarray(x) for x in (aux1, aux2, aux3)]
        bm = np.zeros((self.me, N), order='F'); bp = np.zeros((self.me, N), order='F')
        ints = [ixy, imp] if self.nd == 2 else [ixy, icoor, imp]
        self._call(1, ints + [mx, self.me, self.mw, self.ma, NG, mx], [q, q] + a + [asdq, bm, bp])
        return bm, bp

    def ttrans(self, ixy, icoor, imp, impt, q, aux1, aux2, aux3, bsasdq):
        N = q.shape[1]
        mx = N - 2 * NG
        q = np.asfortranarray(q); bsasdq = np.asfortranarray(bsasdq)
        if not self.ma:
            aux1 = aux2 = aux3 = np.zeros((1, N, 3), order='F')
        a = [np.asfortranarray(x) for x in (aux1, aux2, aux3)]
        cm = np.zeros((self.me, N), order='F'); cp = np.zeros((self.me, N), order='F')
        self._call(2, [ixy, icoor, imp, impt, mx, self.me, self.mw, self.ma, NG, mx], [q, q] + a + [bsasdq, cm, cp])
        return cm, cp


def phi(meth, r):
    if meth == 1:
        return np.maximum(0., np.minimum(1., r))
    if meth == 2:
        return np.maximum(0., np.maximum(np.minimum(1., 2 * r), np.minimum(2., r)))
    if meth == 3:
        return (r + np.abs(r)) / (1. + np.abs(r))
    if meth == 4:
        return np.maximum(0., np.minimum((1. + r) / 2., np.minimum(2., 2. * r)))
    if meth == 5:
        return r
    raise ValueError(meth)


def limit(w, s, lims):
    """w (me,mw,N): limited copy; interface i compares with i-1 (s>0) or i+1."""
    out = w.copy()
    N = w.shape[2]
    for p, meth in enumerate(lims):
        if meth == 0:
            continue
        n2 = (w[:, p] ** 2).sum(0)
        dot = np.zeros(N)
        dot[1:] = (w[:, p, 1:] * w[:, p, :-1]).sum(0)          # with the wave to the left
        dr = np.zeros(N)
        dr[:-1] = dot[1:]
        up = np.where(s[p] > 0, dot, dr)
        nz = n2 > 0
        f = np.ones(N)
        f[nz] = phi(meth, up[nz] / n2[nz])
        out[:, p] = w[:, p] * f
    return out


def sweep(rp, ixy, q, aux, dtdx, order, lims, fwave):
    """First part of a 1D sweep: returns (update, amdq, apdq, C, cfl) with C the second order
    correction flux at interface i, and update the change of q by fluctuations and C
    (correct for cells NG..N-NG-1)."""
    w, s, am, ap = rp.normal(ixy, q, aux)
    N = q.shape[1]
    I = np.arange(NG, N - NG + 1)                              # interfaces of interior cells
    cfl = max(0., (dtdx[I] * s[:, I]).max(), (-dtdx[I - 1] * s[:, I]).max())
    C = np.zeros((rp.me, N))
    if order == 2:
        wl = limit(w, s, lims)
        ave = np.zeros(N)
        ave[1:] = 0.5 * (dtdx[1:] + dtdx[:-1])
        for p in range(rp.mw):
            a = np.abs(s[p])
            lead = np.where(np.signbit(s[p]), -1., 1.) if fwave else a
            C += 0.5 * lead * (1. - a * ave) * wl[:, p]
    return am, ap, C, cfl


def apply1d(q, am, ap, C, dtdx):
    new = q.copy()
    N = q.shape[1]
    i = np.arange(NG, N - NG)
    new[:, i] -= dtdx[i] * (ap[:, i] + am[:, i + 1] + C[:, i + 1] - C[:, i])
    return new


def step(rp, q, aux, dx, dt, order=2, lims=(0,), fwave=False, split=True, trans=0, capa=-1):
    """One step on arrays with NG ghost cells; returns (interior q, cfl)."""
    nd = q.ndim - 1
    lims = list(lims)
    if len(lims) == 1:
        lims = lims * rp.mw
    kap = np.ones(q.shape[1:]) if capa < 0 else aux[capa]
    inner = (slice(None),) + (slice(NG, -NG),) * nd
    if nd == 1:
        dtdx = dt / (dx[0] * kap)
        am, ap, C, cfl = sweep(rp, 1, q, aux, dtdx, order, lims, fwave)
        return apply1d(q, am, ap, C, dtdx)[inner], cfl
    cflm = 0.
    if split:
        q = q.copy()
        for d in range(nd):
            qq = np.moveaxis(q, d + 1, 1)
            aa = None if aux is None else np.moveaxis(aux, d + 1, 1)
            kk = np.moveaxis(kap, d, 0)
            new = qq.copy()
            for rest in np.ndindex(*qq.shape[2:]):
                # ghost rows of directions already swept are no longer needed
                dims = [x for x in range(nd) if x != d]
                if any(x < d and not (NG <= r < qq.shape[2 + k] - NG) for k, (x, r) in enumerate(zip(dims, rest))):
                    continue
                ix = (slice(None), slice(None)) + rest
                dtdx = dt / (dx[d] * kk[(slice(None),) + rest])
                am, ap, C, cfl = sweep(rp, d + 1, qq[ix], None if aa is None else aa[ix], dtdx, order, lims, fwave)
                if all(NG - 1 <= r <= qq.shape[2 + k] - NG for k, r in enumerate(rest)):
                    cflm = max(cflm, cfl)
                new[ix] = apply1d(qq[ix], am, ap, C, dtdx)
            q = np.moveaxis(new, 1, d + 1)
        return q[inner], cflm
    # unsplit: everything from the old values
    new = np.zeros(q.shape)          # change times capacity
    for d in range(nd):
        e = (d + 1) % nd
        f = (d + 2) % nd if nd == 3 else None
        order_ax = [d, e] + ([f] if nd == 3 else [])
        ax = [0] + [x + 1 for x in order_ax]
        Q = q.transpose(ax)
        A = None if aux is None else aux.transpose(ax)
        K = kap.transpose(order_ax)
        D = new.transpose(ax)        # view: writes go to new
        rd = dt / dx[d]; re = dt / dx[e]; rf = dt / dx[f] if nd == 3 else None
        rng = [range(NG - 1, Q.shape[2] - NG + 1)] + ([range(NG - 1, Q.shape[3] - NG + 1)] if nd == 3 else [])
        N = Q.shape[1]
        i = np.arange(NG, N - NG)
        for j in rng[0]:
            for k in (rng[1] if nd == 3 else [None]):
                row = (slice(None), slice(None), j) + (() if k is None else (k,))
                q1 = Q[row]
                dt1 = rd / K[row[1:]]
                am, ap, C, cfl = sweep(rp, d + 1, q1, None if A is None else A[row], dt1, order, lims, fwave)
                cflm = max(cflm, cfl)
                def add(jj, kk, val):
                    D[(slice(None), i, jj) + (() if nd == 2 else (kk,))] += val[:, i]
                F = np.zeros_like(q1)
                F[:, i] = -rd * (ap[:, i] + am[:, i + 1] + C[:, i + 1] - C[:, i])
                add(j, k, F)
                m3 = trans if nd == 2 else trans // 10
                m4 = 0 if nd == 2 else trans % 10
                if m3 == 0:
                    continue
                if nd == 2:
                    a = [None] * 3 if A is None else [A[:, :, j + o] for o in (-1, 0, 1)]
                    G = np.zeros((2,) + q1.shape)
                    corr = 2. * C if (order == 2 and trans == 2) else 0.
                    for imp, asdq in ((1, am + corr), (2, ap - corr)):
                        b = rp.trans(d + 1, None, imp, q1, a[0], a[1], a[2], asdq)
                        for h in (0, 1):
                            if imp == 1:
                                G[h][:, :-1] -= 0.5 * dt1[:-1] * b[h][:, 1:]
                            else:
                                G[h] -= 0.5 * dt1 * b[h]
                    add(j, None, -re * (G[1] - G[0]))
                    add(j - 1, None, -re * G[0])
                    add(j + 1, None, re * G[1])
                    continue
                # 3D: aux arrays aux{1,2,3}(:,:,1..3): first index of offset along e, third along f
                a = [None] * 3 if A is None else [np.stack([A[:, :, j + o, k + oo] for oo in (-1, 0, 1)], axis=-1) for o in (-1, 0, 1)]
                def cell(arr, imp):
                    """value belonging to cell i: from interface i+1 (imp=1) or i (imp=2)"""
                    if imp == 2:
                        return arr
                    out = np.zeros_like(arr)
                    out[:, :-1] = arr[:, 1:]
                    return out
                cor = order == 2 and m3 == 2
                bc = {}
                for icoor in (2, 3):
                    for imp, asdq in ((1, am), (2, ap)):
                        bc[icoor, imp] = rp.trans(d + 1, icoor, imp, q1, a[0], a[1], a[2], asdq)
                        bc['q', icoor, imp] = rp.trans(d + 1, icoor, imp, q1, a[0], a[1], a[2], C) if cor else (0 * q1, 0 * q1)
                for icoor in (2, 3):
                    other = 5 - icoor
                    rs, ro = (re, rf) if icoor == 2 else (rf, re)
                    # G[h][o]: flux through lower (h=0) / upper (h=1) side along icoor, offset o along the other
                    G = np.zeros((2, 3) + q1.shape)
                    for imp in (1, 2):
                        sg = -1. if imp == 1 else 1.
                        for h in (0, 1):
                            G[h][1] += dt1 * cell(-0.5 * bc[icoor, imp][h] + sg * bc['q', icoor, imp][h], imp)
                        if m4 > 0:
                            for impt in (1, 2):
                                c = bc[other, imp][impt - 1]
                                if m4 == 2:
                                    c = c - sg * 3. * bc['q', other, imp][impt - 1]
                                b = rp.ttrans(d + 1, icoor, imp, impt, q1, a[0], a[1], a[2], c)
                                for h in (0, 1):
                                    t = dt1 * ro / 6. * cell(b[h], imp)
                                    if impt == 2:
                                        G[h][1] += t
                                        G[h][2] -= t
                                    else:
                                        G[h][1] -= t
                                        G[h][0] += t
                    for o in (-1, 0, 1):
                        def at(off, val):
                            if icoor == 2:
                                add(j + off, k + o, val)
                            else:
                                add(j + o, k + off, val)
                        at(0, -rs * (G[1][o + 1] - G[0][o + 1]))
                        at(-1, -rs * G[0][o + 1])
                        at(1, rs * G[1][o + 1])
    return (q + new / kap)[inner], cflm


def pad(a, kinds='p', reflect=None):
    """Extend by NG ghost cells; kinds: 'p' or per-dimension pairs as in C05."""
    from .c05 import reference
    nd = a.ndim - 1
    bcs = [[kinds, kinds]] * nd if isinstance(kinds, str) else kinds
    return reference(a, bcs, NG, reflect)


def compare(prob, idx, opt, dtf, dx=None, capa=None, kinds='p', steps=1, kern='Fortran', aux_first=False, q=None, ictx=None, tol=1e-12):
    """Run `steps` steps of the implementation and of the reference; returns a list of
    (signature, message), empty if they agree."""
    from . import common as C
    from . import problems as P
    p = P.PROBLEMS[prob]
    nd = p['nd']
    n = list(np.asarray(idx).shape)
    dx = [1.] * nd if dx is None else list(dx)
    q0, aux = P.fields(prob, idx, capa)
    if q is not None:
        q0 = q
    ic = -1 if capa is None else aux.shape[0] - 1
    if aux_first and capa is not None:
        raise ValueError
    smin = min(dx) * (1. if capa is None else float(np.min(capa)))
    dt = dtf * smin / p['smax']
    over = dict(opt)
    if ic >= 0:
        over['capa'] = ic
    sp = P.spec(prob, n, up=[a * b for a, b in zip(n, dx)], kern=kern, bc=kinds if isinstance(kinds, str) else [list(k) for k in kinds], **over)
    s = None
    solver, sol = C.build(sp, q0, aux, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9, named=True)
    me, mw, fw = solver.num_eqn, solver.num_waves, bool(solver.fwave)
    rp = RP(C.get_rp(p['rp'], kern), nd, me, mw, 0 if aux is None else aux.shape[0], sp['pd'])
    refl = solver.reflect_index
    cur = q0
    bad = []
    lims = opt.get('lim', [0])
    lims = lims if isinstance(lims, list) else [lims]
    for k in range(steps):
        solver.evolve_to_time(sol)
        got = np.array(sol.state.q)
        cfl = float(solver.cfl.get_cached_max())
        ref, c = step(rp, pad(cur, kinds, refl), None if aux is None else pad(aux, kinds), dx, dt, order=opt.get('order', 2),
                      lims=lims, fwave=fw, split=opt.get('split', True), trans=opt.get('trans', 0), capa=ic)
        if not np.isfinite(ref).all():
            break
        if not C.close(got, ref, tol):
            w = np.unravel_index(np.argmax(np.abs(got - ref)), got.shape)
            bad.append(('q', 'step %d: cell %s component %d is %r, reference %r' % (k + 1, w[1:], w[0], float(got[w]), float(ref[w]))))
        if (nd == 1 or not opt.get('split', True)) and abs(cfl - c) > 1e-12 * max(1., c):
            bad.append(('cfl', 'step %d: Courant number %r, reference %r' % (k + 1, cfl, c)))
        if aux is not None and not np.array_equal(sol.state.aux, aux):
            bad.append(('aux', 'aux values changed'))
        if bad:
            break
        cur = got
    return bad
