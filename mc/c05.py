"""C05: ghost cells hold what the boundary conditions prescribe."""
import gc, itertools
import numpy as np
from .common import build, close, maxdiff, BC
from . import timeline as TL

ID = 'C05'
CHUNKS = 192
ASSUMPTIONS = ['grids at least as wide as the ghost layer for periodic and wall sides']
BOUNDS = {'quick': 'all assignments of {periodic, extrapolation, wall, custom} to all sides: 1D 4^2 x 4^2 (q x aux) x ghost widths 2-9; 2D 3^4 for q x 36 of the 3^4 for aux (one custom side variants); '
                   '3D 3^6 with rotated aux assignment; static (after set-up) and over 2 steps against a run whose ghost cells are filled by the reference',
          'thorough': 'more grid sizes, 3D aux assignments and steps'}

RP = {1: ('acoustics_variable_1D', 2, 2), 2: ('vc_acoustics_2D', 3, 2), 3: ('vc_acoustics_3D', 4, 2)}


def pad_axis(a, d, lo, hi, ng, neg):
    """Extend array (component, ...) along axis d+1 by ng cells on both sides."""
    ax = d + 1
    a = np.moveaxis(a, ax, 1)
    n = a.shape[1]
    out = np.empty((a.shape[0], n + 2 * ng) + a.shape[2:])
    out[:, ng:ng + n] = a
    for side, t in ((0, lo), (1, hi)):
        for k in range(1, ng + 1):           # k-th ghost cell counted from the boundary
            dst = ng - k if side == 0 else ng + n - 1 + k
            if t == 'p':
                srcc = n - k if side == 0 else k - 1
            elif t == 'e':
                srcc = 0 if side == 0 else n - 1
            elif t == 'w':
                srcc = k - 1 if side == 0 else n - k
            else:
                srcc = None
            if srcc is None:
                out[:, dst] = 1.0 + 0.0625 * k + side      # what our custom function writes
            else:
                out[:, dst] = a[:, srcc]
                if t == 'w' and neg is not None:
                    out[neg, dst] = -out[neg, dst]
    return np.moveaxis(out, 1, ax)


def reference(a, bcs, ng, reflect):
    for d in range(a.ndim - 1):
        a = pad_axis(a, d, bcs[d][0], bcs[d][1], ng, None if reflect is None else reflect[d])
    return a


def custom(which, side, log, old=None):
    def g(state, dim, t, bc_array, num_ghost):          # the old signature: only the array to be filled
        # tell the arrays apart by their number of components (q has old[0] components and aux old[1])
        d = [x.name for x in state.grid.dimensions].index(dim.name)
        shape = bc_array.shape[1:]
        log.append((which, side, d, float(t), float(state.t), int(num_ghost), (old[0],) + shape, (old[1],) + shape))
        if bc_array.shape[0] != old[0 if which == 'q' else 1]:
            log.append((which + ' function given an array with %d components' % bc_array.shape[0], side, d, float(t), float(state.t), int(num_ghost), (old[0],) + shape, (old[1],) + shape))
        arr = np.moveaxis(bc_array, d + 1, 1)
        n = arr.shape[1] - 2 * num_ghost
        for k in range(1, num_ghost + 1):
            dst = num_ghost - k if side == 0 else num_ghost + n - 1 + k
            arr[:, dst] = 1.0 + 0.0625 * k + side
    if old:
        return g

    def f(state, dim, t, qbc, auxbc, num_ghost):
        names = [x.name for x in state.grid.dimensions]
        d = names.index(dim.name)
        log.append((which, side, d, float(t), float(state.t), int(num_ghost), qbc.shape, auxbc.shape))
        arr = np.moveaxis(qbc if which == 'q' else auxbc, d + 1, 1)
        n = arr.shape[1] - 2 * num_ghost
        for k in range(1, num_ghost + 1):
            dst = num_ghost - k if side == 0 else num_ghost + n - 1 + k
            arr[:, dst] = 1.0 + 0.0625 * k + side
    return f


def fill_custom(bcs, abcs, reflect, log):
    """A custom function for the last upper side that fills all ghost cells by the reference."""
    def f(state, dim, t, qbc, auxbc, num_ghost):
        g = (slice(None),) + (slice(num_ghost, -num_ghost),) * (qbc.ndim - 1)
        qbc[...] = reference(qbc[g].copy(), bcs, num_ghost, reflect)
        auxbc[...] = reference(auxbc[g].copy(), abcs, num_ghost, None)
    return f


def nothing(state, dim, t, qbc, auxbc, num_ghost):
    pass


def items(tier):
    th = tier == 'thorough'
    out = []
    T4 = 'pewc'
    T3 = 'pew'
    one = [[a + b] for a in T4 for b in T4]
    for q in one:
        for a in one:
            out.append(dict(nd=1, q=q, a=a, cf='classic', n=[[4]] if not th else [[2], [3], [4], [7]]))
    for q in one:
        for w in (5, 7, 9, 11, 13, 15, 17):
            out.append(dict(nd=1, q=q, a=q[::-1], cf='sharp', weno=w, n=[[(w + 1) // 2], [(w + 1) // 2 + 2]]))
        for lt in (1,):
            out.append(dict(nd=1, q=q, a=q, cf='sharp', weno=5, lim_type=lt, n=[[5]]))
        for ng in (2, 3, 4):
            out.append(dict(nd=1, q=q, a=q, cf='classic', ng=ng, n=[[ng], [ng + 1]]))
        out.append(dict(nd=1, q=q, a=q, cf='classic', reflect=[0], n=[[3]]))
        for w in ([2, 3, 4] if th else [2]):      # old signature of the custom functions, 3 aux components
            out.append(dict(nd=1, q=q, a=[q[0][::-1]], cf='classic', old=True, n=[[w], [w + 2]]))
            out.append(dict(nd=1, q=q, a=q, cf='sharp', weno=5, old=True, n=[[w + 1]]))
        out.append(dict(nd=1, q=q, a=q, cf='classic', kern='Python', n=[[2], [4]]))
        out.append(dict(nd=1, q=q, a=q, cf='sharp', kern='Python', weno=5, n=[[3], [5]]))
    two = [[a + b, c + d] for a in T3 for b in T3 for c in T3 for d in T3]
    for q in two:
        for a in two:
            if not th and (two.index(a) - two.index(q)) % 9 not in (0, 2, 4, 7):
                continue
            out.append(dict(nd=2, q=q, a=a, cf='classic', n=[[3, 2]], dyn=(two.index(a) - two.index(q)) % 9 == 4))
        out.append(dict(nd=2, q=q, a=q[::-1], cf='sharp', weno=5, n=[[3, 4]], dyn=True))
        out.append(dict(nd=2, q=q, a=q, cf='classic', n=[[2, 3]], reflect=[2, 0], dyn=False))
        for k in range(4):          # one custom side
            qq = [list(x) for x in q]
            qq[k // 2][k % 2] = 'c'
            qq = [''.join(x) for x in qq]
            out.append(dict(nd=2, q=qq, a=q, cf='classic', n=[[2, 3]], dyn=True, split=False))
            out.append(dict(nd=2, q=q, a=qq, cf='classic', n=[[4, 3]], dyn=True))
            if two.index(q) % 7 == 4 or th:
                out.append(dict(nd=2, q=qq, a=qq, cf='classic', n=[[3, 2]], dyn=True, old=True))
    three = [[a + b, c + d, e + f] for a in T3 for b in T3 for c in T3 for d in T3 for e in T3 for f in T3]
    for i, q in enumerate(three):
        for sh in ([0, 100, 365] if th else [365]):
            out.append(dict(nd=3, q=q, a=three[(i + sh) % len(three)], cf='classic', n=[[2, 3, 2]], dyn=(i % (1 if th else 4) == 0), split=bool(i % 2)))
        out.append(dict(nd=3, q=q, a=three[(i + 365) % len(three)], cf='sharp', weno=5, n=[[3, 4, 3]], dyn=i % 28 == 0))
        if i % 28 == 13:
            for k in range(6):
                qq = [list(x) for x in q]
                qq[k // 2][k % 2] = 'c'
                out.append(dict(nd=3, q=[''.join(x) for x in qq], a=q, cf='classic', n=[[2, 2, 3]], dyn=True))
    return out


def make(item, n, log, ref=False):
    nd = item['nd']
    rp, neq, naux = RP[nd]
    kern = item.get('kern', 'Fortran')
    if kern == 'Python':
        rp = 'acoustics_1D'
    bcs = [list(x) for x in item['q']]
    abcs = [list(x) for x in item['a']]
    sp = dict(rp=rp, kern=kern, fam=item['cf'], n=n, bc=bcs, abc=abcs, pd=dict(zz=1., cc=1., rho=1., bulk=1.))
    if ref:
        sp['bc'] = sp['abc'] = [['e', 'e']] * (nd - 1) + [['e', 'c']]
        sp['abc'] = [['e', 'e']] * nd
    for k in ('weno', 'lim_type', 'ng', 'split'):
        if k in item:
            sp[k] = item[k]
    if item['cf'] == 'sharp':
        sp['itg'] = 'SSP33'
        sp['lim'] = [1]
    idx = np.arange(int(np.prod(n))).reshape(n)
    q = np.stack([((idx * (3 + m) + m * 5) % 13) + 0.5 * m + 1. for m in range(neq)])
    if item.get('old') and nd == 1:
        naux += 1               # distinguishes the arrays by their shape in 1D
    aux = np.stack([1. + 0.125 * ((idx * (m + 2) + m) % 7) for m in range(naux)])
    sp.update(dtv=False, dt=0.125, cfl_max=1e9, cfl_des=1e9)
    solver, sol = build(sp, q, aux)
    old = (q.shape[0], aux.shape[0]) if item.get('old') else None
    if 'reflect' in item:
        solver.reflect_index = list(item['reflect'])
    reflect = list(item['reflect']) if 'reflect' in item else [1 + d for d in range(nd)]
    if ref:
        solver.user_bc_upper = fill_custom(bcs, abcs, reflect, log)
    else:
        if any(b[0] == 'c' for b in bcs):
            solver.user_bc_lower = custom('q', 0, log, old)
        if any(b[1] == 'c' for b in bcs):
            solver.user_bc_upper = custom('q', 1, log, old)
        if any(b[0] == 'c' for b in abcs):
            solver.user_aux_bc_lower = custom('aux', 0, log, old)
        if any(b[1] == 'c' for b in abcs):
            solver.user_aux_bc_upper = custom('aux', 1, log, old)
    return solver, sol, q, aux, bcs, abcs, reflect


def run(item, ctx):
    for n in item['n']:
        log = []
        solver, sol, q, aux, bcs, abcs, reflect = make(item, n, log)
        try:
            solver.setup(sol)
            ng = solver.num_ghost
            wq = reference(q, bcs, ng, reflect)
            wa = reference(aux, abcs, ng, None)
            ctx.expect(np.array_equal(solver.qbc, wq), 'q-ghost', 'ghost cells of q differ: %s' % maxdiff(solver.qbc, wq), n=n)
            ctx.expect(np.array_equal(solver.auxbc, wa), 'aux-ghost', 'ghost cells of aux differ: %s' % maxdiff(solver.auxbc, wa), n=n)
            ctx.expect(np.array_equal(sol.state.q, q) and np.array_equal(sol.state.aux, aux), 'interior', 'set-up changed q or aux', n=n)
            # custom functions: exactly for their own sides
            want = [(w, s, d) for d in range(item['nd']) for s in (0, 1) for w, b in (('aux', abcs), ('q', bcs)) if b[d][s] == 'c']
            got = [x[:3] for x in log]
            ctx.expect(sorted(set(got)) == sorted(want), 'custom-calls', 'custom functions called for %s, expected %s' % (got, want))
            for x in log:
                ctx.expect(x[3] == x[4] == 0. and x[5] == ng and x[6] == wq.shape and x[7] == wa.shape, 'custom-args', str(x))
            ctx.state(str(item), n)
            ctx.trans()
            # dynamics: two steps against a solver whose ghost cells are filled by the reference
            if item.get('dyn', True):
                t = []
                for k in range(2):
                    del log[:]
                    t0 = float(sol.t)
                    solver.evolve_to_time(sol)
                    t.append(sol.state.q.copy())
                    got = [x[:3] for x in log]
                    ctx.expect(sorted(set(got)) == sorted(want), 'custom-calls', 'step %d: custom functions called for %s, expected %s' % (k, got, want))
                    for x in log:
                        ctx.expect(x[3] == x[4] and t0 - 1e-14 <= x[3] <= t0 + 0.125 + 1e-14, 'custom-time', 'called with t=%r, state.t=%r in step from %r' % (x[3], x[4], t0))
                    if item['cf'] == 'classic':
                        ctx.expect(all(x[3] == t0 for x in log), 'custom-time', 'called with t=%s in step from %r' % ([x[3] for x in log], t0))
                a1 = sol.state.aux.copy()
                del solver, sol
                gc.collect()
                solver, sol, q, aux, bcs, abcs, reflect = make(item, n, log, ref=True)
                for k in range(2):
                    solver.evolve_to_time(sol)
                    ctx.trans(2)
                    if not close(t[k], sol.state.q, 1e-12):
                        ctx.fail('step', 'step %d differs from the run with reference ghost cells by %s' % (k + 1, maxdiff(t[k], sol.state.q)), n=n)
                        break
                ctx.expect(np.array_equal(a1, aux), 'aux-changed', 'aux values changed by stepping')
                ctx.trace()
        finally:
            solver = sol = None
            gc.collect()
        ctx.outcome('%dD-%s' % (item['nd'], item['cf']))
