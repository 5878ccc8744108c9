"""C09: no direction or orientation of the grid is special."""
import gc, itertools
import numpy as np
from .common import build, close, maxdiff, words, de_bruijn
from . import schemes as S, problems as P
from .c08 import hash_

ID = 'C09'
CHUNKS = 256
BOUNDS = {'quick': 'all problems in 1D-3D x all schemes (classic and SharpClaw): every translation of periodic data, every reflection, every axis permutation (unsplit and SharpClaw), '
                   'data varying along one axis only against 1D; small grids with unequal extents and cell sizes; data: all placements of two deviating cells (first one fixed up to translation); '
                   'sides periodic, and extrapolation / wall for reflections and permutations',
          'thorough': 'all pairs in 3D, all binary 4x3 grids for scalar 2D problems'}
VEC = {'aco': [1], 'eul': [1], 'swe': [1], 'hll': [1], 'vac': [1], 'nel': [1], 'aco2': [1, 2], 'vac2': [1, 2], 'swe2': [1, 2], 'swb2': [1, 2],
       'eul2': [1, 2], 'eum2': [1, 2], 'vac3': [1, 2, 3], 'cac3': [1, 2, 3], 'eul3': [1, 2, 3], 'eum3': [1, 2, 3]}
CENT = {'col': [0]}                          # velocity at the cell centre
EDGE = {'vad2': [0, 1], 'fad2': [0, 1], 'vad3': [0, 1, 2], 'cad3': [0, 1, 2], 'cad3m': [0, 1, 2], 'fad3': [0, 1, 2]}
PAR = ['u', 'v', 'w']


def transform(prob, nd, g, q, aux, pd, bc, dx):
    """g = (perm, flips): new axis k is old axis perm[k], reversed if flips[k]."""
    perm, flips = g
    q = q.transpose([0] + [p + 1 for p in perm]).copy()
    aux = None if aux is None else aux.transpose([0] + [p + 1 for p in perm]).copy()
    pd = dict(pd)
    dx = [dx[p] for p in perm]
    bc = [list(bc[p]) for p in perm]
    if prob in VEC:
        q[VEC[prob]] = q[[VEC[prob][p] for p in perm]]
    if prob in EDGE:
        aux[EDGE[prob]] = aux[[EDGE[prob][p] for p in perm]]
    if prob.startswith('adv'):
        old = [pd[c] for c in PAR[:nd]]
        for k, p in enumerate(perm):
            pd[PAR[k]] = old[p]
    if 'coeff' in pd:
        pd['coeff'] = np.array([pd['coeff'][p] for p in perm])
    for k in range(nd):
        if not flips[k]:
            continue
        q = np.flip(q, k + 1)
        bc[k] = bc[k][::-1]
        if aux is not None:
            aux = np.flip(aux, k + 1)
        if prob in VEC:
            q = q.copy(); q[VEC[prob][k]] *= -1
        if prob in CENT:
            aux = -aux
        if prob in EDGE:
            aux = aux.copy()
            c = EDGE[prob][k]
            aux[c] = -np.roll(aux[c], 1, axis=k)               # velocity at the left edge of each cell
        if prob.startswith('adv'):
            pd[PAR[k]] = -pd[PAR[k]]
        if 'coeff' in pd:
            pd['coeff'] = pd['coeff'].copy(); pd['coeff'][k] *= -1
    if prob in ('bur', 'bur2') and all(flips):
        q = -q
    return np.ascontiguousarray(q), (None if aux is None else np.ascontiguousarray(aux)), pd, bc, dx


def group(prob, nd, o):
    """Non-trivial symmetries that apply to problem and scheme."""
    out = []
    perms = [tuple(range(nd))]
    if nd > 1 and not o.get('split', False):
        perms = list(itertools.permutations(range(nd)))
    noflip = [tuple([False] * nd)]
    if prob in ('tfw', 'fad2', 'fad3', 'hll', 'bur3') or o.get('lim') == [5]:   # asymmetric fluxes, or asymmetric (trusted) Riemann solvers
        flips = noflip
    elif o['fam'] == 'sharp' and ((P.PROBLEMS[prob].get('fwave') or prob == 'col') and o.get('chard') and o['lim_type'] == 1 or prob in EDGE or prob in ('eul', 'hll')):
        flips = noflip          # velocity of the left edge used in the cell; reconstructed states without sound speed;
        # wave-based TVD slopes of f-waves, or of stationary waves (no upwind side)
    elif prob in ('bur', 'bur2'):
        flips = noflip + [tuple([True] * nd)]
    else:
        flips = list(itertools.product((False, True), repeat=nd))
    for p in perms:
        for f in flips:
            if p == tuple(range(nd)) and not any(f):
                continue
            out.append((p, f))
    return out


def schemes(prob, nd):
    p = P.PROBLEMS[prob]
    out = [o for o in S.classic(nd) if not (p.get('notrans') and o.get('trans'))]
    if p.get('sharp') is not False:
        out += [o for o in S.sharp(nd, weno=(5, 7, 11, 17) if nd == 1 else (5, 7)) if S.ghost(o) <= p.get('maxng', 99)]
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for prob, p in P.PROBLEMS.items():
        nd = p['nd']
        if p.get('zero'):           # zero-speed f-waves have no mirror image: sign(0) = +1
            continue
        for o in schemes(prob, nd):
            kerns = ['Fortran']
            if p['rp'] in P.PYRP and (o['fam'] == 'classic' or (o.get('lim_type') == 2 and o.get('weno') == 5)):
                kerns.append('Python')
            for kern in kerns:
                if nd == 3 and not th and hash_(prob, S.name(o)) % 2 and o['order' if 'order' in o else 'lim_type'] == 2:
                    k3 = ['sym']
                else:
                    k3 = ['sym', 'shift']
                for k in k3:
                    out.append(dict(k=k, prob=prob, o=o, kern=kern))
                if nd > 1:
                    out.append(dict(k='line', prob=prob, o=o, kern=kern))
    return out


class Runner(object):
    def __init__(self, prob, o, kern):
        self.prob, self.o, self.kern = prob, o, kern
        self.p = P.PROBLEMS[prob]
        self.cache = {}

    def __call__(self, q, aux, pd, bc, dx, dt):
        n = list(q.shape[1:])
        key = repr((n, sorted((k, np.asarray(v).tolist() if not isinstance(v, str) else v) for k, v in pd.items()), bc, dx, dt))
        if key not in self.cache:
            if len(self.cache) >= 12:
                self.cache.clear()
            sp = P.spec(self.prob, n, up=[a * b for a, b in zip(n, dx)], bc=[list(b) for b in bc], kern=self.kern, **self.o)
            sp['pd'] = pd
            self.cache[key] = build(sp, q, aux, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
        solver, sol = self.cache[key]
        sol.state.q[...] = q
        if aux is not None:
            sol.state.aux[...] = aux
        sol.state.t = 0.
        solver.evolve_to_time(sol)
        return sol.state.q.copy(), float(solver.cfl.get_cached_max())


def run(item, ctx):
    prob, o = item['prob'], item['o']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    th = ctx.tier == 'thorough'
    h = hash_(str(item))
    ng = S.ghost(o)
    ntok = len(p['tok'])
    courant = (0.2 if o['fam'] == 'sharp' else (0.9 if o.get('split', nd == 1) else 0.4))
    R = Runner(prob, o, item['kern'])
    dx = [1., 0.5, 0.75][:nd]
    pd0 = P.spec(prob, [1] * nd)['pd']
    per = [['p', 'p']] * nd
    small = {1: [7], 2: [4, 3], 3: [4, 3, 5]}[nd]
    small = [max(x, ng) for x in small]
    dt = courant * min(dx) / p['smax']
    split = nd > 1 and o.get('split', False)
    tol = 1e-9 if o['fam'] == 'sharp' else 1e-12

    def datasets(allpairs=False):
        cells = list(np.ndindex(*small))
        base = h % ntok
        first = [cells[h % len(cells)]] if not allpairs else cells
        out = []
        others = [(base + 1) % ntok, (base + 2) % ntok]
        for a in first:
            for b in cells:
                if b == a:
                    continue
                idx = np.full(small, base); idx[a] = others[0]; idx[b] = others[1]
                out.append(idx)
        # a cluster: words around the first cell
        a = first[0]
        for w in words(range(min(ntok, 3)), 3 if nd > 1 else 4):
            idx = np.full(small, base)
            for k, t in enumerate(w):
                c = list(a); c[k % nd] = (c[k % nd] + 1 + k // nd) % small[k % nd]
                idx[tuple(c)] = t
            out.append(idx)
        return out

    if item['k'] == 'shift':
        shifts = list(np.ndindex(*small))[1:]
        ds = datasets()
        if nd == 3 and not th:
            ds = ds[::5]
        for n, idx in enumerate(ds):
            q, aux = P.fields(prob, idx)
            ref, c0 = R(q, aux, pd0, per, dx, dt)
            if not np.isfinite(ref).all():
                continue
            use = shifts if nd == 1 or th else [shifts[(n * 5 + k * 7) % len(shifts)] for k in range(4)] + [s for s in shifts if sum(x > 0 for x in s) == 1][n % 3::3]
            for s in use:
                ax = tuple(range(1, nd + 1))
                got, c = R(np.roll(q, s, ax), None if aux is None else np.roll(aux, s, ax), pd0, per, dx, dt)
                want = np.roll(ref, s, ax)
                if not close(got, want, tol):
                    ctx.fail('%dd-shift' % nd, 'data %s shifted by %s: solution differs from the shifted solution by %r' % (idx.tolist(), s, maxdiff(got, want)))
                    return
                if not split:
                    ctx.expect(abs(c - c0) <= 1e-12 * max(1, c0), '%dd-shift-cfl' % nd, 'data %s shifted by %s: Courant number %r, not %r' % (idx.tolist(), s, c, c0))
                ctx.trans()
            ctx.state(str(item), n); ctx.trace()
    elif item['k'] == 'sym':
        G = group(prob, nd, o)
        if nd == 3 and not th:
            G = [g for k, g in enumerate(G) if (k + h) % 4 == 0 or g[0] == (0, 1, 2) and sum(g[1]) == 1 or (g[0] != (0, 1, 2) and not any(g[1]))]
        sides = [per]
        if prob not in EDGE:
            sides.append([['e', 'w' if prob in VEC else 'e'], ['p', 'p'], ['e', 'e']][:nd])
            if prob in VEC:
                sides.append([['w', 'w'], ['w', 'e'], ['e', 'w']][:nd])
        if o.get('fam') == 'sharp' and o.get('lim') == [5]:
            sides = sides[:1]
        ds = datasets(th and nd < 3)
        if nd == 3 and not th:
            ds = ds[h % 6::6]
        for bc in sides:
            for n, idx in enumerate(ds):
                q, aux = P.fields(prob, idx)
                ref, c0 = R(q, aux, pd0, bc, dx, dt)
                if not np.isfinite(ref).all():
                    continue
                for g in G:
                    a = transform(prob, nd, g, q, aux, pd0, bc, dx)
                    got, c = R(a[0], a[1], a[2], a[3], a[4], dt)
                    want = transform(prob, nd, g, ref, aux, pd0, bc, dx)[0]
                    if not close(got, want, tol):
                        ctx.fail('%dd-symmetry' % nd, 'axes %s reversed %s, sides %s, data %s: solution differs from the transformed solution by %r' %
                                 (g[0], g[1], bc, idx.tolist(), maxdiff(got, want)))
                        return
                    if not split:
                        ctx.expect(abs(c - c0) <= 1e-12 * max(1, c0), '%dd-symmetry-cfl' % nd, 'axes %s reversed %s: Courant number %r, not %r' % (g[0], g[1], c, c0))
                    ctx.trans()
                ctx.state(str(item), str(bc), n); ctx.trace()
    else:
        # data varying along one axis only
        one = {'adv2': 'adv+', 'aco2': 'aco', 'bur2': 'bur', 'vac2': 'vac', 'vac3': 'vac', 'cac3': 'aco'}.get(prob)
        m = max(7, ng)
        for ax in range(nd):
            w = np.array(de_bruijn(min(ntok, 3), 3))
            lines = [np.roll(w, -3 * k)[:m] for k in range(9)]
            for n, line in enumerate(lines):
                res = []
                for extents in ([max(2, ng)] * nd, [max(5, ng), max(3, ng), max(4, ng)][:nd]):
                    shape = list(extents); shape[ax] = m
                    view = [1] * nd; view[ax] = m
                    idx = np.broadcast_to(line.reshape(view), shape)
                    q, aux = P.fields(prob, idx)
                    got, c = R(q, aux, pd0, per, dx, dt)
                    res.append(got)
                    rows = np.moveaxis(got, ax + 1, 1).reshape(got.shape[0], m, -1)
                    ok = bool(np.isfinite(got).all())
                    if ok and not close(rows, rows[:, :, :1] + 0 * rows, 1e-9 if o['fam'] == 'sharp' else 1e-12):
                        ctx.fail('%dd-rows' % nd, 'data %s along axis %d: rows differ' % (line.tolist(), ax))
                        return
                    ctx.trans()
                a, b = [np.moveaxis(r, ax + 1, 1).reshape(r.shape[0], m, -1)[:, :, 0] for r in res]
                if np.isfinite(a).all() and not close(a, b, 1e-9 if o['fam'] == 'sharp' else 1e-12):
                    ctx.fail('%dd-extents' % nd, 'data %s along axis %d: result depends on the extents of the other axes' % (line.tolist(), ax))
                if one is not None:
                    self1(ctx, item, prob, one, line, ax, a, dx, dt, o, m)
                ctx.state(str(item), ax, n); ctx.trace()
    ctx.outcome('%s-%s' % (prob, item['k']))
    R = None
    if o['fam'] == 'sharp':
        gc.collect()


def self1(ctx, item, prob, one, line, ax, a, dx, dt, o, m):
    p = P.PROBLEMS[prob]
    nd = p['nd']
    q, aux = P.fields(prob, line)
    o1 = {k: v for k, v in o.items() if k not in ('split', 'trans')}
    pd = {}
    if one == 'adv+':
        pd = dict(u=p['pd'][PAR[ax]])
    elif one == 'aco':
        pd = dict(rho=1., bulk=4., zz=2., cc=2.) if prob == 'aco2' else dict(zz=2., cc=1., rho=2., bulk=2.)
    elif one == 'bur':
        pd = dict(efix=True)
    keep = [0] if one in ('adv+', 'bur') else [0, 1 + ax]
    if one == 'vac' and nd >= 2:
        aux1 = aux_1d(aux, nd)
    else:
        aux1 = None
    sp = P.spec(one, [m], up=[m * dx[ax]], bc='p', **o1)
    sp['pd'] = pd
    solver, sol = build(sp, q[keep], aux1, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
    solver.evolve_to_time(sol)
    want = sol.state.q
    if o.get('chard') and one in ('aco', 'vac'):
        return
    got = a[keep]
    if np.isfinite(want).all() and not close(got, want, 1e-9 if o['fam'] == 'sharp' else 1e-11):
        ctx.fail('%dd-line' % nd, 'data %s along axis %d: rows differ from the 1D solution by %r' % (line.tolist(), ax, maxdiff(got, want)))


def aux_1d(aux, nd):
    # variable coefficient acoustics: 1D and 3D take (impedance, speed), 2D takes (density, speed)
    z, c = aux[0], aux[1]
    return np.array([z * c, c]) if nd == 2 else aux
