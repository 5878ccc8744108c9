"""C06: conserved quantities are conserved to rounding."""
import gc, itertools
import numpy as np
from .common import Stepper, words, build
from . import schemes as S, problems as P
from .c08 import hash_

ID = 'C06'
CHUNKS = 192
BOUNDS = {'quick': 'every conservative problem (9 in 1D, 9 in 2D, 6 in 3D) x every scheme (classic: splittings, transverse options, orders, limiters; SharpClaw: WENO orders, '
                   'TVD limiters, wave-based), with and without a capacity function; 1D: all words of length 5-6 over the states; 2D: all placements of at most two deviating cells on 4x3 '
                   '(all binary 3x3 grids for scalar laws); 3D: all placements of one, and pairs relative to the first, on 4x3x3; periodic, and walls for mass; 2 steps',
          'thorough': '1D words up to length 7, all binary 3x3 grids for every 2D problem, all pairs in 3D'}
ASSUMPTIONS = ['a data set on which the scheme itself leaves the domain of the equations (non-finite result) is not judged']


def cons(nd):
    return [k for k, p in P.PROBLEMS.items() if p['nd'] == nd and p.get('cons') is not False]


def items(tier):
    th = tier == 'thorough'
    out = []
    for nd in (1, 2, 3):
        for prob in cons(nd):
            p = P.PROBLEMS[prob]
            sch = [dict(o) for o in S.classic(nd)]
            if p.get('sharp') is not False:
                sch += [o for o in S.sharp(nd, weno=(5, 7, 9, 13, 17) if nd == 1 else (5, 7)) if S.ghost(o) <= p.get('maxng', 99)]
            for o in sch:
                for capa in (False, True):
                    if p.get('fwave') and o.get('chard') and capa:
                        continue
                    for kern in (['Fortran', 'Python'] if (p['rp'] in P.PYRP and (o['fam'] == 'classic' or (o.get('lim_type') == 2 and o.get('weno') == 5))) else ['Fortran']):
                        out.append(dict(prob=prob, o=o, capa=capa, kern=kern))
                # (limiter 5 of the TVD reconstruction is not symmetric)
                if wallable(prob) and not (o['fam'] == 'sharp' and o.get('lim') == [5]) and not (nd == 3 and not th and hash_(prob, str(o)) % 2):
                    out.append(dict(prob=prob, o=o, capa=False, kern='Fortran', wall=True))
    return out


def wallable(prob):
    p = P.PROBLEMS[prob]
    return len(p['tok'][0][0]) > p['nd'] and not p.get('fwave') and p['rp'] not in ('euler_hlle_1D',)


def run(item, ctx):
    prob, o = item['prob'], item['o']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    th = ctx.tier == 'thorough'
    ntok = min(len(p['tok']), 3)
    ng = S.ghost(o)
    h = hash_(str(item))
    if nd == 1:
        n = [max(5 if o['fam'] == 'classic' else 6, ng)]
        L = 5 if not th else 7
        if th and L > n[0]:
            n = [L]
        pos = [(h + k) % n[0] for k in range(min(L, n[0]))]      # where the word is put (cyclic window)
        base = h % ntok
        data = []
        for w in words(range(ntok), len(pos)):
            idx = np.full(n, base)
            idx[pos] = w
            data.append(idx)
    elif nd == 2:
        n = [[4, 3], [3, 4]][h % 2]
        if o['fam'] == 'sharp':
            n = [max(x, ng) for x in n]
        cells = list(np.ndindex(*n))
        data = []
        for base in range(ntok if th else 1):
            base = (base + h) % ntok
            for other in [t for t in range(ntok) if t != base]:
                for a in cells:
                    idx = np.full(n, base); idx[a] = other; data.append(idx)
                for a, b in itertools.combinations(cells, 2):
                    idx = np.full(n, base); idx[a] = other; idx[b] = 3 - base - other if ntok > 2 else other
                    data.append(idx)
        if th or (len(p['tok'][0][0]) == 1 and n[0] * n[1] <= 12 and h % 2):
            m = [max(3, x) for x in [ng, ng]] if o['fam'] == 'sharp' else [3, 3]
            if m == [3, 3]:
                data += [np.array(w).reshape(3, 3) for w in words(((h % 3), (h + 1) % 3), 9)]
    else:
        n = [[4, 3, 3], [3, 4, 3], [3, 3, 4]][h % 3]
        if o['fam'] == 'sharp':
            n = [max(x, ng) for x in n]
        cells = list(np.ndindex(*n))
        data = []
        base = h % ntok
        for other in [t for t in range(ntok) if t != base]:
            for a in cells:
                idx = np.full(n, base); idx[a] = other; data.append(idx)
        prs = list(itertools.combinations(cells, 2)) if th else [(cells[h % len(cells)], b) for b in cells if b != cells[h % len(cells)]]
        for a, b in prs:
            idx = np.full(n, base); idx[a] = (base + 1) % ntok; idx[b] = (base + 2) % ntok; data.append(idx)
    wall = item.get('wall')
    dx = [1., 0.5, 0.75][:nd]
    groups = {}
    for idx in data:
        groups.setdefault(idx.shape, []).append(idx)
    for shape, ds in groups.items():
        kap = None
        if item['capa']:
            kap = 1. + 0.5 * (((np.indices(shape) * np.array([1, 2, 4][:nd]).reshape((nd,) + (1,) * nd)).sum(0) * 3 + 1) % 7) / 2.
        hasaux = len(p['tok'][0][1]) > 0
        steps = 2 if nd < 3 else 1
        courant = (0.2 if o['fam'] == 'sharp' else (0.9 if o.get('split', nd == 1) else 0.4))
        dt = courant * min(dx) / p['smax']
        q0, aux0 = P.fields(prob, ds[0], kap)
        over = dict(o)
        if kap is not None:
            over['capa'] = aux0.shape[0] - 1
        sp = P.spec(prob, list(shape), up=[a * b for a, b in zip(shape, dx)], bc='w' if wall else 'p', kern=item['kern'], **over)
        solver, sol = build(sp, q0, aux0, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
        weight = np.ones(shape) if kap is None else kap
        for idx in ds:
            q, aux = P.fields(prob, idx, kap)
            sol.state.q[...] = q
            if aux is not None:
                sol.state.aux[...] = aux
            sol.state.t = 0.
            for s in range(steps):
                solver.evolve_to_time(sol)
                new = sol.state.q
                if not np.isfinite(new).all():
                    ctx.outcome('%s-nonfinite' % prob)
                    break
                ax = tuple(range(1, nd + 1))
                t0 = (q * weight).sum(ax); t1 = (new * weight).sum(ax)
                scale = max(1., float((np.abs(new) * weight).sum()), float((np.abs(q) * weight).sum()))
                d = np.abs(t1 - t0) / scale
                if wall:
                    d = d[:1]
                if not (d < 2e-13).all():
                    ctx.fail('%dd-total' % nd, 'step %d: total of component %d changes from %r to %r (data %s)' %
                             (s + 1, int(np.argmax(d)), t0[np.argmax(d)], t1[np.argmax(d)], idx.tolist()))
                    break
                ctx.trans()
            ctx.trace()
            ctx.state(str(item), idx.tobytes())
        del solver, sol
    ctx.outcome('%s-%s' % (prob, o['fam']))
    if o['fam'] == 'sharp':
        gc.collect()
