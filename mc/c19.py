"""C19: a capacity function acts as the effective size of its own cell."""
import gc
import numpy as np
from .common import build, close, maxdiff, de_bruijn
from . import wp, sp as SPR, schemes as S, problems as P
from .c08 import hash_, bcsets

ID = 'C19'
CHUNKS = 256
ASSUMPTIONS = ['Riemann solvers of clawpack.riemann are trusted (the reference calls them too)']
BOUNDS = {'quick': 'every problem in 1D-3D x every scheme: a deviating capacity (factor 1/2 or 3/2 of the others) in every single cell, fully varying capacities, periodic and open sides, compared with the '
                   'reference method cell by cell and in the Courant number; constant capacities against rescaled time on all data patterns; every index of the capacity among up to 4 aux fields; both kernels; adaptive steps',
          'thorough': 'all data patterns (de Bruijn words) for every position; all pairs of deviating cells in 1D'}


def schemes(prob, nd):
    p = P.PROBLEMS[prob]
    out = [o for o in S.classic(nd, lims=(0, 1, 2, 3, 4) if nd < 3 else (0, 2, 3)) if not (p.get('notrans') and o.get('trans'))]
    if p.get('sharp') is not False:
        out += [o for o in S.sharp(nd, weno=(5, 7, 11) if nd == 1 else (5, 7), lims=(1, 2, 3, 4) if nd < 3 else (2, 4)) if S.ghost(o) <= p.get('maxng', 99)]
    return out


def items(tier):
    out = []
    for prob, p in P.PROBLEMS.items():
        nd = p['nd']
        if prob in ('eul2', 'eul3'):            # strong jumps: the mild variants eum2, eum3 are used here
            continue
        for o in schemes(prob, nd):
            kerns = ['Fortran']
            if p['rp'] in P.PYRP and (o['fam'] == 'classic' or (o.get('lim_type') == 2 and o.get('weno') == 5)):
                kerns.append('Python')
            for kern in kerns:
                out.append(dict(k='pos', prob=prob, o=o, kern=kern))
                out.append(dict(k='const', prob=prob, o=o, kern=kern))
    return sorted(out, key=lambda i: -P.PROBLEMS[i['prob']]['nd'])


def run(item, ctx):
    return (pos if item['k'] == 'pos' else const)(item, ctx)


def compare(item, idx, capa, dx, kinds, steps=1):
    o, prob = item['o'], item['prob']
    sharp = o['fam'] == 'sharp'
    opt = {k: v for k, v in o.items() if k not in ('fam', 'itg')}
    # explicit unsplit schemes can leave the domain of definition of the equations: one small step
    dtf = 0.15 if sharp else (0.8 if o.get('split', True) else 0.3)
    f = SPR.compare if sharp else wp.compare
    return f(prob, idx, opt, dtf, dx=dx, capa=capa, kinds=kinds, steps=steps, kern=item['kern'])


def pos(item, ctx):
    prob, o = item['prob'], item['o']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    th = ctx.tier == 'thorough'
    h = hash_(str(item))
    ng = S.ghost(o)
    n = [max(x, ng) for x in {1: [7], 2: [5, 4], 3: [3, 4, 3]}[nd]]
    w = np.array(de_bruijn(len(p['tok']), 3))
    cells = list(np.ndindex(*n))
    kinds = ['p'] + bcsets(nd, prob)[:1]
    dxs = [1., 0.5, 0.75][:nd]
    sets = []
    for c, cell in enumerate(cells):
        if nd == 3 and not th and (c + h) % 6:
            continue
        if nd == 2 and ng > 4 and not th and (c + h) % 3:
            continue
        for dev in ((0.5, 1.5) if nd == 1 or th else ((0.5, 1.5)[c % 2],)):
            idx = np.roll(w, c + h)[:int(np.prod(n))] if len(w) >= np.prod(n) else np.resize(np.roll(w, c + h), int(np.prod(n)))
            capa = np.full(n, 1.); capa[cell] = dev
            sets.append((idx.reshape(n), capa, kinds[c % len(kinds)]))
            if th and nd == 1:
                for cell2 in cells[c + 1:]:
                    capa2 = capa.copy(); capa2[cell2] = 2.
                    sets.append((idx.reshape(n), capa2, kinds[c % len(kinds)]))
    var = 0.5 + 0.25 * ((np.arange(np.prod(n)) * 5 + h) % 7 % 4).reshape(n)
    idx = np.resize(np.roll(w, h), int(np.prod(n))).reshape(n)
    for kd in kinds:
        sets.append((idx, var, kd))
    if nd == 1:
        big = np.array(de_bruijn(len(p['tok']), 4))
        sets.append((big, 0.5 + 0.25 * ((np.arange(len(big)) * 5) % 7 % 4), 'p'))
    for idx, capa, kd in sets:
        bad = compare(item, idx, capa, dxs, kd)
        for sig, msg in bad:
            if sig == 'skip':
                continue
            ctx.fail('%dd-%s' % (nd, sig), 'capacity %s data %s sides %s: %s' % (np.round(capa, 3).tolist() if capa.size < 40 else 'varying', idx.tolist() if idx.size < 40 else '', kd, msg))
            return
        ctx.state(str(item), capa.tobytes(), kd); ctx.trans(int(capa.size)); ctx.trace()
    ctx.outcome('pos%d-%s' % (nd, o['fam']))
    gc.collect()


def const(item, ctx):
    """Constant capacity c: the same as time scaled by 1/c; the position of the capacity among
    the aux fields is immaterial."""
    prob, o = item['prob'], item['o']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    h = hash_(str(item))
    ng = S.ghost(o)
    sharp = o['fam'] == 'sharp'
    w = np.array(de_bruijn(len(p['tok']), 3))
    n = {1: [len(w)], 2: [max(6, ng), max(5, ng)], 3: [max(4, ng), max(3, ng), max(5, ng)]}[nd]
    idx = np.resize(np.roll(w, h), int(np.prod(n))).reshape(n)
    dx = [1., 0.5, 0.75][:nd]
    dt = (0.2 if sharp else (0.9 if o.get('split', nd == 1) else 0.4)) * min(dx) / p['smax']
    nat = len(p['tok'][0][1])
    up = [a * b for a, b in zip(n, dx)]
    bc = 'p' if h % 2 else 'e'

    def go(capa, at, extra, dt, adapt=None):
        q, aux = P.fields(prob, idx)
        over = dict(o)
        if capa is not None:
            fields = [] if aux is None else list(aux)
            junk = [np.full(n, 7. + k) + 0.1 * idx for k in range(extra)]
            fields = fields + junk
            fields.insert(at, np.broadcast_to(capa, n))
            aux = np.array(fields)
            over['capa'] = at
        sp = P.spec(prob, n, up=up, kern=item['kern'], bc=bc, **over)
        if adapt is None:
            sp.update(dt=dt, dtv=False, cfl_max=1e9, cfl_des=1e9)
        else:
            sp.update(dt=dt, dtv=True, cfl_max=0.5, cfl_des=0.4)
        solver, sol = build(sp, q, aux)
        if adapt is None:
            solver.evolve_to_time(sol)
            st = [float(solver.cfl.get_cached_max())]
        else:
            s = solver.evolve_to_time(sol, adapt)
            st = [s['cflmax'], s['numsteps'], s['dtmin'], s['dtmax']]
        if aux is not None:
            ctx.expect(np.array_equal(sol.state.aux, aux), 'aux', 'aux fields changed')
        return sol.state.q.copy(), st

    tol = 1e-9 if sharp else 1e-12
    dbl = nd == 3 and not sharp and not o.get('split', True) and o.get('trans', 0) % 10 > 0
    ref, c0 = go(None, 0, 0, dt)
    if np.isfinite(ref).all():
        for c in (0.5, 2., 3.):
            got, c1 = go(c, nat, 0, dt * c)
            if not close(got, ref, tol):
                # known finding: the double transverse terms of the 3D method leave out one capacity factor;
                # anything else than exactly that is reported under another signature
                known = dbl and not compare(item, idx, np.full(n, c), dx, bc)
                ctx.fail('3d-constant-double-transverse' if known else '%dd-constant' % nd, 'capacity %r differs from scaled time step by %r' % (c, maxdiff(got, ref)))
            ctx.expect(close(c1, c0, 1e-12), '%dd-constant-cfl' % nd, 'capacity %r: Courant number %r, not %r' % (c, c1, c0))
            ctx.trans()
    if prob not in ('eul2', 'eul3', 'swb2'):
        ra, sa = go(None, 0, 0, dt * 0.3, adapt=4 * dt)
        if np.isfinite(ra).all():
            cc = 1. if dbl else 2.
            got, s1 = go(cc, nat, 0, dt * 0.3 * cc, adapt=4 * dt * cc)
            s1 = [s1[0], s1[1], s1[2] / cc, s1[3] / cc]
            ctx.expect(close(got, ra, 1e-7 if sharp else 1e-10), '%dd-adaptive' % nd, 'adaptive steps, capacity %r: differs by %r' % (cc, maxdiff(got, ra)))
            ctx.expect(close(s1, sa, 1e-9), '%dd-adaptive-status' % nd, 'adaptive steps, capacity %r: %s, not %s (cflmax, numsteps, dtmin/c, dtmax/c)' % (cc, s1, sa))
            ctx.trans()
    var = 0.5 + 0.25 * ((np.arange(np.prod(n)) * 5 + h) % 7 % 4).reshape(n)
    dtv = dt * 0.5
    base, c0 = go(var, nat, 0, dtv)
    if np.isfinite(base).all():
        for extra in (0, 1, 2, 3):
            for at in range(nat, nat + extra + 1):
                got, c1 = go(var, at, extra, dtv)
                ctx.expect(np.array_equal(got, base) or close(got, base, tol), '%dd-index' % nd, 'capacity at aux index %d of %d: solution differs by %r' % (at, nat + extra + 1, maxdiff(got, base)))
                ctx.expect(close(c1, c0, 1e-12), '%dd-index-cfl' % nd, 'capacity at aux index %d of %d: Courant number %r, not %r' % (at, nat + extra + 1, c1, c0))
                ctx.trans()
                ctx.state(str(item), extra, at)
    ctx.trace()
    ctx.outcome('const%d-%s' % (nd, o['fam']))
    gc.collect()
