"""C20: aux fields reach the Riemann solvers cell by cell and stay unchanged."""
import copy, gc
import numpy as np
from .common import build, close, maxdiff, de_bruijn, get_rp
from . import wp, sp as SPR, schemes as S, problems as P
from .c08 import hash_

ID = 'C20'
CHUNKS = 256
ASSUMPTIONS = ['Riemann solvers of clawpack.riemann are trusted (the reference calls them too)']
BOUNDS = {'quick': '14 variable-coefficient problems in 1D-3D x every scheme (and both kernels where a Python Riemann solver exists): deviating coefficients in every single cell (3D: every fourth), '
                   'fully varying coefficients, with q data over all tokens; aux boundary conditions chosen independently of those for q (periodic/extrapolation/wall/custom); '
                   'one step compared with the reference cell by cell; locality of every single-cell change; aux, problem_data and grid compared before and after runs with sources, gauges, output and adaptive steps',
          'thorough': 'every cell in 3D, every kind of deviation'}
PROBS = ['col', 'vac', 'tfw', 'nel', 'vad2', 'fad2', 'vac2', 'swb2', 'vad3', 'fad3', 'vac3']


def schemes(prob, nd):
    p = P.PROBLEMS[prob]
    out = [o for o in S.classic(nd, lims=(0, 1, 2, 3, 4) if nd < 3 else (0, 2, 3)) if not (p.get('notrans') and o.get('trans'))]
    out += [o for o in S.sharp(nd, weno=(5, 7, 11) if nd == 1 else (5, 7), lims=(1, 2, 3, 4) if nd < 3 else (2, 4)) if S.ghost(o) <= p.get('maxng', 99)]
    return out


def items(tier):
    out = []
    for prob in PROBS:
        nd = P.PROBLEMS[prob]['nd']
        for o in schemes(prob, nd):
            out.append(dict(k='pos', prob=prob, o=o, kern='Fortran'))
            out.append(dict(k='same', prob=prob, o=o, kern='Fortran'))
    for o in S.classic(1) + [dict(fam='sharp', itg='Euler', lim_type=2, weno=5, chard=c) for c in (0, 1)]:
        out.append(dict(k='pos', prob='vcp', o=o, kern='Python'))
        out.append(dict(k='same', prob='vcp', o=o, kern='Python'))
    return sorted(out, key=lambda i: -problem(i['prob'])['nd'])


VCP = dict(nd=1, rp='vc_advection_1D', tok=[[[0.], [1.]], [[1.], [0.5]], [[3.], [-1.]]], smax=1., cons=False)


def problem(prob):
    return VCP if prob == 'vcp' else P.PROBLEMS[prob]


def fld(prob, idx, part):
    t = np.array([x[part] for x in problem(prob)['tok']], dtype=float)
    return np.ascontiguousarray(np.moveaxis(t[np.asarray(idx)], -1, 0))


def mk(item, n, dx, q, aux, bc, abc, fixed, **over):
    prob, o = item['prob'], item['o']
    p = problem(prob)
    sp = dict(rp=p['rp'], n=list(n), pd=dict(p.get('pd', {})), up=[a * b for a, b in zip(n, dx)], bc=bc, abc=abc, kern=item['kern'])
    if p.get('fwave'):
        sp['fwave'] = True
    sp.update(o)
    sp.update(over)
    if fixed is not None:
        sp.update(dt=fixed, dtv=False, cfl_max=1e9, cfl_des=1e9)
    solver, sol = build(sp, q, aux)
    return solver, sol, sp


def custom_aux(vals):
    def lower(state, dim, t, qbc, auxbc, num_ghost):
        a = np.moveaxis(auxbc, 1 + 'xyz'.index(dim.name), 1)
        for k in range(num_ghost):
            a[:, k] = vals[k % len(vals)].reshape([-1] + [1] * (a.ndim - 2))

    def upper(state, dim, t, qbc, auxbc, num_ghost):
        a = np.moveaxis(auxbc, 1 + 'xyz'.index(dim.name), 1)
        for k in range(num_ghost):
            a[:, -1 - k] = vals[(k + 1) % len(vals)].reshape([-1] + [1] * (a.ndim - 2))
    return lower, upper


def pad_aux(aux, abc, ng, vals):
    """Extend aux dimension by dimension (the order in which the sides are documented to be filled)."""
    nd = aux.ndim - 1
    n = aux.shape[1:]
    out = np.zeros((aux.shape[0],) + tuple(m + 2 * ng for m in n))
    out[(slice(None),) + tuple(slice(ng, ng + m) for m in n)] = aux
    for d in range(nd):
        a = np.moveaxis(out, d + 1, 1)
        m = n[d]
        for k in range(ng):
            for side, kind in enumerate(abc[d]):
                g = ng - 1 - k if side == 0 else ng + m + k          # k-th ghost cell outward
                if kind == 'p':
                    src = g + m if side == 0 else g - m
                elif kind == 'e':
                    src = ng if side == 0 else ng + m - 1
                elif kind == 'w':
                    src = ng + k if side == 0 else ng + m - 1 - k
                else:
                    pos = g if side == 0 else 2 * ng + m - 1 - g
                    v = vals[pos % len(vals)] if side == 0 else vals[(pos + 1) % len(vals)]
                    a[:, g] = v.reshape([-1] + [1] * (a.ndim - 2))
                    continue
                a[:, g] = a[:, src]
    return out


def one_step(item, n, dx, q, aux, bc, abc, dt, vals, reference=True):
    """(implementation, reference or None, (cfl, ref cfl), aux unchanged)"""
    solver, sol, sp = mk(item, n, dx, q, aux, bc, abc, dt)
    if any('c' in x for x in abc):
        solver.user_aux_bc_lower, solver.user_aux_bc_upper = custom_aux(vals)
    solver.evolve_to_time(sol)
    got = sol.state.q.copy()
    cfl = float(solver.cfl.get_cached_max())
    same = np.array_equal(sol.state.aux, aux)
    ref = rc = None
    if reference:
        o = item['o']
        ng = solver.num_ghost
        rp = wp.RP(get_rp(sp['rp'], item['kern']), len(n), solver.num_eqn, solver.num_waves, aux.shape[0], sp['pd'])
        from .c05 import reference as bcref
        qb = bcref(q, bc, ng, solver.reflect_index)
        ab = pad_aux(aux, abc, ng, vals)
        if o['fam'] == 'sharp':
            d, rc = SPR.dq(rp, qb, ab, ng, dx, dt, {k: v for k, v in o.items() if k not in ('fam', 'itg')}, bool(solver.fwave))
            ref = q + d
        else:
            ref, rc = wp.step(rp, qb, ab, dx, dt, order=o['order'], lims=o['lim'], fwave=bool(solver.fwave), split=o.get('split', True), trans=o.get('trans', 0))
    return got, ref, (cfl, rc), same


def radius(o):
    if o['fam'] == 'classic':
        return 1 if o['order'] == 1 else 2
    return S.ghost(o)


def run(item, ctx):
    return (pos if item['k'] == 'pos' else same)(item, ctx)


def geometry(item):
    p = problem(item['prob'])
    nd = p['nd']
    ng = S.ghost(item['o'])
    n = [max(x, ng) for x in {1: [8], 2: [6, 5], 3: [4, 3, 5]}[nd]]
    dx = [1., 0.5, 0.75][:nd]
    sharp = item['o']['fam'] == 'sharp'
    dt = (0.15 if sharp else (0.8 if item['o'].get('split', nd == 1) else 0.3)) * min(dx) / p['smax']
    return p, nd, ng, n, dx, dt


def pos(item, ctx):
    p, nd, ng, n, dx, dt = geometry(item)
    o, prob = item['o'], item['prob']
    th = ctx.tier == 'thorough'
    sharp = o['fam'] == 'sharp'
    h = hash_(str(item))
    w = np.array(de_bruijn(len(p['tok']), 3))
    tot = int(np.prod(n))
    vals = np.array([t[1] for t in p['tok']])
    A = [[['p', 'p']] * nd, [['e', 'e'], ['w', 'w'], ['e', 'w']][:nd], [['c', 'c']] * nd, [['w', 'c'], ['p', 'p'], ['c', 'e']][:nd]]
    B = [[['p', 'p']] * nd, [['e', 'e']] * nd, [['p', 'p'], ['e', 'e'], ['p', 'p']][:nd]]
    cells = list(np.ndindex(*n))
    R = radius(o)
    base_aux = np.full(n, 0)
    tol = 1e-9 if sharp else 1e-12
    cache = {}
    for c, cell in enumerate([None] + cells):
        if cell is not None and not th and ((nd == 3 and (c + h) % 4) or (nd == 2 and ng > 3 and (c + h) % 2)):
            continue
        for dev in ((1, 2) if nd == 1 or th else (1 + (c + h) % 2,)):
            qi = np.resize(np.roll(w, h), tot).reshape(n)
            ai = base_aux.copy()
            if cell is None:
                ai = np.resize(np.roll(w, h + 3), tot).reshape(n)
            else:
                ai[cell] = dev
            bc, abc = B[(c + h) % 3], A[(c + h) % 4]
            if prob == 'swb2':
                qi = ai                              # depth and bathymetry belong together
            q, aux = fld(prob, qi, 0), fld(prob, ai, 1)
            use_ref = True
            got, ref, (c1, c0), ok = one_step(item, n, dx, q, aux, bc, abc, dt, vals, use_ref)
            ctx.expect(ok, 'aux', 'aux values changed by a step')
            fin = np.isfinite(ref)
            if fin.all():
                if not close(got, ref, tol):
                    e = np.unravel_index(np.argmax(np.abs(got - ref)), got.shape)
                    ctx.fail('%dd-q' % nd, 'aux deviating in cell %s, sides q %s aux %s: cell %s component %d is %r, reference %r' % (cell, bc, abc, tuple(int(x) for x in e[1:]), e[0], float(got[e]), float(ref[e])))
                    return
                if not (nd > 1 and not sharp and o.get('split')):
                    ctx.expect(abs(c1 - c0) <= 1e-9 * max(1., c0), '%dd-cfl' % nd, 'aux deviating in cell %s: Courant number %r, reference %r' % (cell, c1, c0))
            # locality, away from the boundaries' influence
            if cell is not None and prob != 'swb2' and ((c + h) % 4 == 0 or nd == 1):
                key = str((bc, abc))
                if key not in cache:
                    cache[key] = one_step(item, n, dx, q, fld(prob, base_aux, 1), bc, abc, dt, vals, False)[0]
                diff = np.abs(got - cache[key]).max(0) > 1e-13
                per = [b[0] == 'p' or a[0] == 'p' for b, a in zip(bc, abc)]
                for x in np.argwhere(diff):
                    for d in range(nd):
                        dist = abs(int(x[d]) - cell[d])
                        if per[d]:
                            dist = min(dist, n[d] - dist)
                        # a boundary cell also determines ghost cells: these are nearer to the boundary than itself
                        if dist > R:
                            ctx.fail('%dd-locality' % nd, 'aux deviating in cell %s changes cell %s' % (cell, tuple(int(v) for v in x)))
                            return
            ctx.state(str(item), c, dev); ctx.trans(tot); ctx.trace()
    ctx.outcome('pos%d-%s' % (nd, o['fam']))
    gc.collect()


def same(item, ctx):
    """Everything the user set is as before after runs that use all features."""
    from clawpack import pyclaw
    p, nd, ng, n, dx, dt = geometry(item)
    o, prob = item['o'], item['prob']
    sharp = o['fam'] == 'sharp'
    h = hash_(str(item))
    tot = int(np.prod(n))
    ai = np.resize(np.roll(np.array(de_bruijn(len(p['tok']), 3)), h), tot).reshape(n)
    q, aux = fld(prob, ai, 0), fld(prob, ai, 1)
    for mode in range(4):
        junk = np.concatenate([aux, 3. + 0.1 * aux[:1], 1. + 0.25 * (np.arange(tot).reshape(n) % 3)[None]]) if mode % 2 else aux
        over = dict(cfl_max=0.5, cfl_des=0.4, dt=dt * 0.3, dtv=True)
        if mode % 2:
            over['capa'] = junk.shape[0] - 1
        bc = [['p', 'p']] * nd if mode < 2 else [['e', 'e']] * nd
        abc = [['p', 'p']] * nd if mode != 2 else [['w', 'w']] * nd
        solver, sol, sp = mk(item, n, dx, q, junk, bc, abc, None, **over)
        st = sol.state
        st.problem_data['extra'] = [1, 2]
        st.grid.add_gauges([[d_ * m / 3. + 0.01 for d_, m in zip(dx, n)]])
        st.keep_gauges = True
        if not sharp:
            solver.step_source = lambda s, state, dt: None
            solver.source_split = 1 + mode % 2
        else:
            solver.dq_src = lambda s, state, dt: 0. * state.q
        pd = copy.deepcopy(st.problem_data)
        before = (st.grid.lower, st.grid.upper, st.grid.num_cells, [c.copy() for c in st.grid.c_centers], [np.array(g) for g in st.grid.gauges], st.index_capa, st.num_eqn, st.num_aux)
        if mode == 3:
            claw = pyclaw.Controller()
            claw.solution, claw.solver = sol, solver
            claw.tfinal, claw.num_output_times = 3 * dt, 2
            claw.keep_copy, claw.verbosity = True, 0
            claw.outdir = 'o%d' % (h % 1000)
            claw.write_aux_always = True
            claw.overwrite = True
            claw.run()
            st = claw.solution.state
            for f, fr in enumerate(claw.frames):
                ctx.expect(np.array_equal(fr.state.aux, junk), 'frame-aux', 'aux values of stored frame %d differ' % f)
                ctx.expect(sorted(map(str, fr.state.problem_data.items())) == sorted(map(str, pd.items())), 'frame-data', 'problem data of stored frame differ')
        else:
            st.grid.setup_gauge_files('g%d' % (h % 1000))
            for t in (1.5 * dt, 2.5 * dt):
                solver.evolve_to_time(sol, t)
        after = (st.grid.lower, st.grid.upper, st.grid.num_cells, [c.copy() for c in st.grid.c_centers], [np.array(g) for g in st.grid.gauges], st.index_capa, st.num_eqn, st.num_aux)
        if np.isfinite(st.q).all():
            ctx.expect(np.abs(st.q - q).max() > 0 or prob in (), 'moved', 'nothing was computed')
        ctx.expect(np.array_equal(st.aux, junk), 'aux', 'mode %d: aux values changed by the run' % mode)
        ctx.expect(sorted(pd) == sorted(st.problem_data) and all(repr(pd[k]) == repr(st.problem_data[k]) for k in pd), 'problem-data', 'mode %d: problem data %s became %s' % (mode, pd, st.problem_data))
        ctx.expect(repr(before) == repr(after), 'grid', 'mode %d: grid changed: %s -> %s' % (mode, before, after))
        ctx.trans(); ctx.state(str(item), mode)
        setattr(solver, 'dq_src' if sharp else 'step_source', None)
        solver = sol = st = None
    ctx.trace()
    ctx.outcome('same%d-%s' % (nd, o['fam']))
    gc.collect()
