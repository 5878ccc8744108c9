"""C07: Python and Fortran kernels compute the same solution."""
import gc, itertools
import numpy as np
from .common import build, get_rp, close, maxdiff, de_bruijn
from . import wp, sp as SPR, problems as P
from .c08 import limsets, hash_

ID = 'C07'
CHUNKS = 256
ASSUMPTIONS = ['besides the Python Riemann solvers of clawpack.riemann, the Fortran Riemann solvers are offered to the Python kernel through a '
               'wrapper, so that both kernels use the same Riemann solver for every 1D problem; Riemann solvers are trusted']
BOUNDS = {'quick': '12 1D problems; classic order 1 and 2 with every combination of limiters 0-4 per family, SharpClaw WENO5 component- and wave-based, Euler/SSP22/SSP33/SSP104/RK; '
                   'f-waves and waves; with and without capacity; data: all words of length 5 (classic) or 6 (SharpClaw) over 3-4 states; periodic, extrapolation, wall and custom sides, every grid size 2-6; '
                   'fixed and adaptive steps',
          'thorough': 'words one longer, all integrators with all problems'}
PROBS = [k for k, p in P.PROBLEMS.items() if p['nd'] == 1]
ITG = ['Euler', 'SSP22', 'SSP33', 'SSP104', 'RK']
RKC = dict(a=[[0, 0, 0], [0.5, 0, 0], [0.25, 0.25, 0]], b=[0.25, 0.25, 0.5], c=[0., 0.5, 0.5])


def wrapped(prob, nwaves, naux):
    p = P.PROBLEMS[prob]
    from clawpack import riemann
    mod = getattr(riemann, p['rp'])
    neqn = len(p['tok'][0][0])
    rp = wp.RP(mod, 1, neqn, nwaves, naux, P.spec(prob, [1])['pd'])

    def solve(q_l, q_r, aux_l, aux_r, problem_data):
        n = q_l.shape[1]
        if naux:
            aL, aR = np.asarray(aux_l)[:, :n], np.asarray(aux_r)[:, :n]
        else:
            aL = aR = None
        # the Fortran solvers take at least a few interfaces: all calls go through sp.riem
        w, s, am, ap = SPR.riem(rp, 1, np.asarray(q_l), np.asarray(q_r), aL, aR)
        return w.copy(), s.copy(), am.copy(), ap.copy()
    return solve


def items(tier):
    th = tier == 'thorough'
    out = []
    for prob in PROBS:
        p = P.PROBLEMS[prob]
        for own in ([0, 1] if p['rp'] in P.PYRP else [0]):       # own: the Python Riemann solver of the package
            for capa in (0, 1):
                if capa and own == 0 and p['rp'] in P.PYRP and not th:
                    continue
                out.append(dict(prob=prob, own=own, capa=capa, o=dict(fam='classic', order=1, lim=[0])))
                ls = limsets(prob, True, (0, 1, 2, 3, 4))
                if p['rp'] in P.PYRP and own == 0 and not th:
                    ls = ls[:5]
                for l in ls:
                    out.append(dict(prob=prob, own=own, capa=capa, o=dict(fam='classic', order=2, lim=l)))
                if p.get('sharp') is not False:
                    for cd in (0, 1):
                        h = hash_(prob, capa, cd)
                        for n, itg in enumerate(ITG):
                            if th or n == 0 or (n + h) % 4 == 0:
                                o = dict(fam='sharp', lim_type=2, weno=5, chard=cd, itg=itg)
                                out.append(dict(prob=prob, own=own, capa=capa, o=o))
    return out


def custom(solver_states):
    vals = np.asarray(solver_states)

    def lower(state, dim, t, qbc, auxbc, num_ghost):
        for k in range(num_ghost):
            qbc[:, k] = vals[k % len(vals)]

    def upper(state, dim, t, qbc, auxbc, num_ghost):
        for k in range(num_ghost):
            qbc[:, -1 - k] = vals[(k + 1) % len(vals)]
    return lower, upper


def run(item, ctx):
    prob, o = item['prob'], dict(item['o'])
    p = P.PROBLEMS[prob]
    th = ctx.tier == 'thorough'
    if o.get('itg') == 'RK':
        o.update(RKC)
    k = len(p['tok'])
    sharp = o['fam'] == 'sharp'
    ng = 3 if sharp else 2
    L = (6 if sharp else 5) + (1 if th and k < 4 else 0)
    w = np.array(de_bruijn(k, L))
    short = np.array(de_bruijn(k, 3))
    runs = []                  # data, Courant, dx, sides, steps or None (adaptive)
    dtf = (0.2,) if sharp else (0.5, 1.)
    for f in dtf:
        runs.append((w, f, 1., [['p', 'p']], 1))
    runs.append((short, dtf[0], 0.5, [['p', 'p']], 4))
    wall = len(p['tok'][0][0]) > 1
    sides = [['e', 'e'], ['p', 'p'], ['c', 'c'], ['c', 'e']] + ([['w', 'w'], ['w', 'e'], ['e', 'w']] if wall else [['e', 'c']])
    for b in sides:
        for m in range(ng, 7):
            runs.append((short[m:][:m], dtf[0], 0.5, [b], 3))
    runs.append((short, dtf[0], 0.5, [['p', 'p']], None))
    runs.append((short, dtf[0], 0.5, [['e', 'e']], None))
    tokq = np.array([t[0] for t in p['tok']])
    for n, (idx, f, dx, bc, steps) in enumerate(runs):
        capa = None
        if item['capa']:
            capa = 0.5 + 0.25 * (((np.arange(len(idx)) * 5) % 7) % 4)
        q, aux = P.fields(prob, idx, capa)
        naux = 0 if aux is None else aux.shape[0]
        dt = f * dx * (1. if capa is None else capa.min()) / p['smax']
        res = []
        for kern in ('Fortran', 'Python'):
            over = dict(o)
            if capa is not None:
                over['capa'] = naux - 1
            # periodic copies of aux values would be wrong at custom sides: extrapolate there
            abc = [['e' if x == 'c' else x for x in b] for b in bc]
            sp = P.spec(prob, [len(idx)], up=[len(idx) * dx], kern=kern, bc=bc, abc=abc, **over)
            if kern == 'Python' and not item['own']:
                sp['neqn'] = q.shape[0]
                sp['nwaves'] = nwaves
                sp['rp'] = wrapped(prob, nwaves, naux)
            if steps is None:
                sp.update(dt=dt * 0.3, dtv=True, cfl_max=0.5 if sharp else 1., cfl_des=0.4 if sharp else 0.9)
            else:
                sp.update(dt=dt, dtv=False, cfl_max=1e9, cfl_des=1e9)
            solver, sol = build(sp, q, aux)
            if kern == 'Fortran':
                nwaves = solver.num_waves
            lo, up = custom(tokq)
            if 'c' in bc[0][0]:
                solver.user_bc_lower = lo
            if 'c' in bc[0][1]:
                solver.user_bc_upper = up
            trail = []
            if steps is None:
                for tend in (3. * dt, 5.5 * dt):
                    st = solver.evolve_to_time(sol, tend)
                    trail.append((sol.state.q.copy(), [st['cflmax'], st['dtmin'], st['dtmax'], st['numsteps']]))
            else:
                for _ in range(steps):
                    solver.evolve_to_time(sol)
                    trail.append((sol.state.q.copy(), [float(solver.cfl.get_cached_max())]))
            res.append(trail)
            solver = sol = None
        for s, (a, b) in enumerate(zip(*res)):
            if not np.isfinite(a[0]).all():
                if np.isfinite(b[0]).all():
                    ctx.fail('nan', 'data set %d sides %s: the Fortran kernel gives NaN, the Python kernel does not' % (n, bc))
                break
            big = np.max(np.abs(a[0])) > 1e3
            tol = (1e-9 if sharp else 1e-12) * (100 if s else 1)
            if not close(b[0], a[0], tol) and not big:
                e = int(np.argmax(np.abs(a[0] - b[0]).max(0)))
                ctx.fail('q', 'data set %d sides %s stage %d: cell %d of %d is %s with the Python kernel, %s with Fortran' % (n, bc, s, e, a[0].shape[1], b[0][:, e], a[0][:, e]))
                return
            if not close(b[1], a[1], 1e-9) and not big:
                ctx.fail('cfl', 'data set %d sides %s stage %d: Courant number / status %s with the Python kernel, %s with Fortran' % (n, bc, s, b[1], a[1]))
                return
            ctx.trans(len(idx))
        ctx.state(str(item), n); ctx.trace()
    ctx.outcome('%s-%s-%s' % (prob, o['fam'], item['capa']))
    if sharp:
        gc.collect()
