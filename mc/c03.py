"""C03: Courant number reported = the true maximum; accepted steps within limits; step size selection."""
import itertools
import numpy as np
from . import timeline as TL
from .common import upto, build, fixed_steps, close
import gc

ID = 'C03'
CHUNKS = 256
ASSUMPTIONS = ['multistep integrators: only the bounds on the step size and the time are judged, their limit applies to the starting steps',
               'Courant number of an interface with positive (negative) speed refers to the cell on its right (left)']
BOUNDS = {'quick': 'step-size automaton: all speed scripts of length <=4 over {1,8,64,-2,0} x dt_max {1, 1/4} x 28 configurations, and the step size changed by the user between calls; '
                   'Courant number: every position x sign x direction of one fast cell, 1D-3D, all kernels, with and without capacity, all boundary types',
          'thorough': 'scripts of length <=5, more grid sizes and shapes'}
ALPH = [1., 8., 64., -2., 0.]


def items(tier):
    th = tier == 'thorough'
    out = []
    for name, cfg in TL.CONFIGS.items():
        lmm = 'LMM' in cfg.get('itg', '')
        alph = [a for a in ALPH if a or not lmm]
        L = 4 if (cfg['fam'] == 'classic') else 3
        for dtm in (1., 0.25):
            for first in alph:
                out.append(dict(k='auto', cfg=name, dtm=dtm, first=first, L=L + th, alph=alph))
        for f in (0.25, 4.):
            for first in alph:
                out.append(dict(k='auto', cfg=name, dtm=1., first=first, L=2 + th, alph=alph, setdt=f))
        out.append(dict(k='fixed', cfg=name, L=4 + th))
        out.append(dict(k='near', cfg=name))
    for sp in field_specs(th):
        out.append(sp)
    return out


# ---------------------------------------------------------------- automaton
def run_auto(item, ctx):
    cfg = TL.CONFIGS[item['cfg']]
    classic = cfg['fam'] == 'classic'
    lmm = 'LMM' in cfg.get('itg', '')
    cmax, cdes = (0.25, 0.125) if lmm else (1.0, 0.5)
    sp = TL.spec(item['cfg'], cfl_max=cmax, cfl_des=cdes, dt=0.25, dt_max=item['dtm'])
    if not classic and not lmm and sp['itg'] != 'Euler':
        sp['each'] = True
    for rest in upto(item['alph'], item['L'] - 1, 0):
        script = (item['first'],) + rest
        if len(script) > 1 and script[-1] == 1.:
            continue
        with TL.Timeline(sp, script) as tl:
            bounds = []
            changed = set()             # attempts before which the user has changed solver.dt
            for c, tend in enumerate((1.75, None, None, 4.0)):
                k0 = len(tl.attempts)
                if item.get('setdt') and c in (1, 3):
                    tl.solver.dt *= item['setdt']
                    changed.add(k0)
                t = float(tl.sol.t)
                if tend is not None and tend <= t:
                    tend = t + 1.25
                err = tl.evolve(tend)
                if err:
                    ctx.fail('error', err)
                    break
                bounds += [tend] * (len(tl.attempts) - k0)
            rates = [[tl.rate(v) for v in a['speeds']] for a in tl.attempts]
            st = dict(tl.solver.status)
            prev = None
            his = []
            for k, a in enumerate(tl.attempts):
                ctx.trans()
                rej = a['t1'] == a['t'] and a['n1'] == a['n0']
                cfl = max(rates[k]) * a['dt']
                ctx.expect(a['dt'] <= item['dtm'] * (1 + 1e-13), 'dt-max', 'step %r > dt_max %r' % (a['dt'], item['dtm']))
                ctx.expect(a['dt'] > 0, 'dt-sign', 'dt %r' % a['dt'])
                tend = bounds[k]
                if tend is not None:
                    ctx.expect(a['t'] + a['dt'] <= tend + 1e-12, 'dt-past-end', 'dt %r from %r to %r' % (a['dt'], a['t'], tend))
                if lmm:
                    continue
                # a retried SharpClaw step may still count the wave speeds met in the rejected attempt
                hi = max(cfl, prev[2] / prev[1] * a['dt']) if (prev is not None and prev[0] and not classic) else cfl
                ctx.expect(cfl - 1e-11 * max(1, cfl) <= a['cfl'] <= hi + 1e-11 * max(1, hi), 'cfl-value', 'reported %r, true %r (attempt %d, speeds %s, dt %r)' % (a['cfl'], cfl, k, a['speeds'], a['dt']))
                if (cfl > cmax) == (hi > cmax):
                    ctx.expect(rej == (cfl > cmax), 'accept-rule', 'Courant number %r, limit %r, %s' % (cfl, cmax, 'rejected' if rej else 'accepted'))
                cfl = min(max(cfl, a['cfl']), hi)
                his.append(cfl)
                # step size selection
                if k in changed:
                    prev = (rej, a['dt'], cfl)
                    continue
                if prev is None:
                    want = 0.25
                elif classic or prev[0]:
                    want = min(item['dtm'], prev[1] * cdes / prev[2]) if prev[2] > 0 else item['dtm']
                else:
                    want = min(item['dtm'], cdes / rates[k][0]) if rates[k][0] > 0 else item['dtm']
                if tend is not None:
                    want = min(want, tend - a['t'])
                ctx.expect(abs(a['dt'] - want) <= 1e-11 * want, 'dt-choice', 'dt %r, expected %r (attempt %d after %s)' % (a['dt'], want, k, prev))
                prev = (rej, a['dt'], cfl)
            acc = [a for a in tl.attempts if a['t1'] != a['t']]
            if acc and not lmm:
                cm = max(h for h, a in zip(his, tl.attempts) if a['t1'] != a['t'])
                ctx.expect(abs(st['cflmax'] - cm) <= 1e-11, 'status-cflmax', 'status %r, true %r' % (st['cflmax'], cm))
            if acc:
                ctx.expect(abs(st['dtmin'] - min(a['dt'] for a in acc)) <= 1e-12, 'status-dtmin', 'status %r, true %r' % (st['dtmin'], min(a['dt'] for a in acc)))
                ctx.expect(abs(st['dtmax'] - max(a['dt'] for a in acc)) <= 1e-12, 'status-dtmax', 'status %r, true %r' % (st['dtmax'], max(a['dt'] for a in acc)))
                ctx.expect(st['numsteps'] == len(acc), 'status-numsteps', '%r vs %r' % (st['numsteps'], len(acc)))
            ctx.trace()
            pat = ''.join('r' if a['t1'] == a['t'] else 'a' for a in tl.attempts)
            ctx.outcome('rejected=%d' % pat.count('r'))
            ctx.state(item['cfg'], item['dtm'], pat, tuple(round(a['dt'], 9) for a in tl.attempts[:6]))
            ctx.sample(dict(cfg=item['cfg'], script=script, pattern=pat))


def run_near(item, ctx):
    """Requests just beyond a whole number of steps of the largest size: the remainder is a step of its own, not an addition to the last one."""
    cfg = TL.CONFIGS[item['cfg']]
    for t0 in (0., 3.):
        for k in (1, 2, 3):
            for eps in (1e-2, 1e-3, 1e-5, 1e-7, 1e-9, 1e-11, -1e-2, -1e-5, -1e-9):
                sp = TL.spec(item['cfg'], cfl_max=0.25 if 'LMM' in cfg.get('itg', '') else 1.0, cfl_des=0.125, dt=0.25, dt_max=0.25, t0=t0)
                with TL.Timeline(sp, (), default=0.0625) as tl:
                    tend = t0 + k * 0.25 + eps
                    err = tl.evolve(tend)
                    dts = [a['dt'] for a in tl.attempts]
                    ctx.expect(err is None and float(tl.sol.t) == tend, 'near-end', 'request %r: err %s, t %r' % (tend, err, float(tl.sol.t)))
                    ctx.expect(max(dts) <= 0.25 * (1 + 1e-12), 'near-dt-max', 'request %r: steps %s' % (tend, dts))
                    ctx.expect(sum(d < 0.25 * (1 - 1e-12) for d in dts) <= 1, 'near-short', 'request %r: steps %s' % (tend, dts))
                    ctx.trans(len(dts)); ctx.trace(); ctx.state(item['cfg'], 'near', t0, k, eps)
    ctx.outcome('near')


def run_fixed(item, ctx):
    cfg = TL.CONFIGS[item['cfg']]
    lmm = 'LMM' in cfg.get('itg', '')
    if lmm:
        return
    sp = TL.spec(item['cfg'], cfl_max=1.0, cfl_des=0.5, dt=0.25, dtv=False)
    for script in upto([1., 4., -4., 4. * (1. + 2.**-40), -8.], item['L'], 1):
        with TL.Timeline(sp, script, default=0.5) as tl:
            err = tl.evolve(0.25 * len(script) + 0.5)
            bad = [k for k, v in enumerate(script) if tl.rate(v) * 0.25 > 1.0]
            if bad:
                ctx.expect(err is not None and len(tl.attempts) == bad[0] + 1 and abs(float(tl.sol.t) - 0.25 * bad[0]) < 1e-12,
                           'fixed-cfl', 'violation at step %d: err %s, %d attempts, t %r' % (bad[0], err, len(tl.attempts), float(tl.sol.t)))
            else:
                ctx.expect(err is None and all(abs(a['dt'] - 0.25) < 1e-12 for a in tl.attempts) and len(tl.attempts) == len(script) + 2,
                           'fixed-steps', 'err %s, dts %s' % (err, [a['dt'] for a in tl.attempts]))
            ctx.trans(len(tl.attempts)); ctx.trace()
            ctx.outcome('fixed-refused' if bad else 'fixed-ok')
            ctx.state(item['cfg'], 'fixed', script)


# ---------------------------------------------------------------- Courant number
def field_specs(th):
    out = []
    base = []
    for sp in (dict(rp='advection_color_1D', n=[5]), dict(rp='vc_advection_1D', kern='Python', n=[5]),
               dict(rp='advection_color_1D', n=[5], order=1), dict(rp='vc_advection_1D', kern='Python', n=[5], order=1),
               dict(fam='sharp', rp='advection_color_1D', n=[7]), dict(fam='sharp', rp='vc_advection_1D', kern='Python', n=[7]),
               dict(fam='sharp', rp='advection_color_1D', n=[5], lim_type=1), dict(fam='sharp', rp='advection_color_1D', n=[5], chard=1)):
        base.append(sp)
    for nn in ([4, 3], [3, 5]):
        for o in (1, 2):
            base.append(dict(rp='vc_advection_2D', n=nn, order=o, split=True))
            for tr in (0, 1, 2):
                base.append(dict(rp='vc_advection_2D', n=nn, order=o, split=False, trans=tr))
        base.append(dict(fam='sharp', rp='vc_advection_2D', n=nn))
    for nn in ([3, 4, 3],) + (([4, 3, 5],) if th else ()):
        for o in (1, 2):
            base.append(dict(rp='vc_advection_3D', n=nn, order=o, split=True))
            for tr in (0, 11, 22):
                base.append(dict(rp='vc_advection_3D', n=nn, order=o, split=False, trans=tr))
        base.append(dict(fam='sharp', rp='vc_advection_3D', n=nn))
    for sp in base:
        nd = len(sp['n'])
        for capa in (None, 0, nd):
            for bc in ('p', 'e', 'w'):
                if bc == 'w' and nd > 1 and not th:
                    continue
                out.append(dict(k='field', sp=sp, capa=capa, bc=bc))
    # systems: acoustics (two families), Euler (three families), Burgers
    for rp, kern, fam in (('acoustics_variable_1D', 'Fortran', 'classic'), ('acoustics_variable_1D', 'Fortran', 'sharp'),
                          ('vc_acoustics_2D', 'Fortran', 'classic'), ('vc_acoustics_2D', 'Fortran', 'sharp'),
                          ('vc_acoustics_3D', 'Fortran', 'classic'), ('vc_acoustics_3D', 'Fortran', 'sharp')):
        nd = {'1': 1, '2': 2, '3': 3}[rp[-2]]
        out.append(dict(k='acou', sp=dict(rp=rp, kern=kern, fam=fam, n=[5, 4, 3][:nd], bc='p')))
        if fam == 'classic' and nd > 1:
            out.append(dict(k='acou', sp=dict(rp=rp, kern=kern, fam=fam, n=[5, 4, 3][:nd], bc='p', split=False)))
    for rp, kern, fam, n in (('euler_with_efix_1D', 'Fortran', 'classic', [5]), ('euler_1D_py:euler_roe_1D', 'Python', 'classic', [5]),
                             ('euler_with_efix_1D', 'Fortran', 'sharp', [5]), ('euler_4wave_2D', 'Fortran', 'classic', [5, 4]),
                             ('euler_4wave_2D', 'Fortran', 'sharp', [5, 4])):
        out.append(dict(k='euler', sp=dict(rp=rp, kern=kern, fam=fam, n=n, bc='p')))
    out.append(dict(k='euler', sp=dict(rp='euler_4wave_2D', kern='Fortran', fam='classic', n=[5, 4], bc='p', split=False)))
    return out


DX = {1: [0.5], 2: [0.5, 2.0], 3: [0.5, 2.0, 1.0]}


def ghost(a, bc):
    mode = dict(p='wrap', e='edge', w='symmetric')[bc]
    return np.pad(a, [(1, 1)] * a.ndim, mode=mode)


def true_cfl(vel, cap, dx, dt, bc, style):
    """Largest Courant number over all interfaces bounding a cell of the domain."""
    nd = len(dx)
    best = 0.
    capg = None if cap is None else ghost(cap, bc)
    for d in range(nd):
        v = ghost(vel[d], bc)
        c = np.ones_like(v) if capg is None else capg
        v = np.moveaxis(v, d, 0); c = np.moveaxis(c, d, 0)
        # interior rows only in the other directions
        inner = (slice(None),) + (slice(1, -1),) * (nd - 1)
        v = v[inner]; c = c[inner]
        if style == 'edge':                    # speed stored at the lower edge of a cell
            s = v[1:]
        elif style == 'left':                  # speed of the left cell
            s = v[:-1]
        else:                                  # colour equation: left cell if negative, right cell if positive
            s = np.minimum(v[:-1], 0) + np.maximum(v[1:], 0)
        cf = np.maximum(np.maximum(s, 0) * dt / (dx[d] * c[1:]), np.maximum(-s, 0) * dt / (dx[d] * c[:-1]))
        best = max(best, float(cf.max()))
    return best


def style(sp):
    return 'color' if sp['rp'] == 'advection_color_1D' else 'left' if sp.get('kern') == 'Python' else 'edge'


def run_field(item, ctx):
    sp = dict(item['sp'])
    n = sp['n']
    nd = len(n)
    dx = DX[nd]
    up = [n[d] * dx[d] for d in range(nd)]
    dt = 0.25
    naux = nd + (1 if item['capa'] is not None else 0)
    order = list(range(naux))
    capidx = None
    if item['capa'] is not None:
        capidx = nd                         # the velocity components have to come first
        if nd == 1 and item['capa'] == 0:
            capidx = None
            return                          # 1D velocities live in aux[0]
        if item['capa'] == 0:
            return
    sp.update(lo=[0.] * nd, up=up, bc=item['bc'], abc=item['bc'], naux=naux)
    if capidx is not None:
        sp['capa'] = capidx
    if item['bc'] == 'w':
        sp['reflect0'] = True
    sp.pop('reflect0', None)
    q = TL.data(n)
    solver, sol = build(sp, q, np.zeros([naux] + n), dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
    if item['bc'] == 'w':
        solver.reflect_index = [0] * nd
    capas = [None] if capidx is None else ['far', 'at']
    for cell in itertools.product(*[range(m) for m in n]):
        for d in range(nd):
            for v in (4., -4.):
                for cp in capas:
                    vel = np.full([nd] + n, 0.125)
                    vel[(d,) + cell] = v
                    cap = None
                    if cp is not None:
                        cap = np.full(n, 2.0)
                        if cp == 'at':
                            cap[cell] = 0.25
                        else:
                            cap[tuple((c + (1 if k == d else 0)) % m for k, (c, m) in enumerate(zip(cell, n)))] = 0.25
                    st = sol.state
                    st.q[...] = q
                    st.aux[:nd] = vel
                    if cap is not None:
                        st.aux[capidx] = cap
                    if sp.get('fam') == 'sharp':
                        itg = sp.get('itg', 'SSP104')
                    solver.evolve_to_time(sol)
                    got = float(solver.cfl.get_cached_max())
                    want = true_cfl(vel, cap, dx, dt, item['bc'], style(sp))
                    ctx.trans(); ctx.state(str(item), cell, d, v, cp)
                    if abs(got - want) > 1e-12 * max(1, want):
                        ctx.fail('courant-number', 'fast cell %s direction %d speed %g: reported %r, true %r' % (cell, d, v, got, want), cap=cap)
    ctx.trace()
    ctx.outcome('field-%s' % item['sp']['rp'])
    del solver, sol, st
    gc.collect()


def run_acou(item, ctx):
    """Sound speed of one cell deviates: the Courant number is max c dt/dx, whichever cell it is."""
    sp = dict(item['sp'])
    n = sp['n']; nd = len(n)
    dx = DX[nd]
    sp.update(up=[n[d] * dx[d] for d in range(nd)])
    dt = 0.125
    sp.update(naux=2)
    q = np.zeros([nd + 1] + n)
    q[0] = TL.data(n)[0]
    solver, sol = build(sp, q, np.ones([2] + n), dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
    ic = 1
    for cell in itertools.product(*[range(m) for m in n]):
        c = np.full(n, 0.5); c[cell] = 3.
        sol.state.q[...] = q
        sol.state.aux[0] = 1.
        sol.state.aux[ic] = c
        solver.evolve_to_time(sol)
        got = float(solver.cfl.get_cached_max())
        want = 3. * dt / min(dx)
        ctx.trans(); ctx.state(str(item), cell)
        ctx.expect(abs(got - want) < 1e-12, 'courant-number', 'fast cell %s: reported %r, true %r' % (cell, got, want))
    ctx.trace(); ctx.outcome('acoustics')
    del solver, sol
    gc.collect()


def run_euler(item, ctx):
    """Uniform flow: Courant number is max(|u_d|+c)/dx_d dt, for every sign and direction of the flow."""
    sp = dict(item['sp'])
    n = sp['n']; nd = len(n)
    dx = DX[nd]
    dt = 0.0625
    g = 1.4
    sp.update(up=[n[d] * dx[d] for d in range(nd)], pd=dict(gamma=g, gamma1=g - 1, efix=False, tfluct_solver=False))
    if sp['fam'] == 'sharp':
        sp['pd']['tfluct_solver'] = False
    for u in itertools.product((-2., -0.3, 0.3, 2., 0.), repeat=nd):
        for p in (1., 4.):
            rho = 1.5
            q = np.zeros([nd + 2] + n)
            q[0] = rho
            for d in range(nd):
                q[1 + d] = rho * u[d]
            q[-1] = p / (g - 1) + 0.5 * rho * sum(x * x for x in u)
            c = np.sqrt(g * p / rho)
            want = max((abs(u[d]) + c) * dt / dx[d] for d in range(nd))
            if sp['fam'] == 'sharp':
                sp['itg'] = 'Euler'
            q1, got, _ = fixed_steps(sp, q, None, dt)
            ctx.trans(); ctx.state(str(item), u, p)
            ctx.expect(abs(got - want) < 1e-12, 'courant-number', 'flow %s: reported %r, true %r' % (u, got, want))
            ctx.expect(close(q1, q, 1e-13), 'uniform', 'uniform flow changed')
    ctx.trace(); ctx.outcome('euler')


def run(item, ctx):
    dict(auto=run_auto, near=run_near, fixed=run_fixed, field=run_field, acou=run_acou, euler=run_euler)[item['k']](item, ctx)
