"""C17: source steps and callbacks act exactly once per step, in order, and what they write is used."""
import gc
import numpy as np
from . import timeline as TL
from .common import upto, build, close, maxdiff, BC
from .c02 import source_classic, source_dq

ID = 'C17'
CHUNKS = 256
ASSUMPTIONS = ['a custom (extrapolating) boundary function marks the moments of the homogeneous steps in the event log']
BOUNDS = {'quick': 'all speed scripts of length <=3 over {1, limit-exact, rejecting, -2} x every classic configuration x {none,Godunov,Strang} x before_step writing {aux, aux+q}; '
                   'SharpClaw integrators x per-stage callback on/off; what the callback is given and writes {clamped q, shifted q, aux from time, aux from q} at every stage, all data in {0,1}^4 (thorough {0,1,-1}^4) x 2 step sizes', 'thorough': 'scripts of length <=5'}
# dt=0.5 initially, cfl_max=1: speed 2 is exactly at the limit, 8 is rejected
ALPH = [1., 2., 8., -2.]


def items(tier):
    th = tier == 'thorough'
    out = []
    for name, cfg in TL.CONFIGS.items():
        if 'LMM' in cfg.get('itg', ''):
            continue
        for ss in ([0, 1, 2] if cfg['fam'] == 'classic' else [0, 1]):
            for modq in (0, 1):
                for each in ([False] if cfg['fam'] == 'classic' else [False, True]):
                    for mode in ('var', 'fixed'):
                        out.append(dict(cfg=name, ss=ss, modq=modq, each=each, mode=mode, L=5 if th else (4 if name == 'c1f' else 3)))
    for name, cfg in TL.CONFIGS.items():
        if cfg['fam'] == 'sharp' and 'LMM' not in cfg['itg']:
            for cb in STAGECB:
                for src in (0, 1):
                    out.append(dict(stage=1, cfg=name, cb=cb, src=src, A=3 if th else 2))
    return out


# ---- what the callback is given at, and writes to, every stage ---------------
STAGECB = ['clamp', 'add', 'auxt', 'auxq']


def stagecb(cb, st, t):
    if cb == 'clamp':                    # nonlinear: must see (and change) the value of that very stage
        np.clip(st.q, -0.25, 0.75, out=st.q)
    elif cb == 'add':
        st.q[0] += 0.125 * (1. + t)
        st.q[0].flat[1] -= 0.5
    elif cb == 'auxt':
        st.aux[...] = st.aux * 0. + 0.5 + t
    elif cb == 'auxq':
        st.aux[...] = 0.25 + np.abs(st.q).max()


def runstage(item, ctx):
    name, cb = item['cfg'], item['cb']
    cfg = TL.CONFIGS[name]
    itg = cfg['itg']
    sp = TL.spec(name, cfl_max=1e9, cfl_des=1e9, dtv=False, dt=0.125, bc='p', abc='p')
    n = sp['n']
    each = itg != 'Euler'
    ref = dict(sp, itg='Euler')
    rsolver, rsol = build(ref, np.zeros([1] + n), np.zeros([sp['naux']] + n))
    solver, sol = build(dict(sp, each=each), np.zeros([1] + n), np.zeros([sp['naux']] + n))
    log = []
    if item['src']:
        solver.dq_src = lambda s, st, dt: source_dq(st, dt)
        rsolver.dq_src = lambda s, st, dt: source_dq(st, dt)

    def before(s, st):
        log.append((float(st.t), st.q.copy()))
        stagecb(cb, st, st.t)
    solver.before_step = before
    want = []

    class S(object):
        pass

    def G(q, t):
        """callback on a stage value; returns modified value and dt*f(value)"""
        st = S()
        st.q = np.array(q, order='F')
        st.aux = aux0.copy('F')
        want.append((t, st.q.copy()))
        stagecb(cb, st, t)
        z = rsol.state
        z.q = st.q.copy('F')
        z.aux = st.aux.copy('F')
        z.t = t
        rsolver.dt = dt
        rsolver.evolve_to_time(rsol)
        return st.q, rsol.state.q - st.q
    try:
        aux0 = np.zeros([sp['naux']] + n, order='F')
        for d in range(sp['naux']):
            aux0[d] = TL.SHARE[cfg['nd']][d]
        N = int(np.prod(n))
        for bits in (upto([0., 1., -1.][:item['A']], 4, 4)):
            for dt in (0.125, 0.0625):
                q0 = np.resize(np.array(list(bits) + [0.5, -0.5]), N).reshape([1] + n, order='F').copy('F')
                t0 = 0.25
                st = sol.state
                st.q = q0.copy('F')
                st.aux = aux0.copy('F')
                st.t = t0
                solver.dt = dt
                del log[:]
                solver.evolve_to_time(sol)
                got = sol.state.q
                del want[:]
                q, k = G(q0, t0)
                if itg == 'Euler':
                    out = q + k
                elif itg == 'SSP22':
                    y, l = G(q + k, t0 + dt)
                    out = 0.5 * (q + y + l)
                elif itg == 'SSP33':
                    y, l = G(q + k, t0 + dt)
                    y, l = G(0.75 * q + 0.25 * (y + l), t0 + 0.5 * dt)
                    out = q / 3. + 2. / 3. * (y + l)
                elif itg == 'SSP104':
                    y = q + k / 6.
                    for i in range(4):
                        y, l = G(y, t0 + (i + 1) * dt / 6.)
                        y = y + l / 6.
                    o = q / 25. + 0.36 * y
                    y = 15. * o - 5. * y
                    for i in range(4):
                        y, l = G(y, t0 + (i + 2) * dt / 6.)
                        y = y + l / 6.
                    y, l = G(y, t0 + dt)
                    out = o + 0.6 * y + 0.1 * l
                else:
                    ks = [k]
                    for i in range(1, len(sp['b'])):
                        y, l = G(q + sum(sp['a'][i][j] * ks[j] for j in range(i)), t0 + sp['c'][i] * dt)
                        ks.append(l)
                    out = q + sum(b * x for b, x in zip(sp['b'], ks))
                ctx.trans()
                ctx.trace()
                if len(log) != len(want):
                    ctx.fail('stage-callbacks', '%d calls of before_step, %d stages' % (len(log), len(want)))
                    break
                for i, ((t, x), (t2, x2)) in enumerate(zip(log, want)):
                    if abs(t - t2) > 1e-13 or not close(x, x2, 1e-7):
                        ctx.fail('stage-state', 'stage %d: before_step called with t=%r and q off by %s, stage time %r' % (i, t, maxdiff(x, x2), t2))
                        break
                if not close(got, out, 1e-7):     # WENO weights may amplify rounding a million times
                    ctx.fail('stage-value', 'what before_step writes at the stages is not used as is: difference %s' % maxdiff(got, out), q=q0.ravel().tolist(), dt=dt)
                ctx.state(name, cb, item['src'], bits, dt)
        ctx.outcome('stage-callback')
    finally:
        solver.before_step = None
        del solver, sol, rsolver, rsol, st
        gc.collect()


def extrap(log):
    def f(state, dim, t, qbc, auxbc, num_ghost):
        log.append(('H', float(t)))
        for k in range(num_ghost):
            qbc[:, k, ...] = qbc[:, num_ghost, ...]
    return f


def mod(state):
    state.q[0] += 0.25
    state.q[0].flat[0] -= 1.


def run(item, ctx):
    if item.get('stage'):
        return runstage(item, ctx)
    cfg = TL.CONFIGS[item['cfg']]
    classic = cfg['fam'] == 'classic'
    nd = cfg['nd']
    bc = [['c', 'e']] + [['p', 'p']] * (nd - 1)
    sp = TL.spec(item['cfg'], cfl_max=1.0, cfl_des=0.5, dt=0.5, dt_max=1.0, bc=bc, abc='e')
    if item['mode'] == 'fixed':
        sp.update(dtv=False, dt=0.125)
    if item['ss'] and classic:
        sp['ss'] = item['ss']
    if item['each']:
        sp['each'] = True
    stages = TL.STAGES.get(sp.get('itg'), 1)
    src = None
    if item['ss']:
        src = source_classic if classic else source_dq
    for script in upto(ALPH, item['L'], 1):
        if len(script) > 1 and script[-1] == 1.:
            continue
        if item['mode'] == 'fixed' and len(script) > 2:
            continue
        rec = []          # per attempt: q written by before_step
        tl = TL.Timeline(sp, script, source=src, modq=None if not item['modq'] else (lambda st, k: mod(st)))
        try:
            tl.solver.user_bc_lower = extrap(tl.log)
            err = tl.evolve(1.75)
            if not err:
                err = tl.evolve(None)
            if err:
                ctx.fail('error', err)
                continue
            log = list(tl.log)
            at = list(tl.attempts)
            q1 = tl.sol.state.q.copy()
        finally:
            tl.close()
        acc = [a for a in at if a['t1'] != a['t']]
        # ---- event order -------------------------------------------------
        while log and log[0][0] == 'H':
            log.pop(0)                                   # boundary conditions applied during set-up
        groups = []
        for e in log:
            if e[0] == 'before':
                groups.append([])
            groups[-1].append(e)
        if len(groups) != len(at):
            ctx.fail('before-count', '%d before_step calls, %d attempts' % (len(groups), len(at)))
            continue
        prev_rej = False
        for g, a in zip(groups, at):
            ctx.trans()
            rej = a['t1'] == a['t']
            ev = []
            for e in g[1:]:
                if e[0] == 'H' and ev and ev[-1] == 'H':
                    continue
                ev.append(e[0])
            if abs(g[0][1] - a['t']) > 1e-13:
                ctx.fail('before-time', 'before_step called at %r, step starts at %r' % (g[0][1], a['t']))
            if classic:
                want = {0: 'H', 1: 'HS', 2: 'SHS'}[item['ss']]
                got = ''.join({'H': 'H', 'src': 'S'}[x] for x in ev)
                if not rej:
                    ctx.expect(got == want, 'order', 'accepted step: %s, expected %s (speed %s, dt %r)' % (got, want, a['speeds'], a['dt']))
                    dts = [e[2] for e in g if e[0] == 'src']
                    w = {0: [], 1: [a['dt']], 2: [a['dt'] / 2] * 2}[item['ss']]
                    ctx.expect(len(dts) == len(w) and all(abs(x - y) < 1e-14 for x, y in zip(dts, w)), 'source-dt', 'source steps %s, expected %s' % (dts, w))
                else:
                    ctx.expect(got.count('H') == 1, 'order-rejected', got)
            else:
                nH = ev.count('H'); nS = ev.count('dq'); nst = ev.count('stage')
                lo = stages - 1 if prev_rej else stages
                if stages > 1 or not prev_rej:
                    if item['ss']:
                        ctx.expect(lo <= nS <= stages, 'stage-source', '%d source evaluations, %d stages' % (nS, stages))
                if item['each']:
                    ctx.expect(nst == stages - 1, 'stage-callback', '%d per-stage calls, %d stages' % (nst, stages))
                else:
                    ctx.expect(nst == 0, 'stage-callback', '%d per-stage calls without request' % nst)
            prev_rej = rej
        # ---- values ------------------------------------------------------
        if classic or not item['each']:
            ref = dict(sp, dtv=False, dt=0.1, cfl_max=1e9, cfl_des=1e9)
            solver, sol = build(ref, TL.data(sp['n']), np.zeros([sp['naux']] + sp['n']))
            solver.user_bc_lower = extrap([])
            if src is not None and not classic:
                solver.dq_src = lambda s, st, dt: source_dq(st, dt)
            for a in acc:
                st = sol.state
                for d in range(sp['naux']):
                    st.aux[d] = a['speeds'][0] * TL.SHARE[nd][d]
                if item['modq']:
                    mod(st)
                if classic and item['ss'] == 2:
                    source_classic(st, a['dt'] / 2)
                solver.dt = a['dt']
                solver.evolve_to_time(sol)
                if classic and item['ss'] == 2:
                    source_classic(st, a['dt'] / 2)
                if classic and item['ss'] == 1:
                    source_classic(st, a['dt'])
            q2 = sol.state.q.copy()
            del solver, sol, st
            gc.collect()
            ctx.trace()
            if not close(q1, q2, 1e-7):
                ctx.fail('value', 'solution differs from the composition of its parts by %s' % maxdiff(q1, q2), script=script)
        pat = ''.join('r' if a['t1'] == a['t'] else 'a' for a in at)
        ctx.outcome('rejected=%d' % pat.count('r'))
        ctx.state(item['cfg'], item['ss'], item['modq'], item['each'], pat, script)
        if 'r' in pat:
            ctx.sample(dict(cfg=item['cfg'], ss=item['ss'], script=script, events=[e[0] for e in log][:20]))
