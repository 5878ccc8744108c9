"""C02: a run with rejected attempts equals the run that takes the accepted steps only."""
import numpy as np
from . import timeline as TL
from .common import upto, close, maxdiff, build
import gc

ID = 'C02'
CHUNKS = 256
ASSUMPTIONS = ['the reference run takes the accepted step sizes with fixed stepping and no Courant limit on the same solver family',
               'for SharpClaw the velocity answer of the first stage is a function of the step, later stages may differ between attempts']
BOUNDS = {'quick': 'all speed scripts of length <=4 (1D) / <=3 (2D,3D, SharpClaw) over {1,8,64,-2} for 28 configurations x source {none,Godunov,Strang} x '
                   'before_step writes {none, q}; gauges on', 'thorough': 'scripts one longer, all combinations'}
ALPH = [1., 8., 64., -2.]


def items(tier):
    th = tier == 'thorough'
    out = []
    for name, cfg in TL.CONFIGS.items():
        classic = cfg['fam'] == 'classic'
        L = (5 if name in ('c1f', 'c1p') else 4) if th else (4 if name in ('c1f',) else 3)
        if not classic:
            L = 4 if th else 3
        for src in ([0, 1, 2] if classic else [0, 1]):
            for modq in (0, 1):
                for first in ALPH:
                    out.append(dict(cfg=name, src=src, modq=modq, L=L, first=first))
    # no callback at all: the data themselves (Burgers, rescaled between single-step calls)
    # make steps too large
    for name in SELF:
        for src in ([0, 1, 2] if SELF[name]['fam'] == 'classic' else [0, 1]):
            for w in upto([1., 4., 0.25, -3.], 5 if th else 4, 4):
                out.append(dict(k='self', cfg=name, src=src, w=w))
    return out


SELF = {
    'c1f': dict(fam='classic', rp='burgers_1D', n=[6]),
    'c1p': dict(fam='classic', rp='burgers_1D', n=[6], kern='Python'),
    'c2s': dict(fam='classic', rp='burgers_2D', n=[4, 5], split=True),
    'c2u': dict(fam='classic', rp='burgers_2D', n=[4, 5], split=False, trans=2),
    'c3s': dict(fam='classic', rp='burgers_3D', n=[4, 3, 3], split=True),
    'c3u': dict(fam='classic', rp='burgers_3D', n=[4, 3, 3], split=False, trans=22),
    's1f-SSP33': dict(fam='sharp', rp='burgers_1D', n=[6], itg='SSP33'),
    's1p-SSP104': dict(fam='sharp', rp='burgers_1D', n=[6], itg='SSP104', kern='Python'),
    's1f-RK': dict(fam='sharp', rp='burgers_1D', n=[6], itg='RK', **TL.RKC),
    's1f-SSPLMMk2': dict(fam='sharp', rp='burgers_1D', n=[6], itg='SSPLMMk2', lmm_steps=3),
    's2-SSP22': dict(fam='sharp', rp='burgers_2D', n=[4, 5], itg='SSP22'),
}


def run_self(item, ctx):
    sp = dict(SELF[item['cfg']], cfl_max=0.5, cfl_des=0.499, dt=0.4, dt_max=100., pd=dict(efix=False, **({'coeff': np.array([1., 0.5, -0.75])} if '3D' in SELF[item['cfg']]['rp'] else {})))
    if 'LMM' in sp.get('itg', ''):
        sp.update(cfl_max=0.25, cfl_des=0.2499)
    classic = sp['fam'] == 'classic'
    if classic:
        sp['lim'] = 4
        sp['ss'] = max(item['src'], 1)
    res = []
    dts = []
    for ref in (False, True):
        solver, sol = build(dict(sp, dtv=False, cfl_max=1e9, cfl_des=1e9) if ref else sp, TL.data(sp['n']) + 1.)
        if item['src']:
            setattr(solver, 'step_source' if classic else 'dq_src',
                    (lambda s, st, dt: source_classic(st, dt)) if classic else (lambda s, st, dt: source_dq(st, dt)))
        sol.state.grid.add_gauges(gauge_pts(sp['n']))
        sol.state.keep_gauges = True
        sol.state.grid.setup_gauge_files('gauges_out')
        try:
            for k, f in enumerate(item['w']):
                sol.state.q *= f
                if ref:
                    solver.dt = dts[k]
                solver.evolve_to_time(sol)
                if not ref:
                    dts.append(float(solver.dt))
            res.append((sol.state.q.copy(), [np.array(x) for x in sol.state.gauge_data], float(sol.t), solver.status['numsteps']))
        finally:
            del solver, sol
            gc.collect()
    ctx.trans(len(dts)); ctx.trace()
    ctx.state('self', item['cfg'], item['src'], item['w'], [round(x, 9) for x in dts])
    (q1, g1, t1, n1), (q2, g2, t2, n2) = res
    if not close(q1, q2, 1e-8):
        ctx.fail('q', 'differs from the run of its accepted steps by %s' % maxdiff(q1, q2), dts=dts)
    ctx.expect(n1 == n2 == len(dts), 'numsteps', '%s %s' % (n1, n2))
    ctx.expect(abs(t1 - t2) < 1e-12, 'time', '%r vs %r' % (t1, t2))
    if not (len(g1) == len(g2) and all(x.shape == y.shape and close(x, y, 1e-8) for x, y in zip(g1, g2))):
        ctx.fail('gauge', 'gauge records differ', g1=g1, g2=g2)


def gauge_pts(n):
    nd = len(n)
    return [tuple(0.5 for _ in n), tuple(m - 0.5 for m in n)][: 2]


def source_classic(state, dt):
    g = state.grid
    w = sum((d + 1.) * (np.arange(m) + 0.5).reshape([-1 if k == d else 1 for k in range(g.num_dim)]) for d, m in enumerate(g.num_cells))
    state.q[0] += dt * (0.3 * w - 0.2 * state.q[0])


def source_dq(state, dt):
    g = state.grid
    w = sum((d + 1.) * (np.arange(m) + 0.5).reshape([-1 if k == d else 1 for k in range(g.num_dim)]) for d, m in enumerate(g.num_cells))
    return (dt * (0.3 * w - 0.2 * state.q[0]))[None]


def mod(state, k):
    state.q[0] += 0.125


class Plan(object):
    """Environment for the reference run: the answers of the accepted attempts, stage by stage."""
    def __init__(self, acc):
        self.flat = [v for a in acc for v in a['speeds']]


def run(item, ctx):
    if item.get('k') == 'self':
        return run_self(item, ctx)
    lmm = 'LMM' in TL.CONFIGS[item['cfg']].get('itg', '')
    classic = TL.CONFIGS[item['cfg']]['fam'] == 'classic'
    over = dict(cfl_max=1.0, cfl_des=0.5, dt=0.5, dt_max=1.0)
    if lmm:
        over.update(cfl_max=0.25, cfl_des=0.125)
    sp = TL.spec(item['cfg'], **over)
    if not classic and sp['itg'] in TL.STAGES and sp['itg'] != 'Euler':
        sp['each'] = True
    src = None
    if item['src']:
        src = source_classic if classic else source_dq
        if classic:
            sp['ss'] = item['src']
    modq = mod if item['modq'] else None
    g = gauge_pts(sp['n'])
    for rest in upto(ALPH, item['L'] - 1, 0):
        script = (item['first'],) + rest
        if script[-1] == 1. and len(script) > 1:
            continue
        with TL.Timeline(sp, script, source=src, modq=modq, gauges=g) as tl:
            err = tl.evolve(2.25)
            if err is None:
                err = tl.evolve(None)
            if err is not None:
                ctx.fail('error', err)
                continue
            acc = [a for a in tl.attempts if a['t1'] != a['t']]
            rej = len(tl.attempts) - len(acc)
            q1 = tl.sol.state.q.copy()
            g1 = [np.array(x) for x in tl.sol.state.gauge_data]
            n1 = tl.solver.status['numsteps']
            t1 = float(tl.sol.t)
            naccepted_src = [e for e in tl.log]
        ctx.trans(len(acc) + rej)
        ctx.outcome('rejected=%d' % rej)
        ctx.state(item['cfg'], item['src'], item['modq'], tuple(round(a['dt'], 9) for a in acc), rej)
        ctx.expect(n1 == len(acc), 'numsteps', 'status reports %d steps, %d accepted' % (n1, len(acc)))
        # reference: accepted steps only
        plan = Plan(acc)
        ref = dict(sp, dtv=False, cfl_max=1e9, cfl_des=1e9, dt=acc[0]['dt'])
        with TL.Timeline(ref, plan.flat, source=src, modq=modq, gauges=g) as tl:
            for a in acc:
                tl.solver.dt = a['dt']
                err = tl.evolve(None)
                if err is not None:
                    ctx.fail('reference-error', err)
                    break
            q2 = tl.sol.state.q.copy()
            g2 = [np.array(x) for x in tl.sol.state.gauge_data]
            t2 = float(tl.sol.t)
        ctx.trace()
        if err is not None:
            continue
        tol = 1e-8
        if not close(q1, q2, tol):
            ctx.fail('q', 'solution after %d rejected attempts differs from the run of its accepted steps by %s' % (rej, maxdiff(q1, q2)), script=script, src=item['src'])
        ctx.expect(abs(t1 - t2) < 1e-12, 'time', '%r vs %r' % (t1, t2))
        ok = len(g1) == len(g2) and all(x.shape == y.shape and close(x, y, tol) for x, y in zip(g1, g2))
        if not ok:
            ctx.fail('gauge', 'gauge records differ: shapes %s vs %s' % ([x.shape for x in g1], [x.shape for x in g2]), script=script)
        if rej > 1:
            ctx.sample(dict(cfg=item['cfg'], script=script, rejected=rej, accepted_dt=[a['dt'] for a in acc]))
