"""C01: evolve_to_time lands on the requested time or raises; no-op / one-step / step limit."""
import itertools
import numpy as np
from . import timeline as TL
from .common import upto

ID = 'C01'
CHUNKS = 256
ASSUMPTIONS = ['uniform wave speed per evaluation; velocities enter through aux of (variable-coefficient) advection',
               'step sizes for fixed stepping are either exact divisors up to rounding or clearly no divisors']
BOUNDS = {'quick': 'all request words up to length 3 over {to near, to far, to now, to the past, one step} x all speed scripts '
                   'of length <=3 over {0,1,2,8}, step limits {2,3,6,1000}, 28 solver configurations (1D Fortran complete; others shorter words)',
          'thorough': 'scripts up to length 5, request words up to length 4'}

OPS = ['near', 'far', 'now', 'past', 'one']
SP4 = [1., 0., 2., 8.]


def items(tier):
    th = tier == 'thorough'
    out = []
    fast = ['c1f']
    names = list(TL.CONFIGS)
    for name in names:
        cfg = TL.CONFIGS[name]
        lmm = 'LMM' in cfg.get('itg', '')
        if name in fast:
            opl, scl, limits = (4, 4, [2, 3, 6, 1000]) if th else (3, 3, [2, 3, 6, 1000])
        elif cfg['fam'] == 'classic':
            opl, scl, limits = (3, 4, [3, 1000]) if th else (2, 3, [3, 1000])
        else:
            opl, scl, limits = (3, 3, [3, 1000]) if th else (2, 2, [3, 1000])
        for ops in upto(OPS, opl, 1):
            for ms in (limits if len(ops) < 3 or th else [3, 1000]):
                for t0 in ([0.] if name not in fast else ([0., -2., 100.] if ms == 1000 and (th or len(ops) < 3) else [0.])):
                    out.append(dict(k='var', cfg=name, ops=ops, ms=ms, t0=t0, scl=scl, alph=[1., 2., 8.] if lmm else SP4))
        # rounding: times and steps that are not dyadic
        for tend in ([0.3, 0.7], [1. / 3, 2. / 3, 1.], [0.1 * k for k in range(1, 11)], [1e-3, 1e-2, 10.]):
            for dt in (0.1, 0.07, 1e-3 / 3):
                out.append(dict(k='round', cfg=name, tends=tend, dt=dt))
        out.append(dict(k='fixed', cfg=name))
    # fixed steps, LMM
    return out


def judge(tl, k0, tend, ms, err, t_before, ctx, variable=True):
    """Check one evolve call from its attempts."""
    at = tl.attempts[k0:]
    t = float(tl.sol.t)
    tol = 1e-13 * max(1., abs(t), abs(t_before))
    tp = t_before
    nacc = 0
    for a in at:
        ctx.trans()
        if a['t'] != tp:
            ctx.fail('time-jump', 'attempt starts at %r, previous time %r' % (a['t'], tp))
        if a['t1'] == a['t'] and a['n1'] == a['n0']:
            pass                       # rejected
        else:
            nacc += 1
            if not abs(a['t1'] - (a['t'] + a['dt'])) <= tol:
                ctx.fail('time-increment', 'time %r + dt %r gave %r' % (a['t'], a['dt'], a['t1']))
            if not a['t1'] > a['t'] and a['dt'] > 1e-300 and a['t'] + a['dt'] != a['t']:
                ctx.fail('time-not-increasing', '%r -> %r' % (a['t'], a['t1']))
            if a['n1'] != a['n0'] + 1:
                ctx.fail('numsteps', 'numsteps %r -> %r on an accepted step' % (a['n0'], a['n1']))
            if tend is not None and a['t1'] > tend + tol:
                ctx.fail('past-end', 'step to %r past %r' % (a['t1'], tend))
        tp = a['t1']
    if t != tp and at:
        ctx.fail('time-jump', 'final time %r, last step ended at %r' % (t, tp))
    if tend is not None and tend <= t_before:
        if at or t != t_before or err:
            # an exception leaves everything untouched as well, but a no-op is what is documented
            if not (err and not at and t == t_before and not variable):
                ctx.fail('noop', 'request %r at time %r: %d attempts, time %r, err %s' % (tend, t_before, len(at), t, err))
        return nacc
    if err is None:
        if tend is None:
            ctx.expect(nacc == 1, 'one-step', '%d accepted steps for a one-step request' % nacc)
        else:
            ctx.expect(abs(t - tend) <= tol, 'not-at-end', 'returned at %r, request %r' % (t, tend))
        ctx.expect(len(at) <= ms, 'step-limit', '%d attempts, limit %d' % (len(at), ms))
    elif variable:
        ctx.expect(len(at) == ms and ('aximum' in err or 'step' in err.lower()), 'unexpected-error',
                   '%s after %d attempts (limit %d)' % (err, len(at), ms))
        if tend is not None:
            ctx.expect(t < tend, 'error-at-end', 'raised although at %r, request %r' % (t, tend))
    return nacc


SETTINGS = ('max_steps', 'dt_max', 'dt_variable', 'cfl_max', 'cfl_desired', 'order', 'source_split', 'time_integrator',
            'dt_initial', 'num_ghost', 'lim_type', 'weno_order')


def settings(s):
    return {k: getattr(s, k) for k in SETTINGS if hasattr(s, k)}


def base(item, **over):
    sp = TL.spec(item['cfg'], **over)
    if sp['fam'] == 'sharp' and sp['itg'] in TL.STAGES and sp['itg'] != 'Euler':
        sp['each'] = True
    return sp


def run_var(item, ctx):
    lmm = 'LMM' in TL.CONFIGS[item['cfg']].get('itg', '')
    sp = base(item, cfl_max=1.0, cfl_des=0.5, dt=0.5, dt_max=1.0, max_steps=item['ms'], t0=item['t0'])
    if lmm:
        sp.update(cfl_max=0.25, cfl_des=0.125)
    for script in upto(item['alph'], item['scl'], 0):
        if script and script[-1] == 1.:
            continue                       # same as the shorter script
        with TL.Timeline(sp, script) as tl:
            s0 = settings(tl.solver)
            n = 0
            for kop, op in enumerate(item['ops']):
                t = float(tl.sol.t)
                tend = dict(near=t + 0.75, far=t + 2.25, now=t, past=t - 0.5, one=None)[op]
                k0 = len(tl.attempts)
                q0 = tl.sol.state.q.copy()
                err = tl.evolve(tend)
                n += judge(tl, k0, tend, item['ms'], err, t, ctx)
                if op in ('now', 'past'):
                    ctx.expect(np.array_equal(q0, tl.sol.state.q), 'noop-q', 'no-op request changed q')
                if not np.isfinite(tl.sol.state.q).all() and not lmm:
                    ctx.fail('nonfinite', 'q not finite')
                if kop == 0:
                    s1 = settings(tl.solver)
                    if s0.get('cfl_max') is None:
                        s0 = s1
                ctx.expect(settings(tl.solver) == s0, 'settings', 'settings changed from %s to %s' % (s0, settings(tl.solver)))
                ctx.expect(tl.solver.status['numsteps'] == n, 'numsteps-total', '%d counted, status %d' % (n, tl.solver.status['numsteps']))
                pat = ''.join('r' if a['t1'] == a['t'] else 'a' for a in tl.attempts[k0:])
                ctx.state(item['cfg'], op, pat, round(float(tl.sol.t), 6), err is None)
                ctx.outcome('%s:%s' % (op, 'err' if err else 'ok' if 'r' not in pat else 'ok-with-rejections'))
            ctx.trace()
            if len(tl.attempts) > 3:
                ctx.sample(dict(cfg=item['cfg'], ops=item['ops'], script=script, attempts=tl.attempts[:6]))


def run_round(item, ctx):
    lmm = 'LMM' in TL.CONFIGS[item['cfg']].get('itg', '')
    sp = base(item, cfl_max=1.0, cfl_des=0.9, dt=item['dt'], max_steps=100000)
    if lmm:
        sp.update(cfl_max=0.25, cfl_des=0.2)
    elif sp['fam'] == 'sharp':
        sp['each'] = False
    speeds = [3., 1.7, 11., 0.3] if item['tends'][-1] <= 1 else [0.3, 0.7]
    for off in (0., 1.3, -7.1, 1234.567):
        for script in itertools.product(speeds, repeat=2):
            with TL.Timeline(sp, script, default=1. / 3, t0=off) as tl:
                for x in item['tends']:
                    tend = off + x
                    t = float(tl.sol.t)
                    k0 = len(tl.attempts)
                    err = tl.evolve(tend)
                    judge(tl, k0, tend, 100000, err, t, ctx)
                    if err:
                        ctx.fail('unexpected-error', err)
                    ctx.state(item['cfg'], off, tend, len(tl.attempts) - k0)
                ctx.trace()


def run_fixed(item, ctx):
    for itg in ([None] if TL.CONFIGS[item['cfg']]['fam'] == 'classic' else [TL.CONFIGS[item['cfg']]['itg'], 'LMM']):
        for dt in (0.25, 0.1, 1. / 3, 0.07):
            for mult in (1, 2, 3, 7, 400):
                for off in (0., -1., 10.):
                    for kind in ('exact', 'extra', 'over', 'one', 'now', 'past'):
                        if mult == 400 and (kind != 'exact' or off < 0.):
                            continue
                        over = dict(dt=dt, dtv=False, cfl_max=1., cfl_des=0.9, t0=off)
                        if itg == 'LMM':
                            # Adams-Bashforth 2 written as multistep coefficients, oldest first
                            over.update(itg='LMM', alpha=[0., 1.], beta=[-0.5, 1.5], lmm_steps=2)
                        sp = base(item, **over)
                        with TL.Timeline(sp, (), default=0.1) as tl:
                            s0 = settings(tl.solver)
                            T = mult * dt
                            tend = dict(exact=off + T, extra=off + T + 0.5 * dt, over=off + T + 0.03 * dt, one=None, now=off, past=off - dt)[kind]
                            q0 = tl.sol.state.q.copy()
                            err = tl.evolve(tend)
                            judge_fixed(tl, kind, tend, dt, mult, off, err, ctx)
                            if kind in ('extra', 'over', 'now', 'past'):
                                ctx.expect(np.array_equal(q0, tl.sol.state.q), 'fixed-untouched', '%s changed q' % kind)
                            ctx.expect(settings(tl.solver) == s0, 'settings', 'settings changed')
                            ctx.expect(tl.solver.dt == dt, 'fixed-dt-changed', 'dt %r -> %r' % (dt, tl.solver.dt))
                            # the solver stays usable: another exact interval
                            t = float(tl.sol.t)
                            k0 = len(tl.attempts)
                            err = tl.evolve(t + 2 * dt)
                            ctx.expect(err is None and len(tl.attempts) == k0 + 2 and abs(float(tl.sol.t) - (t + 2 * dt)) <= 4e-16 * max(1, abs(t)),
                                       'fixed-after', 'after %s: err %s, time %r' % (kind, err, tl.sol.t))
                            ctx.state(item['cfg'], itg, dt, mult, off, kind, err)
                            ctx.trans(len(tl.attempts)); ctx.trace()
                            ctx.outcome('fixed-' + kind)


def judge_fixed(tl, kind, tend, dt, mult, off, err, ctx):
    t = float(tl.sol.t)
    # n steps of the given size: rounding does not accumulate
    tol = 4e-16 * max(abs(off), abs(off + mult * dt), dt)
    n = len(tl.attempts)
    if kind == 'exact':
        ctx.expect(err is None and abs(t - tend) <= tol and n == mult, 'fixed-exact', 'err %s, t %r request %r, %d steps of %d' % (err, t, tend, n, mult))
    elif kind == 'one':
        ctx.expect(err is None and n == 1 and abs(t - off - dt) <= tol, 'fixed-one', 'err %s t %r n %d' % (err, t, n))
    elif kind in ('extra', 'over'):
        ctx.expect(err is not None and n == 0 and t == off, 'fixed-nondividing', 'err %s t %r n %d' % (err, t, n))
    elif kind == 'now':
        ctx.expect(err is None and n == 0 and t == off, 'fixed-now', 'err %s t %r n %d' % (err, t, n))
    else:
        ctx.expect(n == 0 and t == off, 'fixed-past', 'err %s t %r n %d' % (err, t, n))


def run(item, ctx):
    {'var': run_var, 'round': run_round, 'fixed': run_fixed}[item['k']](item, ctx)
