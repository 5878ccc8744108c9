"""C16: SharpClaw time integrators are the methods they are named after."""
import gc, itertools, math
import numpy as np
from .common import build, close, maxdiff, words, upto, de_bruijn
from . import wp, sp as SPR, problems as P, common as C
from .c08 import hash_

ID = 'C16'
CHUNKS = 200
ASSUMPTIONS = ['right-hand sides are supplied through dq_src on spatially constant data (the hyperbolic part vanishes), and, in a second group, '
               'by the spatial discretization itself, evaluated by the reference of C18']
BOUNDS = {'quick': 'Euler, SSP22, SSP33, SSP104, 8 Runge-Kutta tableaux, SSPLMMk2 (3-6 steps), SSPLMMk3 (4, 5 steps), 6 multistep methods; 11 right-hand sides forming a basis in (t,q); '
                   'every sequence of step sizes over {0.1,0.2,0.05} of length 3 (one-step) or every tail of length 3 after the starting steps (multistep); every sequence of output gaps over 3 values of length 4 with adaptive steps; '
                   'every script of 4 speeds over {0,1,3} for the step sizes of the SSP multistep methods; all stage times; with and without per-stage callbacks; both kernels; 1D-3D partial differential equations with sources',
          'thorough': 'step-size sequences of length 5, gap sequences of length 5, speed scripts of length 6'}

SQ = dict(
    Euler=dict(a=[[0.]], b=[1.], c=[0.]),
    SSP22=dict(a=[[0., 0.], [1., 0.]], b=[.5, .5], c=[0., 1.]),
    SSP33=dict(a=[[0., 0., 0.], [1., 0., 0.], [.25, .25, 0.]], b=[1 / 6., 1 / 6., 2 / 3.], c=[0., 1., .5]),
)
_a = np.zeros((10, 10))
for _i in range(10):
    for _j in range(_i):
        _a[_i, _j] = 1 / 6. if (_i < 5 or _j >= 5) else 1 / 15.
SQ['SSP104'] = dict(a=_a.tolist(), b=[.1] * 10, c=_a.sum(1).tolist())
ORDER = dict(Euler=1, SSP22=2, SSP33=3, SSP104=4, rk4=4, mid=2, heun3=3, ral=2, one=1)
RK = dict(
    one=dict(a=[[0.]], b=[1.], c=[0.]),
    mid=dict(a=[[0, 0], [.5, 0]], b=[0., 1.], c=[0., .5]),
    ral=dict(a=[[0, 0], [2 / 3., 0]], b=[.25, .75], c=[0., 2 / 3.]),
    heun3=dict(a=[[0, 0, 0], [1 / 3., 0, 0], [0, 2 / 3., 0]], b=[.25, 0., .75], c=[0., 1 / 3., 2 / 3.]),
    rk4=dict(a=[[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1., 0]], b=[1 / 6., 1 / 3., 1 / 3., 1 / 6.], c=[0., .5, .5, 1.]),
    odd=dict(a=[[0, 0, 0], [.3, 0, 0], [.7, -.2, 0]], b=[.5, -.25, .75], c=[0., .3, .5]),
    offc=dict(a=[[0, 0, 0, 0], [.3, 0, 0, 0], [.1, .2, 0, 0], [.4, .5, .6, 0]], b=[.1, .2, .3, .4], c=[0., .25, .9, .6]),
    full=dict(a=[[0] * 5, [.1, 0, 0, 0, 0], [.2, .3, 0, 0, 0], [.4, .5, .6, 0, 0], [-.1, -.2, .7, .8, 0]], b=[.1, .2, .3, .25, .15], c=[0., .1, .5, 1.5, 1.2]),
)
LMM = dict(
    ab1=dict(alpha=[1.], beta=[1.]),
    ab2=dict(alpha=[0., 1.], beta=[-.5, 1.5]),
    leap=dict(alpha=[1., 0.], beta=[0., 2.]),
    ab3=dict(alpha=[0., 0., 1.], beta=[5 / 12., -16 / 12., 23 / 12.]),
    ab4=dict(alpha=[0., 0., 0., 1.], beta=[-9 / 24., 37 / 24., -59 / 24., 55 / 24.]),
    gen4=dict(alpha=[.1, .2, .3, .4], beta=[.5, -.25, .75, 1.]),
    gen5=dict(alpha=[.1, .2, .1, .2, .4], beta=[.5, -.25, .75, 1., -.3]),
)
RHS = {
    '1': lambda t, q: 1. + 0 * q, 't': lambda t, q: t + 0 * q, 't2': lambda t, q: t ** 2 + 0 * q, 't3': lambda t, q: t ** 3 + 0 * q,
    't4': lambda t, q: t ** 4 + 0 * q, 'q': lambda t, q: q, '-2q': lambda t, q: -2. * q, 'tq': lambda t, q: t * q,
    'q2': lambda t, q: q ** 2, 'cos': lambda t, q: np.cos(3 * t) - q, 'mix': lambda t, q: np.sin(q) + t * t * q,
}
DTS = [0.1, 0.2, 0.05]
GAPS = [0.07, 0.3, 0.5]


def methods():
    out = []
    for k in ('Euler', 'SSP22', 'SSP33', 'SSP104'):
        out.append(dict(itg=k))
    for k in RK:
        out.append(dict(itg='RK', tab=k))
    for s in (3, 4, 5, 6):
        out.append(dict(itg='SSPLMMk2', s=s))
    for s in (4, 5):
        out.append(dict(itg='SSPLMMk3', s=s))
    for k in LMM:
        out.append(dict(itg='LMM', tab=k, setsteps=True))
        out.append(dict(itg='LMM', tab=k, setsteps=False))
    return out


def items(tier):
    out = []
    for m in methods():
        for kern in ('Fortran', 'Python'):
            for r in RHS:
                out.append(dict(k='ode', m=m, kern=kern, rhs=r, each=0))
                if r in ('mix', 'tq') and m['itg'] != 'Euler':
                    out.append(dict(k='ode', m=m, kern=kern, rhs=r, each=1))
            if m['itg'] != 'LMM':
                out.append(dict(k='gaps', m=m, kern=kern))
            if m['itg'] == 'SSPLMMk3':
                out.append(dict(k='cond', m=m, kern=kern))
            if m['itg'] in ('SSPLMMk2', 'SSPLMMk3'):
                out.append(dict(k='steps', m=m, kern=kern))
        for prob in ('adv+', 'bur', 'aco', 'vac', 'aco2', 'vad3'):
            out.append(dict(k='pde', m=m, prob=prob))
        if m['itg'] in ('Euler', 'SSP22', 'SSP33', 'SSP104', 'RK') and (m.get('tab') or m['itg']) in ORDER:
            out.append(dict(k='order', m=m))
    return out


def nsteps_of(m):
    return m['s'] if 's' in m else (len(LMM[m['tab']]['alpha']) if m['itg'] == 'LMM' else 1)


def settings(m):
    sp = dict(itg=m['itg'])
    if m['itg'] == 'RK':
        sp.update(RK[m['tab']])
    if m['itg'] == 'LMM':
        sp.update(LMM[m['tab']])
        if m.get('setsteps'):
            sp['lmm_steps'] = len(LMM[m['tab']]['alpha'])
    if 's' in m:
        sp['lmm_steps'] = m['s']
    return sp


class Ref(object):
    """The method's formula, applied to du/dt = f(t, u)."""
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.hist = []                       # (t, q, f(t,q))
        self.times = []                      # times of all evaluations of the current step

    def ev(self, t, q):
        self.times.append(t)
        return self.f(t, q)

    def rk(self, tab, t, q, dt, f0):
        K = [f0]
        s = len(tab['b'])
        for i in range(1, s):
            y = q + dt * sum(tab['a'][i][j] * K[j] for j in range(i))
            K.append(self.ev(t + tab['c'][i] * dt, y))
        return q + dt * sum(tab['b'][i] * K[i] for i in range(s))

    def step(self, t, q, dt):
        m = self.m
        self.times = []
        f0 = self.ev(t, q)
        self.hist.append((t, q, f0))
        k = nsteps_of(m)
        if m['itg'] == 'RK':
            return self.rk(RK[m['tab']], t, q, dt, f0)
        if m['itg'] in SQ:
            return self.rk(SQ[m['itg']], t, q, dt, f0)
        if len(self.hist) < k:
            return self.rk(SQ['SSP104' if m['itg'] == 'LMM' else 'SSP22'], t, q, dt, f0)
        if m['itg'] == 'LMM':
            L = LMM[m['tab']]
            return sum(L['alpha'][i] * self.hist[-k + i][1] + dt * L['beta'][i] * self.hist[-k + i][2] for i in range(k))
        t0, q0, fk = self.hist[-k]
        W = (t - t0) / dt
        if m['itg'] == 'SSPLMMk2':
            return (W ** 2 - 1) / W ** 2 * q + q0 / W ** 2 + (W + 1) / W * dt * f0
        return (W + 1) ** 2 * (W - 2) / W ** 3 * q + (W + 1) ** 2 / W ** 2 * dt * f0 + (3 * W + 2) / W ** 3 * q0 + (W + 1) / W ** 2 * dt * fk


def sim(m, kern, f, each=0, q0=1., **over):
    sp = dict(rp='advection_1D', n=[4], pd=dict(u=1.), fam='sharp', lim_type=2, weno=5, kern=kern, cfl_max=1e9, cfl_des=1e8)
    sp.update(settings(m))
    if each:
        sp['each'] = True
    sp.update(over)
    solver, sol = build(sp, np.full((1, 4), q0))
    log = []

    def src(solver, state, dt):
        log.append(float(state.t))
        return dt * f(state.t, np.array(state.q))
    solver.dq_src = src
    return solver, sol, log


def run(item, ctx):
    try:
        return globals()['run_' + item['k']](item, ctx)
    finally:
        gc.collect()


def sequences(m, th):
    k = nsteps_of(m)
    L = 5 if th else 3
    if m['itg'] == 'LMM':
        return [[d] * (k + 3) for d in DTS]
    if k == 1:
        return [list(w) for w in words(DTS, L)]
    out = []
    for w in words(DTS, L):
        head = [DTS[(i * 2 + i // 2) % 3] for i in range(k - 1)]
        out.append(head + list(w))
    for w in words(DTS, min(k, 3)):                          # starting steps
        out.append((list(w) + [0.1] * k)[:k - 1] + [0.1, 0.05])
    return out


def compare(ctx, what, solver, sol, log, ref, q, t, dt):
    del log[:]
    solver.evolve_to_time(sol)
    want = ref.step(t, q, dt)
    got = sol.state.q
    ok = ctx.expect(close(got, want, 1e-12), 'value', '%s: step from t=%r with dt=%r gives %r, formula %r' % (what, t, dt, float(got[0, 0]), float(np.ravel(want)[0])))
    ok &= ctx.expect(np.all(np.abs(got - got[0, 0]) <= 1e-11 * max(1, abs(got[0, 0]))), 'space', '%s: constant data became nonconstant' % what)
    ok &= ctx.expect(len(log) == len(ref.times) and close(log, ref.times, 1e-12), 'stage-times', '%s: right-hand side evaluated at times %s, not %s' % (what, log, ref.times))
    ok &= ctx.expect(abs(sol.t - (t + dt)) < 1e-12, 'time', '%s: time %r' % (what, sol.t))
    ctx.trans()
    return ok, got.copy()


def run_ode(item, ctx):
    m = item['m']
    f = RHS[item['rhs']]
    for seq in sequences(m, ctx.tier == 'thorough'):
        solver, sol, log = sim(m, item['kern'], f, item['each'], dt=seq[0], dtv=False)
        calls = []
        if item['each']:
            solver.before_step = lambda s, state: calls.append(float(state.t))
        ref = Ref(m, f)
        q = sol.state.q.copy()
        t = 0.
        for k, dt in enumerate(seq):
            solver.dt = dt
            del calls[:]
            ok, q = compare(ctx, '%s step sizes %s' % (m, seq[:k + 1]), solver, sol, log, ref, q, t, dt)
            if item['each'] and ok:
                ctx.expect(len(calls) == len(ref.times) and close(calls, ref.times, 1e-12), 'callback-times', '%s: stage callbacks at %s, not %s' % (m, calls, ref.times))
            t = t + dt
            sol.t = t
            if ctx.fails:
                return
        ctx.state(str(item), tuple(seq)); ctx.trace()
        solver.dq_src = None
        solver.before_step = None
    ctx.outcome('%s-%s' % (m['itg'], item['rhs']))


def run_gaps(item, ctx):
    """Adaptive steps clipped to requested times: the step sizes actually taken are logged."""
    m = item['m']
    th = ctx.tier == 'thorough'
    f = RHS['cos']
    for w in words(GAPS, 5 if th else 4):
        solver, sol, log = sim(m, item['kern'], f, 0, dt=0.1, dtv=True, cfl_max=0.3, cfl_des=0.25)
        ts, qs = [], []

        def before(s, state):
            ts.append(float(state.t)); qs.append(state.q.copy())
        solver.before_step = before
        t = 0.
        for g in w:
            t += g
            solver.evolve_to_time(sol, t)
        ts.append(float(sol.t)); qs.append(sol.state.q.copy())
        acc = [i for i in range(len(ts) - 1) if ts[i + 1] > ts[i]] + [len(ts) - 1]
        ts, qs = [ts[i] for i in acc], [qs[i] for i in acc]
        ref = Ref(m, f)
        for i in range(len(ts) - 1):
            want = ref.step(ts[i], qs[i], ts[i + 1] - ts[i])
            if not ctx.expect(close(qs[i + 1], want, 1e-10), 'adaptive', '%s gaps %s: step %d from t=%r to %r gives %r, formula %r' %
                              (m, w, i, ts[i], ts[i + 1], float(qs[i + 1][0, 0]), float(want[0, 0]))):
                return
            ctx.trans()
        ctx.state(str(item), w); ctx.trace()
        solver.dq_src = None
        solver.before_step = None
    ctx.outcome('gaps-%s' % m['itg'])


def run_steps(item, ctx):
    """Adaptive steps of the SSP multistep methods: the largest ones for which the method preserves strong stability, given the
    forward Euler limits met during the last steps (for k steps of order p: C = (O - p + 1)/O with O = (time covered by the last k - 1 steps)/dt)."""
    m = item['m']
    th = ctx.tier == 'thorough'
    s, p = m['s'], int(m['itg'][-1])
    cfl_max = 0.3
    for amp in (0., 1., 3.):
        f = lambda t, q: amp * np.cos(5. * t) + 0. * q
        for dt_max in (1e99, 0.06):
            for w in words(GAPS, 5 if th else 4):
                solver, sol, log = sim(m, item['kern'], f, 0, dt=0.05, dtv=True, cfl_max=cfl_max, cfl_des=0.25, q0=3., rp='burgers_1D', pd=dict(efix=False), dt_max=dt_max)
                A, ends = [], []

                def before(so, state):
                    A.append((float(state.t), float(state.q[0, 0])))
                solver.before_step = before
                t = 0.
                for g in w:
                    t += g
                    k = len(A)
                    solver.evolve_to_time(sol, t)
                    ends += [t] * (len(A) - k)
                A.append((float(sol.t), 0.))
                acc = [i for i in range(len(A) - 1) if A[i + 1][0] > A[i][0]]
                T = [A[i][0] for i in acc] + [A[-1][0]]
                dx = sol.state.grid.delta[0]
                for n in range(s - 1, len(acc)):
                    mu = min(dx / abs(A[acc[j]][1]) for j in range(n - s + 1, n + 1)) * cfl_max * (s - 1.) / (s - p)
                    H = T[n] - T[n - s + 1]
                    want = min(H * mu / (H + (p - 1) * mu), dt_max, ends[acc[n]] - T[n])
                    got = T[n + 1] - T[n]
                    if not ctx.expect(abs(got - want) <= 1e-8 * want, 'step-size', '%s amplitude %r gaps %s: step %d from t=%r has size %r, SSP limit %r' % (m, amp, w, n, T[n], got, want)):
                        return
                    ctx.trans()
                ctx.state(str(item), amp, dt_max, w); ctx.trace()
                solver.dq_src = None
                solver.before_step = None
    # speeds that vanish now and then: speed of every step dictated by the environment
    f = lambda t, q: 0. * q
    for dt_max in (0.5, 0.125):
        for w in words((0., 1., 3.), 6 if th else 4):
            solver, sol, log = sim(m, item['kern'], f, 0, dt=0.05, dtv=True, cfl_max=cfl_max, cfl_des=0.25, q0=w[0], rp='burgers_1D', pd=dict(efix=False), dt_max=dt_max)
            A = []

            def before(so, state):
                state.q[...] = w[min(so.status['numsteps'], len(w) - 1)]
                A.append((float(state.t), float(state.q[0, 0])))
            solver.before_step = before
            try:
                solver.evolve_to_time(sol, 1.5)
            except Exception as e:
                ctx.fail('zero-speed', '%s speeds %s: %s: %s' % (m, w, type(e).__name__, e))
                return
            finally:
                solver.dq_src = None
                solver.before_step = None
            A.append((float(sol.t), 0.))
            acc = [i for i in range(len(A) - 1) if A[i + 1][0] > A[i][0]]
            T = [A[i][0] for i in acc] + [A[-1][0]]
            dx = sol.state.grid.delta[0]
            fe = lambda j: dx / abs(A[acc[j]][1]) if A[acc[j]][1] else np.inf
            for n in range(s - 1, len(acc)):
                mu = min(fe(j) for j in range(n - s + 1, n + 1)) * cfl_max * (s - 1.) / (s - p)
                H = T[n] - T[n - s + 1]
                want = min(H / (H / mu + (p - 1)), dt_max, 1.5 - T[n])
                got = T[n + 1] - T[n]
                if not ctx.expect(abs(got - want) <= 1e-8 * want + 1e-13, 'step-size', '%s speeds %s: step %d from t=%r has size %r, SSP limit %r' % (m, w, n, T[n], got, want)):
                    return
                ctx.trans()
            ctx.expect(sol.t == 1.5, 'end', 'ended at %r' % sol.t)
            ctx.state(str(item), dt_max, 'script', w); ctx.trace()
    ctx.outcome('steps-%s' % m['itg'])


def run_cond(item, ctx):
    """Third-order multistep method with a-posteriori conditions: steps discarded later leave the formula intact."""
    m = item['m']
    th = ctx.tier == 'thorough'
    for amp in (0., 1., 3.):
        f = lambda t, q: amp * np.cos(5. * t) + 0. * q
        for w in words(GAPS, 5 if th else 4):
            solver, sol, log = sim(m, item['kern'], f, 0, dt=0.1, dtv=True, cfl_max=0.3, cfl_des=0.25, q0=3., rp='burgers_1D', pd=dict(efix=False))
            solver.check_lmm_cond = True
            solver.max_steps = 200
            A = []

            def before(s, state):
                A.append((float(state.t), state.q.copy(), s.status['numsteps']))
            solver.before_step = before
            t = 0.
            try:
                for g in w:
                    t += g
                    solver.evolve_to_time(sol, t)
            except Exception:
                # the conditions cannot always be met when the speeds change quickly: giving up with an error is allowed
                if amp == 0.:
                    raise
                ctx.outcome('cond-gave-up')
                solver.dq_src = None
                solver.before_step = None
                continue
            A.append((float(sol.t), sol.state.q.copy(), solver.status['numsteps']))
            ref = Ref(m, f)
            S = [A[0]]
            disc = 0
            for a, b in zip(A, A[1:]):
                if b[2] == a[2]:
                    if b[0] == a[0]:
                        continue
                    S.pop(); ref.hist.pop(); disc += 1
                want = ref.step(S[-1][0], S[-1][1], b[0] - S[-1][0])
                if not ctx.expect(close(b[1], want, 1e-10), 'conditions', '%s gaps %s: step %d from t=%r to %r (%d steps discarded so far) gives %r, formula %r' %
                                  (m, w, len(S), S[-1][0], b[0], disc, float(b[1][0, 0]), float(want[0, 0]))):
                    return
                S.append(b)
                ctx.trans()
            ctx.expect(len(S) - 1 == solver.status['numsteps'], 'count', '%s: %d steps reported, %d kept' % (m, solver.status['numsteps'], len(S) - 1))
            ctx.state(str(item), amp, w); ctx.trace()
            ctx.outcome('cond-discard' if disc else 'cond')
            solver.dq_src = None
            solver.before_step = None


def run_order(item, ctx):
    """Stated order, independent of the tableaux: quadrature of powers of t, exponential."""
    m = item['m']
    p = ORDER[m.get('tab') or m['itg']]
    for k in range(p):
        for t0, dt in itertools.product((0., 0.3), (0.1, 0.7)):
            solver, sol, log = sim(m, 'Fortran', lambda t, q: t ** k + 0 * q, dt=dt, dtv=False, t0=t0)
            solver.evolve_to_time(sol)
            want = 1. + ((t0 + dt) ** (k + 1) - t0 ** (k + 1)) / (k + 1)
            ctx.expect(abs(sol.state.q[0, 0] - want) < 1e-13, 'order-t', '%s: t^%d not integrated exactly (%r, %r)' % (m, k, float(sol.state.q[0, 0]), want))
            solver.dq_src = None
            ctx.trans()
    for lam in (1., -2., 3.):
        dt = 0.01
        solver, sol, log = sim(m, 'Fortran', lambda t, q: lam * q, dt=dt, dtv=False)
        solver.evolve_to_time(sol)
        err = abs(sol.state.q[0, 0] - math.exp(lam * dt))
        ctx.expect(err <= 2. * abs(lam * dt) ** (p + 1) / math.factorial(p + 1) + 1e-15, 'order-q', '%s: error %r for q\'=%rq' % (m, err, lam))
        solver.dq_src = None
        ctx.trans()
    ctx.state(str(item)); ctx.trace(); ctx.outcome('order-%s' % m['itg'])


def run_pde(item, ctx):
    m, prob = item['m'], item['prob']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    n = {1: [9], 2: [5, 4], 3: [4, 3, 3]}[nd]
    dx = [0.5, 0.75, 1.][:nd]
    h = hash_(str(item))
    k = nsteps_of(m)
    src = lambda t, q: 0.3 * np.cos(t) * q
    for lt in (2, 1):
        opt = dict(lim_type=lt, weno=5) if lt == 2 else dict(lim_type=1, lim=[4])
        idx = np.resize(np.roll(np.array(de_bruijn(len(p['tok']), 3)), h), int(np.prod(n))).reshape(n)
        q, aux = P.fields(prob, idx)
        dt = 0.1 * min(dx) / p['smax']
        sp = P.spec(prob, n, up=[a * b for a, b in zip(n, dx)], fam='sharp', bc='p', **dict(opt, **settings(m)))
        solver, sol = build(sp, q, aux, dtv=False, dt=dt, cfl_max=1e9, cfl_des=1e9)
        solver.dq_src = lambda s, state, dt: dt * src(state.t, state.q)
        rp = wp.RP(C.get_rp(p['rp'], 'Fortran'), nd, solver.num_eqn, solver.num_waves, 0 if aux is None else aux.shape[0], sp['pd'])
        ng = 3

        def f(t, u):
            d, _ = SPR.dq(rp, SPR.pad(u, 'p', ng), None if aux is None else SPR.pad(aux, 'p', ng), ng, dx, 1., opt)
            return d + src(t, u)
        ref = Ref(m, f)
        cur, t = q, 0.
        for s in range(k + 1):
            solver.dt = dt
            solver.evolve_to_time(sol)
            want = ref.step(t, cur, dt)
            if not np.isfinite(want).all():
                break
            got = sol.state.q.copy()
            if not ctx.expect(close(got, want, 1e-8), '%dd-pde' % nd, '%s %s: step %d differs from the formula by %r' % (m, prob, s + 1, maxdiff(got, want))):
                return
            cur, t = got, float(sol.t)
            if m['itg'] != 'LMM':
                dt = dt * (0.8 if s % 2 else 1.1)
            ctx.trans()
        ctx.state(str(item), lt); ctx.trace()
        solver.dq_src = None
        solver = sol = None
    ctx.outcome('pde-%s' % prob)
