"""C12: stopping and restarting does not change the solution."""
import copy, gc, itertools, os, shutil
import numpy as np
from clawpack import pyclaw
from . import timeline as TL
from .common import build

ID = 'C12'
CHUNKS = 192
ASSUMPTIONS = ['a fresh solver is given the step size the previous one would use next (property: provided the same step sizes are used)',
               'after reading an hdf5 frame the user sets problem_data and index_capa again, which that format does not store',
               'multistep methods are split by further calls and runs of the same solver only']
BOUNDS = {'quick': 'all assignments of a continuation mechanism {none, further call, further run, fresh solver, deep copy with same / fresh solver, hdf5 frame, ascii frame, second solver alternating} to 2 split points '
                   '(3 for one configuration) of a run, 27 solver configurations x {fixed, adaptive} x {plain, source+callback}, with and without capacity', 'thorough': '3 split points for all configurations'}
MECH = ['none', 'call', 'run', 'solver', 'copy', 'copysolver', 'hdf5', 'ascii']
POINTS = [0.5, 0.75, 1.25]
TEND = 1.5


def cfgs():
    out = {k: dict(cfg=k) for k in TL.CONFIGS}
    out['c1f+capa'] = dict(cfg='c1f', capa=1)
    out['c1p+capa'] = dict(cfg='c1p', capa=1)
    out['s1f-SSP33+capa'] = dict(cfg='s1f-SSP33', capa=1)
    out['c2u2+capa'] = dict(cfg='c2u2', capa=2)
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for name in cfgs():
        for mode in ('fixed', 'var'):
            for extra in (0, 1):
                np_ = 3 if th or (name == 'c1f' and extra) else 2
                for first in MECH:
                    if 'LMM' in name and (first not in MECH[:3] or mode == 'var'):
                        continue
                    out.append(dict(cfg=name, mode=mode, extra=extra, np=np_, first=first))
    return out


def before(solver, state):
    state.aux[0, ...] = 1. + 0.25 * (int(state.t * 16) % 3)


def source_c(solver, state, dt):
    state.q[0] += dt * (state.t + 0.5 * state.q[0])


def source_s(solver, state, dt):
    dq = np.zeros_like(state.q)
    dq[0] = dt * (state.t + 0.5 * state.q[0])
    return dq


def make(sp, extra, q, aux, dt=None):
    solver, sol = build(sp, q, aux, **({} if dt is None else dict(dt=dt)))
    if extra:
        solver.before_step = before
        if sp['fam'] == 'classic':
            solver.step_source = source_c
            solver.source_split = extra
        else:
            solver.dq_src = source_s
    return solver, sol


def run(item, ctx):
    c = cfgs()[item['cfg']]
    sp = TL.spec(c['cfg'], cfl_max=1., cfl_des=0.8, dt=0.125, dt_max=0.4, bc='p')
    if sp['fam'] == 'sharp':
        sp.update(cfl_max=0.5, cfl_des=0.4)
    if item['mode'] == 'fixed':
        sp.update(dtv=False, dt=0.0625, cfl_max=1., cfl_des=0.9)
    n = sp['n']
    k = np.indices(n).sum(axis=0)
    naux = sp['naux']
    aux = np.stack([(1. + 0.5 * ((k + m) % 2)) * TL.SHARE[len(n)][m] for m in range(naux)])
    if 'capa' in c:
        aux = np.concatenate([aux, 1. + 0.25 * ((k[None] * 2 + 1) % 3)])
        sp['capa'] = naux
        sp['naux'] = naux + 1
    q = TL.data(n)
    extra = item['extra']
    pts = POINTS[:item['np']]
    # uninterrupted: one call with fixed steps; with adaptive steps the output times bound the steps
    solver, sol = make(sp, extra, q, aux)
    if item['mode'] == 'fixed':
        solver.evolve_to_time(sol, TEND)
        want = sol.q.copy()
    cache = {}

    def reference(split):
        if item['mode'] == 'fixed':
            return want, None
        if split not in cache:
            sv, so = make(sp, extra, q, aux)
            ts = []

            def record(solver, state):
                if state is so.state and state.t not in ts:
                    ts.append(float(state.t))
                if extra:
                    before(solver, state)
            sv.before_step = record
            for t in split + (TEND,):
                sv.evolve_to_time(so, t)
            ts.append(TEND)
            cache[split] = so.q.copy(), ts
            finish(sv)
        return cache[split]

    def finish(sv):
        sv.before_step = None
        if sp['fam'] == 'sharp':
            sv.dq_src = None
    finish(solver)
    del solver, sol
    d = os.path.join(os.getcwd(), 'rs')
    alph = MECH[:3] if 'LMM' in item['cfg'] else MECH
    for rest in itertools.product(alph, repeat=item['np'] - 1):
        hist = (item['first'],) + rest
        split = tuple(t for t, m in zip(pts, hist) if m != 'none')
        ref, ts = reference(split)
        tol = 0.
        solver, sol = make(sp, extra, q, aux)
        allsol = []
        frame = 0
        for t, m in list(zip(pts, hist)) + [(TEND, 'end')]:
            if m == 'none':
                continue
            if m == 'run':
                claw = pyclaw.Controller()
                claw.verbosity = 0
                claw.solver, claw.solution = solver, sol
                claw.output_format = None
                claw.output_style, claw.num_output_times, claw.tfinal = 1, 1, t
                claw.run()
            else:
                solver.evolve_to_time(sol, t)
            ctx.trans()
            frame += 1
            if m in ('end', 'call', 'run'):
                continue
            dt = None
            if ts is not None:        # the step size the uninterrupted run uses next
                k = ts.index(t)
                dt = ts[k + 1] - ts[k]
            if ts is not None and m != 'copy':
                tol = max(tol, 1e-8)          # step sizes differ by rounding
            if m == 'solver':
                finish(solver)
                solver, _ = make(sp, extra, q, aux, dt)
            elif m in ('copy', 'copysolver'):
                new = copy.deepcopy(sol)
                allsol.append((sol, sol.q.copy(), sol.t))
                sol = new
                if m == 'copysolver':
                    finish(solver)
                    solver, _ = make(sp, extra, q, aux, dt)
            elif m in ('hdf5', 'ascii'):
                shutil.rmtree(d, ignore_errors=True)
                sol.write(frame, d, m, None, True)
                cz = frame % 2 == 0
                new = pyclaw.Solution(frame, path=d, file_format=m, count_from_zero=cz)
                ctx.expect(new.start_frame == (0 if cz else frame), 'start-frame', 'start_frame %r after reading frame %d with count_from_zero=%s' % (new.start_frame, frame, cz), item=item, hist=hist)
                ctx.expect(new.t == t, 'restart-time', 't=%r after reading the frame of t=%r' % (new.t, t), item=item, hist=hist)
                if m == 'hdf5':
                    new.state.problem_data = dict(sol.state.problem_data)
                else:
                    tol = 1e-6
                if 'capa' in c:
                    new.state.index_capa = naux
                sol = new
                finish(solver)
                solver, _ = make(sp, extra, q, aux, dt)
        diff = float(np.max(np.abs(sol.q - ref)))
        scale = float(np.max(np.abs(ref)))
        ctx.expect(sol.t == TEND and diff <= tol * scale, 'split-changes-solution',
                   'run split at %s by %s differs from the uninterrupted one by %.3e' % (split, hist, diff), item=item, hist=hist)
        for s, q1, t1 in allsol:
            ctx.expect(s.t == t1 and np.array_equal(s.q, q1), 'copied-solution-changed', 'the solution a copy was made of changed', item=item, hist=hist)
        ctx.state(item['cfg'], item['mode'], extra, hist)
        ctx.trace()
        ctx.outcome('%s split at %d points%s' % (item['mode'], len(split), ' via text file' if tol > 1e-8 else ''))
        finish(solver)
        del solver, sol
        if sp['fam'] == 'sharp':
            gc.collect()
    shutil.rmtree(d, ignore_errors=True)
