"""C04: a controller run produces exactly the frames asked for, at the right times."""
import gc, itertools, os, re, shutil
import numpy as np
from clawpack import pyclaw
from .common import build, close
from . import frames as F

ID = 'C04'
CHUNKS = 96
ASSUMPTIONS = ['with output style 2 the first entry of out_times is the starting time, as documented; with style 3 runs start at frame 0',
               'the reference solution is obtained by evolve_to_time calls without a controller (C01 checks these)']
BOUNDS = {'quick': 'full product of {3 output styles x 1-3 outputs, repeated and single times} x {none, ascii, hdf5, both} x copies kept x 4 aux policies x derived quantities x functionals, '
                   'x {fresh, two runs, restart from a frame with and without counting from zero} on classic 1D/2D and SharpClaw, adaptive and fixed steps', 'thorough': 'up to 5 outputs and all solvers for all combinations'}

SOLV = {'c1': dict(fam='classic', rp='advection_color_1D', n=[6], naux=1, lim=4), 's1': dict(fam='sharp', rp='advection_color_1D', n=[6], naux=1, weno=5, lim=[1]),
        'c2': dict(fam='classic', rp='vc_advection_2D', n=[4, 3], naux=2, lim=4), 'c3': dict(fam='classic', rp='vc_advection_3D', n=[3, 4, 2], naux=3, lim=4)}


def plans(t0, th):
    out = []
    for k in (1, 2, 3) + ((5,) if th else ()):
        out.append(dict(style=1, num=k, tfinal=t0 + 0.75))
    out.append(dict(style=1, num=3, tfinal=t0 + 0.7))
    out.append(dict(style=2, times=[t0]))
    out.append(dict(style=2, times=[t0, t0 + 0.3]))
    out.append(dict(style=2, times=[t0, t0 + 0.3, t0 + 0.3125, t0 + 1.]))
    out.append(dict(style=2, times=[t0, t0 + 0.25, t0 + 0.25, t0 + 0.5]))
    for ns in (1, 2, 3):
        for k in (1, 2, 3):
            if ns * k <= (4 if not th else 9):
                out.append(dict(style=3, num=k, nstep=ns))
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for s in SOLV:
        for start in ('fresh', 'twice', 'zero', 'cont', 't0'):
            for mode in ('var', 'fixed'):
                t0 = 0.5 if start == 't0' else 0.
                for pl in plans(t0, th):
                    if pl['style'] == 3 and start in ('twice', 'cont'):
                        continue
                    if mode == 'fixed' and (pl.get('num') == 5 or pl.get('tfinal', t0) == t0 + 0.7):
                        continue
                    if mode == 'fixed' and pl['style'] == 2 and not all(float(x * 16).is_integer() for x in pl['times']):
                        continue
                    if start in ('zero', 'cont'):
                        pl = dict(pl)
                        # the restart frame is at time 0.25
                        if 'tfinal' in pl:
                            pl['tfinal'] += 0.25
                        if 'times' in pl:
                            pl['times'] = [x + 0.25 for x in pl['times']]
                    if s == 'c3' and not th and (start != 'fresh' or mode == 'fixed'):
                        continue
                    out.append(dict(s=s, start=start, mode=mode, plan=pl, full=bool(th or (s == 'c1' and start in ('fresh', 'cont')))))
    return out


def setup(item):
    sp = dict(SOLV[item['s']], cfl_max=1., cfl_des=0.9, dt=0.125, bc='p')
    if item['mode'] == 'fixed':
        sp.update(dtv=False, dt=0.0625)
    n = sp['n']
    k = np.indices(n).sum(axis=0)
    q = ((k * k * 3 + 2 * k) % 7 + 0.1)[None].astype(float)
    aux = np.stack([1. + 0.5 * ((k + m) % 3) for m in range(sp['naux'])])
    return sp, q, aux


def fp(state):
    state.p[0] = 2. * state.q[0] + state.t
    state.p[1] = -state.q[0]


def fF(state):
    state.F[0] = state.q[0] ** 2
    state.F[1] = state.q[0] - 3.
    state.F[2] = state.t + 0. * state.q[0]


def reference(sp, q, aux, t0, plan, setfirst=None):
    """frames [(t, q)] without a controller"""
    solver, sol = build(sp, q, aux, t0=t0)
    out = [(t0, sol.q.copy())]
    if plan['style'] == 3:
        for k in range(plan['num']):
            for j in range(plan['nstep']):
                solver.evolve_to_time(sol)
            out.append((sol.t, sol.q.copy()))
    else:
        times = list(np.linspace(t0, plan['tfinal'], plan['num'] + 1)) if plan['style'] == 1 else plan['times']
        for t in times[1:]:
            solver.evolve_to_time(sol, t)
            out.append((float(t), sol.q.copy()))
    return solver, sol, out


def run(item, ctx):
    base = os.getcwd()
    sp, q, aux = setup(item)
    start = item['start']
    t0 = 0.5 if start == 't0' else 0.
    q0 = q
    f0 = 0
    rdir = os.path.join(base, 'restart')
    if start in ('zero', 'cont'):
        t0 = 0.25
        shutil.rmtree(rdir, ignore_errors=True)
        sv, so = build(sp, q, aux, t0=t0)
        so.write(7, rdir, 'hdf5', None, True)
        f0 = 7 if start == 'cont' else 0
        del sv, so
    plan = item['plan']
    solver, sol, ref = reference(sp, q0, aux, t0, plan)
    second = None
    if start == 'twice':
        # continue with the same solver
        plan2 = dict(plan)
        if plan['style'] == 1:
            plan2['tfinal'] = plan['tfinal'] + 0.75
        else:
            plan2['times'] = [plan['times'][-1]] + [plan['times'][-1] + 0.125, plan['times'][-1] + 0.5]
        times = list(np.linspace(sol.t, plan2['tfinal'], plan2['num'] + 1)) if plan['style'] == 1 else plan2['times']
        second = [(sol.t, sol.q.copy())]
        for t in times[1:]:
            solver.evolve_to_time(sol, t)
            second.append((float(t), sol.q.copy()))
    del solver, sol
    gc.collect()
    fmts = [None, 'ascii', 'hdf5', ['ascii', 'hdf5']]
    if item['full']:
        combos = list(itertools.product(fmts, (False, True), ((0, 0), (1, 0), (0, 1), (1, 1)), (False, True), (False, True), (None,)))
        combos += [(f, True, (1, 0), True, True, 'foo') for f in fmts]
    else:
        combos = [(None, True, (0, 0), True, True, None), ('ascii', False, (1, 0), True, True, None), ('hdf5', True, (0, 1), False, False, None),
                  (['ascii', 'hdf5'], True, (0, 0), True, True, 'foo'), ('ascii', True, (1, 1), True, False, None), ('hdf5', False, (1, 0), True, True, None)]
    for combo in combos:
        one(item, ctx, sp, q0, aux, t0, f0, plan, ref, second, plan2 if second else None, combo, base, rdir)
    if item['mode'] == 'fixed' and plan['style'] < 3 and ref[-1][0] > t0:
        # with fixed steps no output request has any influence
        _, _, direct = reference(sp, q0, aux, t0, dict(style=2, times=[t0, ref[-1][0]]))
        ctx.expect(np.array_equal(direct[-1][1], ref[-1][1]), 'outputs-change-solution', 'solution at %r depends on the intermediate outputs' % ref[-1][0], item=item)
        ctx.trace()


def one(item, ctx, sp, q0, aux, t0, f0, plan, ref, second, plan2, combo, base, rdir):
    fmt, keep, (ai, aa), wp, wF, prefix = combo
    out = os.path.join(base, 'o')
    shutil.rmtree(out, ignore_errors=True)
    if wF:                      # the record of some earlier run in the same directory
        os.makedirs(out)
        with open(os.path.join(out, 'F.txt'), 'w') as f:
            f.write('0.125 7.0 8.0 9.0\n')
    solver, sol = build(sp, q0, aux, t0=t0)
    if item['start'] in ('zero', 'cont'):
        pd = dict(sol.state.problem_data)
        sol = pyclaw.Solution(7, path=rdir, file_format='hdf5', count_from_zero=(item['start'] == 'zero'))
        sol.state.problem_data = pd
    claw = pyclaw.Controller()
    claw.verbosity = 0
    claw.solver, claw.solution = solver, sol
    claw.outdir = out
    claw.output_format = fmt
    claw.keep_copy = keep
    claw.write_aux_init, claw.write_aux_always = bool(ai), bool(aa)
    if prefix:
        claw.output_file_prefix = prefix
    if wp:
        sol.state.mp = 2
        claw.compute_p = fp
    if wF:
        sol.state.mF = 3
        claw.compute_F = fF

    def request(pl):
        claw.output_style = pl['style']
        if 'tfinal' in pl:
            claw.tfinal = pl['tfinal']
        if 'num' in pl:
            claw.num_output_times = pl['num']
        if 'times' in pl:
            claw.out_times = pl['times']
        if 'nstep' in pl:
            claw.nstepout = pl['nstep']
    what = dict(combo=repr(combo), item=item)
    key = (item['s'], item['start'], item['mode'], repr(plan), repr(combo))
    request(plan)
    st = claw.run()
    runs = [(f0, ref, plan)]
    check(ctx, claw, runs[-1], 0, out, sp, aux, combo, what)
    ctx.expect(isinstance(st, dict), 'no-status', 'run returned %r' % (st,), **what)
    ctx.state(key)
    ctx.trans(len(ref))
    ctx.trace()
    if second is not None:
        nf = len(claw.frames)
        f1 = claw.solution.start_frame
        shutil.rmtree(out, ignore_errors=True)
        request(plan2)
        claw.run()
        check(ctx, claw, (f1, second, plan2), nf, out, sp, aux, combo, what)
        ctx.state(key, 'second')
        ctx.trans(len(second))
    ctx.outcome('%s frames=%d fmt=%s keep=%s p=%s F=%s' % (plan['style'], len(ref), fmt, keep, wp, wF))
    shutil.rmtree(out, ignore_errors=True)
    del solver, sol, claw
    if sp['fam'] == 'sharp':
        gc.collect()


def check(ctx, claw, run_, nf, out, sp, aux, combo, what):
    fmt, keep, (ai, aa), wp, wF, prefix = combo
    f0, ref, plan = run_
    fl = [] if fmt is None else ([fmt] if isinstance(fmt, str) else fmt)
    # in memory
    fr = claw.frames[nf:]
    ctx.expect(len(fr) == (len(ref) if keep else 0), 'memory-frames', '%d frames in memory, %d requested' % (len(fr), len(ref) if keep else 0), **what)
    if keep and len(fr) == len(ref):
        for k, (t, q) in enumerate(ref):
            s = fr[k]
            ok = s.t == t and np.array_equal(s.q, q) and np.array_equal(s.state.aux, aux) and s.state is not claw.solution.state
            if wp:
                ok = ok and np.array_equal(s.state.p, [2. * q[0] + t, -q[0]])
            ctx.expect(ok, 'memory-frame', 'frame %d in memory: t=%r (requested %r), max difference of q %s' % (k, s.t, t, float(np.max(np.abs(s.q - q))) if s.q.shape == q.shape else s.q.shape), **what)
    ctx.expect(claw.solution.t == ref[-1][0] and np.array_equal(claw.solution.q, ref[-1][1]), 'final-solution', 'solution at the end of the run: t=%r (%r)' % (claw.solution.t, ref[-1][0]), **what)
    # files
    names = os.listdir(out) if os.path.isdir(out) else []
    want = {}
    num = list(range(f0, f0 + len(ref)))
    apol = [k for i, k in enumerate(num) if (aa or (ai and i == 0))]
    for kind, pat in (('t', r'\.t(\d{4,})$'), ('q', r'\.q(\d{4,})$'), ('a', r'\.a(\d{4,})$'), ('h', r'(\d{4})\.hdf$')):
        w = []
        if kind == 'h' and 'hdf5' in fl:
            w = num
        if kind in 'tq' and 'ascii' in fl:
            w = num
        if kind == 'a' and 'ascii' in fl:
            w = apol
        pre = prefix or ('claw' if kind == 'h' else 'fort')
        got = sorted(int(m.group(1)) for m in (re.search('^' + pre + pat, x) for x in names) if m)
        anyp = sorted(int(m.group(1)) for m in (re.search(pat, x) for x in names) if m)
        ctx.expect(got == w and anyp == w, 'frame-files', '%s files of frames %s (requested %s)' % (kind, anyp, w), files=names, **what)
    for f in fl:
        for k, (t, q) in enumerate(ref):
            s = pyclaw.Solution(num[k], path=out, file_format=f, **({'file_prefix': prefix} if prefix else {}))
            rel = 1e-8 if f == 'ascii' else 0.
            ok = abs(s.t - t) <= rel * abs(t) and F.same_array(np.array(s.q), q, rel)
            if f == 'hdf5':
                ok = ok and (np.array_equal(s.state.aux, aux) if num[k] in apol else np.isnan(s.state.aux).all())
            elif num[k] in apol:
                ok = ok and F.same_array(np.array(s.state.aux), aux, rel)
            ctx.expect(ok, 'frame-contents', '%s frame %d: t=%r (requested %r)' % (f, num[k], s.t, t), **what)
        if wp:
            pn = os.listdir(os.path.join(out, '_p'))
            got = sorted(int(m.group(1)) for m in (re.search(r'^claw_p\.q(\d{4})$' if f == 'ascii' else r'^claw_p(\d{4})\.hdf$', x) for x in pn) if m)
            ctx.expect(got == num, 'derived-files', 'derived-quantity files of frames %s (requested %s)' % (got, num), **what)
            for k, (t, q) in enumerate(ref):
                if num[k] not in got:
                    continue
                s = pyclaw.Solution(num[k], path=os.path.join(out, '_p'), file_format=f, file_prefix='claw_p', read_aux=False)
                rel = 1e-8 if f == 'ascii' else 0.
                pp = np.array([2. * q[0] + t, -q[0]])
                ctx.expect(s.t == t if f == 'hdf5' else abs(s.t - t) <= 1e-8 * abs(t), 'derived-time', 'derived-quantity frame %d: t=%r' % (num[k], s.t), **what)
                ctx.expect(F.same_array(np.array(s.q), pp, rel), 'derived-contents', '%s derived-quantity frame %d' % (f, num[k]), **what)
    if wp and not fl:
        ctx.expect(not os.path.isdir(os.path.join(out, '_p')), 'derived-unrequested', 'derived-quantity files without an output format', **what)
    fn = os.path.join(out, 'F.txt')
    ctx.expect(os.path.exists(fn) == bool(wF), 'functional-file', 'functional record exists: %s' % os.path.exists(fn), **what)
    if wF and os.path.exists(fn):
        rows = [[float(x) for x in l.split()] for l in open(fn) if l.strip()]
        wr = [[t, np.sum(q[0] ** 2), np.sum(np.abs(q[0] - 3.)), abs(t) * q[0].size] for t, q in ref]
        ctx.expect(len(rows) == len(wr) and all(close(a, b, 1e-12) for a, b in zip(rows, wr)), 'functional-record', 'functionals %s, expected %s' % (rows, wr), **what)
