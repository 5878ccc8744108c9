"""C15: gauges record every accepted step of their own cell."""
import gc, itertools, os, shutil
import numpy as np
from clawpack import pyclaw
from clawpack.pyclaw.gauges import GaugeSolution, convert_gauges, compare_old_gauges
from . import timeline as TL
from .common import build, upto

ID = 'C15'
CHUNKS = 192
ASSUMPTIONS = ['the before_step callback shows the accepted states: time and values at the start of each attempted step',
               'a location within rounding (1e-12 cell widths... of the extent) of a cell edge may be attributed to either neighbour',
               'a further run starts new gauge files and continues the values kept in memory', 'multistep condition checks (check_lmm_cond, off by default) are not used']
BOUNDS = {'quick': 'all locations of a lattice of quarter cells (1D), half cells (2D, 3D) incl. edges, their floating-point neighbours and points outside, on grids with 7 different extents; '
                   'all speed scripts of length <=3 over {1,8,-2} (rejections included) x 26 solver configurations x {one call, several calls, controller run, two runs} x {values, scalar, list of derived quantities} x memory on/off; every ordered choice of up to 3 gauges with q and aux values differing from cell to cell; '
                   'all gauge-file variants (dimension x type line x format x number of records and fields)', 'thorough': 'scripts of length <=4; finer lattices'}


def items(tier):
    th = tier == 'thorough'
    out = []
    for ext in range(len(EXT)):
        for n in ([1, 2, 3, 5, 7, 10, 49] if not th else list(range(1, 60))):
            out.append(dict(k='loc1', ext=ext, n=n))
    for nd in (2, 3):
        for ext in range(len(EXT)):
            for r in range(3):
                out.append(dict(k='locn', nd=nd, ext=ext, r=r))
    for name in TL.CONFIGS:
        for how in ('one', 'calls', 'run', 'twice', 'single'):
            for comp in ('default', 'scalar', 'list', 'array'):
                for keep in (True, False):
                    if not th and not keep and comp != 'default':
                        continue
                    if not th and comp in ('list', 'array') and how != 'run':
                        continue
                    out.append(dict(k='hist', cfg=name, how=how, comp=comp, keep=keep, L=4 if th else (3 if how == 'one' else 2)))
        for how in ('one', 'run'):          # many records
            out.append(dict(k='hist', cfg=name, how=how, comp='default', keep=True, L=1, long=True))
    for nd in (1, 2, 3):
        for hdr in ('old', 'stationary', 'lagrangian'):
            for fmt in ('asciiline', 'ascii', 'binary', 'binary64', 'binary32'):
                out.append(dict(k='file', nd=nd, hdr=hdr, fmt=fmt))
    for ng in (1, 2, 3):
        out.append(dict(k='convert', ng=ng))
    for s in VAL:
        for how in ('run', 'steps'):
            for keep in (True, False):
                out.append(dict(k='val', s=s, how=how, keep=keep))
    return out


EXT = [(0., 1.), (-1., 1.), (0.1, 0.7), (-3., -1.), (0., 10.), (1000., 1000.5), (-0.3, 0.9)]


def lattice(lo, up, n, q):
    """Locations from one cell below to one cell above, q per cell, with floating-point neighbours."""
    d = (up - lo) / n
    out = []
    for j in range(-q, n * q + q + 1):
        x = lo + j * d / q
        out.append(x)
        if j % q == 0:
            out += [float(np.nextafter(x, -1e9)), float(np.nextafter(x, 1e9))]
    for x in (lo, up):
        out += [x, float(np.nextafter(x, -1e9)), float(np.nextafter(x, 1e9))]
    return sorted(set(out))


def cells_of(x, lo, up, n):
    """Acceptable cell indices of location x: [] outside."""
    d = (up - lo) / n
    if not (lo <= x < up):
        return []
    r = (x - lo) / d
    tol = 1e-9
    out = {min(int(np.floor(r)), n - 1)}
    if abs(r - round(r)) < tol:
        for c in (round(r) - 1, round(r)):
            if 0 <= c < n:
                out.add(int(c))
    return sorted(out)


def rows(f):
    with open(f) as h:
        return [[float(x) for x in l.split()] for l in h if l.strip()]


def run(item, ctx):
    return {'loc1': loc, 'locn': loc, 'hist': hist, 'file': gfile, 'convert': convert, 'val': val}[item['k']](item, ctx)


def loc(item, ctx):
    lo, up = EXT[item['ext']]
    th = ctx.tier == 'thorough'
    if item['k'] == 'loc1':
        los, ups, ns = [lo], [up], [item['n']]
        pts = [(x,) for x in lattice(lo, up, item['n'], 8 if th else 4)]
    else:
        nd = item['nd']
        e = [EXT[(item['ext'] + i) % len(EXT)] for i in range(nd)]
        los, ups = [x[0] for x in e], [x[1] for x in e]
        ns = [[3, 2, 4], [1, 5, 2], [4, 3, 1]][item['r']][:nd]
        axes = []
        for i in range(nd):
            a = lattice(los[i], ups[i], ns[i], 2)
            if not th:
                a = [x for x in a if nd == 2 or not (np.nextafter(x, 1e9) in a)]
            axes.append(a)
        pts = list(itertools.product(*axes))
    nd = len(ns)
    rp = {1: 'advection_1D', 2: 'advection_2D', 3: 'vc_advection_3D'}[nd]
    sp = dict(rp=rp, n=ns, lo=los, up=ups, cfl_max=1., cfl_des=0.9, lim=1, bc='p', pd={1: dict(u=1.), 2: dict(u=1., v=0.5), 3: {}}[nd])
    naux = 3 if nd == 3 else 0
    idx = np.indices(ns)
    q = sum((i + 1) * 101. ** -k for k, i in enumerate(idx))[None] + 0.
    aux = np.ones([naux] + list(ns)) if naux else None
    delta = [(u - l) / n for l, u, n in zip(los, ups, ns)]
    sp['dt'] = 0.25 * min(delta)
    solver, sol = build(sp, q, aux)
    out = os.path.join(os.getcwd(), 'go')
    shutil.rmtree(out, ignore_errors=True)
    order = [pts[i] for i in range(len(pts))]
    # split in groups so that not too many files are open at a time
    G = 200
    for g0 in range(0, len(order), G):
        grp = order[g0:g0 + G]
        solver, sol = build(sp, q, aux)
        grid = sol.state.grid
        grid.add_gauges([list(p) for p in grp])
        sol.state.keep_gauges = True
        inside = [p for p in grp if all(cells_of(p[i], los[i], ups[i], ns[i]) for i in range(nd))]
        ctx.expect(len(grid.gauges) == len(inside), 'gauge-count', '%d gauges, %d locations inside the domain' % (len(grid.gauges), len(inside)), item=item)
        claw = pyclaw.Controller()
        claw.verbosity = 0
        claw.solver, claw.solution = solver, sol
        claw.output_format = None
        claw.outdir = out
        claw.output_style, claw.nstepout, claw.num_output_times = 3, 1, 1
        claw.run()
        states = [(0., q), (sol.t, sol.q.copy())]
        if len(grid.gauges) != len(inside):
            continue
        for k, p in enumerate(inside):
            r = rows(grid.gauge_files[k].name)
            cand = list(itertools.product(*[cells_of(p[i], los[i], ups[i], ns[i]) for i in range(nd)]))
            ok = False
            for c in cand:
                want = [[t] + list(s[(slice(None),) + c]) for t, s in states]
                ok = ok or r == want
            ctx.expect(ok, 'gauge-value', 'gauge at %s records %s; cells %s' % (p, r, cand), item=item, point=p)
            ctx.expect(np.array_equal(np.atleast_2d(sol.state.gauge_data[k]), np.array(r)), 'gauge-memory', 'gauge at %s: memory differs from file' % (p,), item=item)
            ctx.state('loc', item['k'], item['ext'], tuple(ns), p)
            ctx.trans(); ctx.trace()
        ctx.outcome('inside' if inside else 'outside')
        shutil.rmtree(out, ignore_errors=True)


def comp_fun(kind):
    if kind == 'scalar':
        return lambda q, aux: 2. * q[0] + aux[0]
    if kind == 'list':
        return lambda q, aux: [q[0], aux[0], q[0] * aux[0]]
    if kind == 'array':
        return lambda q, aux: np.array([q[0] - 1., 3.])
    return lambda q, aux: list(q)


def hist(item, ctx):
    sp = TL.spec(item['cfg'], cfl_max=1., cfl_des=0.9, dt=0.5, dt_max=1.)
    if sp['fam'] == 'sharp':
        sp.update(cfl_max=1., cfl_des=0.9)
    if item.get('long'):
        sp.update(dt=1. / 256, dt_max=1. / 256)
    n = sp['n']
    nd = len(n)
    f = comp_fun(item['comp'])
    cells = [tuple(0 for _ in n), tuple(m - 1 for m in n), tuple((m // 2 + i) % m for i, m in enumerate(n))]
    gl = [[c + 0.5 for c in cell] for cell in cells]
    gl.insert(1, [m + 3. for m in n])           # outside
    out = os.path.join(os.getcwd(), 'gh')
    for script in [(1.,)] if item.get('long') else upto([1., 8., -2.], item['L'], 1):
        shutil.rmtree(out, ignore_errors=True)
        with TL.Timeline(sp, script) as T:
            solver, sol = T.solver, T.sol
            seen = []
            inner = solver.before_step

            def spy(sv, state):
                if state is sol.state and (not seen or seen[-1][0] != float(sol.t)):
                    seen.append(None)
                    inner(sv, state)
                    seen[-1] = (float(sol.t), state.q.copy(), state.aux.copy())
                    if len(seen) == 1:
                        return
                    # the gauge line of the previous step was written with the aux values of that step
                else:
                    inner(sv, state)
            # values recorded after a step use the aux values in force during it
            recs = []

            def spy2(sv, state):
                if state is sol.state:
                    t = float(sol.t)
                    if not recs or recs[-1][0] != t:
                        recs.append((t, state.q.copy(), state.aux.copy()))
                inner(sv, state)
            solver.before_step = spy2
            grid = sol.state.grid
            grid.add_gauges(gl)
            sol.state.keep_gauges = item['keep']
            if item['comp'] != 'default':
                solver.compute_gauge_values = f
            ctx.expect(len(grid.gauges) == 3, 'gauge-count', '%d gauges' % len(grid.gauges), item=item)
            runs = []

            def finish(t0):
                """sequence of recorded states of this part, from recs and the present solution"""
                r = list(recs)
                if not r or r[-1][0] != float(sol.t):
                    r.append((float(sol.t), sol.q.copy(), sol.state.aux.copy()))
                del recs[:]
                return r
            init = (float(sol.t), sol.q.copy(), sol.state.aux.copy())
            if item['how'] in ('run', 'twice'):
                claw = pyclaw.Controller()
                claw.verbosity = 0
                claw.solver, claw.solution = solver, sol
                claw.output_format = None
                claw.outdir = out
                claw.output_style, claw.num_output_times, claw.tfinal = 1, 2, 1.
                claw.run()
                r = finish(0)
                runs.append([init] + r[1:])
                files = [rows(g.name) for g in grid.gauge_files]
                compare(ctx, item, script, runs[-1:], files, sol, cells, f, 1)
                if item['how'] == 'twice':
                    init = (float(sol.t), sol.q.copy(), sol.state.aux.copy())
                    claw.tfinal = 1.5
                    claw.run()
                    r = finish(0)
                    runs.append([init] + r[1:])
                    files = [rows(g.name) for g in grid.gauge_files]
                    compare(ctx, item, script, runs, files, sol, cells, f, 2)
            else:
                grid.setup_gauge_files(out)
                if item['how'] == 'one':
                    solver.evolve_to_time(sol, 1.)
                elif item['how'] == 'calls':
                    for t in (0.375, 0.375, 0.2, 1.):
                        solver.evolve_to_time(sol, t)
                else:
                    for k in range(3):
                        solver.evolve_to_time(sol)
                r = finish(0)
                runs.append(r[1:])                   # no initial line without a controller run
                for g in grid.gauge_files:
                    g.flush()
                files = [rows(g.name) for g in grid.gauge_files]
                compare(ctx, item, script, runs, files, sol, cells, f, 1)
                for g in grid.gauge_files:
                    g.close()
            ctx.state('hist', item['cfg'], item['how'], item['comp'], item['keep'], script)
            ctx.trans(len(T.attempts))
            ctx.trace()
            ctx.outcome('%s records=%d rejected=%d' % (item['how'], len(runs[-1]), max(0, len(T.attempts) - sum(len(x) for x in runs))))
    shutil.rmtree(out, ignore_errors=True)


def compare(ctx, item, script, runs, files, sol, cells, f, nrun):
    mem = sol.state.gauge_data
    ctx.expect(len(files) == 3, 'gauge-files', '%d files' % len(files), item=item, script=script)
    for k, c in enumerate(cells):
        want = [[[t] + list(np.atleast_1d(np.asarray(f(q[(slice(None),) + c], aux[(slice(None),) + c]), dtype=float))) for t, q, aux in r] for r in runs]
        ctx.expect(files[k] == want[-1], 'gauge-record', 'gauge %d recorded %s, accepted steps %s' % (k, files[k], want[-1]), item=item, script=script)
        if item['keep']:
            w = sum(want, [])
            ctx.expect(np.array_equal(np.atleast_2d(mem[k]), np.array(w)), 'gauge-memory', 'gauge %d in memory %s, accepted steps %s' % (k, mem[k], w), item=item, script=script)
    if not item['keep']:
        ctx.expect(len(mem) == 0, 'gauge-memory', 'gauge values kept although not asked for', item=item)


def gfile(item, ctx):
    nd, hdr, fmt = item['nd'], item['hdr'], item['fmt']
    d = os.path.join(os.getcwd(), 'gf')
    d2 = os.path.join(os.getcwd(), 'gf2')
    for gid in (1, 23, 12345):
        for meqn in (1, 2, 3, 4):
            for nrec in (1, 2, 5):
                if hdr == 'lagrangian' and nd == 2 and meqn < 3:
                    continue
                for x in (d, d2):
                    shutil.rmtree(x, ignore_errors=True)
                    os.makedirs(x)
                loc = ([0.1, -12.75, 1e-5] if nrec != 2 else [float('%.10e' % x) for x in (-1e5 / 3., 1e-6 / 7., 2. / 3.)])[:nd]
                k = np.arange(nrec)
                level = 1 + k % 3
                t = 0.1 + 0.3 * k
                q = np.array([(m + 1) * 10. ** (k - m) * (-1.) ** k / 3. for m in range(meqn)])
                if fmt == 'binary32':
                    t = t.astype(np.float32).astype(float)
                    q = q.astype(np.float32).astype(float)
                with open(os.path.join(d, 'gauge%s.txt' % str(gid).zfill(5)), 'w') as f:
                    f.write('# gauge_id= %5i location=( %s ) num_eqn= %2i\n' % (gid, ' '.join('%17.10e' % x for x in loc), meqn))
                    if hdr == 'stationary':
                        f.write('# Stationary gauge\n')
                    elif hdr == 'lagrangian':
                        f.write('# Lagrangian particle, q[2,3] replaced by x(t),y(t)\n')
                    f.write('# level, time, q[1:%d]\n' % meqn)
                    if fmt == 'asciiline':
                        f.write('# file format ascii, time series follow in this file\n')
                    elif fmt.startswith('binary'):
                        f.write('# file format %s, time series in .bin file\n' % fmt)
                    if not fmt.startswith('binary'):
                        for i in range(nrec):
                            f.write('%5i %s %s\n' % (level[i], repr(float(t[i])), ' '.join(repr(float(v)) for v in q[:, i])))
                if fmt.startswith('binary'):
                    data = np.vstack([level, t, q])
                    data.ravel(order='F').astype(np.float32 if fmt == 'binary32' else np.float64).tofile(os.path.join(d, 'gauge%s.bin' % str(gid).zfill(5)))
                g = GaugeSolution(gid, d)
                what = dict(item=item, gid=gid, meqn=meqn, nrec=nrec)
                gsame(ctx, g, gid, loc, level, t, q, hdr, 'gauge-file-read', what)
                ctx.expect(GaugeSolution(gid, d).is_valid(), 'gauge-file-valid', '', **what)
                # written again
                g.write(d2)
                g2 = GaugeSolution(gid, d2)
                gsame(ctx, g2, gid, loc, level, t, q, hdr, 'gauge-file-rewritten', what)
                gsame(ctx, g, gid, loc, level, t, q, hdr, 'gauge-changed-by-writing', what)
                # another id
                os.rename(os.path.join(d2, 'gauge%s.txt' % str(gid).zfill(5)), os.path.join(d2, 'gauge00777.txt'))
                try:
                    GaugeSolution(777, d2)
                    ctx.fail('gauge-wrong-id', 'file of gauge %d read as gauge 777' % gid, **what)
                except Exception:
                    pass
                ctx.state('file', nd, hdr, fmt, gid, meqn, nrec)
                ctx.trans(2); ctx.trace()
    ctx.outcome('%dD %s %s' % (nd, hdr, fmt))
    for x in (d, d2):
        shutil.rmtree(x, ignore_errors=True)


def gsame(ctx, g, gid, loc, level, t, q, hdr, sig, what):
    ok = g.id == gid and list(np.asarray(g.location, dtype=float)) == loc and np.array_equal(g.level, level)
    ok = ok and g.t.shape == t.shape and np.all(np.abs(g.t - t) <= 1e-14 * np.abs(t)) and g.q.shape == q.shape and np.all(np.abs(g.q - q) <= 1e-14 * np.abs(q))
    ok = ok and (g.gtype == 'lagrangian') == (hdr == 'lagrangian')
    if len(loc) == 2 and ok:  # path of the gauge: t, x, y (a fixed gauge: where and when it starts)
        path = np.array([t, q[1], q[2]]).T if hdr == 'lagrangian' else np.array([[t[0]] + loc])
        ok = np.shape(g.particle_path) == path.shape and np.allclose(g.particle_path, path, rtol=1e-13, atol=0.)
    ctx.expect(ok, sig, 'id=%r location=%r level=%r t=%r q=%r type=%r' % (g.id, g.location, g.level, g.t, g.q, g.gtype), **what)


def convert(item, ctx):
    d = os.path.join(os.getcwd(), 'gc')
    for meqn in (1, 3):
        for nrec in (1, 2, 4):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            ids = [3, 17, 204][:item['ng']]
            want = {}
            lines = []
            for r in range(nrec):
                for i in ids:
                    v = [i * 0.125 + r + 0.1 * m for m in range(meqn)]
                    want.setdefault(i, []).append([r % 2 + 1, 0.5 * r] + v)
                    lines.append('%d %d %r %s' % (i, r % 2 + 1, 0.5 * r, ' '.join(repr(x) for x in v)))
            if len(lines) < 2:
                continue
            with open(os.path.join(d, 'fort.gauge'), 'w') as f:
                f.write('\n'.join(lines) + '\n')
            convert_gauges(os.path.join(d, 'fort.gauge'), d)
            for i in ids:
                g = GaugeSolution(i, d)
                got = np.vstack([g.level, g.t, g.q]).T
                ctx.expect(got.shape == np.array(want[i]).shape and np.allclose(got, want[i], rtol=1e-14, atol=1e-15), 'gauge-convert', 'gauge %d' % i, item=item)
                ctx.expect(compare_old_gauges(os.path.join(d, 'fort.gauge'), d, i), 'gauge-compare-old', 'gauge %d' % i, item=item)
                ctx.state('convert', item['ng'], meqn, nrec, i)
                ctx.trans(); ctx.trace()
    shutil.rmtree(d, ignore_errors=True)


# ---- values of q and aux that differ from cell to cell ---------------------------
VAL = {'c1': dict(fam='classic', rp='advection_color_1D', n=[5], naux=2, lim=4), 's1': dict(fam='sharp', rp='advection_color_1D', n=[5], naux=2, weno=5, lim=[1]),
       'c2': dict(fam='classic', rp='vc_advection_2D', n=[4, 3], naux=2, lim=4), 's2': dict(fam='sharp', rp='vc_advection_2D', n=[4, 3], naux=2, weno=5, lim=[1]),
       'c3': dict(fam='classic', rp='vc_advection_3D', n=[3, 4, 2], naux=3, lim=4),
       'b1': dict(fam='classic', rp='burgers_1D', n=[5], naux=0, lim=4)}


def val(item, ctx):
    """Every ordered choice of up to 3 gauges: each line holds q and aux of its own cell."""
    sp = dict(VAL[item['s']], cfl_max=1., cfl_des=0.9, dt=0.125, bc='p')
    n = sp['n']
    k = np.indices(n)
    k = sum((3 + 2 * i) * k[i] for i in range(len(n)))
    q0 = ((k * k * 3 + 2 * k) % 17 / 16. + 0.1)[None]
    aux0 = np.stack([1. + ((k + 5 * m) % 13) / 26. for m in range(sp['naux'])]) if sp['naux'] else None
    cells = list(np.ndindex(*n))
    if len(n) > 1 and ctx.tier != 'thorough':
        cells = cells[::max(1, len(cells) // 5)]
    out = os.path.join(os.getcwd(), 'gv')
    given = []

    def f(q, aux):
        given.append(aux is None)
        return list(q) + ([] if aux is None else list(aux))
    for r in (1, 2, 3):
        for choice in itertools.permutations(cells, r):
            shutil.rmtree(out, ignore_errors=True)
            solver, sol = build(sp, q0.copy(), None if aux0 is None else aux0.copy())
            grid = sol.state.grid
            d = grid.delta
            grid.add_gauges([[grid.lower[i] + (c[i] + 0.4) * d[i] for i in range(len(n))] for c in choice])
            sol.state.keep_gauges = item['keep']
            solver.compute_gauge_values = f
            snaps = []
            solver.before_step = lambda sv, st: snaps.append((float(sol.t), sol.state.q.copy())) if not snaps or snaps[-1][0] != float(sol.t) else None
            if item['how'] == 'run':
                claw = pyclaw.Controller()
                claw.verbosity = 0
                claw.solver, claw.solution = solver, sol
                claw.output_format, claw.outdir = None, out
                claw.output_style, claw.num_output_times, claw.tfinal = 1, 1, 0.25
                claw.run()
            else:
                grid.setup_gauge_files(out)
                for j in range(2):
                    solver.evolve_to_time(sol)
                for g in grid.gauge_files:
                    g.close()
                del snaps[0]
            snaps.append((float(sol.t), sol.state.q.copy()))
            for i, c in enumerate(choice):
                want = np.array([[t] + q[(slice(None),) + c].tolist() + ([] if aux0 is None else aux0[(slice(None),) + c].tolist()) for t, q in snaps])
                got = np.array(rows(grid.gauge_files[i].name))
                ctx.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-14, atol=0.), 'gauge-values', 'gauge %d of cells %s: %s instead of %s' % (i, choice, got.tolist(), want.tolist()), item=item)
                if item['keep']:
                    mem = np.array(sol.state.gauge_data[i])
                    ctx.expect(mem.shape == want.shape and np.array_equal(mem, want), 'gauge-memory', 'gauge %d of cells %s: %s instead of %s' % (i, choice, mem.tolist(), want.tolist()), item=item)
            ctx.expect(set(given) == {aux0 is None}, 'gauge-aux', 'aux values given: %s' % set(given), item=item)
            ctx.trans(len(snaps)); ctx.trace(); ctx.state('val', item['s'], item['how'], item['keep'], choice)
            del solver, sol
    ctx.outcome('values %s' % item['s'])
