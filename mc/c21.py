"""C21: invalid set-ups are refused before anything is computed or overwritten."""
import copy, gc, itertools, os, shutil
import numpy as np
from clawpack import pyclaw
from .common import build, raises
from .problems import PROBLEMS, spec, fields

ID = 'C21'
CHUNKS = 160
ASSUMPTIONS = ['a set-up that is only refused by Controller.run (its validity check) is not required to be refused by a direct evolve_to_time call',
               'parameters needed by Riemann solvers written in Python are not declared anywhere and can only be missed when they are used']
BOUNDS = {'quick': 'every single defect of the list, at every side, in 16 valid set-ups, through Controller.run (with existing output of an earlier run incl. gauges, functionals, derived quantities; overwrite on and off) '
                   'and through evolve_to_time, followed by repair and run; all pairs of defects in 3 set-ups; invalid changes of dimensions and constructor arguments; the valid set-ups themselves',
          'thorough': 'all pairs of defects in all 16 set-ups'}

BASE = {
    'c1': ('aco', [6], dict(fam='classic', bc='e')),
    'c1o': ('aco', [6], dict(fam='classic', order=1, bc='w')),
    'c1p': ('aco', [6], dict(fam='classic', kern='Python')),
    'c1a': ('vac', [6], dict(fam='classic', bc='e', abc='e')),
    'c1k': ('adv+', [6], dict(fam='classic', capa=0)),
    'c1w': ('tfw', [6], dict(fam='classic', bc='e')),
    'c2': ('vac2', [4, 5], dict(fam='classic', split=True)),
    'c2u': ('aco2', [4, 5], dict(fam='classic', split=False, trans=2)),
    'c3': ('vac3', [3, 4, 3], dict(fam='classic', split=True)),
    'c3u': ('vac3', [3, 3, 4], dict(fam='classic', split=False, trans=22)),
    's1': ('vac', [12], dict(fam='sharp', itg='SSP33', cfl_max=0.5, cfl_des=0.4)),
    's1t': ('aco', [8], dict(fam='sharp', itg='Euler', lim_type=1, lim=[1], cfl_max=0.5, cfl_des=0.4)),
    's1m': ('adv+', [12], dict(fam='sharp', itg='SSPLMMk2', lmm_steps=3)),
    's1p': ('adv+', [12], dict(fam='sharp', kern='Python', itg='SSP104', cfl_max=2.5, cfl_des=2.45)),
    's2': ('aco2', [8, 8], dict(fam='sharp', itg='SSP33', cfl_max=0.5, cfl_des=0.4)),
    's3': ('vac3', [6, 6, 6], dict(fam='sharp', itg='SSP22', cfl_max=0.5, cfl_des=0.4)),
}
PAIRS = ['c1', 'c2', 's1']


def attr(name, val):
    def f(sv, so, c):
        old = getattr(sv, name)
        setattr(sv, name, val(sv) if callable(val) else val)
        return lambda: setattr(sv, name, old)
    return f


def attrs(*pairs):
    def f(sv, so, c):
        undo = [attr(n, v)(sv, so, c) for n, v in pairs]
        return lambda: [u() for u in undo[::-1]]
    return f


def bc(which, d, val):
    def f(sv, so, c):
        l = getattr(sv, which)
        old = l[d]
        l[d] = val
        return lambda: l.__setitem__(d, old)
    return f


def ctl(name, val):
    def f(sv, so, c):
        old = getattr(c, name)
        setattr(c, name, val)
        return lambda: setattr(c, name, old)
    return f


def both(f, g):
    def h(sv, so, c):
        u, v = f(sv, so, c), g(sv, so, c)
        return lambda: (v(), u())
    return h


def st(name, val):
    def f(sv, so, c):
        old = getattr(so.state, name)
        setattr(so.state, name, val)
        return lambda: setattr(so.state, name, old)
    return f


def nopd(key):
    def f(sv, so, c):
        old = so.state.problem_data.pop(key)
        return lambda: so.state.problem_data.__setitem__(key, old)
    return f


def double(*x):
    return [2. * y for y in x]


def mapping(capa, aux):
    def f(sv, so, c):
        g = so.state.grid
        m, k, a = g.mapc2p, so.state.index_capa, so.state.aux
        g.mapc2p = lambda *x: [2. * y for y in x]
        so.state.index_capa = capa
        if not aux:
            so.state.aux = None

        def undo():
            g.mapc2p, so.state.index_capa, so.state.aux = m, k, a
        return undo
    return f


def second(name, val):
    """a further state of the solution is the one that is wrong"""
    def f(sv, so, c):
        x = copy.deepcopy(so.state)
        setattr(x, name, np.array(x.q, order='C') if name == 'q' else val)
        so.states.append(x)
        return lambda: so.states.pop()
    return f


def corder(which):
    def f(sv, so, c):
        a = getattr(so.state, which)
        setattr(so.state, which, np.array(a, order='C'))
        return lambda: setattr(so.state, which, np.array(a, order='F'))
    return f


def components(k):
    def f(sv, so, c):
        a = so.state.q
        if k > 0:
            b = np.concatenate([a] + [a[:1]] * k)
        else:
            b = a[:k]
        so.state.q = np.array(b, order='F')
        return lambda: setattr(so.state, 'q', a)
    return f


CUSTOM = pyclaw.BC.custom


def defects(base):
    """name -> (apply, entry points that refuse it)"""
    prob, n, opt = BASE[base]
    nd = len(n)
    p = PROBLEMS[prob]
    naux = len(p['tok'][0][1]) + ('capa' in opt)
    sharp = opt['fam'] == 'sharp'
    py = opt.get('kern') == 'Python'
    D = {}
    for d in range(nd):
        for side in ('lower', 'upper'):
            for nm, v in (('missing', None), ('unknown', 17), ('text', 'foo'), ('custom', CUSTOM)):
                D['bc-%s-%s-%d' % (nm, side, d)] = (bc('bc_' + side, d, v), 're')
                if naux:
                    D['auxbc-%s-%s-%d' % (nm, side, d)] = (bc('aux_bc_' + side, d, v), 're')
    neq, nw = len(p['tok'][0][0]), None
    D['limiters-many'] = (attr('limiters', lambda sv: [1] * (neq + 3)), 're')
    for nm, v in (('unknown', 99), ('negative', -1)) + ((() if py else (('foreign', 6),))) + ((('zero', 0),) if opt.get('lim_type') == 1 else ()):
        if not sharp or opt.get('lim_type') == 1:
            D['limiter-' + nm] = (attr('limiters', v), 're')
            D['limiter-%s-last' % nm] = (attr('limiters', lambda sv, v=v: [1] * ((neq if sharp else sv.num_waves or 1) - 1) + [v]), 're')
    if not sharp:
        for v in (0, 3, -1):
            D['order-%d' % v] = (attr('order', v), 're')
    D['components-more'] = (components(1), 're')
    if neq > 1:
        D['components-less'] = (components(-1), 're')
    D['limiters-none'] = (attr('limiters', []), 're')
    if 'LMM' not in opt.get('itg', ''):
        D['cfl-desired-above-max'] = (attrs(('cfl_max', 0.5), ('cfl_desired', 0.6)), 're')
    if not py:
        for key in {'advection_1D': ['u'], 'acoustics_1D': ['cc', 'zz'], 'acoustics_2D': ['cc', 'zz', 'rho', 'bulk'], 'burgers_1D': ['efix']}.get(p['rp'], []):
            D['parameter-%s' % key] = (nopd(key), 're')
    D['num_waves'] = (attr('num_waves', None), 're')
    D['num_eqn'] = (attr('num_eqn', None), 're' if sharp else 'r')
    D['fwave'] = (attr('fwave', None), 'r')
    D['kernel-unknown'] = (attr('kernel_language', 'Foo'), 're')
    if nd > 1:
        D['kernel-python'] = (attr('kernel_language', 'Python'), 're')
    if sharp and opt['itg'] in ('Euler', 'SSP22', 'SSP33'):
        D['cfl-missing'] = (attrs(('cfl_max', None), ('cfl_desired', None)), 're')
    if sharp:
        D['integrator-unknown'] = (attr('time_integrator', 'RK55'), 're')
        D['integrator-rk'] = (attr('time_integrator', 'RK'), 're')
        D['integrator-lmm'] = (attr('time_integrator', 'LMM'), 're')
        D['integrator-lmm-variable'] = (attrs(('time_integrator', 'LMM'), ('alpha', np.array([0., 0., 1.])), ('beta', np.array([0., 0., 1.])), ('cfl_max', 1.), ('cfl_desired', 0.9)), 're')
        D['integrator-k2'] = (attrs(('time_integrator', 'SSPLMMk2'), ('lmm_steps', 2)), 're')
        D['integrator-k3-3'] = (attrs(('time_integrator', 'SSPLMMk3'), ('lmm_steps', 3)), 're')
        D['integrator-k3-6'] = (attrs(('time_integrator', 'SSPLMMk3'), ('lmm_steps', 6)), 're')
        for w in (3, 6, 19) if not py else (6, 7):
            D['weno-%d' % w] = (attrs(('lim_type', 2), ('weno_order', w)), 're')
        if not py:
            for l in (0, 4):
                D['lim_type-%d' % l] = (attr('lim_type', l), 're')
            for ch in (2, 3, 4):
                D['char_decomp-%d' % ch] = (attr('char_decomp', ch), 're')
    D['mapped-no-aux'] = (mapping(-1, False), 'r')
    if naux:
        D['mapped-no-index'] = (mapping(-1, True), 'r')
        D['mapped-index-high'] = (mapping(naux, True), 'r')
        D['mapped-index-low'] = (mapping(-2, True), 'r')
    D['capa-high'] = (st('index_capa', naux), 'r')
    D['capa-second'] = (second('index_capa', naux), 'r')
    D['capa-low'] = (st('index_capa', -2), 'r')
    if neq > 1:
        D['q-order'] = (corder('q'), 'r')
        D['q-order-second'] = (second('q', None), 'r')
    if naux > 1:
        D['aux-order'] = (corder('aux'), 'r')
    D['style-0'] = (ctl('output_style', 0), 'r')
    D['style-4'] = (ctl('output_style', 4), 'r')
    D['format'] = (ctl('output_format', 'foo'), 'r')
    D['format-list'] = (ctl('output_format', ['ascii', 'foo']), 'r')
    D['overwrite'] = (ctl('overwrite', False), 'r')
    D['overwrite-env'] = (both(ctl('overwrite', False), ctl('outdir', '$MC_SCRATCH/out')), 'r')
    D['overwrite-home'] = (both(ctl('overwrite', False), ctl('outdir', '~/out')), 'r')
    D['no-solver'] = (ctl('solver', None), 'r')
    D['no-solution'] = (ctl('solution', None), 'r')
    D['solver-type'] = (ctl('solver', 'solver'), 'r')
    return D


def items(tier):
    out = [dict(kind='ctor', n=k) for k in range(len(ctor_cases()))]
    for b in BASE:
        out.append(dict(kind='valid', base=b))
        for d, (f, entry) in defects(b).items():
            for e in entry:
                out.append(dict(kind='single', base=b, d=[d], e=e))
    for b in BASE if tier == 'thorough' else PAIRS:
        names = list(defects(b))
        for d in names:
            out.append(dict(kind='pairs', base=b, d=[d]))
    return out


def make(base, variant=0, gauges=True):
    prob, n, opt = BASE[base]
    ntok = len(PROBLEMS[prob]['tok'])
    idx = (np.indices(n).sum(axis=0) + np.indices(n)[0] // 2 + variant) % ntok
    q, aux = fields(prob, idx, 1. + 0.25 * (np.indices(n)[0] % 3) if 'capa' in opt else None)
    sp = spec(prob, n, **dict(dict(dt=0.02 / PROBLEMS[prob]['smax']), **opt))
    sv, so = build(sp, q, aux)
    if gauges:
        so.state.grid.add_gauges([[0.5] * len(n), [1.5] * len(n)])
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = sv, so
    c.tfinal = 0.1 / PROBLEMS[prob]['smax']
    c.num_output_times = 2
    c.outdir = 'out'
    c.output_format = 'ascii'
    c.write_aux_always = True
    so.state.mF = 1

    def F(state):
        state.F[0] = state.q[0]
    c.compute_F = F
    return sv, so, c


def files(d='out'):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            s = os.stat(p)
            out[os.path.relpath(p, d)] = (open(p, 'rb').read(), s.st_mtime_ns, s.st_ino)
    return out


def snapshot(so):
    s = so.state
    return (s.q.copy(), None if s.aux is None else s.aux.copy(), float(s.t), dict(s.problem_data))


def unchanged(a, b):
    return np.array_equal(a[0], b[0]) and (a[1] is None) == (b[1] is None) and (a[1] is None or np.array_equal(a[1], b[1])) and a[2:] == b[2:]


def close_gauges(so):
    for f in so.state.grid.gauge_files:
        f.close()


_ref = {}


def reference(base, e):
    if (base, e) not in _ref:
        shutil.rmtree('out', ignore_errors=True)
        sv, so, c = make(base)
        if e == 'r':
            c.run()
        else:
            so.state.grid.gauges[:] = []
            sv.evolve_to_time(so, c.tfinal)
        r = so.q.copy()
        f = {k: v[0] for k, v in files().items() if '.pkl' not in k}
        close_gauges(so)
        del sv, so, c
        gc.collect()
        _ref[(base, e)] = (r, f)
    return _ref[(base, e)]


def earlier_output(base):
    """Output of an earlier run with other data."""
    shutil.rmtree('out', ignore_errors=True)
    sv, so, c = make(base, 1)
    c.num_output_times = 3
    c.run()
    close_gauges(so)
    del sv, so, c
    gc.collect()


def attempt(item, ctx, names, e, earlier, repair=True):
    base = item['base']
    D = defects(base)
    want = reference(base, e) if repair else None
    if earlier:
        earlier_output(base)
    else:
        shutil.rmtree('out', ignore_errors=True)
    before = files()
    sv, so, c = make(base)
    if e == 'e':
        so.state.grid.gauges[:] = []
    tf = c.tfinal
    undo = [D[d][0](sv, so, c) for d in names]
    snap = snapshot(so)
    err = raises(c.run) if e == 'r' else raises(sv.evolve_to_time, so, tf)
    ctx.trans()
    what = '%s %s through %s' % (base, '+'.join(names), {'r': 'Controller.run', 'e': 'evolve_to_time'}[e])
    ok = ctx.expect(err is not None, 'accepted', 'accepted: ' + what, item=item)
    if ok:
        ok = ctx.expect(unchanged(snapshot(so), snap), 'solution-touched', 'solution changed although the set-up was refused (%s): %s' % (err, what), item=item)
        after = files()
        ok = ok and ctx.expect(after == before, 'output-touched', 'existing output changed although the set-up was refused (%s): %s: %s' %
                               (err, what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))), item=item)
        ok = ok and ctx.expect(len(c.frames) == 0, 'frames-kept', 'frames kept of a refused run: ' + what, item=item)
    if ok and repair:
        for u in undo[::-1]:
            u()
        shutil.rmtree('out', ignore_errors=True)
        err2 = raises(c.run) if e == 'r' else raises(sv.evolve_to_time, so, tf)
        ok = ctx.expect(err2 is None, 'repaired-refused', 'refused (%s) after the defect was repaired: %s' % (err2, what), item=item)
        if ok:
            ok = ctx.expect(np.array_equal(so.q, want[0]), 'repaired-result', 'result after refusal and repair differs by %.3e: %s' % (np.max(np.abs(so.q - want[0])), what), item=item)
        if ok and e == 'r':
            f = {k: v[0] for k, v in files().items() if '.pkl' not in k}
            ctx.expect(f == want[1], 'repaired-output', 'output after refusal and repair differs: %s: %s' % (what, sorted(k for k in set(f) | set(want[1]) if f.get(k) != want[1].get(k))), item=item)
    close_gauges(so)
    ctx.outcome('refused with %s' % type(err).__name__ if err is not None else 'accepted')
    ctx.state(base, names, e, earlier)
    ctx.trace()
    del sv, so, c, undo
    gc.collect()
    shutil.rmtree('out', ignore_errors=True)
    return ok


def ctor_cases():
    D = pyclaw.Dimension
    dom = lambda: pyclaw.Domain(D(0., 1., 4))
    L = []
    for nd in (1, 2, 3):
        for a in range(nd):
            for what in ('upper', 'lower', 'num_cells'):
                for val in ((0., -1., -2.) if what == 'upper' else (1., 2.) if what == 'lower' else (0, -1)):
                    L.append(('set', nd, a, what, val))
    for args in ((1., 0., 4), (0., 0., 4), (0., 1., 0), (0., 1., -3), ('x', 0., 1., 4)):
        L.append(('dim', args))
    L += [('same-names',), ('state',), ('sol', 0), ('sol', 1), ('sol', 2), ('sol', 3), ('sol', 4), ('attr', 'ClawSolver1D'), ('attr', 'ClawSolver2D'), ('attr', 'ClawSolver3D'),
          ('attr', 'SharpClawSolver1D'), ('attr', 'SharpClawSolver2D'), ('attr', 'SharpClawSolver3D'), ('twice', 'mp'), ('twice', 'mF'), ('read', 'foo'), ('write', 'foo'), ('missing',)]
    return L


def ctor(item, ctx):
    case = ctor_cases()[item['n']]
    D = pyclaw.Dimension
    k = case[0]
    ctx.state(case)
    ctx.trace()
    ctx.trans()
    if k == 'set':
        _, nd, a, what, val = case
        dims = [D(-0.25 * i, 1. + i, 3 + i, name='xyz'[i]) for i in range(nd)]
        domain = pyclaw.Domain(dims)
        state = pyclaw.State(domain, 1)
        dim = state.grid.dimensions[a]
        val = {'upper': dim.lower + val, 'lower': dim.upper + val - 1., 'num_cells': val}[what]

        def view():
            g = state.grid
            return repr([g.lower, g.upper, g.num_cells, g.delta, [x.tolist() for x in g.c_centers], [x.tolist() for x in g.c_nodes], [d.centers.tolist() for d in g.dimensions],
                         [d.nodes_with_ghost(2).tolist() for d in g.dimensions]])
        for query_first in (False, True):
            if query_first:
                view()
            want = None
            ref = pyclaw.State(pyclaw.Domain([D(-0.25 * i, 1. + i, 3 + i, name='xyz'[i]) for i in range(nd)]), 1)
            save = state
            state = ref
            want = view()
            state = save
            err = raises(setattr, dim, what, val)
            ctx.expect(err is not None, 'accepted', 'Dimension.%s = %r accepted' % (what, val), item=item)
            ctx.expect(view() == want, 'grid-touched', 'grid changed by a refused change of %s' % what, item=item)
        return
    if k == 'dim':
        err = raises(D, *case[1])
    elif k == 'same-names':
        err = raises(lambda: pyclaw.Domain([D(0., 1., 4, name='x'), D(0., 1., 4, name='x')]))
    elif k == 'state':
        err = raises(pyclaw.State, 'domain', 1)
    elif k == 'sol':
        dom = pyclaw.Domain(D(0., 1., 4))
        sta = pyclaw.State(dom, 1)
        args = [(sta, 'x'), ('x', dom), ([dom], dom), (sta, dom, 1, 2), (1.5, dom)][case[1]]
        err = raises(pyclaw.Solution, *args)
    elif k == 'attr':
        sv = getattr(pyclaw, case[1])()
        err = raises(setattr, sv, 'limitersx', 1)
    elif k == 'twice':
        sta = pyclaw.State(pyclaw.Domain(D(0., 1., 4)), 1)
        setattr(sta, case[1], 2)
        err = raises(setattr, sta, case[1], 3)
        ctx.expect(getattr(sta, case[1]) == 2, 'state-touched', '', item=item)
    elif k in ('read', 'write', 'missing'):
        dom = pyclaw.Domain(D(0., 1., 4))
        so = pyclaw.Solution(pyclaw.State(dom, 1), dom)
        so.q[...] = 3.
        shutil.rmtree('io', ignore_errors=True)
        so.write(1, 'io', 'ascii')
        before = files('io')
        if k == 'write':
            err = raises(so.write, 1, 'io', 'foo')
        elif k == 'read':
            err = raises(pyclaw.Solution, 2, path='io', file_format='foo')
        else:
            err = raises(pyclaw.Solution, 2, path='io')
        ctx.expect(files('io') == before, 'output-touched', '', item=item)
    ctx.expect(err is not None, 'accepted', 'accepted: %r' % (case,), item=item)


def run(item, ctx):
    # names of the scratch directory as a user may write them
    home = os.environ.get('HOME')
    os.environ['MC_SCRATCH'] = os.environ['HOME'] = os.getcwd()
    try:
        run1(item, ctx)
    finally:
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home


def run1(item, ctx):
    if item['kind'] == 'ctor':
        return ctor(item, ctx)
    if item['kind'] == 'valid':
        base = item['base']
        for variant in ('plain', 'again', 'extra', 'limiter', 'custom', 'overwrite', 'formats', 'none', 'nogauge', 'mapped', 'cfl-equal', 'env', 'home'):
            want = reference(base, 'r')
            shutil.rmtree('out', ignore_errors=True)
            if variant == 'again':
                earlier_output(base)
            if variant == 'mapped' and 'capa' not in BASE[base][2]:
                continue
            sv, so, c = make(base, gauges=variant not in ('nogauge', 'mapped'))
            if variant == 'mapped':           # the mapping only describes the grid: the capacity function carries its effect
                so.state.grid.mapc2p = double
            if variant == 'extra':
                so.state.problem_data['note'] = 1.5 if BASE[base][2].get('kern') != 'Python' else 'text'
            if variant == 'limiter':
                l = sv.limiters
                sv.limiters = l[0] if isinstance(l, list) else [l]
            if variant == 'custom':           # custom functions that do what the built-in condition does
                if BASE[base][2].get('bc', 'p') != 'e':
                    continue
                sv.bc_lower[0] = CUSTOM

                def lower(state, dim, t, qbc, auxbc, ng):
                    for i in range(ng):
                        qbc[:, i] = qbc[:, ng]
                sv.user_bc_lower = lower
            if variant == 'cfl-equal':        # aiming at the largest Courant number allowed
                sv.cfl_desired = sv.cfl_max
            if variant == 'overwrite':
                c.overwrite = False
            if variant in ('env', 'home'):    # the same directory under another name
                c.outdir = {'env': '$MC_SCRATCH/out', 'home': '~/out'}[variant]
            if variant == 'formats':
                c.output_format = ['ascii', 'hdf5']
            if variant == 'none':
                c.output_format = None
            err = raises(c.run)
            ctx.trans()
            ctx.state(base, variant)
            ctx.trace()
            if ctx.expect(err is None, 'valid-refused', 'valid set-up %s (%s) refused: %r' % (base, variant, err), item=item):
                ctx.expect(variant == 'cfl-equal' or np.array_equal(so.q, want[0]), 'valid-result', 'valid set-up %s (%s): other result' % (base, variant), item=item)
                if variant in ('plain', 'env', 'home'):
                    f = {k: v[0] for k, v in files().items() if '.pkl' not in k}
                    ctx.expect(f == want[1], 'valid-output', 'valid set-up %s (%s): other output: %s' % (base, variant, sorted(k for k in set(f) | set(want[1]) if f.get(k) != want[1].get(k))), item=item)
                ctx.outcome('valid accepted')
            close_gauges(so)
            del sv, so, c
            gc.collect()
        return
    if item['kind'] == 'single':
        if item['e'] == 'r':
            for earlier in (True, False):
                if not earlier and item['d'][0].startswith('overwrite'):
                    continue
                if not attempt(item, ctx, item['d'], 'r', earlier):
                    return
        else:
            attempt(item, ctx, item['d'], 'e', False)
        return
    names = list(defects(item['base']))
    first = item['d'][0]
    for second in names:
        if second == first:
            continue
        if {first, second} & {'no-solver', 'solver-type', 'no-solution'} == {'no-solver', 'solver-type'}:
            continue
        # mapped-* set aux and index_capa: combinations that repair one another are left out
        if (first.startswith('mapped') or first.startswith('capa')) and (second.startswith('mapped') or second.startswith('capa')):
            continue
        if first.startswith('components') and second.startswith('components'):
            continue
        if not attempt(item, ctx, [first, second], 'r', True, repair=False):
            return
