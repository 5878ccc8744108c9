"""Helpers shared by the check modules: building simulations from JSON-able specs through
the public API only."""
import gc, itertools
import numpy as np
from clawpack import pyclaw, riemann

BC = {'p': pyclaw.BC.periodic, 'e': pyclaw.BC.extrap, 'w': pyclaw.BC.wall, 'c': pyclaw.BC.custom}
LIMITERS = dict(none=0, minmod=1, superbee=2, vanleer=3, mc=4)

_PY = {'advection_1D': ('advection_1D_py', 'advection_1D'), 'vc_advection_1D': ('vc_advection_1D_py', 'vc_advection_1D'),
       'acoustics_1D': ('acoustics_1D_py', 'acoustics_1D'), 'burgers_1D': ('burgers_1D_py', 'burgers_1D')}
EXTRA = {'vc_advection_3D': (1, 1, False), 'burgers_3D': (1, 1, False), 'advection_color_1D': (1, 1, False)}


def get_rp(name, kern):
    if callable(name):
        return name
    if kern == 'Python':
        if ':' in name:
            m, f = name.split(':')
        else:
            m, f = _PY[name]
        return getattr(getattr(riemann, m), f)
    return getattr(riemann, name)


def solver_class(fam, nd):
    return getattr(pyclaw, {'classic': 'ClawSolver', 'sharp': 'SharpClawSolver'}[fam] + '%dD' % nd)


def build(sp, q=None, aux=None, **over):
    """Returns (solver, solution). sp: dict. q, aux: arrays (num_eqn,)+n, (num_aux,)+n."""
    sp = dict(sp, **over)
    n = list(sp['n'])
    nd = len(n)
    kern = sp.get('kern', 'Fortran')
    rp = get_rp(sp['rp'], kern)
    solver = solver_class(sp.get('fam', 'classic'), nd)(rp)
    name = sp['rp'] if isinstance(sp['rp'], str) else None
    if name in EXTRA:
        solver.num_eqn, solver.num_waves, solver.fwave = EXTRA[name]
    if 'neqn' in sp:
        solver.num_eqn = sp['neqn']
    if 'nwaves' in sp:
        solver.num_waves = sp['nwaves']
    if 'fwave' in sp:
        solver.fwave = sp['fwave']
    solver.kernel_language = kern
    bc = sp.get('bc', 'p')
    if isinstance(bc, str):
        bc = [[bc, bc]] * nd
    for d in range(nd):
        solver.bc_lower[d] = BC[bc[d][0]]
        solver.bc_upper[d] = BC[bc[d][1]]
    abc = sp.get('abc', bc)
    if isinstance(abc, str):
        abc = [[abc, abc]] * nd
    for d in range(nd):
        solver.aux_bc_lower[d] = BC[abc[d][0]]
        solver.aux_bc_upper[d] = BC[abc[d][1]]
    lo = sp.get('lo', [0.] * nd)
    up = sp.get('up', [float(m) for m in n])          # default: unit cells
    names = 'xyz'
    dims = [pyclaw.Dimension(float(lo[d]), float(up[d]), int(n[d]), name=names[d]) for d in range(nd)]
    domain = pyclaw.Domain(dims)
    naux = sp.get('naux', 0 if aux is None else np.asarray(aux).shape[0])
    state = pyclaw.State(domain, solver.num_eqn, naux)
    for k, v in sp.get('pd', {}).items():
        state.problem_data[k] = v
    if 'capa' in sp:
        state.index_capa = sp['capa']
    state.q[...] = 0. if q is None else q
    if aux is not None:
        state.aux[...] = aux
    if 't0' in sp:
        state.t = sp['t0']
    solution = pyclaw.Solution(state, domain)
    for a, k in (('order', 'order'), ('limiters', 'lim'), ('dimensional_split', 'split'), ('transverse_waves', 'trans'),
                 ('time_integrator', 'itg'), ('lim_type', 'lim_type'), ('weno_order', 'weno'), ('char_decomp', 'chard'),
                 ('cfl_max', 'cfl_max'), ('cfl_desired', 'cfl_des'), ('dt_max', 'dt_max'), ('max_steps', 'max_steps'),
                 ('source_split', 'ss'), ('lmm_steps', 'lmm_steps'), ('num_ghost', 'ng'),
                 ('call_before_step_each_stage', 'each'), ('check_lmm_cond', 'lmmc')):
        if k in sp:
            setattr(solver, a, sp[k])
    if sp.get('named') and sp.get('fam', 'classic') == 'classic':   # select by the documented names
        tvd = pyclaw.limiters.tvd
        if 'lim' in sp:
            l = [{1: 'minmod', 2: 'superbee', 3: 'vanleer', 4: 'MC'}.get(x, x) for x in np.atleast_1d(sp['lim']).tolist()]
            solver.limiters = [getattr(tvd, x) if isinstance(x, str) else x for x in l]
        tr = {2: {0: 'no_trans', 1: 'trans_inc', 2: 'trans_cor'}, 3: {0: 'no_trans', 11: 'trans_inc', 22: 'trans_cor'}}.get(nd, {}).get(sp.get('trans'))
        if tr:
            solver.transverse_waves = getattr(type(solver), tr)
    if sp.get('chard', 0) > 1 and sp.get('fam') == 'sharp':         # the only module with eigenvectors that the build provides
        from clawpack.pyclaw.sharpclaw import euler_sharpclaw1
        solver.fmod = euler_sharpclaw1
    if sp.get('tfluct'):
        from clawpack.pyclaw.sharpclaw import euler_tfluct1
        solver.tfluct_solver = True
        solver.tfluct = euler_tfluct1
    for k in ('a', 'b', 'c', 'alpha', 'beta'):
        if k in sp:
            setattr(solver, k, np.array(sp[k], dtype=float))
    if 'dt' in sp:
        solver.dt = sp['dt']
        solver.dt_initial = sp['dt']
    if 'dtv' in sp:
        solver.dt_variable = sp['dtv']
    return solver, solution


def fixed_steps(sp, q, aux=None, dt=None, steps=1, want=None, **over):
    """Take `steps` steps of size dt with a fresh solver; returns (q, cfl, aux)."""
    over = dict(over, dtv=False, dt=dt)
    over.setdefault('cfl_max', 1e9)
    over.setdefault('cfl_des', 1e9)
    solver, sol = build(sp, q, aux, **over)
    try:
        for k in range(steps):
            solver.evolve_to_time(sol)
        return sol.state.q.copy(), float(solver.cfl.get_cached_max()), (None if sol.state.aux is None else sol.state.aux.copy())
    finally:
        del solver, sol
        if sp.get('fam', 'classic') == 'sharp':
            gc.collect()


class Stepper(object):
    """One solver, reused for many data sets with single steps of fixed size. Only used
    where a fresh solver would do as well; isolation of simulations is checked by C14."""
    def __init__(self, sp, dt, **over):
        over = dict(over, dtv=False, dt=dt)
        over.setdefault('cfl_max', 1e9)
        over.setdefault('cfl_des', 1e9)
        self.solver, self.sol = build(sp, None, over.pop('aux', None), **over)

    def __call__(self, q, steps=1):
        self.sol.state.q[...] = q
        self.sol.state.t = 0.
        for k in range(steps):
            self.solver.evolve_to_time(self.sol)
        return self.sol.state.q.copy()

    @property
    def cfl(self):
        return float(self.solver.cfl.get_cached_max())

    def close(self):
        self.solver = self.sol = None
        gc.collect()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def words(alphabet, length):
    return itertools.product(alphabet, repeat=length)


def upto(alphabet, length, minlen=0):
    for L in range(minlen, length + 1):
        for w in itertools.product(alphabet, repeat=L):
            yield w


def close(a, b, tol=1e-12):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.nanmax(np.abs(b))) if np.isfinite(b).any() else 1.0)
    d = np.abs(a - b)
    return bool(np.all(d <= tol * scale))


def maxdiff(a, b):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shapes %s %s' % (a.shape, b.shape)
    return float(np.max(np.abs(a - b))) if a.size else 0.


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


def de_bruijn(k, n):
    """De Bruijn word over range(k) containing every word of length n exactly once (cyclic)."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq
