"""Controlled environment for time stepping.

The wave speed met in every attempted step is an answer of the environment: the before_step
callback writes it into the aux array (velocity of variable-coefficient advection), so the
same script drives every solver family, kernel and dimension.  All observations are made
through the public interface (callbacks, solution.t, solver.dt, solver.cfl, solver.status).
"""
import gc
import numpy as np
from . import common as C

VEL = {(1, 'Python'): ('vc_advection_1D', 1), (1, 'Fortran'): ('advection_color_1D', 1),
       (2, 'Fortran'): ('vc_advection_2D', 2), (3, 'Fortran'): ('vc_advection_3D', 3)}

RKC = dict(a=[[0, 0, 0], [0.5, 0, 0], [0.25, 0.25, 0]], b=[0.25, 0.25, 0.5], c=[0., 0.5, 0.5])

CONFIGS = {
    # name: (spec, stages)
    'c1f': dict(fam='classic', nd=1, kern='Fortran'),
    'c1p': dict(fam='classic', nd=1, kern='Python'),
    'c1fo1': dict(fam='classic', nd=1, kern='Fortran', order=1),
    'c1po1': dict(fam='classic', nd=1, kern='Python', order=1),
    'c2s': dict(fam='classic', nd=2, split=True),
    'c2u0': dict(fam='classic', nd=2, split=False, trans=0),
    'c2u1': dict(fam='classic', nd=2, split=False, trans=1),
    'c2u2': dict(fam='classic', nd=2, split=False, trans=2),
    'c3s': dict(fam='classic', nd=3, split=True),
    'c3u0': dict(fam='classic', nd=3, split=False, trans=0),
    'c3u11': dict(fam='classic', nd=3, split=False, trans=11),
    'c3u22': dict(fam='classic', nd=3, split=False, trans=22),
    's1f-Euler': dict(fam='sharp', nd=1, itg='Euler'),
    's1f-SSP22': dict(fam='sharp', nd=1, itg='SSP22'),
    's1f-SSP33': dict(fam='sharp', nd=1, itg='SSP33'),
    's1f-SSP104': dict(fam='sharp', nd=1, itg='SSP104'),
    's1f-RK': dict(fam='sharp', nd=1, itg='RK', **RKC),
    's1f-SSPLMMk2': dict(fam='sharp', nd=1, itg='SSPLMMk2', lmm_steps=3),
    's1f-SSPLMMk3': dict(fam='sharp', nd=1, itg='SSPLMMk3', lmm_steps=4),
    's1p-Euler': dict(fam='sharp', nd=1, itg='Euler', kern='Python'),
    's1p-SSP22': dict(fam='sharp', nd=1, itg='SSP22', kern='Python'),
    's1p-SSP33': dict(fam='sharp', nd=1, itg='SSP33', kern='Python'),
    's1p-SSP104': dict(fam='sharp', nd=1, itg='SSP104', kern='Python'),
    's2-SSP33': dict(fam='sharp', nd=2, itg='SSP33'),
    's2-SSP104': dict(fam='sharp', nd=2, itg='SSP104'),
    's2-Euler': dict(fam='sharp', nd=2, itg='Euler'),
    's3-SSP33': dict(fam='sharp', nd=3, itg='SSP33'),
    's3-Euler': dict(fam='sharp', nd=3, itg='Euler'),
}
STAGES = {'Euler': 1, 'SSP22': 2, 'SSP33': 3, 'SSP104': 10, 'RK': 3}
NCELL = {1: [6], 2: [5, 4], 3: [4, 3, 5]}
SHARE = {1: [1.], 2: [1., -0.5], 3: [-0.5, 0.25, 1.]}      # velocity components relative to the scripted speed


def spec(name, **over):
    cfg = dict(CONFIGS[name])
    nd = cfg.pop('nd')
    kern = cfg.setdefault('kern', 'Fortran')
    rp, naux = VEL[(nd, kern)]
    sp = dict(cfg, rp=rp, naux=naux, n=NCELL[nd], lim=cfg.get('lim', 4))
    if sp['fam'] == 'sharp':
        sp['lim'] = [1]
        sp['weno'] = 5
    sp.update(over)
    return sp


def data(n, kind=0):
    """Deterministic non-trivial data, no symmetry."""
    idx = np.indices(n)
    k = sum((2 * d + 3) * idx[d] for d in range(len(n)))
    if kind == 0:
        return ((k * k + 3 * k) % 7)[None].astype(float)
    return ((k * 5 + 1) % 11)[None].astype(float)


class Timeline(object):
    """One simulation under the scripted environment.

    script: list of speeds for successive attempts (classic) or for (step, stage) evaluations
    (sharp: in a retried step the answer for the first stage is repeated, because the first
    stage is not evaluated again); `default` afterwards."""

    def __init__(self, sp, script, default=1.0, q=None, source=None, modq=None, gauges=None, keep=True, **over):
        self.sp = dict(sp, **over)
        self.nd = len(self.sp['n'])
        self.script = list(script)
        self.pos = 0
        self.default = default
        self.solver, self.sol = C.build(self.sp, data(self.sp['n']) if q is None else q,
                                        np.zeros([self.sp['naux']] + list(self.sp['n'])))
        self.classic = self.sp['fam'] == 'classic'
        self.attempts = []        # dicts: t, speeds, dt, cfl
        self.src = []
        self.cur = None
        self.modq = modq
        self.log = []
        self.solver.before_step = self.before
        self.source = source
        if source is not None:
            if self.classic:
                self.solver.step_source = self.step_source
            else:
                self.solver.dq_src = self.dq_src
        if gauges is not None:
            self.sol.state.grid.add_gauges(gauges)
            self.sol.state.keep_gauges = keep
            self.sol.state.grid.setup_gauge_files('gauges_out')
        self.setup_aux(default)

    # environment ------------------------------------------------------------
    def answer(self):
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        return self.default

    def setup_aux(self, v, state=None):
        st = self.sol.state if state is None else state
        for d in range(self.sp['naux']):
            st.aux[d, ...] = v * SHARE[self.nd][d]

    def rate(self, v):
        return max(abs(v * s) / dx for s, dx in zip(SHARE[self.nd], self.sol.state.grid.delta))

    def close_attempt(self):
        if self.cur is not None:
            self.cur['dt'] = float(self.solver.dt)
            self.cur['cfl'] = float(self.solver.cfl.get_cached_max())
            self.cur['t1'] = float(self.sol.t)
            self.cur['n1'] = self.solver.status['numsteps']
            self.attempts.append(self.cur)
            self.cur = None

    def before(self, solver, state):
        if state is self.sol.state:
            self.close_attempt()
            t = float(self.sol.t)
            last = self.attempts[-1] if self.attempts else None
            if not self.classic and last is not None and last['t1'] == last['t']:
                v = last['speeds'][0]                      # retried step
            else:
                v = self.answer()
            self.cur = dict(t=t, speeds=[v], n0=solver.status['numsteps'])
            self.setup_aux(v)
            self.log.append(('before', t))
            if self.modq is not None:
                self.modq(state, len(self.attempts))
        else:
            v = self.answer()
            self.cur['speeds'].append(v)
            self.setup_aux(v, state)
            self.log.append(('stage', float(state.t)))

    def step_source(self, solver, state, dt):
        self.log.append(('src', float(state.t), float(dt)))
        self.source(state, dt)

    def dq_src(self, solver, state, dt):
        self.log.append(('dq', float(state.t), float(dt)))
        return self.source(state, dt)

    # operations -------------------------------------------------------------
    def evolve(self, tend=None):
        """Returns exception or None; new attempts are in self.attempts[k0:]"""
        err = None
        try:
            if tend is None:
                self.solver.evolve_to_time(self.sol)
            else:
                self.solver.evolve_to_time(self.sol, tend)
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
        self.close_attempt()
        return err

    def close(self):
        self.solver.before_step = None
        setattr(self.solver, 'step_source' if self.classic else 'dq_src', None)
        self.solver = self.sol = None
        gc.collect()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
