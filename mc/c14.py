"""C14: copies and separate simulations do not influence one another."""
import copy, gc, itertools, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
from clawpack import pyclaw
from .common import build
from .problems import PROBLEMS, spec, fields

ID = 'C14'
CHUNKS = 160
ASSUMPTIONS = ['one solver used for several solutions: solutions of the same numbers of cells, one-step methods, fixed step sizes '
               '(the history of a multistep method and an adaptive step size belong to the solver)',
               'gauges (output attached to a run) are not part of what a copy carries']
BOUNDS = {'quick': 'all interleavings of the life cycles (create, two steps, delete) of every pair of 22 configurations; all interleavings of three life cycles (create, step, delete) for triples of '
                   '4 configurations; one solver alternating between two solutions in every order of 2+2 steps; all sequences of up to 3 (one configuration: 4) operations {evolve, change q, aux, t, '
                   'problem data, extents, copy again} on an original and its copy, 12 configurations x {Solution, State, array copies}',
          'thorough': 'life cycles with three steps; triples of 9 configurations; sequences of up to 4 (one configuration: 5) operations'}

# name -> (problem, cells, options, extents scale, data seed)
C = {
    'c1f': ('aco', [7], dict(fam='classic', order=2, lim=[4, 1])),
    'c1u': ('adv+', [5], dict(fam='classic', order=2, lim=[2]), dict(note=1.5)),
    'c1v': ('adv-', [5], dict(fam='classic', order=1, lim=[1])),
    'c1p': ('adv-', [6], dict(fam='classic', kern='Python', order=2, lim=[3])),
    'c1w': ('tfw', [6], dict(fam='classic', order=2, lim=[1])),
    'c1e': ('eul', [6], dict(fam='classic', order=2, lim=[4])),
    'c2s': ('aco2', [4, 5], dict(fam='classic', split=True, order=2, lim=[4])),
    'c2u': ('aco2', [5, 4], dict(fam='classic', split=False, trans=2, order=2, lim=[1]), dict(rho=2., bulk=2., zz=2., cc=1.)),
    'c3': ('vac3', [3, 4, 3], dict(fam='classic', split=False, trans=22, order=2, lim=[1])),
    's1a': ('aco', [12], dict(fam='sharp', itg='SSP33', weno=5)),
    's1b': ('aco', [18], dict(fam='sharp', itg='SSP104', weno=11), dict(rho=4., bulk=1., zz=2., cc=0.5)),
    's1c': ('bur', [9], dict(fam='sharp', itg='SSP33', lim_type=1, lim=[2])),
    's1d': ('aco', [9], dict(fam='sharp', itg='Euler', lim_type=2, weno=5, chard=1)),
    's1w': ('tfw', [10], dict(fam='sharp', itg='SSP22', lim_type=2, weno=5)),
    's1k': ('adv+', [11], dict(fam='sharp', itg='SSP33', capa=0)),
    's1m': ('adv-', [12], dict(fam='sharp', itg='SSPLMMk3', lmm_steps=4)),
    's1p': ('adv+', [10], dict(fam='sharp', kern='Python', itg='SSP33')),
    's2a': ('aco2', [7, 8], dict(fam='sharp', itg='SSP33', weno=5)),
    's2b': ('adv2', [9, 6], dict(fam='sharp', itg='Euler', lim_type=1, lim=[1])),
    's3': ('vac3', [6, 7, 6], dict(fam='sharp', itg='Euler', weno=5)),
    'ctl': ('aco', [6], dict(fam='classic', order=2, lim=[4], ctl='ascii')),
    'ct2': ('adv2', [5, 4], dict(fam='classic', split=True, order=2, lim=[1], ctl='hdf5')),
}
NAMES = list(C)
# used with a capacity function in one of two solutions only
CAPA = {
    'k1': ('adv+', [7], dict(fam='classic', order=2, lim=[4], capa=0)),
    'k1p': ('adv+', [7], dict(fam='classic', order=2, lim=[4], capa=0, kern='Python')),
    'k2s': ('adv2', [5, 4], dict(fam='classic', split=True, order=2, lim=[1], capa=0)),
    'k2u': ('adv2', [5, 4], dict(fam='classic', split=False, trans=2, order=2, lim=[1], capa=0)),
    'ks': ('adv+', [11], dict(fam='sharp', itg='SSP33', capa=0)),
    'ksp': ('adv+', [11], dict(fam='sharp', itg='SSP33', capa=0, kern='Python')),
    'ks2': ('adv2', [7, 8], dict(fam='sharp', itg='SSP33', capa=0)),
}
TRIPLE = ['s1a', 's1c', 's1k', 'c1u']
TRIPLE_T = TRIPLE + ['c2u', 's1w', 's2a', 'ctl', 's1d']
NST = {'quick': 2, 'thorough': 3}


def setup_of(name, variant=0):
    """(spec, q, aux): variant changes data, extents and parameters, not the shapes."""
    c = C.get(name) or CAPA[name]
    prob, n, opt = c[0], c[1], dict(c[2])
    pd = dict(PROBLEMS[prob].get('pd', {}))
    if len(c) > 3:
        pd.update(c[3])
    ntok = len(PROBLEMS[prob]['tok'])
    idx = (np.indices(n).sum(axis=0) * (2 + variant) + np.indices(n)[0] // 2 + variant) % ntok
    capa = None
    if 'capa' in opt:
        capa = 1. + 0.25 * (np.indices(n)[0] % (3 + variant))
    q, aux = fields(prob, idx, capa)
    opt.pop('ctl', None)
    if variant:
        opt['up'] = [m * (1. + 0.5 * (d + 1)) for d, m in enumerate(n)]
        if 'u' in pd:
            pd['u'] *= 0.5
        if 'cc' in pd:
            pd.update(rho=1., bulk=1., zz=1., cc=1.)
    sp = spec(prob, n, **opt)
    sp['pd'] = dict(sp['pd'], **pd)
    sp.update(dtv=False, dt=0.1 / PROBLEMS[prob]['smax'], cfl_max=1., cfl_des=0.9)
    return sp, q, aux


class Sim(object):
    """A simulation with a life cycle of create, steps, delete."""
    def __init__(self, name, nst, tag):
        self.name, self.nst, self.tag = name, nst, tag
        self.obs = []
        self.ops = ['c'] + ['s'] * nst + ['d']
        self.ctl = C[name][2].get('ctl')

    def do(self):
        op = self.ops.pop(0)
        if op == 'c':
            sp, q, aux = setup_of(self.name)
            self.solver, self.sol = build(sp, q, aux)
            if self.ctl:
                self.claw = pyclaw.Controller()
                self.claw.verbosity = 0
                self.claw.solver, self.claw.solution = self.solver, self.sol
                self.claw.output_format = self.ctl
                self.claw.outdir = 'out_' + self.tag
                self.claw.keep_copy = True
                self.claw.output_style = 3
                self.claw.nstepout = 1
                self.claw.num_output_times = 2
                self.claw.write_aux_init = False
                self.sol.state.grid.add_gauges([[0.5] * len(sp['n'])])
                self.claw.tfinal = 10.
                self.claw.output_file_prefix = 'f'
                if self.ctl == 'ascii':
                    self.claw.output_options = {'format': '%.17e'} if False else {}
        elif op == 's':
            if self.ctl:
                if not os.path.isdir(self.claw.outdir):
                    self.claw.run()
                    self.obs.append(('frames', [(float(f.t), f.q.copy()) for f in self.claw.frames], sorted(os.listdir(self.claw.outdir)),
                                     [(r[0], np.array(r[1:])) for r in self.sol.state.gauge_data[0:1]]))
                else:
                    self.solver.evolve_to_time(self.sol)
            else:
                self.solver.evolve_to_time(self.sol)
            self.obs.append((float(self.sol.t), self.sol.q.copy(), float(self.solver.cfl.get_cached_max()),
                             None if self.sol.state.aux is None else self.sol.state.aux.copy(), dict(self.sol.state.problem_data or {})))
        else:
            if self.ctl:
                self.obs.append(('files', [(f, open(os.path.join(self.claw.outdir, f), 'rb').read() if f.startswith('f.q') else None)
                                           for f in sorted(os.listdir(self.claw.outdir)) if os.path.isfile(os.path.join(self.claw.outdir, f)) and not f.endswith('.pkl')]))
                shutil.rmtree(self.claw.outdir, ignore_errors=True)
                del self.claw
            self.obs.append((float(self.sol.t), self.sol.q.copy()))
            del self.solver, self.sol
            gc.collect()


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


# ---- references, each from a process of its own ------------------------------------------
_ref = {}


def refs(nst):
    if nst not in _ref:
        d = tempfile.mkdtemp(prefix='c14ref_')
        try:
            names = NAMES
            procs = []
            for part in range(8):
                f = os.path.join(d, '%d.pkl' % part)
                procs.append((f, subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.c14', f, str(nst)] + names[part::8], cwd=d,
                                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            out = {}
            for f, p in procs:
                err = p.communicate()[1]
                if p.returncode:
                    raise RuntimeError('reference run failed: ' + err.decode()[-1500:])
                with open(f, 'rb') as fh:
                    out.update(pickle.load(fh))
            _ref[nst] = out
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _ref[nst]


def reference_main():
    """mc.c14 FILE NST NAME...: every simulation in a forked child of a fresh interpreter."""
    import logging
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    f, nst, names = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    out = {}
    for name in names:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            s = Sim(name, nst, name)
            while s.ops:
                s.do()
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(s.obs, fh)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            # a simulation that does not even work alone is the business of other checks
            out[name] = None
            continue
        out[name] = pickle.loads(data)
    with open(f, 'wb') as fh:
        pickle.dump(out, fh)


def items(tier):
    th = tier == 'thorough'
    nst = NST[tier]
    refs(nst)
    refs(1)
    out = []
    for i, a in enumerate(NAMES):
        for b in NAMES[i:]:
            out.append(dict(kind='pair', sims=[a, b], nst=nst))
    T = TRIPLE_T if th else TRIPLE
    for tr in (itertools.combinations_with_replacement if th else itertools.combinations)(T, 3):
        for first in range(3):
            out.append(dict(kind='triple', sims=list(tr), nst=1, first=first))
    for name in NAMES:
        if 'ctl' in C[name][2] or 'LMM' in C[name][2].get('itg', ''):
            continue
        out.append(dict(kind='one', cfg=name, nst=3 if th else 2))
    for name in CAPA:
        for off in (0, 1):
            out.append(dict(kind='one', cfg=name, nst=3 if th else 2, off=off))
    depth = 4 if th else 3
    for name in ('c1f', 'c1p', 'c1w', 'c1u', 'c2u', 'c3', 's1a', 's1k', 's1p', 's2a', 's3', 'c2s'):
        for how in ('solution', 'state'):
            for first in range(len(OPS)):
                nd = len(C[name][1])
                out.append(dict(kind='copy', cfg=name, how=how, first=first, depth=depth + (1 if name == 'c1f' else 0)))
    return out


def interleavings(lens):
    """All sequences of process numbers in which process i occurs lens[i] times."""
    if not any(lens):
        yield ()
        return
    for i in range(len(lens)):
        if lens[i]:
            l = list(lens)
            l[i] -= 1
            for r in interleavings(l):
                yield (i,) + r


def run_schedules(item, ctx):
    nst = item['nst']
    ref = refs(nst)
    names = item['sims']
    lens = [nst + 2] * len(names)
    equal = len(set(names)) == 1
    for sched in interleavings(lens):
        if 'first' in item and sched[0] != item['first']:
            continue
        # symmetric schedules of identical simulations are visited once
        seen = []
        for p in sched:
            if p not in seen:
                seen.append(p)
        if any(names[a] == names[b] and a > b for k, a in enumerate(seen) for b in seen[k + 1:]):
            continue
        sims = [Sim(nm, nst, '%d' % k) for k, nm in enumerate(names)]
        where = -1
        try:
            for where, p in enumerate(sched):
                sims[p].do()
                ctx.trans()
        except Exception as e:
            if ref[names[sched[where]]] is not None:
                ctx.fail('interference-error', '%s: %s at operation %d of schedule %s of %s' % (type(e).__name__, e, where, sched, names), item=item)
            for s in sims:
                s.__dict__.clear()
            gc.collect()
            for k in range(len(names)):
                shutil.rmtree('out_%d' % k, ignore_errors=True)
            return
        for s in sims:
            if ref[s.name] is None:
                continue
            if not same(s.obs, ref[s.name]):
                k = [same(a, b) for a, b in zip(s.obs, ref[s.name])].index(False) if len(s.obs) == len(ref[s.name]) else -1
                ctx.fail('interference', 'simulation %s in schedule %s of %s differs from the same simulation alone (observation %d)' % (s.name, sched, names, k), item=item)
                return
        ctx.state(names, sched)
        ctx.trace(len(sims))
        ctx.outcome('%d simulations' % len(names))


def run_one(item, ctx):
    """One solver, two solutions of the same shape, every order of steps."""
    name = item['cfg']
    nst = item['nst']
    ref = []
    for v in (0, 1):
        sp, q, aux = setup_of(name, v)
        if v == item.get('off'):
            sp.pop('capa')
        sv, so = build(sp, q, aux)
        r = []
        for k in range(nst):
            sv.evolve_to_time(so)
            r.append((float(so.t), so.q.copy()))
        ref.append(r)
        del sv, so
        gc.collect()
    for sched in interleavings([nst, nst]):
        (sp, q, aux), (sp1, q1, aux1) = setup_of(name, 0), setup_of(name, 1)
        if 'off' in item:
            (sp, sp1)[item['off']].pop('capa')
        sv, so = build(sp, q, aux)
        sv1, so1 = build(sp1, q1, aux1)
        del sv1
        sols = [so, so1]
        cnt = [0, 0]
        for p in sched:
            sv.evolve_to_time(sols[p])
            ctx.trans()
            if not same((float(sols[p].t), sols[p].q), ref[p][cnt[p]]):
                ctx.fail('one-solver-two-solutions', 'solution %d (%s) after step %d of schedule %s differs from the result with a solver of its own by %.3e' %
                         (p, name, cnt[p], sched, np.max(np.abs(sols[p].q - ref[p][cnt[p]][1]))), item=item)
                return
            cnt[p] += 1
            o = 1 - p
            if cnt[o]:
                if not same((float(sols[o].t), sols[o].q), ref[o][cnt[o] - 1]):
                    ctx.fail('other-solution-changed', 'solution %d changed while solution %d was evolved' % (o, p), item=item)
                    return
        ctx.state('one', name, sched)
        ctx.trace()
        ctx.outcome('one solver for two solutions')
        del sv, so, so1, sols
        gc.collect()


# ---- copies -------------------------------------------------------------------------------
OPS = [('E', 0), ('E', 1), ('Q', 0), ('Q', 1), ('A', 0), ('A', 1), ('P', 0), ('P', 1), ('X', 0), ('X', 1), ('T', 0), ('T', 1), ('C', 0), ('C', 1)]


class Obj(object):
    """Reference: plain values; evolving builds everything anew from them."""
    def __init__(self, q, aux, t, pd, up):
        self.q, self.aux, self.t, self.pd, self.up = q, aux, t, pd, up

    def clone(self):
        return Obj(self.q.copy(), None if self.aux is None else self.aux.copy(), self.t, dict(self.pd), list(self.up))

    def key(self):
        return (self.q.tobytes(), None if self.aux is None else self.aux.tobytes(), self.t, repr(sorted(self.pd.items())), tuple(self.up))


def run_copy(item, ctx):
    name, how = item['cfg'], item['how']
    sp, q, aux = setup_of(name)
    n = sp['n']
    memo = {}

    def evolve_model(o):
        k = o.key()
        if k not in memo:
            sv, so = build(dict(sp, pd=dict(o.pd), up=list(o.up), t0=o.t), o.q, o.aux)
            sv.evolve_to_time(so)
            memo[k] = (so.q.copy(), float(so.t))
            del sv, so
            gc.collect()
        o.q, o.t = memo[k][0].copy(), memo[k][1]

    def dup(sol):
        if how == 'solution':
            return copy.deepcopy(sol)
        st = copy.deepcopy(sol.state)
        return pyclaw.Solution(st, pyclaw.Domain([st.patch]))

    def observe(sol):
        st = sol.state
        g = st.grid
        return (sol.q.copy(), None if st.aux is None else st.aux.copy(), float(sol.t), {k: tuple(np.ravel(v).tolist()) if k == 'table' else v for k, v in (st.problem_data or {}).items()},
                [float(x) for x in g.upper], [float(x) for x in g.lower], [int(x) for x in g.num_cells],
                st.index_capa, int(st.num_eqn), int(st.num_aux), [c.copy() for c in g.c_centers], [float(x) for x in sol.domain.grid.upper],
                st.patch.level, st.patch.patch_index)

    def expected(o):
        lo = [0.] * len(n)
        cc = np.meshgrid(*[np.linspace(0., u, m + 1)[:-1] + 0.5 * u / m for u, m in zip(o.up, n)], indexing='ij')
        return (o.q, o.aux, o.t, o.pd, o.up, lo, n, sp.get('capa', -1), q.shape[0], 0 if aux is None else aux.shape[0], cc, o.up, 1, 1)

    def agree(a, b):
        for k, (x, y) in enumerate(zip(a, b)):
            if k == 10:
                if len(x) != len(y) or any(u.shape != v.shape or not np.allclose(u, v, rtol=1e-13, atol=1e-13) for u, v in zip(x, y)):
                    return k
            elif not same(x, y):
                return k
        return None

    FIELD = ['q', 'aux', 't', 'problem_data', 'upper', 'lower', 'num_cells', 'index_capa', 'num_eqn', 'num_aux', 'c_centers', 'domain extents', 'level', 'patch_index']
    ops = [o for o in OPS if not (o[0] == 'A' and aux is None) and not (o[0] == 'P' and not sp['pd'])]
    firstop = OPS[item['first']]
    if firstop not in ops:
        return
    pkey = sorted(sp['pd'])[0] if sp['pd'] else None
    if 'cc' in sp['pd']:
        pkey = 'cc'
    if 'gamma1' in sp['pd']:
        pkey = 'gamma1'
    hists = [h for d in range(item['depth']) for h in itertools.product(ops, repeat=d)]
    hists = [h for h in hists if len(h) == item['depth'] - 1]      # prefixes are observed on the way
    sv0, _ = build(sp, q, aux)
    solvers = [sv0, build(sp, q, aux)[0]]
    # one-step methods with fixed steps: the solvers can serve all histories
    for h in hists:
        hist = (firstop,) + h
        # canonical order of commuting neighbours: operations on 0 before operations on 1
        if any(a[0] != 'C' and b[0] != 'C' and a[1] == 1 and b[1] == 0 and a[0] != 'E' and b[0] != 'E' for a, b in zip(hist, hist[1:])):
            continue
        _, so = build(sp, q, aux)
        so.state.problem_data['table'] = np.array([1., 2., 4.])      # not a scalar: must be copied, too
        sols = [so, dup(so)]
        base = Obj(q.copy(), None if aux is None else aux.copy(), 0., dict(sp['pd'], table=(1., 2., 4.)), [float(x) for x in sp.get('up', n)])
        mod = [base, base.clone()]
        for step, (op, k) in enumerate(hist):
            s, m = sols[k], mod[k]
            if op == 'E':
                solvers[k].evolve_to_time(s)
                evolve_model(m)
            elif op == 'Q':
                s.q[...] = 0.75 * s.q + 0.25 * s.q[:, ::-1]
                m.q = 0.75 * m.q + 0.25 * m.q[:, ::-1]
            elif op == 'A':
                s.state.aux[...] = s.state.aux[:, ::-1].copy()
                m.aux = m.aux[:, ::-1].copy()
            elif op == 'P':
                s.state.problem_data[pkey] = m.pd[pkey] = m.pd[pkey] * 0.5
                s.state.problem_data['table'][1] *= 0.5
                m.pd['table'] = (m.pd['table'][0], m.pd['table'][1] * 0.5, m.pd['table'][2])
            elif op == 'X':
                m.up = [1.5 * u for u in m.up]
                s.state.grid.dimensions[0].upper = m.up[0]
                for d in range(1, len(n)):
                    s.state.grid.dimensions[d].upper = m.up[d]
            elif op == 'T':
                s.t = m.t = 5.
            elif op == 'C':
                sols[1 - k] = dup(s)
                mod[1 - k] = m.clone()
            ctx.trans()
            for i in (0, 1):
                bad = agree(observe(sols[i]), expected(mod[i]))
                if bad is not None:
                    ctx.fail('copy-%s' % FIELD[bad], '%s of the %s after %s (operation %d of %s)' % (FIELD[bad], ('original', 'copy')[i], (op, k), step, hist), item=item)
                    return
        ctx.state(name, how, hist)
        ctx.trace()
        ctx.outcome('copy histories')


def run(item, ctx):
    {'pair': run_schedules, 'triple': run_schedules, 'one': run_one, 'copy': run_copy}[item['kind']](item, ctx)


if __name__ == '__main__':
    reference_main()
