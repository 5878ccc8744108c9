"""C13: grid coordinates agree with the extents (and mapping) at all times."""
import copy, itertools
import numpy as np
from clawpack import pyclaw

ID = 'C13'
CHUNKS = 256
ASSUMPTIONS = ['arrays returned by queries are not modified by the caller', 'changes that would make an interval empty are not made (C21)']
BOUNDS = {'quick': 'all sequences of <=3 (1D: 4) operations over {set lower/upper/num_cells of each dimension to one of two values through grid or patch, set one of 3 mappings, deep copy, add a dimension, 11 kinds of queries}, '
                   'every query compared with the model when made and all of them at the end; 1D-3D, 4 ways of construction', 'thorough': 'sequences of <=4 (1D: 5)'}

MAPS = {'id': None,
        'shift': lambda *c: [x + 10. * (i + 1) for i, x in enumerate(c)],
        'swirl': lambda *c: [c[i] ** 2 + 0.5 * c[(i + 1) % len(c)] for i in range(len(c))]}
NAMES = 'xyz'
Q = ['c_centers', 'c_nodes', 'p_centers', 'p_nodes', 'centers', 'nodes', 'c_ghost', 'p_ghost', 'center', 'delta', 'solution']


def ops(nd):
    out = []
    for d in range(nd):
        for a, vals in (('lower', (-2., 0.5)), ('upper', (3., 4.5)), ('num_cells', (2, 5))):
            for v in vals:
                if nd == 3 and v in (3., 0.5):
                    continue
                out.append(('set', d, a, v, 'patch' if (d + len(a)) % 2 else 'grid'))
    for m in MAPS:
        out.append(('map', m))
    out.append(('copy',))
    if nd < 3:
        out.append(('add',))
    for q in Q:
        out.append(('query', q))
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for nd in (1, 2, 3):
        L = 3 + (1 if th or nd == 1 else 0)
        for ctor in ('dims', 'patch', 'lists', 'grid'):
            if ctor not in ('dims', 'grid') and not th and nd == 3:
                continue
            LL = L if ctor == 'dims' or th else L - 1
            for k, first in enumerate(ops(nd)):
                out.append(dict(nd=nd, ctor=ctor, first=k, L=LL))
    for nd in (1, 2, 3):
        out.append(dict(forms=nd))
    # every cell count and bounds of many magnitudes: nodes and centres, straightforward
    for n in range(1, 41 if not th else 201):
        out.append(dict(nd=0, n=n))
    return out


class Model(object):
    def __init__(self, nd):
        self.lo = [0., -1., 0.25][:nd]
        self.up = [1., 1., 2.][:nd]
        self.n = [3, 4, 2][:nd]
        self.map = 'id'

    def clone(self):
        m = Model(0)
        m.lo, m.up, m.n, m.map = list(self.lo), list(self.up), list(self.n), self.map
        return m

    def delta(self):
        return [(u - l) / n for l, u, n in zip(self.lo, self.up, self.n)]

    def axis(self, d, kind, ghost=0):
        de = self.delta()[d]
        if kind == 'nodes':
            return self.lo[d] + np.arange(-ghost, self.n[d] + ghost + 1) * de
        return self.lo[d] + (np.arange(-ghost, self.n[d] + ghost) + 0.5) * de

    def mesh(self, kind, ghost=0):
        return np.meshgrid(*[self.axis(d, kind, ghost) for d in range(len(self.n))], indexing='ij')

    def phys(self, c):
        return list(c) if self.map == 'id' else MAPS[self.map](*c)


def eq(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x = np.asarray(x, dtype=float)
        y = np.asarray(y, dtype=float)
        if x.shape != y.shape or not np.all(np.abs(x - y) <= 1e-12 * (1 + np.abs(y))):
            return False
    return True


def construct(nd, ctor):
    m = Model(nd)
    dims = [pyclaw.Dimension(m.lo[d], m.up[d], m.n[d], name=NAMES[d]) for d in range(nd)]
    if ctor == 'grid':
        return m, dict(grid=pyclaw.geometry.Grid(dims), patch=None, sol=None)
    if ctor == 'dims':
        dom = pyclaw.Domain(dims)
    elif ctor == 'patch':
        dom = pyclaw.Domain(pyclaw.Patch(dims))
    else:
        dom = pyclaw.Domain(m.lo, m.up, m.n)
    st = pyclaw.State(dom, 1)
    sol = pyclaw.Solution(st, dom)
    return m, dict(grid=sol.state.grid, patch=sol.state.patch, sol=sol)


def query(ob, m, q, full=False):
    """None or what is wrong"""
    g = ob['grid']
    nd = len(m.n)
    if q in ('c_centers', 'c_nodes'):
        return None if eq(getattr(g, q), m.mesh(q[2:])) else q
    if q in ('p_centers', 'p_nodes'):
        return None if eq(getattr(g, q), m.phys(m.mesh(q[2:]))) else q
    if q in ('centers', 'nodes'):
        ok = eq([getattr(d, q) for d in g.dimensions], [m.axis(d, q) for d in range(nd)]) and eq(getattr(g, q), [m.axis(d, q) for d in range(nd)])
        for gh in (0, 1, 3):
            ok = ok and eq([getattr(d, q + '_with_ghost')(gh) for d in g.dimensions], [m.axis(d, q, gh) for d in range(nd)])
        return None if ok else q
    if q in ('c_ghost', 'p_ghost'):
        for gh in ((0, 1, 2, 3) if full else (2,)):
            for kind in ('centers', 'nodes'):
                w = m.mesh(kind, gh)
                if q[0] == 'p':
                    w = m.phys(w)
                if not eq(getattr(g, '%s_%s_with_ghost' % (q[0], kind))(gh), w):
                    return '%s_%s_with_ghost(%d)' % (q[0], kind, gh)
        return None
    if q == 'center':
        w = m.mesh('centers')
        idx = list(np.ndindex(*m.n))
        for i in (idx if full else idx[-1:]):
            c = [x[i] for x in w]
            if not eq(g.c_center(list(i)), c):
                return 'c_center(%s)' % (i,)
            if not eq(g.p_center(list(i)), m.phys(c)):
                return 'p_center(%s)' % (i,)
        return None
    if q == 'delta':
        if full:                                     # the old names of the nodes
            w = m.mesh('nodes')
            for gh in (0, 2):
                w2 = m.mesh('nodes', gh)
                if not (eq(g.c_edges_with_ghost(gh), w2) and eq(g.p_edges_with_ghost(gh), m.phys(w2)) and eq([d.edges_with_ghost(gh) for d in g.dimensions], [m.axis(d, 'nodes', gh) for d in range(nd)])):
                    return 'edges_with_ghost(%d)' % gh
            if not (eq(g.c_edges, w) and eq(g.p_edges, m.phys(w)) and eq([d.edges for d in g.dimensions], [m.axis(d, 'nodes') for d in range(nd)])):
                return 'edges'
            if not all(len(d) == m.n[i] for i, d in enumerate(g.dimensions)):
                return 'len(dimension)'
        ok = eq(g.delta, m.delta()) and list(g.num_cells) == m.n and list(g.lower) == m.lo and list(g.upper) == m.up and g.num_dim == nd
        p = ob['patch']
        if p is not None:
            ok = ok and eq(p.delta, m.delta()) and list(p.num_cells_global) == m.n and list(p.lower_global) == m.lo and list(p.upper_global) == m.up and p.num_dim == nd
        return None if ok else q
    if q == 'solution':
        s = ob['sol']
        if s is None:
            return None
        ok = True
        for o in (s, s.state):
            ok = ok and eq(o.grid.p_centers, m.phys(m.mesh('centers'))) and eq(o.grid.c_nodes, m.mesh('nodes'))
        ok = ok and eq(s.p_centers, m.phys(m.mesh('centers'))) and eq(s.c_centers, m.mesh('centers')) and list(s.num_cells) == m.n and eq(s.delta, m.delta())
        ok = ok and list(s.lower) == m.lo and list(s.upper) == m.up
        ok = ok and list(s.domain.grid.num_cells) == m.n and eq(s.domain.grid.p_nodes, m.phys(m.mesh('nodes')))
        return None if ok else q


def apply(ob, m, op):
    """Execute op on implementation and model; returns problem or None; raises StopIteration if not applicable."""
    if op[0] == 'set':
        _, d, a, v, via = op
        o = ob[via] or ob['grid']
        setattr(getattr(o, NAMES[d]), a, v)
        {'lower': m.lo, 'upper': m.up, 'num_cells': m.n}[a][d] = v
    elif op[0] == 'map':
        if op[1] == 'id':
            if m.map == 'id':
                pass
            ob['grid'].mapc2p = pyclaw.geometry.identity_map[str(len(m.n))]
        else:
            ob['grid'].mapc2p = MAPS[op[1]]
        m.map = op[1]
    elif op[0] == 'copy':
        if ob['sol'] is None:
            ob['grid'] = copy.deepcopy(ob['grid'])
        else:
            ob['sol'] = copy.deepcopy(ob['sol'])
            ob['patch'] = ob['sol'].state.patch
            ob['grid'] = ob['sol'].state.grid
            for q in ('c_centers', 'p_nodes'):
                o2 = dict(ob, grid=ob['sol'].domain.grid)
                r = query(o2, m, q)
                if r:
                    return 'domain of copy: ' + r
    elif op[0] == 'add':
        if ob['sol'] is not None or len(m.n) >= 3:
            raise StopIteration
        d = len(m.n)
        ob['grid'].add_dimension(pyclaw.Dimension(0., 2., 2, name=NAMES[d]))
        m.lo.append(0.); m.up.append(2.); m.n.append(2)
        m.map = 'id'
    else:
        return query(ob, m, op[1])


def forms(item, ctx):
    """Every documented way of making a solution gives the same grid and arrays of the sizes asked for."""
    nd = item['forms']
    for neqn, naux in itertools.product((1, 2, 3), (0, 1, 2)):
        for geo in ('domain', 'domain-lists', 'dims', 'dim', 'patch', 'patches'):
            if geo == 'dim' and nd > 1:
                continue
            for how in ('num', 'pair', 'pair-list', 'state', 'states', 'positional'):
                if how == 'num' and naux:
                    continue
                m = Model(nd)
                dims = [pyclaw.Dimension(m.lo[d], m.up[d], m.n[d], name=NAMES[d]) for d in range(nd)]
                p = pyclaw.Patch(dims[0] if geo == 'patch' and nd == 1 else dims)
                g = {'domain': lambda: pyclaw.Domain(p), 'domain-lists': lambda: pyclaw.Domain(m.lo, m.up, m.n), 'dims': lambda: dims, 'dim': lambda: dims[0],
                     'patch': lambda: p, 'patches': lambda: [p]}[geo]()
                if how in ('state', 'states', 'positional'):
                    st = pyclaw.State(g, neqn, naux) if how == 'positional' and geo.startswith('domain') else pyclaw.State(g if geo.startswith('domain') else p, num_eqn=neqn, num_aux=naux)
                    a = [st] if how == 'states' else st
                else:
                    a = neqn if how == 'num' else ((neqn, naux) if how == 'pair' else [neqn, naux])
                what = 'Solution(%s, %s) in %dD with %d+%d fields' % (how, geo, nd, neqn, naux)
                sol = pyclaw.Solution(a, g)
                ok = len(sol.states) == 1 and sol.num_eqn == neqn and sol.num_aux == naux and sol.q.shape == tuple([neqn] + m.n) and sol.state.num_dim == nd
                ok = ok and ((naux == 0 and sol.state.aux is None) or (naux > 0 and sol.aux.shape == tuple([naux] + m.n)))
                ok = ok and sol.q.flags['F_CONTIGUOUS']
                ctx.expect(ok, 'sizes', what, n=m.n)
                ob = dict(grid=sol.state.grid, patch=sol.state.patch, sol=sol)
                for q in Q:
                    r = query(ob, m, q)
                    ctx.expect(r is None, 'form', '%s: %s wrong' % (what, r))
                ctx.trans(); ctx.trace(); ctx.state(nd, neqn, naux, geo, how)
                ctx.outcome('form %s %s' % (geo, how))


def run(item, ctx):
    if 'forms' in item:
        return forms(item, ctx)
    if item['nd'] == 0:
        return plain(item, ctx)
    nd = item['nd']
    A = ops(nd)
    for L in range(item['L']):
        for rest in itertools.product(A, repeat=L):
            seq = (A[item['first']],) + rest
            if L == item['L'] - 1 and L > 1 and seq[-1][0] == 'query':
                continue         # everything is queried at the end anyway
            m, ob = construct(nd, item['ctor'])
            try:
                for k, op in enumerate(seq):
                    r = apply(ob, m, op)
                    ctx.trans()
                    if r:
                        ctx.fail('stale-or-wrong', '%s wrong after %s' % (r, seq[:k + 1]), seq=seq, model=[m.lo, m.up, m.n, m.map])
                        break
                else:
                    for q in Q:
                        r = query(ob, m, q, L < 2)
                        if r:
                            ctx.fail('stale-or-wrong', '%s wrong after %s' % (r, seq), seq=seq, model=[m.lo, m.up, m.n, m.map])
            except StopIteration:
                continue
            ctx.trace()
            ctx.state(item['ctor'], nd, tuple(m.lo), tuple(m.up), tuple(m.n), m.map, seq[-1])
            ctx.outcome('%dD map=%s' % (len(m.n), m.map))


def plain(item, ctx):
    n = item['n']
    for lo, up in ((0., 1.), (-1., 1.), (0.1, 0.7), (-3., -1.), (1e6, 1e6 + 1.), (-1e-8, 1e-8), (0., 1e8), (2, 5)):
        x = pyclaw.Dimension(lo, up, n, name='x')
        d = (up - lo) / n
        tol = 1e-12 * max(abs(lo), abs(up))
        ok = len(x.nodes) == n + 1 and len(x.centers) == n and x.num_cells == n and abs(x.delta - d) <= 1e-13 * d
        ok = ok and np.all(np.abs(x.nodes - np.linspace(lo, up, n + 1)) <= tol) and np.all(np.abs(x.centers - (lo + (np.arange(n) + 0.5) * d)) <= tol)
        ctx.expect(ok, 'dimension', 'Dimension(%r,%r,%d)' % (lo, up, n))
        for g in range(5):
            c = x.centers_with_ghost(g)
            e = x.nodes_with_ghost(g)
            ok = len(c) == n + 2 * g and len(e) == n + 2 * g + 1
            ok = ok and np.all(np.abs(c - (lo + (np.arange(-g, n + g) + 0.5) * d)) <= tol + 1e-12 * g * d) and np.all(np.abs(e - (lo + np.arange(-g, n + g + 1) * d)) <= tol + 1e-12 * g * d)
            ctx.expect(ok, 'dimension-ghost', 'Dimension(%r,%r,%d) with %d ghost cells' % (lo, up, n, g))
            ctx.trans(); ctx.trace()
            ctx.state('dim', n, lo, up, g)
