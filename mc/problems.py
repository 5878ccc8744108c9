"""Model problems: Riemann solver, parameters and a small alphabet of cell states ("tokens")
per problem.  A token is (q values, aux values)."""
import numpy as np

G = dict(gamma=1.4, gamma1=0.4)


def eul(rho, u, p, nd):
    u = list(u) + [0.] * (nd - len(u))
    return [rho] + [rho * x for x in u] + [p / 0.4 + 0.5 * rho * sum(x * x for x in u)]


PROBLEMS = {
    # 1D -------------------------------------------------------------------------------
    'adv+': dict(nd=1, rp='advection_1D', pd=dict(u=1.), tok=[[[0.], []], [[1.], []], [[3.], []], [[-0.5], []]], smax=1.),
    'adv-': dict(nd=1, rp='advection_1D', pd=dict(u=-1.), tok=[[[0.], []], [[1.], []], [[3.], []], [[-0.5], []]], smax=1.),
    'adv0': dict(nd=1, rp='advection_1D', pd=dict(u=0.), tok=[[[0.], []], [[1.], []], [[3.], []]], smax=1.),
    'bur': dict(nd=1, rp='burgers_1D', pd=dict(efix=True), tok=[[[-1.], []], [[0.], []], [[0.5], []], [[2.], []]], smax=2.),
    'aco': dict(nd=1, rp='acoustics_1D', pd=dict(rho=1., bulk=4., zz=2., cc=2.),
                tok=[[[0., 0.], []], [[1., 0.], []], [[0., 1.], []], [[1., -1.], []]], smax=2.),
    'eul': dict(nd=1, rp='euler_with_efix_1D', pd=dict(G, efix=False),
                tok=[[eul(1., [0.], 1., 1), []], [eul(0.5, [1.], 1., 1), []], [eul(1., [-3.], 1.5, 1), []]], smax=5.),
    'swe': dict(nd=1, rp='shallow_roe_with_efix_1D', pd=dict(grav=1., efix=False),
                tok=[[[1., 0.], []], [[2., 1.], []], [[1.5, -3.], []]], smax=4.),
    'hll': dict(nd=1, rp='euler_hlle_1D', pd=G,
                tok=[[eul(1., [0.], 1., 1), []], [eul(0.5, [1.], 1., 1), []], [eul(1., [-3.], 1.5, 1), []]], smax=6.),
    'col': dict(nd=1, rp='advection_color_1D', tok=[[[0.], [1.]], [[1.], [0.5]], [[3.], [-1.]]], smax=1., cons=False),
    'vac': dict(nd=1, rp='acoustics_variable_1D',
                tok=[[[0., 0.], [1., 1.]], [[1., 0.], [2., 0.5]], [[0., 1.], [0.5, 2.]]], smax=2., cons=False),
    'tfw': dict(nd=1, rp='traffic_vc_fwave_1D', fwave=True, tok=[[[0.2137], [1.]], [[0.8931], [2.]], [[0.4719], [0.5]]], smax=2.),
    'nel': dict(nd=1, rp='nonlinear_elasticity_fwave_1D', fwave=True,
                tok=[[[0.1, 0.], [1., 1.]], [[0.5, 0.5], [2., 0.5]], [[0.2, -0.5], [0.5, 2.]]], pd=dict(stress_relation='exponential'), smax=4.),
    # zero-speed f-waves: the states are critical (u = +-sqrt(g h)) and the bottom jumps
    'swb': dict(nd=1, rp='shallow_bathymetry_fwave_1D', fwave=True, zero=True, pd=dict(grav=1., dry_tolerance=1e-3, sea_level=0.),
                tok=[[[1., 1.], [0.]], [[1., 1.], [0.25]], [[1., -1.], [-0.125]], [[2., 0.5], [-0.5]]], smax=4., cons=False, sharp=False),
    # 2D -------------------------------------------------------------------------------
    'adv2': dict(nd=2, rp='advection_2D', pd=dict(u=1., v=0.75), tok=[[[0.], []], [[1.], []], [[3.], []]], smax=1.),
    'adv2mp': dict(nd=2, rp='advection_2D', pd=dict(u=-1., v=0.75), tok=[[[0.], []], [[1.], []], [[3.], []]], smax=1.),
    'adv2pm': dict(nd=2, rp='advection_2D', pd=dict(u=0.75, v=-1.), tok=[[[0.], []], [[1.], []], [[3.], []]], smax=1.),
    'adv2mm': dict(nd=2, rp='advection_2D', pd=dict(u=-0.75, v=-1.), tok=[[[0.], []], [[1.], []], [[3.], []]], smax=1.),
    'vad2': dict(nd=2, rp='vc_advection_2D', tok=[[[0.], [1., -0.5]], [[1.], [-0.5, 1.]], [[3.], [0.25, 0.75]]], smax=1., cons=False),
    'aco2': dict(nd=2, rp='acoustics_2D', pd=dict(rho=1., bulk=4., zz=2., cc=2.),
                 tok=[[[0., 0., 0.], []], [[1., 0.5, 0.], []], [[0., 0., 1.], []]], smax=2.),
    'vac2': dict(nd=2, rp='vc_acoustics_2D',
                 tok=[[[0., 0., 0.], [1., 1.]], [[1., 0.5, -1.], [2., 0.5]], [[0., 0., 1.], [0.5, 2.]]], smax=2., cons=False),
    'bur2': dict(nd=2, rp='burgers_2D', tok=[[[-1.], []], [[0.5], []], [[2.], []]], smax=2.),
    'swe2': dict(nd=2, rp='shallow_roe_with_efix_2D', pd=dict(grav=1.), tok=[[[1., 0., 0.], []], [[2., 1., -1.], []], [[1.5, -3., 0.5], []]], smax=4.),
    'eul2': dict(nd=2, rp='euler_4wave_2D', pd=G,
                 tok=[[eul(1., [0., 0.], 1., 2), []], [eul(0.5, [1., -0.5], 1., 2), []], [eul(1., [-3., 1.], 1.5, 2), []]], smax=5., sharp=False),
    'eum2': dict(nd=2, maxng=7, rp='euler_4wave_2D', pd=G,
                 tok=[[eul(1., [0., 0.], 1., 2), []], [eul(0.8, [0.3, -0.2], 1.1, 2), []], [eul(1., [-0.5, 0.4], 1.3, 2), []]], smax=5.),
    'fad2': dict(nd=2, rp='vc_advection_2D', fwave=True, tok=[[[0.], [1., -0.5]], [[1.], [-0.5, 1.]], [[3.], [0.25, 0.75]]], smax=1., cons=False),
    # its transverse solver reads uninitialized variables: only used without transverse terms
    'swb2': dict(nd=2, rp='shallow_bathymetry_fwave_2D', notrans=True, fwave=True, pd=dict(grav=1., dry_tolerance=1e-3, sea_level=0.),
                 tok=[[[1., 0., 0.], [-1.]], [[2., 1., -1.], [-2.]], [[1.5, -3., 0.5], [-1.]]], smax=4., cons=False),
    # 3D -------------------------------------------------------------------------------
    'vad3': dict(nd=3, rp='vc_advection_3D', tok=[[[0.], [1., -0.5, 0.25]], [[1.], [-0.5, 1., 0.5]], [[3.], [0.25, 0.75, -1.]]], smax=1., cons=False),
    'cad3': dict(nd=3, rp='vc_advection_3D', tok=[[[0.], [1., 0.5, 0.25]], [[1.], [1., 0.5, 0.25]], [[3.], [1., 0.5, 0.25]]], smax=1.),
    'fad3': dict(nd=3, rp='vc_advection_3D', fwave=True, tok=[[[0.], [1., -0.5, 0.25]], [[1.], [1., -0.5, 0.25]], [[3.], [1., -0.5, 0.25]]], smax=1., cons=False),
    'cad3m': dict(nd=3, rp='vc_advection_3D', tok=[[[0.], [-1., 0.5, -0.25]], [[1.], [-1., 0.5, -0.25]], [[3.], [-1., 0.5, -0.25]]], smax=1.),
    'bur3': dict(nd=3, rp='burgers_3D', pd=dict(coeff=[1., 0.5, -0.75]), tok=[[[-1.], []], [[0.5], []], [[2.], []]], smax=2.),
    'vac3': dict(nd=3, rp='vc_acoustics_3D',
                 tok=[[[0., 0., 0., 0.], [1., 1.]], [[1., 0.5, -1., 0.25], [2., 0.5]], [[0., 0., 1., -1.], [0.5, 2.]]], smax=2., cons=False),
    'cac3': dict(nd=3, rp='vc_acoustics_3D',
                 tok=[[[0., 0., 0., 0.], [2., 1.]], [[1., 0.5, -1., 0.25], [2., 1.]], [[0., 0., 1., -1.], [2., 1.]]], smax=1.),
    'eul3': dict(nd=3, rp='euler_3D', pd=G,
                 tok=[[eul(1., [0., 0., 0.], 1., 3), []], [eul(0.5, [1., -0.5, 0.25], 1., 3), []], [eul(1., [-3., 1., 0.5], 1.5, 3), []]], smax=5., sharp=False),
    'eum3': dict(nd=3, rp='euler_3D', pd=G,
                 tok=[[eul(1., [0., 0., 0.], 1., 3), []], [eul(0.8, [0.3, -0.2, 0.1], 1.1, 3), []], [eul(1., [-0.5, 0.4, 0.2], 1.3, 3), []]], smax=5.),
}
PYRP = {'advection_1D', 'acoustics_1D', 'burgers_1D'}


def fields(prob, idx, capa=None):
    """idx: integer array of tokens -> q, aux (aux has the capacity appended if given)."""
    p = PROBLEMS[prob]
    idx = np.asarray(idx)
    tq = np.array([t[0] for t in p['tok']], dtype=float)
    ta = np.array([t[1] for t in p['tok']], dtype=float)
    q = np.moveaxis(tq[idx], -1, 0)
    aux = None
    if ta.shape[1]:
        aux = np.moveaxis(ta[idx], -1, 0)
    if capa is not None:
        c = np.broadcast_to(np.asarray(capa, dtype=float), idx.shape)[None]
        aux = c.copy() if aux is None else np.concatenate([aux, c])
    return np.ascontiguousarray(q), (None if aux is None else np.ascontiguousarray(aux))


def spec(prob, n, **over):
    p = PROBLEMS[prob]
    sp = dict(rp=p['rp'], n=list(n), pd=dict(p.get('pd', {})))
    if 'coeff' in sp['pd']:
        sp['pd']['coeff'] = np.array(sp['pd']['coeff'])
    if p.get('fwave'):
        sp['fwave'] = True
    sp.update(over)
    return sp


def tiles(ntok, shape, grid_tiles=None):
    """Integer grid made of all tiles of the given shape over range(ntok); grid_tiles:
    arrangement of the tiles (their number must be the product)."""
    import itertools
    m = int(np.prod(shape))
    all_t = np.array(list(itertools.product(range(ntok), repeat=m))).reshape((-1,) + tuple(shape))
    if grid_tiles is None:
        raise ValueError
    a = all_t.reshape(tuple(grid_tiles) + tuple(shape))
    nd = len(shape)
    perm = []
    for d in range(nd):
        perm += [d, nd + d]
    a = a.transpose(perm)
    return a.reshape([g * s for g, s in zip(grid_tiles, shape)])
