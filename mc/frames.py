"""Solutions with arbitrary patches, and reference encoders/decoders for frame files."""
import os
import numpy as np
from clawpack import pyclaw

MAG = [1., -1.e-30, 1.e300, 3.1e-300, -2.e5, 0., 7.e-9]
SPECIAL = MAG + [float('nan'), float('inf'), -float('inf'), 2.5e-310, -0.25]


def val(p, m, idx, kind):
    """A different value in every patch, component and cell."""
    code = 1 + p
    for i in (m,) + tuple(idx):
        code = code * 11 + i + 1
    if kind == 'int':
        return float(code)
    mag = SPECIAL if kind == 'special' else MAG
    v = (1. + (code % 99991) / 99991.) * mag[code % len(mag)]
    return v


def array(p, ncomp, n, kind, off=0, order='F'):
    a = np.empty((ncomp,) + tuple(n), order=order)
    for m in range(ncomp):
        for idx in np.ndindex(*n):
            a[(m,) + idx] = val(p, m + off, idx, kind)
    return a


def stretch(*x):
    """A mapping from computational to physical coordinates that treats every dimension differently."""
    return [(2. + i) * y + 0.5 * x[(i + 1) % len(x)] for i, y in enumerate(x)]


def solution(patches, neqn, naux, t, kind='mixed', order='F', mp=0, names='xyz', units=(None,) * 3):
    """patches: list of dict(n=, lo=, d=, index=, level=)"""
    states, ps = [], []
    for k, p in enumerate(patches):
        dims = [pyclaw.Dimension(p['lo'][i], p['lo'][i] + p['n'][i] * p['d'][i], p['n'][i], name=names[i], units=units[i]) for i in range(len(p['n']))]
        patch = pyclaw.geometry.Patch(dims)
        patch.patch_index = p['index']
        patch.level = p['level']
        st = pyclaw.State(patch, neqn, naux)
        st.t = t
        st.problem_data = {'a': 1.5, 'b': 7}
        patch.grid.mapc2p = stretch
        st.q = array(p['index'], neqn, p['n'], kind, 0, order)
        if naux:
            st.aux = array(p['index'], naux, p['n'], kind, 5, order)
        states.append(st)
        ps.append(patch)
    return pyclaw.Solution(states, pyclaw.Domain(ps))


def snap(sol):
    """Everything observable of a solution."""
    out = []
    for s in sol.states:
        p = s.patch
        out.append(dict(index=int(p.patch_index), level=int(p.level), t=float(s.t), neqn=int(s.num_eqn), naux=int(s.num_aux),
                        n=[int(x) for x in p.num_cells_global], lo=[float(x) for x in p.lower_global], up=[float(x) for x in p.upper_global],
                        d=[float(x) for x in p.delta], q=np.array(s.q, dtype=float), aux=None if s.aux is None else np.array(s.aux, dtype=float),
                        pd=dict(s.problem_data) if s.problem_data else s.problem_data,
                        pc=[np.array(x) for x in s.grid.p_centers], names=[(d.name, d.units) for d in p.dimensions]))
    return out


def same_array(a, b, rel):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    if a.shape != b.shape:
        return False
    if rel == 0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all((a == b) | (np.isfinite(b) & (np.abs(a - b) <= rel * np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def compare(got, want, rel=0., aux='same', pd=False, names=False):
    """Returns None or a description of the difference. aux: 'same' | 'nan' (must be marked as absent) | 'either' (per patch)."""
    if len(got) != len(want):
        return 'number of patches %d instead of %d' % (len(got), len(want))
    ga = {g['index']: g for g in got}
    if len(ga) != len(got):
        return 'patch numbers %s' % [g['index'] for g in got]
    for w in want:
        g = ga.get(w['index'])
        if g is None:
            return 'patch %d missing' % w['index']
        for k in ('level', 'neqn', 'naux', 'n'):
            if g[k] != w[k]:
                return '%s %s instead of %s' % (k, g[k], w[k])
        if abs(g['t'] - w['t']) > rel * abs(w['t']):
            return 'time %r instead of %r' % (g['t'], w['t'])
        for i in range(len(w['n'])):
            tol = rel * (abs(w['lo'][i]) + abs(w['up'][i]) + w['d'][i] * w['n'][i])
            if max(abs(g['lo'][i] - w['lo'][i]), abs(g['up'][i] - w['up'][i]), abs(g['d'][i] - w['d'][i]) * (w['n'][i] if rel else 1)) > tol:
                return 'extents %r %r instead of %r %r' % (g['lo'], g['up'], w['lo'], w['up'])
        if not same_array(g['q'], w['q'], rel):
            return 'q of patch %d' % w['index']
        if aux == 'same':
            if not same_array(g['aux'], w['aux'], rel):
                return 'aux of patch %d' % w['index']
        elif aux == 'either' and same_array(g['aux'], w['aux'], rel):
            pass
        elif w['naux'] and (g['aux'] is None or g['aux'].shape != w['aux'].shape or not np.isnan(g['aux']).all()):
            return 'aux of patch %d not marked as absent' % w['index']
        if names and g['names'] != w['names']:
            return 'names and units %r' % (g['names'],)
        if pd and g['pd'] != w['pd']:
            return 'problem_data %r' % (g['pd'],)
        if pd and not all(x.shape == y.shape and np.all(np.abs(x - y) <= 1e-7 * (1. + np.abs(y).max())) for x, y in zip(g['pc'], w['pc'])):
            return 'physical coordinates'
    return None


def write_binary(sol, frame, path, prefix, fmt, ghost, aux=True, fmtline=True):
    """Frame files in the raw binary format of AMRClaw/GeoClaw (there is a reader only in /repo)."""
    dt = np.float32 if fmt == 'binary32' else np.float64
    nd = sol.domain.num_dim
    with open(os.path.join(path, '%s.t%s' % (prefix, str(frame).zfill(4))), 'w') as f:
        f.write('%26.16e    time\n%5i                 meqn\n%5i                 ngrids\n%5i                 naux\n%5i                 ndim\n%5i                 nghost\n' %
                (sol.t, sol.num_eqn, len(sol.states), sol.num_aux, nd, ghost))
        if fmtline:
            f.write('%-10s             file_format\n' % fmt)
    with open(os.path.join(path, '%s.q%s' % (prefix, str(frame).zfill(4))), 'w') as f:
        for s in sol.states:
            p = s.patch
            f.write('%6i                 grid_number\n%6i                 AMR_level\n' % (p.patch_index, p.level))
            for d in p.dimensions:
                f.write('%6i                 m%s\n' % (d.num_cells, d.name))
            for d in p.dimensions:
                f.write('%26.16e    %slow\n' % (d.lower, d.name))
            for d in p.dimensions:
                f.write('%26.16e    d%s\n' % (d.delta, d.name))
            f.write('\n')

    def dump(name, arrs):
        with open(os.path.join(path, name), 'wb') as f:
            for a in arrs:
                ext = np.full([a.shape[0]] + [m + 2 * ghost for m in a.shape[1:]], -777.5)
                ext[(slice(None),) + tuple(slice(ghost, ghost + m) for m in a.shape[1:])] = a
                f.write(ext.ravel(order='F').astype(dt).tobytes())
    dump('%s.b%s' % (prefix, str(frame).zfill(4)), [s.q for s in sol.states])
    if aux and sol.num_aux:
        dump('%s.a%s' % (prefix, str(frame).zfill(4)), [s.aux for s in sol.states])
