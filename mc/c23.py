"""C23: VTK output shows every cell once, with its own value."""
import itertools, os, shutil
import xml.etree.ElementTree as ET
import numpy as np
from clawpack import pyclaw
from . import frames as F

ID = 'C23'
CHUNKS = 128
ASSUMPTIONS = ['levels in use are consecutive and fine patches are aligned with coarse cells, as in AMR output',
               'VTK output stores single precision; the values used are exact in it']
BOUNDS = {'quick': 'all single fine patches (refinement 2, 3 and different per direction) on 4x3 cells covered by one, two or three coarse patches, all disjoint pairs of small fine patches, nested third level; '
                   'orders of the patch list: all for up to 3 patches, else all rotations and reversals; several origins; 1-3 components; ascii and binary; through the controller',
          'thorough': 'all orders for up to 4 patches; all pairs of fine patches; all nested rectangles'}
NX, NY = 4, 3
LAYOUT = {
    'one': [((0, 4), (0, 3))],
    'x': [((0, 3), (0, 3)), ((3, 4), (0, 3))],
    'y': [((0, 4), (0, 1)), ((0, 4), (1, 3))],
    'L': [((0, 2), (0, 3)), ((2, 4), (0, 2)), ((2, 4), (2, 3))],
}


def rects(nx=NX, ny=NY):
    return [((a, b), (c, d)) for a in range(nx) for b in range(a + 1, nx + 1) for c in range(ny) for d in range(c + 1, ny + 1)]


def disjoint(r, s):
    return r[0][1] <= s[0][0] or s[0][1] <= r[0][0] or r[1][1] <= s[1][0] or s[1][1] <= r[1][0]


def items(tier):
    th = tier == 'thorough'
    out = []
    R = rects()
    small = [r for r in R if (r[0][1] - r[0][0]) * (r[1][1] - r[1][0]) <= 2]
    for lay in LAYOUT:
        out.append(dict(lay=lay, fine=[], neqn=2))
        for r in R:
            out.append(dict(lay=lay, fine=[r], neqn=1 + (r[0][0] + r[1][0]) % 3))
        if lay == 'one' or th:
            for r, s in itertools.combinations(R if th else small, 2):
                if disjoint(r, s):
                    out.append(dict(lay=lay, fine=[r, s], neqn=1))
        elif lay in 'xL':
            for r in small:
                out.append(dict(lay=lay, fine=[r, [[3, 4], [2, 3]]] if disjoint(r, [[3, 4], [2, 3]]) else [r], neqn=1))
        # third level: inside the fine patch (cells of level 2 are half a coarse cell)
        outer = ((1, 3), (0, 2))
        R3 = [((2 + a, 2 + b), (c, d)) for (a, b), (c, d) in rects(4, 4)]
        for r in R3 if th else [r for r in R3 if (r[0][1] - r[0][0]) + (r[1][1] - r[1][0]) <= 4]:
            out.append(dict(lay=lay, fine=[outer], third=[r], neqn=1))
    for ratio in ([3, 3], [2, 4], [4, 2]):
        for r in R:
            out.append(dict(lay='x', fine=[r], neqn=2, ratio=ratio))
    for base in (1, 2):
        for lo in ([0., 0.], [-3., 2.], [0.1, -0.7]):
            for r in R:
                out.append(dict(lay='x', fine=[r], neqn=1, base=base, lo=lo, d=[0.5, 0.2]))
    for it in list(out):
        if len(it['fine']) == 1 and 'third' not in it and 'ratio' not in it and 'base' not in it:
            out.append(dict(it, binary=True))
    for k in range(1, 4):
        out.append(dict(ctl=k, lay='one', fine=[], neqn=1))
    return out


def patches(item):
    lo = item.get('lo', [-1., 0.5])
    d = item.get('d', [0.5, 0.25])
    ratio = item.get('ratio', [2, 2])
    base = item.get('base', 1)
    ps = []
    for (bx, by) in LAYOUT[item['lay']]:
        ps.append((base, (bx, by)))
    for r in item['fine']:
        ps.append((base + 1, tuple((ratio[i] * r[i][0], ratio[i] * r[i][1]) for i in (0, 1))))
    for r in item.get('third', []):
        ps.append((base + 2, tuple((2 * r[i][0], 2 * r[i][1]) for i in (0, 1))))
    out = []
    for k, (lev, box) in enumerate(ps):
        dd = [d[i] / (ratio[i] if lev > base else 1) / (2 if lev > base + 1 else 1) for i in (0, 1)]
        out.append(dict(index=k + 1, level=lev, n=[box[i][1] - box[i][0] for i in (0, 1)], lo=[lo[i] + box[i][0] * dd[i] for i in (0, 1)], d=dd, box=box))
    return out


def covered(p, ps, base):
    """Cells of p that lie inside a patch of the next level."""
    c = np.zeros(p['n'], dtype=int)
    for f in ps:
        if f['level'] != p['level'] + 1:
            continue
        r = [int(round(p['d'][i] / f['d'][i])) for i in (0, 1)]
        for i, j in np.ndindex(*p['n']):
            gi, gj = p['box'][0][0] + i, p['box'][1][0] + j
            if f['box'][0][0] <= gi * r[0] and (gi + 1) * r[0] <= f['box'][0][1] and f['box'][1][0] <= gj * r[1] and (gj + 1) * r[1] <= f['box'][1][1]:
                c[i, j] = 8
    return c


def vti(path, binary):
    """(origin, spacing, ncells, {name: values, x fastest})"""
    if binary:
        import vtk
        from vtk.util import numpy_support
        rd = vtk.vtkXMLImageDataReader()
        rd.SetFileName(path)
        rd.Update()
        g = rd.GetOutput()
        cd = g.GetCellData()
        data = {cd.GetArrayName(i): numpy_support.vtk_to_numpy(cd.GetArray(i)).astype(float) for i in range(cd.GetNumberOfArrays())}
        e = g.GetExtent()
        return list(g.GetOrigin()), list(g.GetSpacing()), [e[1] - e[0], e[3] - e[2], e[5] - e[4]], data
    root = ET.parse(path).getroot()
    im = root.find('ImageData')
    e = [int(x) for x in im.get('WholeExtent').split()]
    data = {}
    pieces = im.findall('Piece')
    assert len(pieces) == 1
    for a in pieces[0].find('CellData').findall('DataArray'):
        data[a.get('Name')] = np.array([float(x) for x in (a.text or '').split()])
    return [float(x) for x in im.get('Origin').split()], [float(x) for x in im.get('Spacing').split()], [e[1] - e[0], e[3] - e[2], e[5] - e[4]], data


def blocks(path, name):
    root = ET.parse(os.path.join(path, name)).getroot()
    am = root[0]
    org = [float(x) for x in am.get('origin').split()]
    out = []
    for b in am.findall('Block'):
        sp = [float(x) for x in b.get('spacing').split()]
        for ds in b.findall('DataSet'):
            out.append((int(b.get('level')), org, sp, [int(x) for x in ds.get('amr_box').split()], os.path.join(path, ds.get('file'))))
    return out


def check(ctx, item, d, name, ps, want, t, binary, order):
    base = min(p['level'] for p in ps)
    bl = blocks(d, name)
    what = 'order %s' % (order,)
    if not ctx.expect(len(bl) == len(ps), 'number-of-patches', '%d data sets for %d patches, %s' % (len(bl), len(ps), what), item=item):
        return False
    left = list(range(len(ps)))
    for lev, org, sp, box, f in bl:
        o, s, n, data = vti(f, binary)
        hit = [k for k in left if ps[k]['level'] - base == lev and ps[k]['n'] == n[:2] and all(abs(o[i] - ps[k]['lo'][i]) < 1e-4 and abs(s[i] - ps[k]['d'][i]) < 1e-4 for i in (0, 1))]
        if not ctx.expect(len(hit) == 1, 'patch-extents', 'data set at %s, spacing %s, cells %s, level %d is none of the patches, %s' % (o, s, n, lev, what), item=item):
            return False
        k = hit[0]
        p = ps[k]
        left.remove(k)
        ext = [(org[i] + sp[i] * box[2 * i], org[i] + sp[i] * (box[2 * i + 1] + 1)) for i in (0, 1)]
        if not ctx.expect(all(abs(ext[i][0] - p['lo'][i]) < 1e-4 and abs(ext[i][1] - p['lo'][i] - p['n'][i] * p['d'][i]) < 1e-4 for i in (0, 1)), 'patch-box',
                          'box %s of level %d does not give the extents of patch %d, %s' % (box, lev, p['index'], what), item=item):
            return False
        q = want[k]
        names = ['q_%d' % m for m in range(q.shape[0])]
        if not ctx.expect(sorted(data) == sorted(names + ['vtkGhostType']), 'fields', 'fields %s' % sorted(data), item=item):
            return False
        for m, nm in enumerate(names):
            if not ctx.expect(data[nm].shape == (q[m].size,) and np.allclose(data[nm], q[m].ravel(order='F'), rtol=1e-5 if 'ctl' in item else 1e-7, atol=0), 'values',
                              'component %d of patch %d: cells do not have their own values, %s' % (m, p['index'], what), item=item):
                return False
        c = covered(p, ps, base)
        if not ctx.expect(np.array_equal(data['vtkGhostType'], c.ravel(order='F')), 'hidden-cells',
                          'hidden cells of patch %d (level %d) %s, covered by finer patches %s, %s' % (p['index'], p['level'], data['vtkGhostType'].tolist(), c.ravel(order='F').tolist(), what), item=item):
            return False
    return True


def controller(item, ctx):
    k = item['ctl']
    dom = pyclaw.Domain([0., 0.], [1., 2.], [3, 2])
    solver = pyclaw.ClawSolver2D(__import__('clawpack.riemann', fromlist=['x']).advection_2D)
    for i in (0, 1):
        solver.bc_lower[i] = solver.bc_upper[i] = pyclaw.BC.periodic
    st = pyclaw.State(dom, 1)
    st.problem_data.update(u=0.5, v=0.25)
    st.q[0] = np.arange(6).reshape(3, 2)
    claw = pyclaw.Controller()
    claw.verbosity = 0
    claw.solver, claw.solution = solver, pyclaw.Solution(st, dom)
    claw.output_format = 'vtk' if k < 3 else ['ascii', 'vtk']
    claw.outdir = 'ctl%d' % k
    claw.num_output_times, claw.tfinal = k, 0.5
    claw.keep_copy = True
    claw.run()
    ctx.trans(k)
    ctx.expect(claw.solution.q.shape == (1, 3, 2), 'solution-changed', 'shape of q after a run with VTK output: %s' % (claw.solution.q.shape,), item=item)
    ps = [dict(index=1, level=1, n=[3, 2], lo=[0., 0.], d=[1. / 3, 1.], box=((0, 3), (0, 2)))]
    for f, fr in enumerate(claw.frames):
        names = [x for x in os.listdir(claw.outdir) if x.endswith('%04d.vthb' % f)]
        if ctx.expect(len(names) == 1, 'controller-frames', 'files for frame %d: %s' % (f, names), item=item):
            check(ctx, item, claw.outdir, names[0], ps, [fr.q], fr.t, False, 'controller frame %d' % f)
    ctx.expect(len(claw.frames) == k + 1, 'controller-frames', '%d frames' % len(claw.frames), item=item)
    ctx.state('ctl', k)
    ctx.trace()
    shutil.rmtree(claw.outdir)


def run(item, ctx):
    if 'ctl' in item:
        return controller(item, ctx)
    ps = patches(item)
    np_ = len(ps)
    if np_ <= (4 if ctx.tier == 'thorough' else 3):
        orders = list(itertools.permutations(range(np_)))
    else:
        b = list(range(np_))
        orders = [tuple(b[k:] + b[:k]) for k in range(np_)] + [tuple((b[k:] + b[:k])[::-1]) for k in range(np_)]
    d = 'vtk'
    binary = item.get('binary', False)
    if binary:
        orders = orders[-1:]
    for order in orders:
        pp = [ps[k] for k in order]
        sol = F.solution(pp, item['neqn'], 0, 0.5, kind='int')
        want = [s.q.copy() for s in sol.states]
        before = F.snap(sol)
        opts = {'binary': True} if binary else {}
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        sol.write(7, d, 'vtk', 'pp', False, opts)
        ctx.trans()
        bad = F.compare(F.snap(sol), before)
        if not ctx.expect(bad is None and [s.patch.patch_index for s in sol.states] == [p['index'] for p in pp], 'solution-changed', 'writing changed the solution: %s' % bad, item=item, order=order):
            return
        if not check(ctx, item, d, 'pp0007.vthb', pp, want, 0.5, binary, order):
            return
        ctx.state(item, order)
        ctx.trace()
        ctx.outcome('%d patches, %d levels' % (np_, len(set(p['level'] for p in ps))))
    shutil.rmtree(d, ignore_errors=True)
