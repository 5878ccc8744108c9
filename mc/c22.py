"""C22: damaged frames are refused, not misread."""
import os, shutil, re
import numpy as np
from clawpack import pyclaw
from . import frames as F

ID = 'C22'
CHUNKS = 400
ASSUMPTIONS = ['text files are cut between values (the format has no redundancy that could reveal a value cut short)',
               'h5py/libhdf5 is trusted to report truncated HDF5 containers']
BOUNDS = {'quick': 'frames in 1D-3D with 1-3 patches, ascii, binary64 (0 and 2 ghost cells), binary32, hdf5: every cut between two values of every text file, every cut at every byte of every binary file, '
                   'every missing file, every header count increased by 1, 2 and 10', 'thorough': 'more layouts; hdf5 with compression'}


def layouts(th):
    L = {'1d1': [dict(n=[3], lo=[0.], d=[0.5], index=1, level=1)],
         '1d2': [dict(n=[2], lo=[0.], d=[0.5], index=1, level=1), dict(n=[3], lo=[1.], d=[0.25], index=2, level=2)],
         '2d1': [dict(n=[2, 3], lo=[0., -1.], d=[0.5, 0.25], index=1, level=1)],
         '2d3': [dict(n=[2, 1], lo=[0., -1.], d=[0.5, 0.25], index=1, level=1), dict(n=[1, 2], lo=[1., -1.], d=[0.5, 0.25], index=2, level=1),
                 dict(n=[2, 2], lo=[0., 0.], d=[0.25, 0.125], index=3, level=2)],
         '3d2': [dict(n=[2, 1, 2], lo=[0., -1., 2.], d=[0.5, 0.25, 1.], index=1, level=1), dict(n=[1, 2, 2], lo=[0., 0., 0.], d=[0.25, 0.125, 1.], index=2, level=2)]}
    if th:
        L['2d2'] = [dict(n=[3, 3], lo=[0., -1.], d=[0.5, 0.25], index=1, level=1), dict(n=[4, 2], lo=[0., 0.], d=[0.25, 0.125], index=2, level=2)]
        L['3d1'] = [dict(n=[2, 3, 2], lo=[0., -1., 2.], d=[0.5, 0.25, 1.], index=1, level=1)]
    return L


FMT = ['ascii', 'binary64:0', 'binary64:2', 'binary32:0', 'binary32:1', 'hdf5']


def items(tier):
    th = tier == 'thorough'
    out = []
    for lay in layouts(th):
        for fmt in FMT + (['hdf5:gzip'] if th else []):
            for comp in ((1, 0), (1, 1), (2, 1)) + (((3, 2),) if th else ()):
                if fmt.startswith('hdf5') and not th and (lay in ('2d1', '3d2') or comp == (2, 1)):
                    continue
                if fmt.startswith('hdf5'):
                    for part in range(8):
                        out.append(dict(lay=lay, fmt=fmt, neqn=comp[0], naux=comp[1], part=part))
                else:
                    out.append(dict(lay=lay, fmt=fmt, neqn=comp[0], naux=comp[1], part=None))
    return out


def text_cuts(b):
    """All prefixes that end between two values (and all line ends)."""
    s = b.decode()
    cuts = set([0])
    for m in re.finditer(r'\s+', s):
        cuts.add(m.start())
        cuts.add(m.end())
    for m in re.finditer(r'\n', s):
        cuts.add(m.end())
    return sorted(c for c in cuts if c < len(s))


def run(item, ctx):
    th = ctx.tier == 'thorough'
    ps = layouts(True)[item['lay']]
    fmt, _, opt = item['fmt'].partition(':')
    ghost = int(opt) if opt.isdigit() else 0
    d = os.path.join(os.getcwd(), 'dam')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sol = F.solution(ps, item['neqn'], item['naux'], 0.75, 'int')
    for s in sol.states:                      # exactly representable in every format, no value looks like a count
        s.q = (s.q % 9973) / 64. + 0.5
        if item['naux']:
            s.aux = (s.aux % 9967) / 64. + 0.25
    frame = 3
    if fmt in ('ascii', 'hdf5'):
        sol.write(frame, d, fmt, None, True, {'compression': 'gzip'} if opt == 'gzip' else {})
    else:
        F.write_binary(sol, frame, d, 'fort', fmt, ghost)
    want = F.snap(sol)
    rel = 1e-8 if fmt == 'ascii' else 0.
    files = sorted(os.listdir(d))
    orig = {f: open(os.path.join(d, f), 'rb').read() for f in files}

    def attempt(label, f, auxabsent=False, given=True, ra=True):
        kw = dict(file_format=fmt) if given else {}
        what = dict(damage=label, file=f, item=item, given=given, read_aux=ra)
        try:
            sol2 = pyclaw.Solution(frame, path=d, read_aux=ra, **kw)
            got = F.snap(sol2)
        except Exception as e:
            ctx.outcome('%s %s refused' % (fmt, type(e).__name__))
            return
        finally:
            ctx.trans(); ctx.trace()
            ctx.state(item['lay'], item['fmt'], item['neqn'], item['naux'], label, f, given, ra)
        e = F.compare(got, want, rel, 'same')
        if e is not None and (auxabsent or not ra):
            e = F.compare(got, want, rel, 'either')
        ctx.expect(e is None, 'misread-%s' % fmt, '%s, %s: read without an error, but %s' % (f, label, e), **what)
        ctx.outcome('%s read completely' % fmt)

    def put(f, b):
        with open(os.path.join(d, f), 'wb') as h:
            h.write(b)

    first = item['part'] in (None, 0)
    if first:
        attempt('intact', None)
        e = None
        try:
            e = F.compare(F.snap(pyclaw.Solution(frame, path=d, file_format=fmt, read_aux=True)), want, rel, 'same')
        except Exception as ex:
            e = repr(ex)
        ctx.expect(e is None, 'intact-refused', 'intact frame: %s' % e, item=item)
    for f in files:
        isaux = '.a0' in f
        binary = f.endswith('.hdf') or '.b0' in f or '.pkl' in f or (isaux and fmt != 'ascii')
        b = orig[f]
        cuts = range(len(b)) if binary else text_cuts(b)
        for k, c in enumerate(cuts):
            if item['part'] is not None and k % 8 != item['part']:
                continue
            put(f, b[:c])
            attempt('cut at byte %d of %d' % (c, len(b)), f)
            if not binary:
                attempt('cut at byte %d of %d' % (c, len(b)), f, given=False)
            if isaux:
                attempt('cut at byte %d of %d' % (c, len(b)), f, ra=False)
            put(f, b)
        if first:
            os.unlink(os.path.join(d, f))
            attempt('missing', f, auxabsent=isaux)
            attempt('missing', f, auxabsent=isaux, given=False)
            put(f, b)
            if not binary:
                lines = b.decode().splitlines(True)
                for k, l in enumerate(lines):
                    m = re.match(r'^(\s*)(\d+)(\s+)(num_eqn|meqn|nstates|ngrids|num_aux|naux|mx|my|mz|num_dim|ndim|num_ghost|nghost)(\s*)$', l)
                    if not m or (m.group(4) in ('nghost', 'num_ghost', 'num_aux', 'naux') and fmt == 'ascii' and m.group(4) != 'num_aux'):
                        continue
                    for inc in (1, 2, 10):
                        l2 = '%5d%s%s%s' % (int(m.group(2)) + inc, m.group(3), m.group(4), m.group(5))
                        put(f, ''.join(lines[:k] + [l2] + lines[k + 1:]).encode())
                        if m.group(4) in ('num_aux', 'naux') and item['naux'] == 0:
                            continue            # no aux file in this frame: nothing that could be checked against
                        attempt('%s increased by %d in line %d' % (m.group(4), inc, k), f)
                    put(f, b)
    if fmt == 'hdf5' and first:
        import h5py
        f = files[0]
        path = os.path.join(d, f)
        names = []
        with h5py.File(path, 'r') as h:
            for g in h:
                for a in h[g].attrs:
                    names.append((g, 'attr', a))
                for ds in h[g]:
                    names.append((g, 'data', ds))
        for g, kind, a in names:
            with h5py.File(path, 'r+') as h:
                if kind == 'attr':
                    if a.endswith('units') or a.endswith('delta'):
                        continue
                    del h[g].attrs[a]
                else:
                    del h[g][a]
            attempt('%s %s of %s missing' % (kind, a, g), f, auxabsent=(a == 'aux'))
            put(f, orig[f])
            if kind == 'attr' and (a in ('num_eqn',) or a.endswith('num_cells')):
                for inc in (1, 2, 10):
                    with h5py.File(path, 'r+') as h:
                        h[g].attrs[a] = h[g].attrs[a] + inc
                    attempt('%s of %s increased by %d' % (a, g, inc), f)
                    put(f, orig[f])
            if kind == 'data':
                with h5py.File(path, 'r+') as h:
                    x = h[g][a][...]
                    del h[g][a]
                    h[g].create_dataset(a, data=x[..., :-1])
                attempt('dataset %s of %s short' % (a, g), f)
                put(f, orig[f])
    shutil.rmtree(d, ignore_errors=True)
