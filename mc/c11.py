"""C11: a frame read back is the frame written."""
import itertools, os, shutil, copy, json, subprocess, sys
import numpy as np
from clawpack import pyclaw
from . import frames as F

ID = 'C11'
CHUNKS = 64
ASSUMPTIONS = ['binary frames (for which the code has a reader only) are produced by an encoder of the documented AMRClaw layout in mc/frames.py']
BOUNDS = {'quick': 'values of all magnitudes, NaN and infinities; 1D-3D, every cell-count vector over {1,2,3} (1D also 7), 1-3 and 6 components, 0-2 aux fields, 1-3 and 12 patches of different shapes, levels and orders, '
                   'ascii / hdf5 with every storage option / binary, binary64, binary32 with 0-3 ghost cells, aux written/not, read/not, file prefixes, frame numbers up to 5 digits, formats singly and together; derived quantities of every patch; directories of 2-3 frames with every subset of aux data, read in both orders; extents and times without short decimal form from 1e-8 to 1e13; ForestClaw frames; all sequences of 3 writes and reads in different formats',
          'thorough': 'cell counts over {1,2,3,5}, full product of components and aux'}
H5OPT = [{}, {'compression': 'gzip'}, {'compression': 'gzip', 'compression_opts': 9, 'shuffle': True}, {'compression': 'lzf'}, {'chunks': True}, {'fletcher32': True}]


def items(tier):
    th = tier == 'thorough'
    out = []
    ns = []
    A = [1, 2, 3, 5] if th else [1, 2, 3]
    ns += [[k] for k in A + [7]]
    ns += [list(v) for v in itertools.product(A, repeat=2)]
    ns += [list(v) for v in itertools.product(A, repeat=3)]
    for n in ns:
        for fmt in ('ascii', 'hdf5', 'binary64', 'binary32', 'binary'):
            out.append(dict(n=n, fmt=fmt, kind='shape'))
    for nd in (1, 2, 3):
        for fmt in ('ascii', 'hdf5', 'binary64', 'binary32', 'binary', 'multi'):
            for npatch in (1, 2, 3, 12):
                out.append(dict(nd=nd, fmt=fmt, np=npatch, kind='patches'))
        for npatch in (1, 2, 3):
            out.append(dict(nd=nd, np=npatch, kind='forest', fmt='forestclaw'))
        for fmt in ('ascii', 'hdf5', 'binary64'):
            out.append(dict(nd=nd, kind='extents', fmt=fmt))
        out.append(dict(nd=nd, kind='interleave', fmt='all', depth=4 if th else 3))
    return out


def patches(nd, count, order):
    ps = []
    for k in range(count):
        n = [2 + (k + i) % 3 for i in range(nd)]
        d = [0.5 / (1 + k % 2) * (1. + 0.1 * i) for i in range(nd)]
        lo = [-1.3 + 0.7 * k + i for i in range(nd)]
        ps.append(dict(n=n, lo=lo, d=d, index=k + 1, level=1 + k % 3))
    if order == 'rev':
        ps = ps[::-1]
    elif order == 'rot':
        ps = ps[1:] + ps[:1]
    return ps


def run(item, ctx):
    fmt = item['fmt']
    if item['kind'] == 'forest':
        return forest(item, ctx)
    if item['kind'] == 'interleave':
        return interleave(item, ctx)
    if item['kind'] == 'extents':
        return extents(item, ctx)
    th = ctx.tier == 'thorough'
    if item['kind'] == 'shape':
        nd = len(item['n'])
        lay = [[dict(n=item['n'], lo=[-0.25 + i for i in range(nd)], d=[0.125, 0.3, 1e-3][:nd], index=1, level=1)]]
        comps = [(1, 0), (2, 1), (3, 2), (6, 1)] if not th else [(a, b) for a in (1, 2, 3, 4, 5, 6) for b in (0, 1, 2, 3)]
        orders = ['F', 'C'] if th or fmt in ('ascii', 'hdf5') and item['n'] == [2, 3, 1][:nd] else ['C']
        times = [0., 0.1]
        fnums = [0, 7]
    else:
        nd = item['nd']
        lay = [patches(nd, item['np'], o) for o in (['fwd', 'rev', 'rot'] if item['np'] > 1 else ['fwd'])]
        comps = [(1, 0), (2, 1)]
        orders = ['F']
        times = [12345.678901, -1.5e-7]
        fnums = [3, 12345]
        if item['np'] == 12 and not th:
            comps, times, fnums = [(2, 1)], times[:1], [10]
    for ps in lay:
        for neqn, naux in comps:
            for order in orders:
                for t, frame in zip(times, fnums):
                    one(item, ctx, fmt, ps, neqn, naux, order, t, frame)


def one(item, ctx, fmt, ps, neqn, naux, order, t, frame):
    what = dict(patches=ps, neqn=neqn, naux=naux, order=order, t=t, frame=frame, fmt=fmt)
    kind = 'int' if fmt == 'binary32' else 'special' if item['kind'] == 'shape' else 'mixed'
    d = os.path.join(os.getcwd(), 'fr')

    def fresh():
        shutil.rmtree(d, ignore_errors=True)

    def rd(mode, **kw):
        if mode == 'ctor':
            return pyclaw.Solution(frame, path=d, **kw)
        s = pyclaw.Solution()
        if mode == 'reuse':
            s = F.solution(patches(1, 2, 'fwd'), 1, 1, 3.)
        s.read(frame, path='$MC_SCRATCH/fr' if mode == 'env' else d, **kw)
        return s
    os.environ['MC_SCRATCH'] = os.getcwd()
    variants = []
    th = ctx.tier == 'thorough'
    modes = ('ctor', 'read', 'reuse', 'env') if th or item['kind'] == 'patches' else ('ctor', 'read')
    if len(ps) == 12 and not th:
        modes = ('read',)
    if fmt in ('ascii', 'hdf5', 'multi'):
        for wa in (False, True):
            for prefix in ((None, 'foo') if item['kind'] == 'shape' else (None, 'fort', 'claw')):
                opts = [{}] if fmt != 'hdf5' or wa else H5OPT
                if item['kind'] == 'patches' and fmt == 'hdf5':
                    opts = H5OPT[:2]
                for opt in opts:
                    variants.append((wa, prefix, opt))
        for wa, prefix, opt in variants:
            fresh()
            nu = dict(names=('r', 'theta', 'z'), units=('m', None, 'km')) if fmt == 'hdf5' else {}
            sol = F.solution(ps, neqn, naux, t, kind, order, **nu)
            before = F.snap(sol)
            o = copy.deepcopy(opt)
            fl = ['ascii', 'hdf5'] if fmt == 'multi' else fmt
            sol.write(frame, d if not wa else '$MC_SCRATCH/fr', fl, prefix, wa, o)
            ctx.trans()
            after = F.snap(sol)
            ctx.expect(F.compare(after, before, 0., 'same', True) is None, 'write-changes-solution', 'writing changed the solution: %s' % F.compare(after, before), **what)
            ctx.expect(o == opt, 'write-changes-options', 'options %r became %r' % (opt, o), **what)
            for f in (['ascii', 'hdf5'] if fmt == 'multi' else [fmt]):
                rel = 1e-8 if f == 'ascii' else 0.
                for ra in (False, True):
                    for mode in modes:
                        kw = dict(file_format=f, read_aux=ra)
                        if prefix is not None:
                            kw['file_prefix'] = prefix
                        if f == 'ascii' and mode in ('read', 'env'):
                            kw.pop('file_format')
                        ro = {}
                        got = F.snap(rd(mode, options=ro, **kw))
                        ctx.trans(); ctx.trace()
                        e = F.compare(got, before, rel, 'same' if (wa and ra) else 'nan', pd=(f == 'ascii'), names=(f == 'hdf5'))
                        ctx.expect(e is None, 'read-back-%s' % f, '%s read back (%s, write_aux=%s, read_aux=%s, prefix=%s): %s' % (f, mode, wa, ra, prefix, e), **what)
                        ctx.expect(ro == {}, 'read-changes-options', repr(ro), **what)
                        if [g['index'] for g in got] not in ([b['index'] for b in before], sorted(b['index'] for b in before)):
                            ctx.fail('patch-order', 'patches %s' % [g['index'] for g in got], **what)
                        ctx.state(f, len(ps), [p['n'] for p in ps], neqn, naux, wa, ra, mode, prefix is None, sorted(opt), order, frame)
                if f == 'hdf5':
                    tt = pyclaw.controller.OutputController(d, 'hdf5', prefix or 'claw').get_time(frame)
                    ctx.expect(tt is None or tt == t, 'get-time', 'hdf5: get_time %r instead of %r' % (tt, t), **what)
                if f == 'ascii':
                    oc = pyclaw.controller.OutputController(d, 'ascii', prefix or 'fort')
                    tt = oc.get_time(frame)
                    ctx.expect(abs(tt - t) <= 1e-8 * abs(t), 'get-time', 'get_time %r instead of %r' % (tt, t), **what)
                ctx.outcome('%s aux=%s' % (f, wa))
        if fmt != 'multi' and order == orders0(item, th):
            derived(ctx, fmt, ps, neqn, naux, t, frame, d, what)
            if naux:
                history(ctx, fmt, ps, neqn, naux, t, frame, d, what)
    else:
        for ghost in ((0, 1, 2, 3) if th or item['kind'] == 'patches' else (0, 2)):
            for wa in (False, True):
                for fl in (True, False):
                    fresh()
                    os.makedirs(d)
                    sol = F.solution(ps, neqn, naux, t, kind, order)
                    if fmt == 'binary32':
                        for s in sol.states:
                            s.q = s.q.astype(np.float32).astype(float)
                            if naux:
                                s.aux = s.aux.astype(np.float32).astype(float)
                    want = F.snap(sol)
                    F.write_binary(sol, frame, d, 'fort', fmt, ghost, wa, fl)
                    for ra in (False, True):
                        for mode in modes:
                            kw = dict(read_aux=ra)
                            if not fl or mode == 'ctor':
                                kw['file_format'] = fmt
                            got = F.snap(rd(mode, **kw))
                            ctx.trans(); ctx.trace()
                            e = F.compare(got, want, 4e-16, 'same' if (wa and ra) else 'nan')
                            ctx.expect(e is None, 'read-binary', '%s frame with %d ghost cells (%s, aux written=%s read=%s): %s' % (fmt, ghost, mode, wa, ra, e), **what)
                            ctx.state(fmt, ghost, len(ps), [p['n'] for p in ps], neqn, naux, wa, ra, mode, fl)
                    tt = pyclaw.controller.OutputController(d, fmt).get_time(frame)
                    ctx.expect(abs(tt - t) <= 1e-8 * abs(t), 'get-time', '%s: get_time %r instead of %r' % (fmt, tt, t), **what)
                    ctx.outcome('%s ghost=%d' % (fmt, ghost))
        if naux and fmt == 'binary64':
            history(ctx, fmt, ps, neqn, naux, t, frame, d, what)
    shutil.rmtree(d, ignore_errors=True)


def orders0(item, th):
    return 'F' if item['kind'] != 'shape' or th or (item['n'] == [2, 3, 1][:len(item['n'])]) else 'C'


def derived(ctx, fmt, ps, neqn, naux, t, frame, d, what):
    """Derived quantities: every patch is written with its own values of p."""
    for mp in (1, 3):
        shutil.rmtree(d, ignore_errors=True)
        sol = F.solution(ps, neqn, naux, t)
        for k, s in enumerate(sol.states):
            s.mp = mp
            s.p = F.array(ps[k]['index'], mp, ps[k]['n'], 'special', 3)
        want = F.snap(sol)
        for k, w in enumerate(want):
            w['neqn'], w['q'] = mp, sol.states[k].p.copy()
        sol.write(frame, d, fmt, 'claw_p', False, {}, True)
        ctx.trans()
        f = [x for x in os.listdir(d)]
        ctx.expect(not any('.a' in x for x in f), 'derived-aux', 'files %s' % f, **what)
        got = F.snap(pyclaw.Solution(frame, path=d, file_format=fmt, file_prefix='claw_p', read_aux=False))
        for w in want:
            for g in got:
                if g['index'] == w['index']:
                    w['naux'], w['aux'] = g['naux'], g['aux']
        e = F.compare(got, want, 1e-8 if fmt == 'ascii' else 0., 'same')
        ctx.expect(e is None, 'derived-%s' % fmt, 'derived quantities read back: %s' % e, mp=mp, **what)
        ctx.trace()
        ctx.state('derived', fmt, mp, len(ps), [p['n'] for p in ps], neqn, naux, frame)
        ctx.outcome('derived %s' % fmt)


def history(ctx, fmt, ps, neqn, naux, t, frame, d, what):
    """Several frames in one directory: each read returns q and aux of its own frame; an ascii or binary frame
    without aux data of its own takes those of frame 0 (that is how write_aux_init works)."""
    frames = [0, 1, frame] if frame > 1 else [0, 1]
    for mask in itertools.product((False, True), repeat=len(frames)):
        shutil.rmtree(d, ignore_errors=True)
        want = {}
        for k, fr in enumerate(frames):
            sol = F.solution(ps, neqn, naux, t + k)
            for s in sol.states:
                s.q = s.q * (1 + k)
                s.aux = s.aux * (1 + k)
            if fmt.startswith('binary'):
                os.makedirs(d, exist_ok=True)
                F.write_binary(sol, fr, d, 'fort', fmt, 1, mask[k])
            else:
                sol.write(fr, d, fmt, None, mask[k], {})
            want[fr] = F.snap(sol)
            ctx.trans()
        for order in (frames, frames[::-1]):
            reused = pyclaw.Solution()
            for fr in order:
                k = frames.index(fr)
                w = [dict(x) for x in want[fr]]
                mode = 'same' if mask[k] else 'nan'
                if fmt != 'hdf5' and not mask[k] and mask[0]:
                    mode = 'same'
                    for x, z in zip(w, want[0]):
                        x['aux'] = z['aux']
                for sol in (pyclaw.Solution(fr, path=d, file_format=fmt, read_aux=True), reused):
                    if sol is reused:
                        sol.read(fr, path=d, file_format=fmt, read_aux=True)
                    e = F.compare(F.snap(sol), w, 1e-8 if fmt == 'ascii' else 0., mode)
                    ctx.expect(e is None, 'history-%s' % fmt, 'frame %d of frames %s with aux data %s: %s' % (fr, frames, mask, e), **what)
                    ctx.trace()
        ctx.state('history', fmt, mask, len(ps), [p['n'] for p in ps], neqn, naux, frame)
        ctx.outcome('history %s' % fmt)


def extents(item, ctx):
    """Lower bounds and cell widths of all magnitudes that have no short decimal form: lower bound and width come
    back to the precision of the format each (relative to its own size), as do the time and the number of cells."""
    nd, fmt = item['nd'], item['fmt']
    d = os.path.join(os.getcwd(), 'fr')
    los = (0., 1. / 3., -2e-7 / 3., 1e6 / 7., -1e11 / 3.)
    ds = (1. / 3., 1e-7 / 7., 1e5 / 7.)
    rel = 1e-8 if fmt == 'ascii' else 0.
    for k, (lo, de) in enumerate(itertools.product(los, ds)):
        if abs(lo) > 1e5 * de * (1 if fmt == 'ascii' else 1e6):
            continue
        for t in (1e-9 / 3., -20. / 3., 1e13 / 7.):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            ps = [dict(n=[2 + i for i in range(nd)], lo=[lo] + [los[(k + i) % 3] for i in range(1, nd)],
                       d=[de] + [ds[(k + i) % 2 * 2] for i in range(1, nd)], index=1, level=2)]
            sol = F.solution(ps, 1, 1, t)
            w = F.snap(sol)[0]
            if fmt == 'binary64':
                F.write_binary(sol, 2, d, 'fort', fmt, 1)
            else:
                sol.write(2, d, fmt, None, True)
            g = F.snap(pyclaw.Solution(2, path=d, file_format=fmt, read_aux=True))[0]
            ctx.trans(2); ctx.trace()
            e = None if abs(g['t'] - t) <= (rel or 4e-16) * abs(t) else 'time %r instead of %r' % (g['t'], t)
            for i in range(nd):
                size = 1e-14 * (abs(w['lo'][i]) + abs(w['up'][i]))
                if abs(g['lo'][i] - w['lo'][i]) > rel * abs(w['lo'][i]) + 1e-15 * abs(w['lo'][i]):
                    e = 'lower bound %r instead of %r' % (g['lo'][i], w['lo'][i])
                if abs(g['d'][i] - w['d'][i]) > rel * w['d'][i] + size:
                    e = 'cell width %r instead of %r' % (g['d'][i], w['d'][i])
                if abs(g['up'][i] - w['up'][i]) > rel * (abs(w['lo'][i]) + w['n'][i] * w['d'][i]) + size:
                    e = 'upper bound %r instead of %r' % (g['up'][i], w['up'][i])
            ctx.expect(e is None, 'extents-%s' % fmt, '%s (extents %s, t=%r)' % (e, ps, t), item=item)
            ctx.state('extents', fmt, nd, lo, de, t)
    ctx.outcome('extents %s' % fmt)
    shutil.rmtree(d, ignore_errors=True)


def forest_solution(ps, neqn, naux, t, k=1.):
    from clawpack import forestclaw
    sol = F.solution(ps, neqn, naux, t)
    new = []
    for i, s in enumerate(sol.states):
        p = forestclaw.Patch(s.patch.dimensions)
        p.patch_index, p.level = s.patch.patch_index, s.patch.level
        p.block_number, p.mpi_rank = 3 + i, 70 - i
        s.patch = p
        s.q = s.q * k
        new.append(p)
    sol.domain = pyclaw.Domain(new)
    return sol


def forest_check(sol, want):
    e = F.compare(F.snap(sol), F.snap(want), 1e-8, 'same')
    if e is None:
        a = [(int(s.patch.patch_index), int(s.patch.block_number), int(s.patch.mpi_rank)) for s in sol.states]
        b = [(int(s.patch.patch_index), int(s.patch.block_number), int(s.patch.mpi_rank)) for s in want.states]
        if a != b:
            e = 'patch, block and rank %s instead of %s' % (a, b)
    return e


def forest(item, ctx):
    """ForestClaw frames: block number and rank of every patch survive, too; also in a process that has not used the format before."""
    nd = item['nd']
    d = os.path.join(os.getcwd(), 'fr')
    for order in ('fwd', 'rev', 'rot'):
        ps = patches(nd, item['np'], order)
        for neqn, naux in ((1, 0), (2, 1), (3, 2)):
            for prefix in (None, 'foo'):
                for mode in ('ctor', 'reuse'):
                    shutil.rmtree(d, ignore_errors=True)
                    sol = forest_solution(ps, neqn, naux, 0.625)
                    sol.write(4, d, 'forestclaw', prefix, True)
                    kw = dict(path=d, file_format='forestclaw', read_aux=True)
                    if prefix:
                        kw['file_prefix'] = prefix
                    if mode == 'ctor':
                        got = pyclaw.Solution(4, **kw)
                    else:
                        got = F.solution(patches(1, 2, 'fwd'), 1, 1, 3.)
                        got.read(4, **kw)
                    e = forest_check(got, sol)
                    ctx.expect(e is None, 'read-back-forestclaw', '%s (%s, prefix %s, patches %s, %d components, %d aux)' % (e, mode, prefix, ps, neqn, naux))
                    ctx.trans(2); ctx.trace()
                    ctx.state('forest', nd, item['np'], order, neqn, naux, prefix, mode)
    # a new process
    code = ("import sys, json; from clawpack import pyclaw; s = pyclaw.Solution(4, path=sys.argv[1], file_format='forestclaw', file_prefix='foo', read_aux=True); "
            "print(json.dumps([[int(x.patch.patch_index), int(x.patch.block_number), float(x.q.sum()), float(x.aux.sum()), list(x.q.shape)] for x in s.states]))")
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, d], capture_output=True, text=True)
    want = [[int(x.patch.patch_index), int(x.patch.block_number), float(x.q.sum()), float(x.aux.sum()), list(x.q.shape)] for x in sol.states]
    try:
        got = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        got = (r.stderr.strip().splitlines() or ['?'])[-1]
    ok = isinstance(got, list) and len(got) == len(want) and all(a[:2] == b[:2] and a[4] == b[4] and abs(a[2] - b[2]) <= 1e-7 * abs(b[2]) for a, b in zip(got, want))
    ctx.expect(ok, 'forestclaw-new-process', '%s instead of %s' % (got, want))
    ctx.outcome('forest')
    shutil.rmtree(d, ignore_errors=True)


def interleave(item, ctx):
    """Formats used in turn in one process: every sequence of writes and reads."""
    nd = item['nd']
    d = os.path.join(os.getcwd(), 'fr')
    shutil.rmtree(d, ignore_errors=True)
    ps = patches(nd, 2, 'fwd')
    fm = ('ascii', 'hdf5', 'forestclaw', 'binary64')
    last = {}

    def make(f, k):
        if f == 'forestclaw':
            return forest_solution(ps, 2, 1, 0.5 + k, 1. + k)
        s = F.solution(ps, 2, 1, 0.5 + k)
        for x in s.states:
            x.q = x.q * (1. + k)
        return s

    def write(f, k):
        s = make(f, k)
        os.makedirs(os.path.join(d, f), exist_ok=True)
        if f == 'binary64':
            F.write_binary(s, 3, os.path.join(d, f), 'fort', f, 2)
        else:
            s.write(3, os.path.join(d, f), f, None, True)
        last[f] = s

    def read(f, seq):
        s = pyclaw.Solution(3, path=os.path.join(d, f), file_format=f, read_aux=True)
        e = forest_check(s, last[f]) if f == 'forestclaw' else F.compare(F.snap(s), F.snap(last[f]), 0. if f == 'hdf5' else 1e-8, 'same')
        ctx.expect(e is None, 'interleaved-%s' % f, '%s after %s' % (e, seq))
    for f in fm:
        write(f, 0)
    ops = [(o, f) for f in fm for o in 'rw']
    for seq in itertools.product(ops, repeat=item['depth']):
        for k, (o, f) in enumerate(seq):
            if o == 'w':
                write(f, k)
            else:
                read(f, seq)
            ctx.trans()
        read(seq[0][1], seq)
        ctx.trace(); ctx.state('interleave', nd, seq)
    ctx.outcome('interleave')
    shutil.rmtree(d, ignore_errors=True)
