"""C08: the classic solvers apply the documented wave-propagation scheme."""
import itertools
import numpy as np
from .common import fixed_steps, de_bruijn, close, maxdiff, Stepper
from . import wp, problems as P, pylim as PL

ID = 'C08'
CHUNKS = 256
ASSUMPTIONS = ['the Riemann solvers in clawpack.riemann are called by the reference as well (they are outside the repository)']
BOUNDS = {'quick': '12 1D, 10 2D, 7 3D problems; orders 1-2; limiters 0-5 per wave family; split and unsplit with every transverse option; '
                   '1D data: all words of length 5 over 3-4 states, 2D: all 3x3 binary and all 2x2 ternary patterns, 3D: all 2x2x2 binary patterns; unequal cell sizes; '
                   'periodic, extrapolation and wall boundaries; unit impulses and all flow directions for the transport laws; all 23 limiters of the Python kernel on all words of length 3 over 5 values and linear data at 10 Courant numbers',
          'thorough': 'additionally 3x3 ternary patterns in 2D, 2x2x2 ternary patterns in 3D, more limiter combinations and Courant numbers'}
DX = {1: [[1.], [0.5]], 2: [[1., 1.], [0.5, 0.75]], 3: [[1., 1., 1.], [0.5, 0.75, 1.]]}
SCH = {2: [dict(split=True), dict(split=False, trans=0), dict(split=False, trans=1), dict(split=False, trans=2)],
       3: [dict(split=True), dict(split=False, trans=0), dict(split=False, trans=11), dict(split=False, trans=22)]}


def nw(prob):
    from clawpack.riemann import static
    r = P.PROBLEMS[prob]['rp']
    return static.num_waves.get(r, 1)


def limsets(prob, th, lims=(0, 1, 2, 3, 4, 5)):
    m = nw(prob)
    out = [[l] for l in lims]
    if m == 2:
        out += [list(x) for x in itertools.product(lims, repeat=2) if x[0] != x[1]] if (th or P.PROBLEMS[prob]['nd'] == 1) else [[1, 3], [4, 0], [0, 2]]
    elif m > 2:
        base = [1, 2, 3, 4, 0, 2, 1]
        out += [base[k:k + m] for k in range(4)]
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for prob, p in P.PROBLEMS.items():
        nd = p['nd']
        if nd == 1:
            for kern in (['Fortran', 'Python'] if p['rp'] in P.PYRP else ['Fortran']):
                out.append(dict(k='1d', prob=prob, kern=kern, order=1, lim=[0]))
                for l in limsets(prob, th, (0, 1, 2, 3, 4, 5) if kern == 'Fortran' else (0, 1, 2, 3, 4)):
                    out.append(dict(k='1d', prob=prob, kern=kern, order=2, lim=l))
        else:
            for s in SCH[nd]:
                if p.get('notrans') and s.get('trans'):
                    continue
                out.append(dict(k='%dd' % nd, prob=prob, order=1, lim=[0], **s))
                ls = limsets(prob, th)
                if not th:
                    ls = ls[:1] + ls[1:6][hash_(prob, str(s)) % 5:][:1] + [x for x in ls if len(x) > 1][:1] if nd == 3 else ls
                for l in ls:
                    out.append(dict(k='%dd' % nd, prob=prob, order=2, lim=l, **s))
    for lim in range(1, 24):
        for sgn in (1., -1.):
            out.append(dict(k='pylim', lim=lim, sgn=sgn))
    for nd in (1, 2, 3):
        out.append(dict(k='laws', nd=nd))
        out.append(dict(k='defaults', nd=nd))
    for prob in ('adv+', 'adv-', 'aco', 'aco2'):
        out.append(dict(k='ptwise', prob=prob))
    return sorted(out, key=lambda i: {'3d': 0}.get(i['k'], 1))


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def bcsets(nd, prob):
    p = P.PROBLEMS[prob]
    sysm = len(p['tok'][0][0]) > nd
    k = 'ewp' if sysm else 'ep'
    out = []
    for r in range(3):
        b = []
        for d in range(nd):
            t = (k + k)[(r + d) % len(k)], (k + k)[(r + d + 1) % len(k)]
            if 'p' in t:
                t = ('p', 'p')
            b.append(list(t))
        if b not in out:
            out.append(b)
    return out


def run(item, ctx):
    th = ctx.tier == 'thorough'
    if item['k'] == 'defaults':
        return defaults(item, ctx)
    if item['k'] == 'pylim':
        return pylim(item, ctx)
    if item['k'] == 'ptwise':
        return ptwise(item, ctx)
    if item['k'] == 'laws':
        return laws(item, ctx)
    prob = item['prob']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    k = len(p['tok'])
    opt = dict(order=item['order'], lim=item['lim'])
    for x in ('split', 'trans'):
        if x in item:
            opt[x] = item[x]
    runs = []
    if nd == 1:
        w = np.array(de_bruijn(k, 5))
        for dtf in (0.25, 0.5, 0.9, 1.):
            runs.append((w, dtf, DX[1][0], 'p', 2))
        runs.append((w[:40], 0.7, DX[1][1], 'p', 3))
        for b in bcsets(1, prob):
            for m in range(2, 7):
                runs.append((np.array(de_bruijn(k, 3))[:m + 3][::-1][:m], 0.7, DX[1][1], b, 3))
    elif nd == 2:
        t33 = P.tiles(2, (3, 3), (16, 32))
        lut = [np.array(a) for a in ((0, 1), (1, 2), (2, 0))]
        h = hash_(str(item))
        runs.append((lut[h % 3][t33], 0.45, DX[2][h % 2], 'p', 1))
        runs.append((lut[(h + 1) % 3][t33.T], 0.25, DX[2][1 - h % 2], 'p', 1))
        t22 = P.tiles(3, (2, 2), (9, 9))
        runs.append((t22, 0.9 if opt.get('split') else 0.45, DX[2][1], 'p', 2))
        for b in bcsets(2, prob):
            runs.append((t22[1:5, 2:9], 0.4, DX[2][1], b, 2))
            runs.append((t22[3:10, 5:8], 0.4, DX[2][0], b, 2))
        if th:
            runs.append((P.tiles(3, (3, 3), (81, 243)), 0.45, DX[2][1], 'p', 1))
            for a in lut:
                runs.append((a[t33], 0.35, DX[2][1], 'p', 1))
    else:
        t = P.tiles(2, (2, 2, 2), (8, 8, 4))
        lut = [np.array(a) for a in ((0, 1), (1, 2), (2, 0))]
        h = hash_(str(item))
        ax = [(0, 1, 2), (1, 2, 0), (2, 0, 1)][h % 3]
        runs.append((lut[h % 3][t.transpose(ax)], 0.3, DX[3][1], 'p', 1))
        small = lut[(h + 1) % 3][t[1:5, 2:5, 1:6]]
        runs.append((small, 0.3, DX[3][0], 'p', 2))
        for b in bcsets(3, prob):
            runs.append((small[:3, :, :4], 0.3, DX[3][1], b, 1))
        if th:
            for a in lut:
                runs.append((a[t.transpose(1, 2, 0)], 0.2, DX[3][1], 'p', 1))
            runs.append((P.tiles(3, (2, 2, 2), (27, 27, 9)), 0.3, DX[3][1], 'p', 1))
    for n, (idx, dtf, dx, kinds, steps) in enumerate(runs):
        if prob == 'swb2':
            steps = 1               # later steps can meet dry states, where the Riemann solver is discontinuous
        bad = wp.compare(prob, idx, opt, dtf, dx=dx, kinds=kinds, steps=steps, kern=item.get('kern', 'Fortran'))
        for sig, msg in bad:
            ctx.fail('%s-%s' % (nd, sig), '%s (data set %d, dx=%s, bc=%s)' % (msg, n, dx, kinds))
        ctx.state(str(item), n)
        ctx.trans(int(idx.size) * steps)
        ctx.trace()
        ctx.outcome('%s-%s' % (prob, 'bad' if bad else 'ok'))


def pylim(item, ctx):
    """Every limiter of the Python kernel: the limited scheme with that limiter's formula, and (second-order limiters) exactness on linear data."""
    vals = np.array([0., 1., 1.01, -0.3, 4.])
    k = item['lim']
    th = ctx.tier == 'thorough'
    for nu in (0.0009765625, 0.0013, 0.04, 0.125, 0.3, 0.5, 0.75, 0.9, 0.97, 0.9995) + ((0.01, 0.2, 0.4, 0.6, 0.8) if th else ()):
        for data, order in (('words', 4), ('line', 0)):
            q = vals[np.array(de_bruijn(5, 4 if th else 3))] if data == 'words' else np.arange(12.) * 0.25 - 1.
            sp = dict(rp='advection_1D', n=[len(q)], pd=dict(u=item['sgn']), kern='Python', order=2, lim=k)
            with np.errstate(all='ignore'), Stepper(sp, nu) as S:
                got = S(q[None])[0]
            want = PL.step(list(q), item['sgn'], nu, k)
            ctx.expect(close(got, want, 1e-9), 'limiter', 'limiter %d of the Python kernel, Courant number %r: %r instead of %r' % (k, nu, got.tolist()[:6], want.tolist()[:6]))
            # on linear data all ratios are 1, for which every limiter but the first-order bound is 1 (21 and theta limiters: unless their safety bound is below)
            if data == 'line' and k != 23 and 0.05 <= nu <= 0.9 and k not in (13, 14):
                ctx.expect(close(got[3:-3], q[3:-3] - item['sgn'] * nu * 0.25, 1e-11), 'linear', 'limiter %d, Courant number %r: linear data not moved exactly' % (k, nu))
            ctx.state('pylim', k, item['sgn'], nu, data); ctx.trans(len(q)); ctx.trace()
    ctx.outcome('pylim')


def ptwise(item, ctx):
    """Pointwise Riemann solvers are the vectorized ones, called cell by cell: same solution, same Courant number."""
    prob = item['prob']
    p = P.PROBLEMS[prob]
    nd = p['nd']
    n = {1: [64], 2: [9, 8]}[nd]
    idx = np.resize(np.array(de_bruijn(len(p['tok']), 3 if nd == 1 else 4)), int(np.prod(n))).reshape(n)
    q, aux = P.fields(prob, idx)
    opts = []
    for s in ([dict()] if nd == 1 else SCH[nd]):
        for order, lim in [(1, [0])] + [(2, [l]) for l in range(6)]:
            opts.append(dict(s, fam='classic', order=order, lim=lim))
    for itg in ('Euler', 'SSP104'):
        for lt, lim in ((1, [1]), (1, [3]), (2, [1])):
            for cd in (0, 1):
                opts.append(dict(fam='sharp', itg=itg, lim_type=lt, lim=lim, chard=cd))
    for o in opts:
        for f in (0.25, 0.9):
            dt = f / p['smax'] / nd
            res = [fixed_steps(P.spec(prob, n, **dict(o, rp=p['rp'] + x)), q, aux, dt=dt, steps=2) for x in ('', '_ptwise')]
            ok = close(res[0][0], res[1][0], 1e-12) and abs(res[0][1] - res[1][1]) <= 1e-12
            ctx.expect(ok, 'ptwise', '%s %s: pointwise and vectorized Riemann solver differ by %r (Courant numbers %r, %r)' % (prob, o, maxdiff(res[0][0], res[1][0]), res[1][1], res[0][1]))
            ctx.state('ptwise', prob, str(o), f); ctx.trans(2); ctx.trace()
    ctx.outcome('ptwise')


def defaults(item, ctx):
    """What is not set is as documented: order 2, minmod, no capacity, Fortran kernels."""
    for prob in P.PROBLEMS:
        p = P.PROBLEMS[prob]
        if p['nd'] != item['nd'] or prob == 'swb2':
            continue
        n = {1: [9], 2: [5, 4], 3: [4, 3, 3]}[p['nd']]
        for sch in ([dict()] if p['nd'] == 1 else SCH[p['nd']]):
            if p.get('notrans') and sch.get('trans'):
                continue
            idx = np.resize(np.array(de_bruijn(len(p['tok']), 3)), int(np.prod(n))).reshape(n)
            q, aux = P.fields(prob, idx)
            dt = 0.3 / p['smax']
            a = fixed_steps(P.spec(prob, n, **sch), q, aux, dt=dt)[0]
            b = fixed_steps(P.spec(prob, n, kern='Fortran', order=2, lim=[1], **sch), q, aux, dt=dt)[0]
            ctx.expect(close(a, b, 1e-12) or not np.isfinite(b).all(), 'defaults', '%s %s: the default settings differ from order 2 with minmod by %r' % (prob, sch, maxdiff(a, b)))
            ctx.state('defaults', prob, str(sch)); ctx.trans(2); ctx.trace()
    ctx.outcome('defaults')


def laws(item, ctx):
    """Statements about transport with constant velocity, independent of the reference."""
    nd = item['nd']
    names = ['u', 'v', 'w'][:nd]
    n = {1: [7], 2: [5, 4], 3: [4, 5, 3]}[nd]
    rp = {1: 'advection_1D', 2: 'advection_2D', 3: 'vc_advection_3D'}[nd]

    def run1(q, vel, dt, **o):
        aux = None
        sp = dict(rp=rp, n=n, pd=dict(zip(names, vel)))
        if nd == 3:
            aux = np.array(vel).reshape(3, 1, 1, 1) * np.ones([3] + n)
            sp['naux'] = 3
            sp['pd'] = {}
        sp.update(o)
        return fixed_steps(sp, q, aux, dt=dt)[0]

    kerns = ['Fortran', 'Python'] if nd == 1 else ['Fortran']
    sch = [dict()] if nd == 1 else SCH[nd]
    data = []
    for pos in np.ndindex(*n):
        q = np.zeros([1] + n)
        q[(0,) + pos] = 1.
        data.append((pos, q))
    full = [s for s in sch if s.get('trans') not in (0,)]
    for signs in itertools.product((-1., 0., 1.), repeat=nd):
        # exact shift at unit Courant number: with one velocity component nonzero for every
        # scheme, in any diagonal direction for the schemes with corner transport
        for s in sch:
            if sum(abs(x) for x in signs) > 1 and s not in full:
                continue
            for kern in kerns:
                for o in ([dict(order=1)] + [dict(order=2, lim=[l]) for l in range(5)]):
                    if sum(abs(x) for x in signs) > 1 and nd > 1 and not s.get('split', True) and o['order'] == 2:
                        continue
                    for pos, q in (data if nd < 3 else data[::7]):
                        q2 = q + 2. * np.roll(q, 1, axis=1)
                        got = run1(q2, signs, 1., kern=kern, **dict(s, **o))
                        want = q2
                        for d in range(nd):
                            want = np.roll(want, int(signs[d]), axis=d + 1)
                        ctx.expect(close(got, want, 1e-13), 'shift', 'velocity %s options %s %s: not the exact shift (%s)' % (signs, s, o, maxdiff(got, want)))
                        ctx.trans()
        # multilinear upwind weights for first order transport with corner transport
        nu = [0.5, 0.25, 0.75][:nd]
        vel = [a * b for a, b in zip(signs, nu)]
        for s in full:
            for kern in kerns:
                for pos, q in (data if nd < 3 else data[::7]):
                    got = run1(q, vel, 1., order=1, kern=kern, **s)
                    want = q
                    for d in range(nd):
                        c = abs(vel[d])
                        want = (1 - c) * want + c * np.roll(want, int(np.sign(vel[d])), axis=d + 1)
                    ctx.expect(close(got, want, 1e-13), 'upwind', 'velocity %s options %s: weights differ by %s' % (vel, s, maxdiff(got, want)))
                    ctx.trans()
        # second order: moments up to 2 of the transported impulse (stencil weights)
        for s in sch:
            for kern in kerns:
                big = [9, 8, 7][:nd]
                for order, lim in ((2, [0]),):
                    if s.get('trans') == 0 and nd > 1 and not s.get('split', True):
                        continue                    # without transverse terms: first order in the mixed terms
                    if s.get('trans') == 11 or (s.get('trans') == 1):
                        pass
                    vel2 = [a * b for a, b in zip(signs, [0.25, 0.5, 0.125][:nd])]
                    sp_n = big
                    q = np.zeros([1] + big)
                    mid = tuple(b // 2 for b in big)
                    q[(0,) + mid] = 1.
                    sp = dict(rp=rp, n=big, pd=dict(zip(names, vel2)), order=2, lim=lim, kern=kern)
                    aux = None
                    if nd == 3:
                        aux = np.array(vel2).reshape(3, 1, 1, 1) * np.ones([3] + big)
                        sp['pd'] = {}
                    sp.update(s)
                    got = fixed_steps(sp, q, aux, dt=1.)[0][0]
                    x = np.indices(big) - np.array(mid).reshape((nd,) + (1,) * nd)
                    ctx.expect(abs(got.sum() - 1.) < 1e-12, 'moment0', '%s %s: %r' % (vel2, s, got.sum()))
                    for d in range(nd):
                        m1 = (x[d] * got).sum()
                        ctx.expect(abs(m1 - vel2[d]) < 1e-12, 'moment1', 'velocity %s options %s: centre of mass moves by %r along axis %d' % (vel2, s, m1, d))
                        for e in range(nd):
                            m2 = (x[d] * x[e] * got).sum()
                            ctx.expect(abs(m2 - vel2[d] * vel2[e]) < 1e-12, 'moment2', 'velocity %s options %s: second moment (%d,%d) is %r, exact %r' % (vel2, s, d, e, m2, vel2[d] * vel2[e]))
                    ctx.trans()
        ctx.state('laws', nd, signs)
    ctx.outcome('laws%d' % nd)
