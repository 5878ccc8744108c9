"""C18: SharpClaw's reconstruction and semi-discretization against their defining formulas."""
import itertools
import numpy as np
from .common import build, de_bruijn, close, maxdiff, fixed_steps
from . import sp, problems as P
from .c08 import hash_, bcsets, nw

ID = 'C18'
CHUNKS = 256
ASSUMPTIONS = ['the Riemann solvers in clawpack.riemann are called by the reference as well (they are outside the repository)',
               'characteristic-wise and transmission-based reconstruction (char_decomp 2 and 3) and total-fluctuation solvers are explored with the one module the build provides for them (1D Euler)']
BOUNDS = {'quick': '12 1D problems x (7 WENO orders, 5 TVD limiters, wave-based WENO and TVD, legacy WENO5, Python kernel; 1D Euler also characteristic-wise, transmission-based and with a total-fluctuation solver) on words containing all 5-letter '
                   'patterns (all 9-letter binary patterns for high orders), 3 rotations, periodic/extrapolation/wall sides; 8 2D and 6 3D problems with pattern tilings; '
                   'polynomial exactness for every order and degree',
          'thorough': 'additionally all 11-letter binary patterns, larger tilings, three value pairs per problem'}


def options(prob, kern='Fortran'):
    p = P.PROBLEMS[prob]
    me = len(p['tok'][0][0]); mw = nw(prob)
    if kern == 'Python':
        return [dict(lim_type=2, weno=5), dict(lim_type=2, weno=5, chard=1), dict(lim_type=-1)]
    out = [dict(lim_type=2, weno=o) for o in range(5, 18, 2)]
    out += [dict(lim_type=1, lim=[l]) for l in range(1, 6)]
    if me > 1:
        out += [dict(lim_type=1, lim=[(l + c) % 5 + 1 for c in range(me)]) for l in range(3)]
    out += [dict(lim_type=3), dict(lim_type=2, weno=5, chard=1)]
    out += [dict(lim_type=1, chard=1, lim=[l]) for l in range(1, 6)]
    if mw > 1:
        out += [dict(lim_type=1, chard=1, lim=[(l + c) % 5 + 1 for c in range(mw)]) for l in range(3)]
    if prob in ('eul', 'eum'):
        ch = [dict(lim_type=2, weno=5, chard=c) for c in (2, 3)] + [dict(lim_type=1, chard=2, lim=[l]) for l in range(1, 6)]
        ch += [dict(lim_type=1, chard=2, lim=[(l + c) % 5 + 1 for c in range(3)]) for l in range(3)]
        out += ch + [dict(o, tfluct=True) for o in ch[:4]]
        out += [dict(lim_type=2, weno=5, tfluct=True), dict(lim_type=2, weno=7, tfluct=True), dict(lim_type=2, weno=5, chard=1, tfluct=True), dict(lim_type=1, lim=[3], tfluct=True)]
    return out


def items(tier):
    th = tier == 'thorough'
    out = []
    for prob, p in P.PROBLEMS.items():
        nd = p['nd']
        if p.get('sharp') is False:
            continue                # reconstructed states leave the domain of the Riemann solver
        for kern in (['Fortran', 'Python'] if p['rp'] in P.PYRP else ['Fortran']):
            for o in options(prob, kern):
                if o.get('lim_type') == 2 and (o.get('weno', 5) + 1) // 2 > p.get('maxng', 99):
                    continue            # limit of the Riemann solver
                if nd == 1:
                    out.append(dict(k='1d', prob=prob, kern=kern, opt=o))
                else:
                    if o.get('lim_type') == 2 and o.get('weno', 5) in (9, 13, 15) and not th:
                        continue
                    if nd == 3 and not th and o.get('lim_type') == 1 and hash_(prob, str(o)) % 3:
                        continue
                    out.append(dict(k='%dd' % nd, prob=prob, kern=kern, opt=o))
    for order in range(5, 18, 2):
        out.append(dict(k='poly', order=order, lim_type=2))
    out.append(dict(k='poly', order=5, lim_type=3))
    out.append(dict(k='poly', order=5, lim_type=2, kern='Python'))
    for l in range(1, 6):
        out.append(dict(k='poly', order=2, lim_type=1, lim=l))
    out.append(dict(k='stationary'))
    return sorted(out, key=lambda i: {'3d': 0, '2d': 1}.get(i['k'], 2))


def run(item, ctx):
    if item['k'] == 'poly':
        return poly(item, ctx)
    if item['k'] == 'stationary':
        return stationary(item, ctx)
    th = ctx.tier == 'thorough'
    prob, opt, kern = item['prob'], item['opt'], item['kern']
    p = P.PROBLEMS[prob]
    nd, k = p['nd'], len(p['tok'])
    high = opt.get('weno', 5) > 7
    tol = 1e-10 if opt.get('weno', 5) <= 11 else 1e-8
    runs = []
    h = hash_(str(item))
    lut = [np.array(a) for a in ((0, 1), (1, 2), (2, 0))]
    if nd == 1:
        w = np.array(de_bruijn(k, 5))
        for rot in (0, 3, 11):
            runs.append((np.roll(w, rot), 'p', [1.], 1))
        runs.append((np.roll(w, 6)[:40], 'p', [0.5], 2))
        b9 = np.array(de_bruijn(2, 11 if th else 9))
        if high:
            for l in (lut if th else lut[h % 3:h % 3 + 1]):
                runs.append((l[b9], 'p', [1.], 1))
        for b in bcsets(1, prob):
            for m in (9, 10, 12):
                runs.append((w[17:17 + m][::-1], b, [0.5], 1))
    elif nd == 2:
        t = P.tiles(2, (3, 3), (16, 32))
        if not th:
            t = t[:, (h % 4) * 24:(h % 4) * 24 + 24] if high else t
        runs.append((lut[h % 3][t], 'p', [0.5, 0.75], 1))
        t22 = P.tiles(3, (2, 2), (9, 9))
        runs.append((t22.T, 'p', [1., 1.], 1))
        for b in bcsets(2, prob):
            runs.append((t22[1:13, 2:11], b, [0.5, 0.75], 1))
            runs.append((t22[3:12, 5:17], b, [0.5, 0.75], 1))
    else:
        t = P.tiles(2, (2, 2, 2), (8, 8, 4))
        a = np.concatenate([lut[h % 3][t]] * 2, axis=2)
        if not th:
            a = a[:10, 2:13, :9] if h % 2 else a[4:14, :9, 3:14]
        runs.append((a.transpose([(0, 1, 2), (1, 2, 0), (2, 0, 1)][h % 3]), 'p', [0.5, 0.75, 1.], 1))
        if not high:
            for b in bcsets(3, prob):
                runs.append((a[:4, :6, :5], b, [0.5, 0.75, 1.], 1))
    for n, (idx, b, dx, steps) in enumerate(runs):
        bad = sp.compare(prob, idx, opt, 0.2, dx=dx, kinds=b, steps=steps, kern=kern, tol=tol)
        for sig, msg in bad:
            if sig == 'skip':
                ctx.outcome('%s-nonfinite' % prob)
                continue
            ctx.fail('%d-%s' % (nd, sig), '%s (data set %d, dx=%s, bc=%s)' % (msg, n, dx, b))
        ctx.state(str(item), n)
        ctx.trans(int(idx.size) * steps)
        ctx.trace()
        ctx.outcome('%s-%s-%s' % (prob, opt.get('lim_type'), 'bad' if [x for x in bad if x[0] != 'skip'] else 'ok'))


def poly(item, ctx):
    """Polynomials of degree < number of cells of a substencil are reconstructed exactly in
    every cell away from the boundary, whatever the nonlinear weights."""
    order = item['order']
    k = (order + 1) // 2 if order > 2 else 2
    ng = max(3, k)
    n = 2 * ng + 5
    x = np.arange(n) - n // 2
    for deg in range(0, k):
        for vel in (1., -0.5):
            for scale in (1., 1e-3, 50.):
                e = x + 0.5; f = x - 0.5
                q = scale * (e ** (deg + 1.) - f ** (deg + 1.)) / (deg + 1.) / max(1., (n / 2.) ** deg)
                dq = scale * (e ** float(deg) - f ** float(deg)) / max(1., (n / 2.) ** deg)
                spc = dict(rp='advection_1D', n=[n], pd=dict(u=vel), fam='sharp', itg='Euler', bc='e', kern=item.get('kern', 'Fortran'),
                           lim_type=item['lim_type'], weno=order if order > 2 else 5, lim=[item.get('lim', 1)])
                got = fixed_steps(spc, q[None], dt=0.25)[0][0]
                want = q - 0.25 * vel * dq
                c = slice(ng, n - ng)
                ctx.expect(close(got[c] / scale, want[c] / scale, 1e-9), 'polynomial', 'degree %d, velocity %g: residual wrong by %r' % (deg, vel, maxdiff(got[c], want[c])))
                if deg == 0:
                    ctx.expect(close(got / scale, q / scale, 1e-13), 'constant', 'constant state changes by %r' % maxdiff(got, q))
                ctx.state(str(item), deg, vel, scale)
                ctx.trans(); ctx.trace()
    ctx.outcome('poly')


def stationary(item, ctx):
    """f-wave problems with stationary waves stay finite and constant regions stay constant."""
    for bg in (0.5, 0.25):
        for pos in range(6):
            for val in (0.1, 0.9):
                q = np.full((1, 12), bg)
                q[0, 3 + pos] = val
                aux = np.ones((1, 12))
                for o in (dict(lim_type=2, weno=5), dict(lim_type=2, weno=5, chard=1), dict(lim_type=1, lim=[3]), dict(lim_type=1, chard=1, lim=[3])):
                    got = fixed_steps(dict(rp='traffic_vc_fwave_1D', fwave=True, n=[12], bc='p', fam='sharp', itg='Euler', **o), q, aux, dt=0.1)[0]
                    ctx.expect(np.isfinite(got).all(), 'stationary', 'background %g, deviation at %d, %s: not finite' % (bg, 3 + pos, o))
                    ctx.trans()
        ctx.state('stationary', bg)
    ctx.outcome('stationary')
