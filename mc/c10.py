"""C10: TVD limiting creates no new extrema."""
import itertools
import numpy as np
from .common import Stepper, build, words, close, maxdiff, de_bruijn

ID = 'C10'
CHUNKS = 200
ASSUMPTIONS = ['Riemann solvers of clawpack.riemann are trusted']
BOUNDS = {'quick': '1D advection: every word of length 6 over 4 values {0,1,3,-0.5} on the periodic grid of 6 cells, every limiter 1-4 and order 1, both kernels, both signs, Courant numbers 1/8..1, 2 steps; '
                   'acoustics and Euler-like systems: every assignment of limiters to wave families on characteristic data; split 2D/3D advection: every binary 3x3 (2x2x2) pattern, all flow directions; constants on every scheme',
          'thorough': 'words of length 7 over 4 values, 8 over 3 values, 4 steps'}
NU = [0.125, 0.3, 0.5, 0.75, 0.9, 1.0]
PYTVD = [7, 8, 9, 11, 15, 16, 17, 18, 19, 23]          # further TVD limiters of the Python kernel
VAL = np.array([0., 1., 3., -0.5])


def items(tier):
    th = tier == 'thorough'
    out = []
    for kern in ('Fortran', 'Python'):
        for sgn in (1., -1.):
            for order, lim in [(1, 0)] + [(2, l) for l in (1, 2, 3, 4)]:
                for nu in NU:
                    for n in ((2, 3, 4, 5, 6) if not th else (2, 3, 4, 5, 6, 7)):
                        out.append(dict(k='tvd', kern=kern, sgn=sgn, order=order, lim=lim, nu=nu, n=n))
    for lim in PYTVD:
        for sgn in (1., -1.):
            for nu in NU:
                for n in (3, 4, 5):
                    out.append(dict(k='tvd', kern='Python', sgn=sgn, order=2, lim=lim, nu=nu, n=n))
    for lim in range(1, 24):
        for sgn in (1., -1.):
            out.append(dict(k='shift', sgn=sgn, lim=lim))
    for kern in ('Fortran', 'Python'):
        for lims in itertools.product(range(5), repeat=2):
            for nu in (0.5, 0.9):
                out.append(dict(k='family', kern=kern, lims=list(lims), nu=nu, rp='aco'))
    for lims in itertools.product(range(5), repeat=3):
        out.append(dict(k='family3', lims=list(lims)))
    for nd in (2, 3):
        for signs in itertools.product((-1., 0., 1.), repeat=nd):
            for order, lim in [(1, 0)] + [(2, l) for l in (1, 2, 3, 4)]:
                out.append(dict(k='split', nd=nd, signs=list(signs), order=order, lim=lim))
    for nd in (1, 2, 3):
        out.append(dict(k='const', nd=nd))
    return sorted(out, key=lambda i: -i.get('n', 0) if i.get('kern') == 'Python' else 0)


def tv(q):
    return np.abs(q - np.roll(q, 1, axis=-1)).sum(-1)


def run(item, ctx):
    return globals()['run_' + item['k']](item, ctx)


def check(ctx, item, q, new, what):
    eps = 1e-12 * max(1., np.abs(q).max())
    ok = bool(np.isfinite(new).all())
    ctx.expect(ok, 'finite', '%s: not finite' % what)
    if not ok:
        return
    ctx.expect(new.max() <= q.max() + eps and new.min() >= q.min() - eps, 'range', '%s: range [%r,%r] -> [%r,%r]' % (what, q.min(), q.max(), new.min(), new.max()))
    if q.ndim == 2:
        ctx.expect((tv(new) <= tv(q) + 10 * eps).all(), 'variation', '%s: total variation %s -> %s' % (what, tv(q), tv(new)))
    if q.max() == q.min():
        ctx.expect(np.array_equal(q, new), 'constant', '%s: constant state changed' % what)


def run_tvd(item, ctx):
    n, th = item['n'], ctx.tier == 'thorough'
    sp = dict(rp='advection_1D', n=[n], pd=dict(u=item['sgn'] * 1.), kern=item['kern'], order=item['order'], lim=item['lim'])
    small = item['kern'] == 'Python' and n >= 5 and not th
    letters = range(4) if n <= 6 and not small else range(3)
    with Stepper(sp, item['nu']) as S:
        for w in words(letters, n):
            # up to cyclic shifts: translation invariance is C09
            if n >= 6 and w != min(w[k:] + w[:k] for k in range(n)):
                continue
            q = VAL[list(w)][None]
            cur = q
            for s in range(2):
                new = S(cur)
                check(ctx, item, cur, new, 'word %s step %d nu %s' % (w, s + 1, item['nu']))
                cur = new
                ctx.trans()
            ctx.expect(abs(S.cfl - item['nu']) < 1e-12, 'cfl', 'Courant number %r, not %r' % (S.cfl, item['nu']))
            if ctx.fails:
                return
            ctx.state(item['n'], item['lim'], w); ctx.trace()
    ctx.outcome('tvd-%s-%s' % (item['lim'], item['kern']))


def run_shift(item, ctx):
    """Every limiter of the Python kernel treats all interfaces alike: waves of very different
    strength next to one another, at every position."""
    vals = np.array([0., 1., 1.01, -0.3])
    base = vals[np.array(de_bruijn(4, 3))]
    base = np.append(base, 0.5)                             # odd length: shifts change the parity of positions
    n = len(base)
    for nu in (0.125, 0.5, 0.9):
        sp = dict(rp='advection_1D', n=[n], pd=dict(u=item['sgn']), kern='Python', order=2, lim=item['lim'])
        with Stepper(sp, nu) as S:
            ref = S(base[None])
            for k in range(1, n):
                got = S(np.roll(base, k)[None])
                ctx.expect(close(got, np.roll(ref, k, axis=1), 1e-12), 'shift', 'limiter %d, Courant number %r: data shifted by %d cells give another solution' % (item['lim'], nu, k))
                ctx.trans()
            ctx.state(item['lim'], item['sgn'], nu)
    ctx.trace(); ctx.outcome('shift')


def acoustic(kern, lims, nu, n, dx=1.):
    sp = dict(rp='acoustics_1D', n=[n], pd=dict(rho=1., bulk=4., zz=2., cc=2.), kern=kern, order=2, lim=lims)
    return sp, nu / 2.


def run_family(item, ctx):
    """Constant-coefficient acoustics: in characteristic variables each family is advection
    with its own limiter."""
    lims, nu, kern = item['lims'], item['nu'], item['kern']
    base = de_bruijn(3, 3)
    n = len(base)
    zz = 2.
    rolls = [0, 5, 11]
    for r in rolls:
        w1 = VAL[np.array(base)]; w2 = VAL[np.roll(np.array(base), r)]
        # q = w1*(-Z,1) + w2*(Z,1): families with speeds -c, +c
        q = np.array([-zz * w1 + zz * w2, w1 + w2])
        sp, dt = acoustic(kern, lims, nu, n)
        with Stepper(sp, dt) as S:
            new = S(q)
        c1 = 0.5 * (new[1] - new[0] / zz); c2 = 0.5 * (new[1] + new[0] / zz)
        for fam, (u, w, c) in enumerate(((-1., w1, c1), (1., w2, c2))):
            ref = dict(rp='advection_1D', n=[n], pd=dict(u=u), kern=kern, order=2, lim=lims[fam])
            with Stepper(ref, nu) as S:
                want = S(w[None])[0]
            ctx.expect(close(c, want, 1e-12), 'family', 'limiters %s: family %d differs from advection limited with limiter %d by %r' % (lims, fam, lims[fam], maxdiff(c, want)))
            if lims[fam]:
                check(ctx, item, w[None], c[None], 'limiters %s family %d' % (lims, fam))
            ctx.trans(n)
        ctx.state(tuple(lims), nu, kern, r); ctx.trace()
    ctx.outcome('family-%s' % kern)


def run_family3(item, ctx):
    """Euler equations with constant velocity and pressure: only the second of the three
    families carries waves, and it is advection with its own limiter."""
    lims = item['lims']
    base = de_bruijn(3, 3)
    n = len(base)
    rho = 1. + 0.25 * VAL[np.array(base)]
    u, p = 0.5, 1.
    q = np.array([rho, rho * u, p / 0.4 + 0.5 * rho * u * u])
    sp = dict(rp='euler_with_efix_1D', n=[n], pd=dict(gamma=1.4, gamma1=0.4, efix=False), order=2, lim=lims)
    dt = 0.5
    with Stepper(sp, dt) as S:
        new = S(q)
    ref = dict(rp='advection_1D', n=[n], pd=dict(u=u), order=2, lim=lims[1])
    with Stepper(ref, dt) as S:
        want = S(rho[None])[0]
    ctx.expect(close(new[0], want, 1e-11), 'contact', 'limiters %s: contact wave differs from advection limited with limiter %d by %r' % (lims, lims[1], maxdiff(new[0], want)))
    ctx.expect(close(new[1] / new[0], u + 0 * rho, 1e-11), 'contact-u', 'limiters %s: velocity of a contact wave changed' % lims)
    ctx.state(tuple(lims)); ctx.trace(); ctx.trans(n)
    ctx.outcome('contact')


def run_split(item, ctx):
    """Dimensional splitting is a composition of 1D steps: the range of the data is kept."""
    nd, signs = item['nd'], item['signs']
    n = [4, 3, 5][:nd] if nd == 3 else [4, 5]
    names = 'uvw'
    mag = [1., 0.75, 0.5]
    vel = [s * m for s, m in zip(signs, mag)]
    dx = [1., 0.5, 0.25][:nd]
    if not any(vel):
        return
    dt = 0.9 / max(abs(v) / d for v, d in zip(vel, dx))
    aux = None
    sp = dict(n=n, up=[a * b for a, b in zip(n, dx)], split=True, order=item['order'], lim=item['lim'])
    if nd == 2:
        sp.update(rp='advection_2D', pd=dict(u=vel[0], v=vel[1]))
    else:
        aux = np.array(vel).reshape(3, 1, 1, 1) * np.ones([3] + n)
        sp.update(rp='vc_advection_3D')
    with Stepper(sp, dt, aux=aux) as S:
        patt = itertools.product((0, 1), repeat=9 if nd == 2 else 8)
        for k, w in enumerate(patt):
            q = np.zeros([1] + n)
            if nd == 2:
                q[0, :3, 1:4] = np.reshape(w, (3, 3))
            else:
                q[0, 1:3, :2, 2:4] = np.reshape(w, (2, 2, 2))
            q = VAL[q.astype(int) * (1 + k % 3)]
            new = S(q)
            check(ctx, item, q, new, 'pattern %s velocity %s' % (w, vel))
            ctx.expect(abs(new.sum() - q.sum()) <= 1e-11 * max(1., np.abs(q).sum()), 'sum', 'pattern %s velocity %s: total changed' % (w, vel))
            ctx.trans()
            if ctx.fails:
                return
            ctx.state(nd, tuple(signs), item['lim'], k); ctx.trace()
    ctx.outcome('split%d' % nd)


def run_const(item, ctx):
    """Constant states stay exactly constant, whatever the scheme."""
    from . import problems as P, schemes as SC
    nd = item['nd']
    for prob, p in P.PROBLEMS.items():
        if p['nd'] != nd or p['rp'] not in ('advection_1D', 'advection_2D', 'vc_advection_2D', 'vc_advection_3D', 'burgers_1D', 'burgers_2D', 'burgers_3D', 'acoustics_1D', 'acoustics_2D', 'shallow_roe_with_efix_1D'):
            continue
        for o in SC.classic(nd):
            if p.get('notrans') and o.get('trans'):
                continue
            for t in range(len(p['tok'])):
                n = [5, 4, 3][:nd]
                q, aux = P.fields(prob, np.full(n, t))
                sp = P.spec(prob, n, **o)
                with Stepper(sp, 0.3 / p['smax'], aux=aux) as S:
                    new = S(q, steps=2)
                ctx.expect(np.array_equal(new, q), 'constant', '%s %s: constant state %s changes by %r' % (prob, SC.name(o), p['tok'][t][0], maxdiff(new, q)))
                ctx.trans(); ctx.state('const', prob, SC.name(o), t)
    ctx.trace()
    ctx.outcome('const%d' % nd)
