"""C25: options given on the command line reach the application as given."""
import itertools, json, sys
from clawpack import pyclaw
from clawpack.pyclaw import util

ID = 'C25'
ASSUMPTIONS = ['option values contain no further "="', 'use_petsc is false (PETSc is not installed)', 'the plotting functions themselves are stand-ins that record how they are called']
BOUNDS = {'quick': 'all command lines of at most 3 words over 23 words (numbers, strings, lists, truth values, null, repeated keys, positional words, plotting options, output directory), with and without a plot set-up',
          'thorough': 'at most 4 words'}
WORDS = ['n=5', 'n=-3', 'x=0.25', 'x=1e-3', 's=abc', 's="q d"', 'f=True', 'f=False', 'f=true', 'f=false', 'v=[1, 2.5, "a"]', 'v={"a": null}', 'z=null', 'z=None', 'outdir=./out',
         'iplot=1', 'iplot=0', 'htmlplot=1', 'htmlplot=False', '-ksp', 'word', 's=', 'use_petsc=False']
SETUP = ['setplot.py', None]


def value(s):
    """The value a word denotes: JSON, Python's True and False, or the text itself."""
    if s in ('True', 'False'):
        return s == 'True'
    try:
        return json.loads(s)
    except ValueError:
        return s


def expected(ws):
    kw = {}
    for w in ws:
        if '=' in w:
            k, v = w.split('=')
            kw[k] = value(v)
    return kw


def items(tier):
    out = [dict(ws=[])]
    for a in WORDS:
        out.append(dict(ws=[a]))
    return out


class Claw(object):
    def __init__(self, log):
        self.log = log

    def run(self):
        self.log.append('run')
        return {}


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def one(ctx, ws, setplot):
    log = []
    calls = []
    plots = []

    def app(*a, **kw):
        calls.append((a, kw)); log.append('app')
        c = Claw(log); made.append(c)
        return c
    made = []
    old = sys.argv, pyclaw.plot.html_plot, pyclaw.plot.interactive_plot

    def stand_in(kind):
        def f(outdir='./_output', file_format='ascii', setplot=None, **kw):
            log.append('plot')
            plots.append((kind, outdir, setplot))
        return f
    argv = ['prog'] + list(ws)
    try:
        sys.argv = list(argv)
        pyclaw.plot.html_plot, pyclaw.plot.interactive_plot = stand_in('html'), stand_in('inter')
        got = util.run_app_from_main(app, setplot) if setplot is not None else util.run_app_from_main(app)
        left = sys.argv
    finally:
        sys.argv, pyclaw.plot.html_plot, pyclaw.plot.interactive_plot = old
    kw = expected(ws)
    want = {k: v for k, v in kw.items() if k not in ('iplot', 'htmlplot')}
    what = 'command line %s' % (list(ws),)
    ctx.expect(len(calls) == 1, 'called', '%s: application called %d times' % (what, len(calls)))
    if calls:
        ctx.expect(calls[0][0] == () and typed(calls[0][1]) == typed(want), 'arguments', '%s: application called with %r %r, not %r' % (what, calls[0][0], calls[0][1], want))
    ctx.expect(made and got is made[0], 'returned', '%s: the controller is not returned' % what)
    wp = []
    for key, kind in (('htmlplot', 'html'), ('iplot', 'inter')):
        if kw.get(key):
            wp.append((kind, kw.get('outdir', './_output'), setplot))
    ctx.expect(sorted(plots, key=str) == sorted(wp, key=str), 'plots', '%s: plotted %r, not %r' % (what, plots, wp))
    ctx.expect(log[:2] == ['app', 'run'] and log.count('run') == 1, 'run', '%s: order of calls %s' % (what, log))
    ctx.expect(left == argv, 'argv', '%s: sys.argv changed' % what)
    ctx.trans(); ctx.trace(); ctx.state(tuple(ws), setplot)
    ctx.outcome('%d options, %d plots' % (len(want), len(wp)))


def run(item, ctx):
    ws = item['ws']
    th = ctx.tier == 'thorough'
    tails = [()]
    if ws:
        tails = [t for k in range(3) for t in itertools.product(WORDS, repeat=k)]
        if th:
            tails += list(itertools.product(WORDS, repeat=3))
    for t in tails:
        for s in SETUP:
            one(ctx, tuple(ws) + t, s)
            if ctx.fails:
                return
