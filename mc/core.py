"""Exhaustive-enumeration driver shared by all checks.

A check module (mc/cNN.py) provides

  ID, LEVEL_NOTE (optional), ASSUMPTIONS (optional)
  items(tier)      -> iterable of JSON-able work items, simplest first; together they
                      are the complete bounded space the check claims to cover
  run(item, ctx)   -> executes the real code for one item, compares with the reference
                      model, reports through ctx

Items are executed in forked children (8 at a time) in scratch directories, so a crash,
a Fortran STOP or a hang of the code under test is an observation like any other.
"""
import hashlib, json, os, pickle, shutil, signal, sys, tempfile, time, traceback, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
STALL = float(os.environ.get('VERIF_STALL', '150'))     # seconds without progress = does not terminate
MAXVIOL = 25


class Skip(Exception):
    pass


def jdefault(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


class Ctx(object):
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.ntrans = 0
        self.ntraces = 0
        self.fails = []
        self.outcomes = {}
        self.samples = []
        self.prog = None
        self.beat_t = 0.

    def beat(self):
        """Tell the driver that the current item is still advancing."""
        now = time.time()
        if self.prog is not None and now - self.beat_t > 2.:
            self.beat_t = now
            os.pwrite(self.prog, b' %20.3f' % now, 12)

    def state(self, *key):
        """Register a state (of model or implementation) that was visited and checked."""
        self.beat()
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.ntrans += n
        self.beat()

    def trace(self, n=1):
        self.ntraces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, sig, msg='', **detail):
        """sig: stable identification of what fails (used to match known findings)."""
        if len(self.fails) < 200:
            self.fails.append((sig, msg, detail))

    def expect(self, cond, sig, msg='', **detail):
        if not cond:
            self.fail(sig, msg, **detail)
        return bool(cond)


def _child(module, items, idxs, tier, resfile, progfile, scratch):
    # never returns
    code = 0
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        os.dup2(devnull, 0)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        prog = os.open(progfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        ctx = Ctx(tier)
        ctx.prog = prog
        fails = []
        times = {}
        for k in idxs:
            os.pwrite(prog, b'%12d' % k, 0)
            ctx.fails = []
            t_item = time.time()
            try:
                module.run(items[k], ctx)
            except Skip:
                pass
            except Exception as e:
                tb = traceback.format_exc()
                ctx.fail('exception:%s' % type(e).__name__, '%s: %s' % (type(e).__name__, e), traceback=tb[-3000:])
            times[k] = time.time() - t_item
            for f in ctx.fails:
                fails.append((k,) + f)
            if len(fails) > 500:
                break
        with open(resfile + '.tmp', 'wb') as f:
            pickle.dump(dict(states=ctx.states, ntrans=ctx.ntrans, ntraces=ctx.ntraces, fails=fails,
                             outcomes=ctx.outcomes, samples=ctx.samples, times=times), f)
        os.replace(resfile + '.tmp', resfile)
    except BaseException:
        try:
            with open(resfile + '.err', 'w') as f:
                f.write(traceback.format_exc())
        except Exception:
            pass
        code = 77
    finally:
        os._exit(code)


def execute(module, items, tier, chunks, base, stop_after=MAXVIOL, nproc=None, counts=lambda k, sig: True):
    """Run chunks (lists of item indices) in forked children. Returns merged results."""
    nproc = nproc or NPROC
    res = dict(states=set(), ntrans=0, ntraces=0, fails=[], outcomes={}, samples=[], times={})
    pending = list(chunks)[::-1]
    running = {}
    started = {}          # when the current item of a child began
    n = 0
    done_items = 0
    hung = False          # one hang is enough: do not wait for the next ones
    while pending or running:
        while pending and not hung and len(running) < nproc and sum(counts(f[0], f[1]) for f in res['fails']) < stop_after:
            idxs = pending.pop()
            n += 1
            rf = os.path.join(base, 'r%06d' % n)
            pf = os.path.join(base, 'p%06d' % n)
            sd = os.path.join(base, 's%06d' % n)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                _child(module, items, idxs, tier, rf, pf, sd)
            running[pid] = [idxs, rf, pf, sd, b'', time.time()]
        if not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, r in list(running.items()):
                try:
                    with open(r[2], 'rb') as f:
                        cur = f.read()
                except OSError:
                    cur = b''
                if cur[:12] != r[4][:12]:
                    started[p] = now
                if cur != r[4]:
                    r[4] = cur
                    r[5] = now
                if now - r[5] > STALL or (tier == 'quick' and r[5] <= now and now - started.get(p, now) > 3 * STALL):
                    r.append('stalled')
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    r[5] = now + 1e9
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        r = running.pop(pid)
        started.pop(pid, None)
        idxs, rf, pf, sd = r[:4]
        if os.path.exists(rf):
            with open(rf, 'rb') as f:
                d = pickle.load(f)
            res['states'] |= d['states']
            res['ntrans'] += d['ntrans']
            res['ntraces'] += d['ntraces']
            res['fails'] += [(k, s, m, dd, idxs) for (k, s, m, dd) in d['fails']]
            for o, c in d['outcomes'].items():
                res['outcomes'][o] = res['outcomes'].get(o, 0) + c
            res['samples'] += d['samples']
            res['times'].update(d['times'])
            done_items += len(idxs)
        else:
            if os.path.exists(rf + '.err'):
                with open(rf + '.err') as f:
                    err = f.read()
                raise RuntimeError('error in the check itself:\n' + err)
            try:
                with open(pf, 'rb') as f:
                    k = int(f.read(12))
            except (OSError, ValueError):
                raise RuntimeError('worker died before its first item (status %s)' % status)
            if len(r) > 6:
                what = 'no-termination'
                hung = True
                msg = 'no progress for %d s' % STALL
            elif os.WIFSIGNALED(status):
                what = 'crash:signal%d' % os.WTERMSIG(status)
                msg = 'process killed by signal %d' % os.WTERMSIG(status)
            else:
                what = 'crash:exit'
                msg = 'process ended with exit code %d' % os.WEXITSTATUS(status)
            res['fails'].append((k, what, msg, {}, idxs))
            # the other items of the chunk still have to be covered
            rest = [i for i in idxs if i != k]
            before = [i for i in rest if idxs.index(i) < idxs.index(k)]
            after = [i for i in rest if idxs.index(i) > idxs.index(k)]
            for part in (before, after):
                if part:
                    pending.append(part)
        shutil.rmtree(sd, ignore_errors=True)
        for f in (rf, pf):
            try:
                os.unlink(f)
            except OSError:
                pass
    res['done_items'] = done_items
    return res


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(module, tier, seed, only=None):
    t0 = time.time()
    ID = module.ID
    items = list(module.items(tier))
    # every item must survive a JSON round trip so that a replay file is complete
    items = [json.loads(json.dumps(i, default=jdefault)) for i in items]
    base = tempfile.mkdtemp(prefix='mc_%s_' % ID)
    known = [k for k in load_known() if k['property'] == ID and k.get('status', 'open') == 'open']
    try:
        nchunk = max(1, min(len(items), getattr(module, 'CHUNKS', 96)))
        chunks = [list(range(c, len(items), nchunk)) for c in range(nchunk)]
        def match(k, sig):
            for kn in known:
                if re.fullmatch(kn['sig'], sig) and re.search(kn.get('item', ''), json.dumps(items[k], sort_keys=True)):
                    return kn
        r = execute(module, items, tier, chunks, base, counts=lambda k, sig: match(k, sig) is None)
        # split into known findings and violations
        viol, kf = [], {}
        for (k, sig, msg, detail, idxs) in r['fails']:
            kn = match(k, sig)
            if kn is not None:
                kf.setdefault(kn['what'], []).append(k)
            else:
                viol.append((k, sig, msg, detail, idxs))
        # confirm: the same item must fail again in a fresh process (alone, or after the
        # items that preceded it)
        confirmed, unconfirmed = [], 0
        seen = set()
        for (k, sig, msg, detail, idxs) in sorted(viol, key=lambda v: v[0]):
            if (sig in seen and len(confirmed) >= 1) or len(confirmed) >= 5:
                continue
            if confirmed and time.time() - t0 > 400:
                break
            again = execute(module, items, tier, [[k]], base, stop_after=1 << 30, nproc=1)
            hist = [k]
            if not any(f[1] == sig for f in again['fails']):
                hist = idxs[:idxs.index(k) + 1]
                again = execute(module, items, tier, [hist], base, stop_after=1 << 30, nproc=1)
                if not any(f[1] == sig and f[0] == k for f in again['fails']):
                    unconfirmed += 1
                    continue
            seen.add(sig)
            confirmed.append((k, sig, msg, detail, hist))
    finally:
        shutil.rmtree(base, ignore_errors=True)

    if os.environ.get('VERIF_PROFILE'):
        agg = {}
        for k, dt in r['times'].items():
            it = items[k]
            for f in os.environ['VERIF_PROFILE'].split(','):
                key = f + '=' + str(it.get(f) if isinstance(it, dict) else it)
                agg.setdefault(key, [0, 0.])
                agg[key][0] += 1; agg[key][1] += dt
        for key, (c, dt) in sorted(agg.items(), key=lambda kv: -kv[1][1])[:40]:
            print('   %-50s n=%d cpu=%.1fs' % (key, c, dt))
    for what, ks in kf.items():
        print('KNOWN-FINDING: property=%s %s (%d occurrences, first item %s)' %
              (ID, what, len(ks), json.dumps(items[ks[0]], sort_keys=True)[:200]))
    status = 0
    for n, (k, sig, msg, detail, hist) in enumerate(confirmed):
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%d.json' % (ID, n))
        with open(path, 'w') as f:
            json.dump(dict(property=ID, signature=sig, message=msg, detail=detail, tier=tier,
                           items=[items[i] for i in hist]), f, indent=1, default=jdefault)
        print('VIOLATION property=%s replay=%s' % (ID, path))
        print('  %s: %s' % (sig, str(msg)[:500]))
        print('  item: %s' % json.dumps(items[k], sort_keys=True)[:500])
        status = 1
    wall = time.time() - t0
    complete = (r['done_items'] == len(items))
    cov = dict(states=len(r['states']), transitions=r['ntrans'],
               traces_validated_against_impl=r['ntraces'],
               samples=r['samples'][:3] + [dict(item=i) for i in (items[:1] + items[len(items)//2:len(items)//2+1] + items[-1:])],
               items=len(items), items_completed=r['done_items'], distinct_outcomes=len(r['outcomes']),
               outcomes=dict(sorted(r['outcomes'].items(), key=lambda kv: -kv[1])[:40]),
               exhaustive=bool(complete), bounds=getattr(module, 'BOUNDS', {}).get(tier, getattr(module, 'BOUNDS', {}).get('quick', '')))
    ev = dict(property=ID, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(module, 'ASSUMPTIONS', [])), wall_s=round(wall, 3),
              violations=len(confirmed), unconfirmed=unconfirmed, known_findings=sorted(kf))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=jdefault)
    print('%s %s: items=%d states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d unconfirmed=%d wall=%.1fs' %
          (ID, tier, len(items), len(r['states']), r['ntrans'], r['ntraces'], len(r['outcomes']),
           len(confirmed), len(kf), unconfirmed, wall))
    if status == 0 and not complete:
        raise RuntimeError('not all items were executed')
    return status
