"""P03: a cached directory load gives what reading the files would, whatever happened before."""
import os

from .. import corpus, common, seams
from ..common import pick
from ..sched import Scheduler
from ..seams import SimCrash, HarnessError

RUNS = {'quick': 15000, 'thorough': 60000}
CAP = {'quick': 100, 'thorough': 800}
STUB = 'disk (real bytes, simulated calls, durability and faults), clock and file times, directory order, process ids, the other processes (tasks of the simulator running the real code)'
STATE_MEASURE = 'task switch signatures, and (step kind, cache present, files changed since the cache was written, outcome)'

CACHE_OPS = ['open_r', 'read', 'stat', 'open_w', 'write', 'close_w', 'rename', 'remove', 'fsync']


def gen(rng, i, tier):
    kind = pick(rng, ['records', 'records', 'grants'])
    fmts = (corpus.RECORD_FMTS + ['wos', 'junk']) if kind == 'records' else (corpus.GRANT_FMTS + ['nserc', 'junk'])
    nf = rng.randint(1, 4)
    files = [common.file_spec(rng, fmts, j) for j in range(nf)]
    conf = common.world_conf(rng, mtime_gran=pick(rng, [1000, 1000000, 10 ** 9, 2 * 10 ** 9]))
    big = common.enlarge(rng, files, .004, conf)
    steps = []
    for _ in range(rng.randint(3, 4) if big else rng.randint(3, 9 if tier == 'quick' else 16)):
        r = rng.random()
        if r < .38:
            st = {'op': 'load', 'ext': pick(rng, ['', '', '', '', corpus.EXT[pick(rng, fmts)]]), 'name': pick(rng, ['', '', '', 'n1']),
                  'path': pick(rng, [0, 0, 0, 1, 2])}
            if rng.random() < .35:
                st['faults'] = [cache_fault(rng) for _ in range(pick(rng, [1, 1, 2]))]
            steps.append(st)
        elif r < .62:
            steps.append(edit(rng, fmts, nf))
        elif r < .68:
            steps.append({'op': 'tick', 'dt': pick(rng, [1, 5, 3600, -1, -3600, 86400])})
        elif r < .76:
            steps.append({'op': 'crash', 'n': rng.randrange(60), 'ops': pick(rng, ['write|rename|close_w|open_w|remove|fsync', '*', 'rename|close_w', 'write']),
                          'on': pick(rng, ['*Cache', '*Cache', None]), 'mode': pick(rng, ['prefix', 'full', 'old', 'gone']), 'keep': rng.randrange(11) / 10})
        elif r < .86:
            steps.append({'op': 'par', 'n': pick(rng, [2, 2, 3]), 'switches': [[rng.randint(1, 60), rng.randrange(4)] for _ in range(rng.randint(0, 25))],
                          'edit': edit(rng, fmts, nf) if rng.random() < .5 else None, 'faults': [cache_fault(rng)] if rng.random() < .25 else [],
                          'crash': rng.randrange(400) if rng.random() < .2 else None})
        elif r < .93:
            steps.append({'op': 'during', 'n': rng.randrange(120), 'edit': edit(rng, fmts, nf)})
        elif r < .97:
            steps.append({'op': 'cachefile', 'what': pick(rng, ['save', 'restore', 'garbage', 'truncate', 'copydir', 'delete', 'dirinstead']), 'arg': rng.randrange(1000)})
        else:
            steps.append({'op': 'other'})
    steps.append({'op': 'load', 'ext': '', 'name': '', 'path': 0})
    return {'kind': kind, 'files': files, 'world': conf, 'steps': steps}


def cache_fault(rng):
    k = pick(rng, ['EIO', 'ENOSPC', 'EACCES', 'ENOENT', 'EMFILE', 'short', 'EROFS'])
    op = pick(rng, CACHE_OPS)
    return {'op': op, 'path': '*Cache', 'n': pick(rng, [0, 0, 0, 1, 2, 5, 20]), 'kind': k, 'sticky': rng.random() < .3, 'arg': rng.randrange(500),
            'lose': rng.random() < .5}


def edit(rng, fmts, nf):
    # dt: how long after the last event; files often change within the second in which they were cached
    return dict(change(rng, fmts, nf), dt=pick(rng, [3, 3, .4, .05, 1e-4]))


def change(rng, fmts, nf):
    r = rng.random()
    j = rng.randrange(nf)
    if r < .55:
        return {'op': 'edit', 'file': j, 'recs': rng.sample(range(40), rng.randint(1, 4)), 'v': rng.randrange(8), 'back': rng.random() < .3,
                'same': rng.random() < .25}
    if r < .68:
        return {'op': 'revert', 'file': j, 'to': rng.randrange(3)}
    if r < .76:
        return {'op': 'swap', 'file': j, 'with': rng.randrange(nf)}
    if r < .85:
        return {'op': 'damage', 'file': j, 'at': rng.randrange(100) / 100, 'hex': pick(rng, ['ff', '0a0a', '', '41'])}
    if r < .93:
        return {'op': 'rm', 'file': j}
    return {'op': 'new', 'spec': common.file_spec(rng, fmts, 7 + rng.randrange(3))}


class Dir:
    """The source files: every version a file ever had keeps its own modification time."""

    def __init__(self, w, files):
        self.w, self.files = w, files
        self.hist = {}

    def put(self, name, data, mtime=None, back=False):
        w = self.w
        gran = max(1000, w.mtime_gran)
        if mtime is None:
            mtime = w.mtime_ns()
            used = {m: d for m, d in self.hist.get(name, [])}
            step = -gran if back else gran
            if back:
                mtime -= 50 * gran
            while any(abs(mtime - m) < gran for m in used):
                mtime += step
            if not back:
                w.advance((mtime - w.mtime_ns()) / 1e9 if mtime > w.mtime_ns() else 0)
        common.put_file(w, 'lib/' + name, data, mtime)
        self.hist.setdefault(name, []).append((mtime, data))

    def apply(self, st):
        w = self.w
        op = st['op']
        if op == 'new':
            self.put(st['spec']['name'], corpus.render(st['spec']))
            return
        if not self.files:
            return
        f = self.files[st['file'] % len(self.files)]
        name = f['name']
        if op == 'edit':
            sp = dict(f, recs=(st['recs'][:1] if f['fmt'] in ('nsf', 'junk') else st['recs']) or f['recs'], v=st['v'])
            data = corpus.render(sp)
            if st.get('same') and self.hist.get(name):
                # an edit that leaves the size alone
                old = self.hist[name][-1][1]
                data = old.replace(b'1', b'\x00').replace(b'2', b'1').replace(b'\x00', b'2')
            self.put(name, data, back=st.get('back', False))
        elif op == 'revert':
            h = self.hist.get(name, [])
            if h:
                m, d = h[st['to'] % len(h)]
                common.put_file(w, 'lib/' + name, d, m)
        elif op == 'swap':
            # another program moves one file over the other: the old time stays with the content
            g = self.files[st['with'] % len(self.files)]
            h, k = self.hist.get(name, []), self.hist.get(g['name'], [])
            if h and k and g['name'] != name and not any(m == k[-1][0] and d != k[-1][1] for m, d in h):
                m, d = k[-1]
                gran = max(1000, w.mtime_gran)
                if all(abs(m - m2) >= gran or d2 == d for m2, d2 in h):
                    common.put_file(w, 'lib/' + name, d, m)
                    self.hist[name].append((m, d))
        elif op == 'damage':
            if common.exists(w, 'lib/' + name):
                self.put(name, corpus.damage(common.get_file(w, 'lib/' + name), {'kind': 'bytes', 'at': st['at'], 'hex': st['hex'], 'del': 2}))
        elif op == 'rm':
            common.rm_file(w, 'lib/' + name)


def run(ctx, sc):
    mk = ctx.mk
    cls = mk.RecordCollection if sc['kind'] == 'records' else mk.GrantCollection
    w = ctx.world(sc['world'], tty=None)
    suffix = 'mkRecordDirCache' if sc['kind'] == 'records' else 'mkGrantDirCache'
    os.makedirs(os.path.join(ctx.root, 'lib'))
    d = Dir(w, sc['files'])
    for f in sc['files']:
        d.put(f['name'], corpus.render(f))
        w.advance(1)
    w.advance(100)
    saved = {}

    def target(style):
        p = os.path.join(ctx.root, 'lib')
        return {0: p, 1: p + os.sep, 2: os.path.relpath(p)}[style]

    def load(cached, st):
        return dump(cls(target(st.get('path', 0)), name=st.get('name', ''), extension=st.get('ext', ''), cached=cached))

    def caches():
        return [n for n in common.ls(w, 'lib') if n.endswith(suffix)]

    def fresh(st):
        """What reading the files gives: no cache consulted, nothing failing."""
        keep, w.faults = w.faults, []
        try:
            return common.outcome(lambda: load(False, st))
        finally:
            w.faults = keep

    def compare(st, got, when):
        want = fresh(st)
        if want[0] == 'raise':
            ctx.check(got[0] == 'raise' and type(got[1]).__name__ == type(want[1]).__name__, 'cached-differs',
                      lambda: '{}: reading the files raises {!r} but the cached load gave {}'.format(when, want[1], describe(got)))
            ctx.note('loads that raise either way')
            return
        if got[0] == 'raise':
            ctx.fail('cached-load-failed', '{}: the files can be read but the cached load raised {}: {}'.format(when, type(got[1]).__name__, got[1]))
        df = common.diff(got[1], want[1])
        ctx.check(df is None, 'cached-differs', lambda: '{}: cached load / fresh load differ at {}'.format(when, df))
        ctx.note('cached loads compared')

    with w:
        for si, st in enumerate(sc['steps']):
            op = st['op']
            had = bool(caches())
            if op == 'load':
                w.faults = [dict(f, path='*' + suffix) for f in st.get('faults', [])]
                got = common.outcome(lambda: load(True, st))
                w.faults = []
                compare(st, got, 'step {}'.format(si))
                ctx.active = True
                ctx.state('load', had, bool(st.get('faults')), st.get('ext', ''), got[0])
            elif op == 'tick':
                w.now += st['dt']
                w.sim_elapsed += abs(st['dt'])
                ctx.state('tick', st['dt'] > 0)
            elif op in ('edit', 'revert', 'swap', 'damage', 'rm', 'new'):
                w.now += st.get('dt', 3)
                d.apply(st)
                ctx.state(op, had)
            elif op == 'during':
                # another program changes a file while the load is under way
                w.actors['e'] = lambda: (setattr(w, 'now', w.now + st['edit'].get('dt', 3)), d.apply(st['edit']))
                w.faults = [{'op': '*', 'n': st['n'], 'kind': 'edit', 'actor': 'e'}]
                got = common.outcome(lambda: load(True, {}))
                fired = w.faults[0].get('done')
                w.faults = []
                ctx.state('during', had, bool(fired), got[0])
                compare({}, common.outcome(lambda: load(True, {})), 'step {} (load after a file changed under a load)'.format(si))
            elif op == 'crash':
                w.faults = [{'op': st['ops'], 'path': st['on'], 'n': st['n'], 'kind': 'crash'}]
                try:
                    common.outcome(lambda: load(True, {}))
                    died = False
                except SimCrash:
                    died = True
                w.faults = []
                if died:
                    w.power_cycle(st['mode'], st['keep'])
                    ctx.note('power losses')
                else:
                    w.settle()
                ctx.state('crash', had, died, st['mode'])
                compare({}, common.outcome(lambda: load(True, {})), 'step {} (load after a power loss)'.format(si))
            elif op == 'par':
                par(ctx, sc, st, w, d, load, compare, si, suffix)
                ctx.state('par', had, st['crash'] is not None, st['edit'] is not None)
            elif op == 'cachefile':
                cachefile(ctx, st, w, cls, caches, saved, d)
                ctx.state('cachefile', st['what'], had)
            elif op == 'other':
                # the other kind of collection made from, and cached in, the same directory
                o = mk.GrantCollection if sc['kind'] == 'records' else mk.RecordCollection
                common.outcome(lambda: o(target(0), cached=True))
            else:
                raise HarnessError('unknown step {}'.format(op))


def describe(got):
    return 'a collection of {}'.format(got[1]['n']) if got[0] == 'ok' else '{}: {}'.format(type(got[1]).__name__, got[1])


def par(ctx, sc, st, w, d, load, compare, si, suffix):
    s = Scheduler(w, st['switches'], max_points=400000)
    w.faults = [dict(f, path='*' + suffix) for f in st['faults']]
    if st['crash'] is not None:
        w.faults.append({'op': '*', 'n': st['crash'], 'kind': 'crash'})
    before = common.outcome(lambda: None)
    tasks = [s.spawn('P{}'.format(k), lambda: load(True, {})) for k in range(max(1, st['n']))]
    if st['edit'] is not None:
        def ed():
            w.step('edit', 'lib')
            w.now += st['edit'].get('dt', 3)
            d.apply(st['edit'])
        tasks.append(s.spawn('E', ed))
    try:
        s.run_all(tasks)
    except SimCrash:
        pass
    crashed = w.dead
    if crashed:
        s.kill_all()
    w.sched = None
    w.faults = []
    ctx.notes['scheduling points'] += s.points
    ctx.notes['task switches'] += s.switch_count
    ctx.state('sched', s.trace_sig[:40])
    del before
    if crashed:
        w.power_cycle('prefix', .5)
        ctx.note('power losses')
    else:
        for t in tasks:
            kind, val = t.result
            if kind == 'raise':
                if isinstance(val, Exception) and not isinstance(val, HarnessError) and st['edit'] is not None:
                    ctx.note('loads that failed while a file changed under them')
                elif isinstance(val, Exception) and not isinstance(val, HarnessError):
                    compare({}, ('raise', val), 'step {} (one of {} processes loading at once)'.format(si, st['n']))
                else:
                    raise val
            elif val is not None and st['edit'] is None:
                compare({}, ('ok', val), 'step {} (one of {} processes loading at once)'.format(si, st['n']))
    compare({}, common.outcome(lambda: load(True, {})), 'step {} (load after {} processes)'.format(si, st['n']))


def cachefile(ctx, st, w, cls, caches, saved, d):
    names = caches()
    what = st['what']
    if what == 'save':
        for n in names:
            if os.path.isfile(os.path.join(ctx.root, 'lib', n)):
                saved[n] = common.get_file(w, 'lib/' + n)
    elif what == 'restore':
        for n, data in sorted(saved.items()):
            if not os.path.isdir(os.path.join(ctx.root, 'lib', n)):
                common.put_file(w, 'lib/' + n, data)
    elif what == 'delete':
        for n in names:
            if os.path.isfile(os.path.join(ctx.root, 'lib', n)):
                common.rm_file(w, 'lib/' + n)
    elif what == 'dirinstead':
        for n in names:
            p = os.path.join(ctx.root, 'lib', n)
            if os.path.isfile(p):
                seams.REAL['remove'](p)
                os.mkdir(p)
    elif what in ('garbage', 'truncate'):
        for n in names:
            if not os.path.isfile(os.path.join(ctx.root, 'lib', n)):
                continue
            data = common.get_file(w, 'lib/' + n)
            at = st['arg'] * len(data) // 1000
            data = data[:at] if what == 'truncate' else data[:at] + bytes([(st['arg'] * 7 + 3) % 256]) * 3 + data[at + 3:]
            if what == 'garbage' and not harmless(data):
                continue
            common.put_file(w, 'lib/' + n, data)
    elif what == 'copydir':
        # the directory is copied elsewhere, cache and times included, and perhaps edited there keeping the times
        name = ['', 'n1', 'n1'][st['arg'] % 3]
        if name:
            common.outcome(lambda: cls(os.path.join(ctx.root, 'lib'), name=name, cached=True))
            names = caches()
        at = [.5, 1][st['arg'] // 3 % 2]
        for n in names:
            p = os.path.join(ctx.root, 'lib', n)
            if not os.path.isfile(p):
                continue
            q = os.path.join(ctx.root, 'other', 'lib')
            os.makedirs(q, exist_ok=True)
            for f in common.ls(w, 'lib'):
                if os.path.isfile(os.path.join(ctx.root, 'lib', f)) and f not in names:
                    data = common.get_file(w, 'lib/' + f)
                    common.put_file(w, 'other/lib/' + f, data if at == 1 else corpus.damage(data, {'kind': 'cut', 'at': at}), os.stat(os.path.join(ctx.root, 'lib', f)).st_mtime_ns)
            common.put_file(w, 'other/lib/' + n, common.get_file(w, 'lib/' + n))
        q = os.path.join(ctx.root, 'other', 'lib')
        if os.path.isdir(q):
            a = common.outcome(lambda: dump(cls(q, name=name, cached=False)))
            b = common.outcome(lambda: dump(cls(q, name=name, cached=True)))
            if a[0] == 'ok':
                ctx.check(b[0] == 'ok' and common.diff(b[1], a[1]) is None, 'cached-differs',
                          lambda: 'a copied directory, cache included: {}'.format(common.diff(b[1], a[1]) if b[0] == 'ok' else b[1]))


def dump(C):
    d = common.dump_collection(C)
    d['sources'] = sorted([str(E.id), str(getattr(E, 'sourceFile', None)), str(getattr(E, 'sourceLine', None))] for E in C)
    return d


def harmless(data):
    """Overwritten bytes inside a pickle may leave a loadable pickle with other contents: no checksum promises to find
    that, so only damage that no longer loads, or loads to something of another shape, is used."""
    import pickle
    try:
        pickle.loads(data)
    except Exception:       # noqa
        return True
    return False
