"""P15: loading is the same in every process, for every directory order and by every path."""
import base64
import os
import pickle
import shutil

from .. import common, corpus, peer
from ..common import pick
from ..seams import HarnessError

RUNS = {'quick': 7500, 'thorough': 80000}
CAP = {'quick': 100, 'thorough': 800}
CROSS = True
PRELOAD = ('sim.peer',)
REAL = 'loading of files and directories, every parser, caches, pickling, collections; two (with the repetition under another hash seed: four) real processes'
STUB = 'directory order, disk calls of the first process (real bytes), clock'
STATE_MEASURE = '(kinds of files, sorts of damage, way of reaching the directory, who loads it, outcome)'

HOW = ['same', 'same', 'copy', 'copy', 'copied', 'slash', 'dots', 'rel', 'link', 'peer', 'peer', 'peer', 'peer-copy', 'parts', 'again', 'failing']
DIRS = ['other', 'other dir', 'ötherdir', 'x/y/d', 'd.isi', 'D']


def gen(rng, i, tier):
    kind = pick(rng, ['records', 'records', 'grants'])
    fmts = (corpus.RECORD_FMTS + ['wos', 'junk']) if kind == 'records' else (corpus.GRANT_FMTS + ['nserc', 'nserc', 'junk'])
    n = rng.choice([1, 2, 2, 3, 4])
    files = [common.file_spec(rng, fmts, j, kmax=rng.choice([5, 40])) for j in range(n)]
    common.enlarge(rng, files, .004)
    n = len(files)
    if rng.random() < .4:
        f = files[rng.randrange(n)]
        f['edit'] = {'at': rng.randrange(1000) / 1000, 'kind': pick(rng, ['cut', 'del', 'sub', 'ins', 'nul']), 'n': rng.randrange(1, 30), 'hex': pick(rng, ['ff', '0a', '22', '2c', 'c3a9', '00', '20', '45520a'])}
    if rng.random() < .2 and n > 1:
        # the same file under two names
        files[-1] = dict(files[0], name=pick(rng, ['a', 'z']) + files[0]['name'])
    elif rng.random() < .15 and n > 1:
        # names that differ only in their case
        files[-1]['name'] = os.path.splitext(files[0]['name'])[0].swapcase() + os.path.splitext(files[-1]['name'])[1]
    sc = {'kind': kind, 'files': files, 'world': {'listing': rng.randrange(1000), 'bufsize': 8192, 'text_chunk': 8192}}
    sc['ways'] = [{'how': pick(rng, HOW), 'dir': rng.randrange(len(DIRS)), 'listing': rng.randrange(1000), 'cached': rng.random() < .25,
                   'proto': pick(rng, [None, None, 0, 2, 5]), 'use': rng.random() < .5, 'single': rng.random() < .2} for _ in range(rng.choice([1, 2, 3, 5]))]
    sc['ext'] = pick(rng, ['', '', '', corpus.EXT[pick(rng, fmts)]])
    sc['cached'] = rng.random() < .2
    return sc


def damage(data, e):
    at = int(len(data) * (e.get('at') or 0))
    n = e.get('n') or 1
    k = e.get('kind')
    h = bytes.fromhex(e.get('hex') or '')
    if k == 'cut':
        return data[:at]
    if k == 'del':
        return data[:at] + data[at + n:]
    if k == 'sub':
        return data[:at] + h + data[at + len(h):]
    if k == 'nul':
        return data[:at] + b'\0' * n + data[at + n:]
    return data[:at] + h * n + data[at:]


def run(ctx, sc):
    mk = ctx.mk
    mk.VERBOSE_MODE = False
    grants = sc.get('kind') == 'grants'
    cls = mk.GrantCollection if grants else mk.RecordCollection
    # decoding errors show up by the block: the same blocks in every process
    w = ctx.world(dict(sc.get('world') or {}, bufsize=8192, text_chunk=8192, io_chunk=0))
    files = {}
    for f in sc.get('files') or []:
        if isinstance(f, dict) and f.get('recs') and f.get('name'):
            data = corpus.render(dict(f, recs=list(dict.fromkeys(f['recs']))))
            if isinstance(f.get('edit'), dict):
                data = damage(data, f['edit'])
            common.put_file(w, 'd/' + f['name'], data)
            files[f['name']] = data
    root = os.path.realpath(ctx.root)
    home = os.path.join(root, 'd')
    os.makedirs(home, exist_ok=True)
    ext = sc.get('ext') or ''
    reads = [0]

    def load(path, cached, base, cwd=None):
        if cwd:
            os.chdir(cwd)
        try:
            with w:
                return peer.outcome(lambda: cls(path, extension=ext, cached=cached), base)
        finally:
            os.chdir('/')
    k0, L = load(home, bool(sc.get('cached')), [home])
    right = peer.view(L, [home]) if k0 == 'ok' else L
    ctx.observe('load', [k0, right])
    ctx.note('entries loaded', len(L) if k0 == 'ok' else 0)
    for n, way in enumerate(sc.get('ways') or []):
        if not isinstance(way, dict):
            continue
        how = way.get('how') or 'same'
        cached = bool(way.get('cached'))
        other = DIRS[(way.get('dir') or 0) % len(DIRS)]
        w.listing = lambda names, key=way.get('listing') or 0: permute(names, key)
        path, base, cwd = home, [home], None
        what = 'way {} ({}{}{})'.format(n, how, ' to ' + other if 'cop' in how else '', ', cached' if cached else '')
        if how in ('copy', 'copied', 'peer-copy'):
            path = os.path.join(root, 'w{}'.format(n), other)
            os.makedirs(path)
            names = sorted(os.listdir(home)) if how == 'copied' else sorted(files)
            for f in permute(names, way.get('listing') or 0):
                if os.path.isfile(os.path.join(home, f)):
                    # with the times of the files, and the caches lying there
                    (shutil.copy2 if how == 'copied' else shutil.copyfile)(os.path.join(home, f), os.path.join(path, f))
            base = [path]
        elif how == 'slash':
            path = home + '/'
        elif how == 'dots':
            path = os.path.join(root, '.', 'd', '..', 'd')
        elif how == 'rel':
            path, cwd = pick_rel(way.get('dir') or 0), root
        elif how == 'link':
            path = os.path.join(root, 'link')
            if not os.path.islink(path):
                os.symlink(home, path)
        base = base + [os.path.normpath(os.path.join(cwd or '/', path))]
        # the longest first
        base = sorted(set(base + [home]), key=len, reverse=True)
        ctx.note('loads compared')
        if how in ('peer', 'peer-copy'):
            req = {'kind': sc.get('kind'), 'path': path, 'cwd': root, 'ext': ext, 'cached': cached, 'base': base, 'proto': way.get('proto'), 'use': bool(way.get('use'))}
            if k0 == 'ok':
                if way.get('use'):
                    peer.use(L)
                req['pickle'] = base64.b64encode(pickle.dumps(L, way.get('proto'))).decode()
                req['singles'] = [base64.b64encode(pickle.dumps(R, way.get('proto'))).decode() for R in sorted(L, key=lambda R: str(R.id))[:3]]
                if way.get('single'):
                    req['pickle'] = base64.b64encode(pickle.dumps(pickle.loads(pickle.dumps(L)), way.get('proto'))).decode()
            res = peer.PEER.ask(req)
            if 'failed' in res:
                if res['failed'] == 'the other process ended':
                    raise HarnessError(res['failed'])
                ctx.fail('peer-failed', '{}: the other process could not do it: {}\n{}'.format(what, res['failed'], res.get('where')))
            k, v = res['load']
            same(ctx, (k0, right), (k, v), what + ', loaded by another process')
            ctx.state('peer', k, bool(way.get('use')), cached, len(files))
            if k0 == 'ok' and k == 'ok':
                here = right
                d = common.diff(res['theirs'], here)
                ctx.check(d is None, 'pickle', lambda: '{}: read from a pickle in another process the collection is {}'.format(what, d))
                for x in (res.get('met'), res.get('singles-met')):
                    ctx.check(x is None, 'meet', lambda: '{}: pickled here, read in another process: {}'.format(what, x))
                d = common.diff(res['after'], v)
                ctx.check(d is None, 'pickle', lambda: '{}: pickling changed the collection: {}'.format(what, d))
                k, P = peer.outcome(lambda: pickle.loads(base64.b64decode(res['pickle'])), base)
                ctx.check(k == 'ok', 'pickle', lambda: '{}: the pickle of another process cannot be read: {}'.format(what, P))
                d = common.diff(peer.view(P, base), v)
                ctx.check(d is None, 'pickle', lambda: '{}: read from the pickle of another process the collection is {}'.format(what, d))
                x = peer.meet(L, P) or peer.singles(L, res.get('singles') or [])
                ctx.check(x is None, 'meet', lambda: '{}: pickled in another process, read here: {}'.format(what, x))
                ctx.note('collections exchanged')
                ctx.active = ctx.active or len(L) > 0
            continue
        if how == 'parts':
            if ext or grants:
                continue
            # reading the files one after the other; a file that is nothing is left out
            k, C = 'ok', cls()
            for f in sorted(files):
                k, P = load(os.path.join(home, f), False, base)
                if k == 'raise':
                    if 'BadInputFile' in P:
                        k = 'ok'
                        continue
                    break
                C = C | P
            if k0 == 'ok' and k == 'ok':
                v = peer.view(C, base)
                d = common.diff(dict(v, name=None, types=None), dict(right, name=None, types=None))
                ctx.check(d is None, 'parts', lambda: '{}: reading the files one by one gives {} (directory: right)'.format(what, d))
            continue
        if how == 'failing':
            # a load that failed leaves nothing behind for the next one
            w.faults = [{'op': pick_op(way.get('dir') or 0), 'path': 'd/*', 'n': (way.get('listing') or 0) % 12, 'kind': 'EIO'}]
            load(home, cached, base)
            w.faults = []
            k, C = load(home, cached, base)
        elif how == 'again':
            k, C = load(home, cached, base)
        else:
            k, C = load(path, cached, base, cwd)
        v = peer.view(C, base) if k == 'ok' else C
        same(ctx, (k0, right), (k, v), what)
        ctx.state(how, k, cached, tuple(sorted({f['fmt'] for f in sc['files'] if isinstance(f, dict) and 'fmt' in f})))
        if k == 'ok':
            x = peer.meet(L, C)
            ctx.check(x is None, 'meet', lambda: '{}: loaded twice in one process: {}'.format(what, x))
            ctx.active = ctx.active or len(C) > 0


def same(ctx, a, b, what):
    ctx.check(a[0] == b[0], 'outcome', lambda: '{}: the directory gave {}, now {}'.format(what, a[1] if a[0] == 'raise' else a[0], b[1] if b[0] == 'raise' else b[0]))
    if a[0] == 'raise':
        ctx.check(a[1] == b[1], 'outcome', lambda: '{}: the directory gave {}, now {}'.format(what, a[1], b[1]))
        return
    x, y = a[1], b[1]
    d = common.diff(unnamed(y), unnamed(x))
    ctx.check(d is None, 'differs', lambda: '{}: now {} (right: the first load)'.format(what, d))


def unnamed(v):
    """The default name holds the path as it was given."""
    return dict(v, name=v['name'].partition('files-from-')[0]) if v['name'] else v


def pick_op(n):
    return ['read', 'open_r', 'read', 'stat', 'write', 'read'][n % 6]


def permute(names, key):
    from ..engine import permuted
    return permuted(names, key)


def pick_rel(n):
    return ['d', './d', 'd/', 'x/../d'][n % 3]
