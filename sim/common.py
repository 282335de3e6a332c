"""Shared by the property modules: canonical views of what metaknowledge returns, and scratch files."""
import os

from . import corpus, seams
from .seams import Violation


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def plain(v):
    """A JSON-able canonical view of a field value."""
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((plain(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {'dict': sorted(([plain(k), plain(x)] for k, x in v.items()), key=repr)}
    if isinstance(v, bytes):
        return 'bytes:' + v.decode('latin-1')
    return '{}:{}'.format(type(v).__name__, v)


def raw_fields(R):
    """{tag: raw value} through the public mapping interface."""
    out = {}
    for k in sorted(R.keys(), key=str):
        try:
            out[k] = plain(R.get(k, raw=True))
        except TypeError:
            out[k] = plain(R[k])
    return out


def dump_record(R):
    return {'type': type(R).__name__, 'id': R.id, 'bad': bool(R.bad), 'error': None if R.error is None else '{}: {}'.format(type(R.error).__name__, R.error),
            'fields': raw_fields(R)}


def dump_collection(C):
    recs = sorted((dump_record(R) for R in C), key=lambda d: (d['type'], str(d['id']), repr(d)))
    return {'type': type(C).__name__, 'name': C.name, 'bad': bool(C.bad),
            'errors': {str(k): '{}: {}'.format(type(v).__name__, v) for k, v in sorted(C.errors.items())},
            'n': len(C), 'recs': recs}


def diff(a, b, path=''):
    """First difference between two canonical views, as text; None when equal."""
    if type(a) != type(b):
        return '{}: {!r} != {!r}'.format(path, _c(a), _c(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '{}.{}: missing on the left (right: {})'.format(path, k, _c(b[k]))
            if k not in b:
                return '{}.{}: missing on the right (left: {})'.format(path, k, _c(a[k]))
            d = diff(a[k], b[k], '{}.{}'.format(path, k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            ia = [x.get('id', x) if isinstance(x, dict) else x for x in a]
            ib = [x.get('id', x) if isinstance(x, dict) else x for x in b]
            return '{}: {} elements != {} elements: {} / {}'.format(path, len(a), len(b), _c(ia), _c(ib))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '{}[{}]'.format(path, i))
            if d:
                return d
        return None
    return None if a == b else '{}: {!r} != {!r}'.format(path, _c(a), _c(b))


def _c(v):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def put_file(w, rel, data, mtime_ns=None):
    """Write a file the way another program would have: durable, with the simulated clock's time."""
    p = os.path.join(w.root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with seams.REAL['open'](p, 'wb') as fh:
        fh.write(data)
    t = w.mtime_ns() if mtime_ns is None else mtime_ns
    os.utime(p, ns=(t, t))
    w.dirty.pop(rel, None)
    return t


def get_file(w, rel):
    with seams.REAL['open'](os.path.join(w.root, rel), 'rb') as fh:
        return fh.read()


def exists(w, rel):
    try:
        seams.REAL['stat'](os.path.join(w.root, rel))
        return True
    except OSError:
        return False


def rm_file(w, rel):
    try:
        seams.REAL['remove'](os.path.join(w.root, rel))
    except FileNotFoundError:
        pass


def ls(w, rel='.'):
    return sorted(seams.REAL['listdir'](os.path.join(w.root, rel)))


def file_spec(rng, fmts, i, kmax=40, nmax=4):
    fmt = pick(rng, fmts)
    if fmt in ('nsf', 'junk'):
        recs = [rng.randrange(kmax)]
    else:
        recs = rng.sample(range(kmax), rng.randint(1, nmax))
    if kmax >= 20 and rng.random() < .4:
        # unusual records, see corpus.spice
        recs = [k if rng.random() < .3 else corpus.SPICED + rng.randrange(60 if rng.random() < .5 else 5000) for k in recs]
        recs = list(dict.fromkeys(recs))
    return {'fmt': fmt, 'name': corpus.name_for(fmt, i), 'recs': recs, 'v': rng.randrange(8)}


def enlarge(rng, files, p=.002, world=None):
    """Now and then one large file, or a large number of files, as real exports are."""
    x = rng.random()
    if x >= p:
        return False
    start = pick(rng, [1000, 1500, 2000])
    few = [f for f in files if f['fmt'] not in ('nsf', 'junk')]
    if x < p * .6 and few:
        f = pick(rng, few)
        n = pick(rng, [257, 500, 501, 640, 1001, 1030])
        f['recs'] = list(range(start, start + n))
        if f['fmt'] in ('wos', 'med', 'pro') and n > 600:
            f['recs'] = f['recs'][:600]
    else:
        fmts = [f['fmt'] for f in files]
        for j in range(len(files), pick(rng, [30, 65, 101, 130])):
            g = pick(rng, fmts)
            files.append({'fmt': g, 'name': corpus.name_for(g, j), 'recs': [start + j] if g not in ('nsf', 'junk') else [j % 40], 'v': rng.randrange(8)})
    if world is not None:
        world.update(bufsize=8192, io_chunk=0, text_chunk=8192)
    return True


def world_conf(rng, **kw):
    c = {'bufsize': pick(rng, [64, 256, 512, 1024, 8192]), 'io_chunk': pick(rng, [0, 0, 0, 17, 100]),
         'text_chunk': pick(rng, [32, 128, 512, 8192]), 'listing': rng.randrange(1000)}
    c.update(kw)
    return c


def outcome(fn):
    """('ok', value) or ('raise', exception): for operations that may legitimately fail."""
    try:
        return 'ok', fn()
    except Exception as e:      # noqa
        return 'raise', e


def gen_bad(rng):
    return [rng.randrange(64) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < .15 else []


def mark_bad(C, sc):
    """Records marked as bad are still records of the collection: nothing but dropBadEntries treats them differently."""
    bad = sc.get('bad') or []
    if bad and len(C):
        recs = sorted(C, key=lambda R: str(R.id))
        for n in bad:
            recs[n % len(recs)].bad = True
