"""P05: what is written to a record file loads back as the same records, or the call raises."""
import io
import os

from .. import common, corpus, queries, truth
from ..common import pick
from .p09 import interrupted

KNOWN = {'same-author': ({'fmt': 'med', 'files': [], 'world': {}, 'rounds': [], 'known': 'same-author'}, 'same-author')}
RUNS = {'quick': 20000, 'thorough': 200000}
CAP = {'quick': 100, 'thorough': 800}
CROSS = True
REAL = 'record parsing and writing of WOS, Medline and Scopus, collection bookkeeping'
STUB = 'disk (real bytes, simulated calls, short writes and failures), locale, hash seed of the process, Ctrl-C (raised at a chosen line or system call)'
STATE_MEASURE = '(format, number of records, round, fault kind, how the write ended)'
QS = [q for q in queries.RECORD_QUERIES if q not in ('pickle',)]


def fault(rng):
    op = pick(rng, ['write', 'write', 'write', 'write', 'open_w', 'close_w', 'close_w', 'write|open_w|close_w'])
    return {'op': op, 'n': pick(rng, [0, 0, 1, 2, 3, 5, 9, 20]), 'kind': pick(rng, ['ENOSPC', 'EIO', 'EDQUOT', 'kbd', 'EACCES'] + (['short', 'short'] if op == 'write' else [])), 'sticky': rng.random() < .3, 'arg': rng.randrange(5000), 'lose': rng.random() < .5}


def gen(rng, i, tier):
    fmt = pick(rng, ['wos', 'wos', 'med', 'sco', 'sco', 'pro'] if rng.random() < .3 else ['wos', 'med', 'sco'])
    files = []
    for j in range(rng.choice([1, 1, 2, 3])):
        f = common.file_spec(rng, [fmt], j, kmax=60, nmax=pick(rng, [1, 3, 6]))
        f['recs'] = [k for k in f['recs'] if rng.random() < .9] or f['recs'][:1]
        if rng.random() < .15:
            f['noeol'] = True
        if rng.random() < .2:
            f['recs'].append(9 + 10 * rng.randrange(12))
        files.append(f)
    world = common.world_conf(rng, locale_encoding=pick(rng, ['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16']))
    common.enlarge(rng, files, .003, world)
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 4, 8])):
        r = {'qs': [[pick(rng, QS), rng.randrange(512)] for _ in range(rng.choice([0, 0, 1, 3]))], 'drop': rng.randrange(256) if rng.random() < .4 else 0,
             'to': pick(rng, ['new', 'new', 'same', 'default', 'over', 'path']), 'via': pick(rng, ['self', 'self', 'copy', 'union', 'pickle', 'bad']) if rng.random() < .5 else 'self',
             'kbd': 0, 'faults': [], 'alone': pick(rng, ['text', 'stream', 'dict', 'bytes']) if rng.random() < .3 else None}
        x = rng.random()
        if x < .2:
            r['kbd'] = int(2 ** (rng.random() * 9))
        elif x < .6:
            r['faults'] = [fault(rng) for _ in range(pick(rng, [1, 1, 2]))]
        rounds.append(r)
    return {'fmt': fmt, 'files': files, 'world': world, 'rounds': rounds}


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    fmt = sc['fmt']
    ext = corpus.EXT[fmt]
    if sc.get('known'):
        return known(ctx, w)
    files, want = [], {}
    for f in sc['files']:
        if not isinstance(f, dict) or not f['recs']:
            continue
        f = dict(f, recs=list(dict.fromkeys(f['recs'])))
        files.append(f)
        want.update(truth.record_entries(f))
    if not files:
        return
    os.makedirs(os.path.join(ctx.root, 'lib'))
    for f in files:
        common.put_file(w, 'lib/' + f['name'], corpus.render(f))
    with w:
        C = mk.RecordCollection(os.path.join(ctx.root, 'lib'), extension=ext)
        compare(ctx, C, want, 'the first load')
        for n, r in enumerate(sc['rounds']):
            C, want = round_(ctx, w, mk, C, dict(want), n, r, fmt, ext)
            if C is None:
                return


def compare(ctx, C, want, what):
    ctx.check(not C.bad and not C.errors, 'marked', lambda: '{}: bad={} errors={}'.format(what, C.bad, {str(k): str(v) for k, v in C.errors.items()}))
    got = {}
    for R in C:
        ctx.check(not R.bad, 'marked', lambda: '{}: record {} is marked bad: {}'.format(what, R.id, R.error))
        ctx.check(R.id not in got, 'records', lambda: '{}: two records have the id {}'.format(what, R.id))
        got[R.id] = {'type': type(R).__name__, 'fields': common.raw_fields(R)}
    ctx.check(set(got) == set(want) and len(C) == len(want), 'records', lambda: '{}: {} records {} instead of {} {}'.format(what, len(C), sorted(got)[:9], len(want), sorted(want)[:9]))
    for i in sorted(want):
        w = {'type': want[i]['type'], 'fields': dict(sorted(want[i]['fields'].items()))}
        d = common.diff(got[i], w, i)
        ctx.check(d is None, 'fields', lambda: '{}: {}'.format(what, d))


def alone(ctx, R, e, how, what):
    """One record made again from its own written form."""
    f = io.StringIO()
    R.writeRecord(f)
    text = f.getvalue()
    if how == 'bytes':
        text = bytes(R).decode(R.encoding())
    if how == 'stream' and e['type'] != 'ScopusRecord':
        src = io.StringIO(text)
    elif how == 'dict':
        src = dict(R.items(raw=True))
    else:
        src = text
    S = type(R)(src)
    got = {'id': S.id, 'bad': bool(S.bad), 'fields': common.raw_fields(S)}
    d = common.diff(got, {'id': R.id, 'bad': False, 'fields': dict(sorted(e['fields'].items()))})
    ctx.check(d is None, 'alone', lambda: '{}: {} made again from its {}: {}'.format(what, R.id, how, d))
    ctx.check(S == R and hash(S) == hash(R), 'alone', lambda: '{}: {} made again from its {} is another record'.format(what, R.id, how))
    ctx.note('records made again alone')


def round_(ctx, w, mk, C, want, n, r, fmt, ext):
    for q, a in r['qs']:
        common.outcome(lambda: queries.run(mk, C, q, a))
    for j, R in enumerate(sorted(C, key=lambda R: R.id)):
        if r['drop'] >> j & 1 and len(want) > 1:
            C.discard(R)
            want.pop(R.id, None)
    rel = {'new': 'out{}{}'.format(n, ext), 'path': 'out{}{}'.format(n, ext), 'same': 'out' + ext, 'over': 'over' + ext, 'default': None}[r['to']]
    if r['via'] == 'copy':
        C = C.copy()
    elif r['via'] == 'pickle':
        import pickle
        C = pickle.loads(pickle.dumps(C))
    elif r['via'] == 'union':
        half = set(sorted(want)[:len(want) // 2])
        C = mk.RecordCollection([R for R in C if R.id in half]) | mk.RecordCollection([R for R in C if R.id not in half])
    if rel is None:
        C.name = 'set {} of records'.format(n)
        rel = C.name + '.txt'
        common.rm_file(w, rel)
    if r['to'] == 'over':
        common.put_file(w, rel, b'x' * 60000 + b'\n')
    path = os.path.join(ctx.root, rel)
    if r['to'] == 'path':
        import pathlib
        path = pathlib.Path(path)

    def write():
        return C.writeFile(None if r['to'] == 'default' else path)
    what = 'round {}'.format(n)
    if r.get('alone') and fmt != 'pro':
        for R in sorted(C, key=lambda R: R.id)[:4]:
            alone(ctx, R, want[R.id], r['alone'], what)
    if fmt == 'pro' or r['via'] == 'bad':
        if r['via'] == 'bad' and fmt != 'pro':
            B = next(iter(sorted(C, key=lambda R: R.id))).copy()
            B.bad, B.error = True, mk.BadRecord('damaged')
            if r['drop'] & 1:
                C.add(B)
            else:
                C = mk.RecordCollection([B])
        st, v = common.outcome(write)
        ctx.active = True
        ctx.check(st == 'raise', 'silent', lambda: '{}: a collection that cannot be written was written without an error'.format(what))
        ctx.check(isinstance(v, mk.mkExceptions.mkException), 'wrong-error', lambda: '{}: {!r} instead of an error of the library'.format(what, v))
        ctx.note('unwritable collections refused')
        return None, None
    before = common.dump_collection(C)
    w.faults = [dict(f, path=rel) for f in r['faults']]
    if r['kbd']:
        st, v = interrupted(ctx, w, write, r['kbd'])
    else:
        try:
            st, v = common.outcome(write)
        except KeyboardInterrupt:
            st, v = 'kbd', None
    fired = [f for f in w.faults if f.get('done') or f.get('seen', 0) > f.get('n', 0)]
    w.faults = []
    ctx.note('writes')
    d = common.diff(before, common.dump_collection(C))
    ctx.check(d is None, 'collection-changed', lambda: '{}: writing changed the collection: {}'.format(what, d))
    ctx.state(fmt, len(want), n, st, fired[0]['kind'] if fired else '')
    if st == 'raise' and not fired:
        ctx.fail('write-failed', '{}: writing {} records failed: {!r}'.format(what, len(want), v))
    if st == 'raise':
        ctx.note('writes that raised')
        ctx.check(isinstance(v, OSError), 'wrong-error', lambda: '{}: an I/O error was turned into {!r}'.format(what, v))
    if st == 'ok':
        if fired:
            ctx.note('writes that survived a fault')
            ctx.check(any(f['kind'] == 'short' for f in fired), 'swallowed', lambda: '{}: writeFile returned normally although {} failed'.format(what, fired[0]))
        D = mk.RecordCollection(os.path.join(ctx.root, rel))
        compare(ctx, D, want, what + ', loaded')
        ctx.active = True
    else:
        # the same call again gives what it would have given the first time
        write()
        D = mk.RecordCollection(os.path.join(ctx.root, rel))
        compare(ctx, D, want, what + ', written again')
        ctx.active = True
    if r['to'] != 'default':
        ctx.check(common.exists(w, rel), 'records', 'no file was written')
    ctx.observe(what, common.dump_collection(D)['recs'])
    return D, want


def known(ctx, w):
    mk = ctx.mk
    common.put_file(w, 'a.medline', b'\nPMID- 26000001\nTI  - A title.\nFAU - Smith, Ann\nAU  - Smith A\nAD  - Univ One\nFAU - Smith, Al\nAU  - Smith A\nAD  - Univ Two\nSO  - X.\n')
    with w:
        C = mk.RecordCollection(os.path.join(ctx.root, 'a.medline'))
        C.writeFile(os.path.join(ctx.root, 'b.medline'))
        D = mk.RecordCollection(os.path.join(ctx.root, 'b.medline'))
        a, b = C.peek().get('AD', raw=True), D.peek().get('AD', raw=True)
        ctx.check(a == b, 'same-author', lambda: 'AD was {!r}, is {!r} after writing and loading'.format(a, b))
