"""P01: loading files returns all of what they hold or says that it did not."""
import os
import re

from .. import corpus, common, fields, truth
from ..common import pick, plain

RUNS = {'quick': 40500, 'thorough': 160000}
CAP = {'quick': 100, 'thorough': 800}
STUB = 'disk (real bytes, simulated calls and faults), directory order'
STATE_MEASURE = '(format, kind of damage or fault, how the load ended, flagged or not)'

HARD = ['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'ESTALE']


def gen(rng, i, tier):
    kind = pick(rng, ['records', 'records', 'records', 'grants'])
    fmts = (corpus.RECORD_FMTS + ['wos']) if kind == 'records' else (corpus.GRANT_FMTS + ['nserc'])
    nf = pick(rng, [1, 1, 2, 3, 4, 5])
    files = []
    for j in range(nf):
        f = common.file_spec(rng, fmts + ['junk'], j, kmax=40)
        if f['fmt'] != 'nsf' and rng.random() < .15:
            f['recs'] = rng.sample(range(60), rng.randint(5, 25))
        if rng.random() < .25 and f['fmt'] not in ('nserc',):
            f['crlf'] = 1
        if rng.random() < .2 and f['fmt'] != 'junk':
            f['noeol'] = 1
        if rng.random() < .08:
            f['link'] = 1
        files.append(f)
    world = common.world_conf(rng)
    common.enlarge(rng, files, .003, world)
    nf = len(files)
    dmg = []
    r = rng.random()
    n = pick(rng, [1, 1, 1, 2])
    if r < .4:
        for _ in range(n):
            dmg.append(damage(rng, rng.randrange(nf)))
    faults = []
    if .35 < r < .75:
        for _ in range(n):
            faults.append({'op': pick(rng, ['read', 'read', 'read', 'open_r', 'read|open_r']), 'file': rng.randrange(nf), 'n': pick(rng, [0, 0, 1, 1, 2, 3, 5, 8, 13, 30, 60]),
                           'kind': pick(rng, HARD + ['EIO', 'EIO', 'short', 'eof', 'eof', 'flip']), 'sticky': rng.random() < .3, 'arg': rng.randrange(600)})
    elif r > .95:
        faults.append({'op': 'listdir', 'file': None, 'n': 0, 'kind': pick(rng, ['EIO', 'EACCES']), 'sticky': False, 'arg': 0})
    # the damaged or failing files share no entries with the others
    hit = {d['file'] for d in dmg} | {f['file'] for f in faults if f['file'] is not None}
    for j in hit:
        f = files[j]
        f['recs'] = [k + 10000 * (j + 1) for k in f['recs']]
    mode = pick(rng, ['dir', 'dir', 'dir', 'file', 'ext', 'cached'])
    return {'kind': kind, 'files': files, 'damage': dmg, 'faults': faults, 'mode': mode, 'pick': rng.randrange(nf), 'ext': pick(rng, [corpus.EXT[f] for f in fmts]),
            'world': world, 'subdir': pick(rng, [0] * 9 + [1])}


def damage(rng, j):
    if rng.random() < .4:
        return {'file': j, 'kind': 'cut', 'at': rng.randrange(1001)}
    if rng.random() < .1:
        # a cell too many in an entry of a table
        return {'file': j, 'kind': 'cell', 'at': rng.randrange(1001), 'hex': pick(rng, ['782c', '2c', '22612c62222c', '782c792c'])}
    return {'file': j, 'kind': 'bytes', 'at': rng.randrange(1001), 'hex': pick(rng, ['ff', 'c3', '00', '0a', '0a0a', '41', '', '5858', '22', 'e28098', '0d']), 'del': pick(rng, [0, 1, 1, 2, 3])}


def spans(spec, data):
    """[(start, end, key)] of every entry's bytes in the undamaged file, and where the part identifying the file ends."""
    fmt = spec['fmt']
    out, pos = [], 0
    nl = b'\r\n' if spec.get('crlf') else b'\n'

    def enc(s, e):
        b = s.encode(e)
        return b.replace(b'\n', nl) if nl != b'\n' else b
    if fmt in ('wos', 'med'):
        e = 'utf-8' if fmt == 'wos' else 'latin-1'
        for k in spec['recs']:
            t = enc(corpus.wos_text(k) if fmt == 'wos' else corpus.med_text(k), e)
            if spec.get('noeol') and data.find(t, pos) < 0:
                t = t[:-1]
            a = data.index(t, pos)
            pos = a + len(t)
            out.append((a, pos, corpus.rec_id(fmt, k)))
    elif fmt == 'pro':
        marks = [data.index('Document {} of {}{}'.format(i + 1, len(spec['recs']), nl.decode()).encode()) for i in range(len(spec['recs']))]
        bar = b'_' * 60 + nl
        for a, k in zip(marks, spec['recs']):
            out.append((a, data.index(bar, a) + len(bar), corpus.rec_id(fmt, k)))
    elif fmt == 'sco':
        pos = data.index(nl) + len(nl)
        for k in spec['recs']:
            end = data.find(nl, pos)
            end = len(data) if end < 0 else end + len(nl)
            out.append((pos, end, corpus.rec_id(fmt, k)))
            pos = end
    return out


def run(ctx, sc):
    mk = ctx.mk
    records = sc['kind'] == 'records'
    cls = mk.RecordCollection if records else mk.GrantCollection
    w = ctx.world(sc['world'], tty=None)
    lib = os.path.join(ctx.root, 'lib')
    os.makedirs(lib)
    files = {}
    for f in sc['files']:
        if f['fmt'] not in ('junk',) and not f['recs']:
            continue
        files[f['name']] = dict(f, recs=list(dict.fromkeys(f['recs'])))
    if not files:
        return
    names = [f['name'] for f in sc['files'] if f['name'] in files]
    data, dmg = {}, {}
    for n, f in files.items():
        data[n] = corpus.render(f)
    raw = dict(data)
    for d in sc['damage']:
        n = names[d['file'] % len(names)]
        at = d['at'] * len(data[n]) // 1000
        before = data[n]
        if d['kind'] == 'cell':
            sp = spans(files[n], before) if files[n]['fmt'] == 'sco' and before == raw[n] else []
            if sp:
                lo = sp[d['at'] % len(sp)][0]
                data[n] = before[:lo] + bytes.fromhex(d.get('hex') or '2c') + before[lo:]
                dmg.setdefault(n, []).append(('cell', lo, lo))
            continue
        data[n] = corpus.damage(before, {'kind': d['kind'], 'at': (at + .01) / max(1, len(before)), 'hex': d.get('hex', ''), 'del': d.get('del', 0)})
        if data[n] != before:
            lo = at
            hi = len(before) if d['kind'] == 'cut' else at + d.get('del', 0)
            dmg.setdefault(n, []).append((d['kind'], lo, hi))
    for n in data:
        if files[n].get('link') and sc['mode'] != 'file':
            # a link to a file elsewhere is a file like any other
            common.put_file(w, 'store/' + n, data[n])
            os.symlink(os.path.join(ctx.root, 'store', n), os.path.join(lib, n))
        else:
            common.put_file(w, 'lib/' + n, data[n])
    if sc.get('subdir'):
        # what is below a directory is not in it
        common.put_file(w, 'lib/sub{0}/f{0}'.format(sc['ext']), corpus.render({'fmt': 'wos' if records else 'cihr', 'name': 'x', 'recs': [900, 901]}))
    faults = []
    for f in sc['faults']:
        if f['file'] is None:
            faults.append({'op': f['op'], 'path': 'lib', 'n': f['n'], 'kind': f['kind'], 'file': None})
        else:
            n = names[f['file'] % len(names)]
            faults.append({'op': f['op'], 'path': '*/' + n, 'n': f['n'], 'kind': f['kind'], 'sticky': f['sticky'], 'arg': f['arg'], 'file': n})
    if sc['mode'] == 'file':
        target, wanted = os.path.join(lib, names[sc['pick'] % len(names)]), [names[sc['pick'] % len(names)]]
        ext = ''
    else:
        ext = sc['ext'] if sc['mode'] == 'ext' else ''
        target, wanted = lib, sorted(n for n in names if n.endswith(ext))
    with w:
        w.faults = faults
        exc = C = None
        try:
            C = cls(target, extension=ext, cached=sc['mode'] == 'cached')
        except mk.mkException as e:
            exc = e
        except OSError as e:
            exc = e
        fired = {}
        for f in w.faults:
            if f.get('done') or f.get('seen', 0) > f.get('n', 0):
                fired.setdefault(f['file'], set()).add(f['kind'])
        w.faults = []
    ctx.active = True
    listfail = None in fired
    fired.pop(None, None)
    hard = {n for n, ks in fired.items() if ks & set(HARD)}
    soft = {n for n, ks in fired.items() if ks & {'eof', 'flip'}}
    touched = set(dmg) | hard | soft
    strange = bool(touched & set(wanted)) or listfail

    if exc is not None:
        ctx.note('loads that raised')
        if isinstance(exc, OSError):
            ctx.check(hard or listfail, 'oserror', lambda: 'no call failed but the load raised {!r}'.format(exc))
        else:
            # only a file that no longer looks like one of the formats may be refused as a whole
            unknown = [n for n in wanted if files[n]['fmt'] == 'junk']
            ctx.check(strange or (unknown and (sc['mode'] == 'file' or ext)), 'refused',
                      lambda: 'the load of intact files was refused: {!r}'.format(exc))
        ctx.state(sc['mode'], 'raise', type(exc).__name__, sorted(files[n]['fmt'] for n in touched))
        return
    ctx.check(not listfail, 'swallowed', 'the directory could not be listed but the load returned a collection')
    unknown = [n for n in wanted if files[n]['fmt'] == 'junk' and n not in touched]
    if unknown and (sc['mode'] == 'file' or ext):
        ctx.fail('accepted', '{} is of no known format but the load returned {}'.format(unknown, len(C)))

    flagged = {os.path.basename(k) for k in C.errors}
    for R in C:
        if R.bad:
            flagged.add(os.path.basename(R.sourceFile))
            # entries that are equally bad are one: it may stand for another damaged file of its format
            fmt = files[os.path.basename(R.sourceFile)]['fmt']
            flagged |= {n for n in touched if n in wanted and files[n]['fmt'] == fmt}
    for n in flagged:
        ctx.check(n in touched and n in wanted, 'false-flag', lambda: '{} is intact but is flagged: {} {}'.format(n, C.errors, [(R.id, R.error) for R in C if R.bad]))
    ctx.check(C.bad == bool(C.errors), 'bad-mark', lambda: 'bad is {} but errors are {}'.format(C.bad, C.errors))
    ctx.check(len(list(C)) == len(C) == len({id(R) for R in C}), 'iteration', 'iterating gives another number of entries than the length')
    for R in C:
        ctx.check(os.path.basename(R.sourceFile) in wanted, 'source', lambda: 'entry {} says it is from {!r}'.format(R.id, R.sourceFile))

    good = [n for n in wanted if n not in touched and files[n]['fmt'] != 'junk']
    if records:
        check_records(ctx, C, files, wanted, good, touched, flagged, dmg, raw, data, fired, hard, soft)
    else:
        check_grants(ctx, C, files, wanted, good, touched, flagged, hard)
    for n in wanted:
        ctx.state(sc['mode'], files[n]['fmt'], sorted(k[0] for k in dmg.get(n, [])), sorted(fired.get(n, [])), n in flagged)


def same(R, e):
    return type(R).__name__ == e['type'] and common.raw_fields(R) == e['fields']


def check_records(ctx, C, files, wanted, good, touched, flagged, dmg, raw, data, fired, hard, soft):
    by_id = {}
    for R in C:
        if not R.bad:
            ctx.check(R.id not in by_id, 'duplicate', lambda: 'two entries have the id {}'.format(R.id))
            by_id[R.id] = R
    claimed = set()
    for n in good:
        for i, e in truth.record_entries(files[n]):
            R = by_id.get(i)
            ctx.check(R is not None, 'lost', lambda: 'entry {} of the intact file {} is not in the collection'.format(i, n))
            ctx.check(same(R, e), 'altered', lambda: 'entry {} of the intact file {} differs: {}'.format(i, n, common.diff(common.raw_fields(R), e['fields'])))
            wrong = fields.disagreement(R, files[n]['fmt'], e['fields'])
            ctx.check(wrong is None, 'value', lambda: '{} (file {})'.format(wrong, n))
            claimed.add(i)
    rest = [R for R in C if R.bad or R.id not in claimed]
    for R in rest:
        ctx.check(os.path.basename(R.sourceFile) in touched, 'invented', lambda: 'entry {} is in none of the intact files'.format(R.id))
    ctx.note('intact files compared', len(good))
    for n in wanted:
        f = files[n]
        if n not in touched or f['fmt'] == 'junk':
            continue
        ctx.note('damaged or failing files')
        if n in flagged:
            ctx.note('flagged')
            continue
        ctx.check(n not in hard, 'swallowed', lambda: 'a read of {} failed ({}) but nothing says so; {} of {} entries are there'.format(
            n, sorted(fired[n]), sum(os.path.basename(R.sourceFile) == n for R in C), len(f['recs'])))
        mine = {R.id: R for R in C if os.path.basename(R.sourceFile) == n}
        if not mine:
            # no longer recognised as one of the formats
            ctx.check(n in soft or header_hit(f, raw[n], dmg.get(n, [])), 'dropped', lambda: 'the file {} was left out without a word after {}'.format(n, dmg.get(n)))
            continue
        if n in soft:
            if f['fmt'] in ('wos', 'pro') and 'flip' not in fired[n]:
                ctx.check(len(mine) >= len(f['recs']), 'part-as-whole', lambda: 'reading {} ended early and {} of {} entries are there but nothing says so'.format(n, len(mine), len(f['recs'])))
            continue
        if len(dmg[n]) == 1:
            ctx.check(dmg[n][0][0] != 'cell', 'part-as-whole', lambda: 'an entry of {} has more cells than the table has columns (at {}) but nothing says so'.format(n, dmg[n][0][1]))
        if len(dmg[n]) > 1 or header_hit(f, raw[n], dmg[n]):
            continue
        what, lo, hi = dmg[n][0]
        ents = dict(truth.record_entries(f))
        for a, b, i in spans(f, raw[n]):
            hit = not (b <= lo or a >= hi) if hi > lo else a < lo < b
            # a byte added or taken right at the border of an entry belongs to it as well
            hit = hit or lo in (a, b) or hi in (a, b)
            if hit and f['fmt'] in ('wos', 'pro') and what == 'cut' and b <= lo:
                hit = False
            if not hit:
                if what == 'cut' and a >= lo:
                    continue
                R = mine.get(i)
                ctx.check(R is not None and same(R, ents[i]), 'lost-by-neighbour',
                          lambda: 'entry {} of {} was not touched by the damage ({} at {}) but is {} and nothing says so'.format(i, n, what, lo, 'gone' if R is None else 'altered'))
        # a Medline or Scopus file cut between two entries still looks whole, as does a Medline entry whose first line became part of another line
        starts = f['fmt'] != 'med' or len(re.findall(br'(?:^|[\r\n])PMID- ', data[n])) == len(f['recs'])
        if f['fmt'] in ('wos', 'pro') or what == 'bytes' and starts:
            ctx.check(len(mine) >= len(f['recs']), 'part-as-whole', lambda: '{} was damaged ({} at {} of {}), {} of {} entries are there but nothing says so'.format(
                n, what, lo, len(raw[n]), len(mine), len(f['recs'])))


def header_hit(f, data, dmg):
    """Could the damage have changed what identifies the file?"""
    nl = b'\r\n' if f.get('crlf') else b'\n'
    if f['fmt'] == 'wos':
        end = data.index(b'VR 1.0') + 6
    elif f['fmt'] == 'med':
        # the first record's first line
        end = data.index(b'PMID- ') + 6
        return any(lo <= end for _, lo, _ in dmg)
    elif f['fmt'] == 'pro':
        end = data.index(b'Report Information from ProQuest') + 32 + len(nl)
    elif f['fmt'] == 'sco':
        end = data.index(nl) + len(nl) + 1
    return any(lo < end for _, lo, _ in dmg)


def check_grants(ctx, C, files, wanted, good, touched, flagged, hard):
    specs = [files[n] for n in wanted if n in good]
    want = truth.merged_grants(specs)
    got = {}
    loose = {}
    for G in C:
        src = os.path.basename(G.sourceFile)
        if src in touched:
            continue
        if type(G).__name__ in ('NSERCGrant', 'NSFGrant'):
            ctx.check(G.id not in got, 'duplicate', lambda: 'two entries have the id {}'.format(G.id))
            got[G.id] = G
        else:
            loose.setdefault(src, []).append(G)
    for key, e in want.items():
        if isinstance(key, str):
            G = got.pop(key, None)
            ctx.check(G is not None, 'lost', lambda: 'entry {} of the intact files {} is not in the collection'.format(key, [s['name'] for s in specs]))
        else:
            c = [G for G in loose.get(key[0], []) if common.raw_fields(G) == e['fields']]
            ctx.check(c, 'lost', lambda: 'row {} of {} is not in the collection: {}'.format(key[1], key[0], e['fields']))
            G = c[0]
            loose[key[0]].remove(G)
        ctx.check(same(G, e), 'altered', lambda: 'entry {} differs: {}'.format(key, common.diff(common.raw_fields(G), {t: plain(v) for t, v in e['fields'].items()})))
    extra = list(got) + [G.id for gs in loose.values() for G in gs]
    ctx.check(not extra, 'invented', lambda: 'entries {} are in none of the files'.format(extra))
    ctx.note('intact files compared', len(good))
    for n in wanted:
        if n in hard:
            ctx.check(n in flagged, 'swallowed', lambda: 'a read of {} failed but nothing says so'.format(n))
