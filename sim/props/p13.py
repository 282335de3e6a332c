"""P13: the gender data is either whole or absent, lookups and counts follow it."""
import csv
import io
import os
import random
import urllib.error
import zipfile

from .. import common, corpus
from ..common import pick
from ..seams import HarnessError
from .p12 import Process, Reply, perform, describe, down

RUNS = {'quick': 15000, 'thorough': 120000}
CAP = {'quick': 100, 'thorough': 800}
ROOT = 'slot'
REAL = 'genders (download, mapping, lookups), authGenders, genderStats, makeDict, writeCSV, zipfile, csv'
STUB = 'disk (real bytes, simulated calls, failures and power loss), network (a simulated site with the archive and failures), process restart (module state put back), locale'
STATE_MEASURE = '(data on disk, data in memory, operation, kind of fault and the call it struck, how it ended, kind of power loss)'

FIRST = ['Anna', 'John', 'Zoë', 'Jörg', 'Kim', 'Mary-Ann', "D'Angelo", '伟', 'J', 'Anna B', 'JOHN', 'anna', 'Nobody', 'Al', 'Mac Donald', 'ZOË', 'X Æ', '', ' ', 'Kim, Jr', 'Name']
LAST = ['Smith', 'Müller', 'O Neil', 'Wei', 'de la Cruz', '']
WHOLE = ['Smith', 'Anonymous', '', 'Smith,John', ', John', 'UN Committee', 'A,B, John']
TABLE = ['Anna', 'JOHN', 'Zoë', 'JÖRG', 'Kim', 'Mary-Ann', "D'Angelo", '伟', 'Al', 'Mac', 'X']
GENDER = ['Male', 'Female', 'Unknown', 'Female', 'Male']
NETERR = ['down', 'http', 'cut', 'reset', 'timeout', 'garbage', 'nothing', 'half', 'flip', 'other', 'empty']
# not stat: asking whether the data is there has no way to fail, it would be downloaded again
OPS = ['open_r|open_w|read|write|close_w|rename|fsync|remove|connect', 'write', 'open_w', 'close_w', 'rename', 'fsync', 'open_r', 'read', 'connect', 'open_w|write|close_w|rename|fsync', 'remove']


def gen_name(rng):
    if rng.random() < .12:
        return pick(rng, WHOLE)
    return '{}, {}'.format(pick(rng, LAST), pick(rng, FIRST))


def gen_step(rng):
    x = rng.random()
    net = [pick(rng, NETERR), rng.random()] if rng.random() < .3 else None
    v = rng.randrange(4)
    if x < .25:
        return {'do': 'name', 'names': [gen_name(rng) for _ in range(rng.choice([1, 1, 3]))], 'noexcept': rng.random() < .6, 'v': v, 'net': net}
    if x < .45:
        return {'do': 'rec', 'r': rng.randrange(8), 'how': pick(rng, ['auth', 'counts', 'frac', 'genders']), 'v': v, 'net': net}
    if x < .75:
        return {'do': 'col', 'how': pick(rng, ['stats', 'stats', 'fractions', 'dict', 'csv']), 'v': v, 'net': net}
    if x < .82:
        return {'do': 'download', 'uk': rng.random() < .4, 'v': v, 'net': net}
    return {'do': 'restart', 'loss': [pick(rng, ['old', 'prefix', 'gone', 'full', 'prefix']), rng.random()] if rng.random() < .6 else None}


def gen(rng, i, tier):
    sc = {'world': common.world_conf(rng, step_budget=100000, locale_encoding=pick(rng, ['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252'])), 'start': pick(rng, [None, None, 0, 1, 2])}
    sc['records'] = [[gen_name(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))] for _ in range(rng.choice([0, 1, 2, 4]))]
    for au in sc['records']:
        if len(au) > 1 and rng.random() < .3:
            au[1] = au[0]
    sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS, 1, kmax=40, nmax=3)] if rng.random() < .4 else []
    sc['bad'] = [rng.randrange(8)] if rng.random() < .25 else []
    sc['steps'] = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        st = gen_step(rng)
        x = rng.random()
        if st['do'] != 'restart':
            if x < .22:
                st['fault'] = {'op': pick(rng, OPS), 'n': int(rng.random() ** 2 * 25), 'kind': pick(rng, ['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'kbd', 'kbd']), 'sticky': rng.random() < .2}
            elif x < .28:
                st['fault'] = {'op': 'call', 'n': 1 + int(rng.random() ** 2 * 30), 'where': 'mk', 'kind': 'kbd'}
            elif x < .5:
                st['fault'] = {'op': pick(rng, OPS[:1] + OPS), 'n': int(rng.random() ** 2 * 25), 'kind': 'crash', 'loss': [pick(rng, ['old', 'prefix', 'gone', 'full', 'prefix']), pick(rng, [0, .3, .5, .9, rng.random()])]}
        sc['steps'].append(st)
    return sc


# ------------------------------------------------------------------------------- the site
HEAD = ['Name', 'years.appearing', 'count.male', 'count.female', 'prob.gender', 'obs.male', 'est.male', 'upper', 'lower']


def table(v, uk):
    r = random.Random('names-{}-{}'.format(v, uk))
    names = [n for n in TABLE if r.random() < .8]
    return [[n, str(r.randrange(100)), str(r.randrange(10 ** 5)), str(r.randrange(10 ** 5)), GENDER[r.randrange(5)]] + ['{:.4f}'.format(r.random()) for _ in range(4)] for n in names] + \
        [['Filler{}'.format(k), '1', '1', '0', 'Male', '1', '1', '1', '1'] for k in range(40)]


def mapping(v, uk):
    return {row[0].title(): row[4] for row in table(v, uk)}


def sheet(v, uk):
    out = io.StringIO(newline='')
    w = csv.writer(out, lineterminator='\n', quoting=csv.QUOTE_ALL if v % 2 else csv.QUOTE_MINIMAL)
    w.writerow(HEAD)
    w.writerows(table(v, uk))
    return out.getvalue().encode('utf-8')


def archive(v, without=False, empty=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED if v % 2 else zipfile.ZIP_STORED) as z:
        z.writestr(zipfile.ZipInfo('globalnamedata-0.3/README.md'), 'Global name data\n')
        if not without and not empty:
            for uk, n in ((False, 'us'), (True, 'uk')):
                z.writestr(zipfile.ZipInfo('globalnamedata-0.3/assets/{}processed.csv'.format(n)), sheet(v, uk), compress_type=zipfile.ZIP_DEFLATED if v % 2 else zipfile.ZIP_STORED)
    return b.getvalue()


class Site:
    def __init__(self, w, v, err):
        self.w, self.v, self.err = w, v, err if isinstance(err, list) and len(err) == 2 else None
        self.asked = 0

    def __call__(self, url):
        if not url.endswith('.zip'):
            raise HarnessError('no page {}'.format(url))
        self.asked += 1
        data = archive(self.v)
        fail = self.err[0] if self.err and self.asked == 1 else None
        if fail:
            self.w.fired['net:' + fail] += 1
            self.w.fired_list.append({'op': 'net', 'kind': fail, 'rel': url, 'n': 0})
            self.w.event('FAULT net', fail)
        if fail == 'down':
            raise urllib.error.URLError('no route to host')
        if fail == 'http':
            raise urllib.error.HTTPError(url, 503, 'Service Unavailable', {}, None)
        if fail == 'garbage':
            return Reply(b'<html>moved</html>\n')
        if fail == 'nothing':
            return Reply(b'')
        if fail == 'half':
            return Reply(data[:int(len(data) * self.err[1] * .98)])
        if fail == 'flip':
            at = int(len(data) * self.err[1] * .999)
            return Reply(data[:at] + bytes([data[at] ^ 16]) + data[at + 1:])
        if fail == 'other':
            return Reply(archive(self.v, without=True))
        return Reply(data, fail)


def first_name(s):
    parts = s.split(', ')
    return None if len(parts) < 2 else parts[1].split(' ')[0].title()


def isi(records):
    out = 'FN Thomson Reuters Web of Science™\nVR 1.0\n'
    for n, au in enumerate(records):
        out += 'PT J\n'
        good = [a for a in au if a.strip() and not a.startswith(',')]
        if good:
            out += 'AU ' + '\n   '.join(a.split(',')[0] or 'X' for a in good) + '\nAF ' + '\n   '.join(a.rstrip() for a in good) + '\n'
        out += 'TI Title {}\nSO A JOURNAL\nPY 20{:02}\nUT WOS:G{:05}\nER\n\n'.format(n, n % 20, n)
    return out + 'EF\n'


def run(ctx, sc):
    mk = ctx.mk
    ng = mk.genders
    here = os.path.dirname(ng.__file__)
    for f in os.listdir(here):
        if not f.endswith('.py') and f != '__pycache__':
            os.remove(os.path.join(here, f))
    proc = Process()
    w = ctx.world(sc['world'], tty=None)
    w.net = down
    os.makedirs(os.path.join(ctx.root, 'd', 'lib'), exist_ok=True)
    common.put_file(w, 'd/lib/g.isi', isi([[str(a) for a in au] for au in sc['records']]).encode('utf-8'))
    for f in sc['files']:
        if isinstance(f, dict) and f['recs']:
            common.put_file(w, 'd/lib/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))
    tables = {(v, uk): mapping(v, uk) for v in range(4) for uk in (False, True)}

    def held():
        """What a fresh process finds on the disk."""
        net, w.net = w.net, down
        try:
            return ng.getMapping()
        except urllib.error.URLError:
            return None
        finally:
            w.net = net

    with w:
        C = mk.RecordCollection(os.path.join(ctx.root, 'd', 'lib'))
        recs = sorted(C, key=lambda R: str(R.id))
        for n in sc.get('bad', ()):
            if recs:
                recs[n % len(recs)].bad = True
        authors = {R: list(R.get('authorsFull') or []) for R in recs}
        disk = sess = None
        if sc['start'] is not None:
            w.net = Site(w, sc['start'], None)
            ng.downloadData()
            disk = (sc['start'] % 4, False)
        w.settle()
        proc.restart()
        for si, st in enumerate(sc['steps']):
            do = st['do']
            v = st['v'] % 4 if isinstance(st.get('v'), int) else 0
            err = st.get('net') if isinstance(st.get('net'), list) and len(st['net']) == 2 else None
            site = w.net = Site(w, v, err)
            new, ended = disk, None
            if do == 'restart':
                if isinstance(st.get('loss'), list):
                    w.power_cycle(st['loss'][0], st['loss'][1])
                    ctx.note('power losses')
                proc.restart()
                sess = None
                ctx.note('new sessions')
            else:
                if do == 'download':
                    new = (v, bool(st['uk']))

                    def fn():
                        ng.downloadData(useUK=st['uk'])
                    need, want = True, None
                else:
                    use = sess or disk or (v, False)
                    names, fn, want = question(ctx, mk, st, C, recs, authors, tables[use], si)
                    need = any(first_name(n) is not None for n in names)
                    if need and sess is None and disk is None:
                        new = use
                    elif need:
                        use = sess or disk
                what = 'step {} ({})'.format(si, {k: st[k] for k in st if k != 'fault'})
                ended = perform(ctx, w, st, fn)
                failing_net = err is not None and need and (do == 'download' or (sess is None and disk is None))
                if ended[0] == 'crash':
                    w.power_cycle(st['fault']['loss'][0], st['fault']['loss'][1])
                    ctx.note('power losses')
                    proc.restart()
                    sess = None
                elif ended[0] == 'ok':
                    if failing_net and site.asked:
                        # a damaged archive may still hold this table undamaged
                        ctx.check(err[0] in ('flip', 'empty'), 'bad-accepted', lambda: '{}: {} was accepted (right: an error)'.format(what, err[0]))
                    if want is not None:
                        d = common.diff(ended[1], want, st['how'] if 'how' in st else 'names')
                        ctx.check(d is None, 'gender', lambda: '{}: {} (right: the data {})'.format(what, d, use))
                        ctx.note('lookups compared')
                    if do != 'download' and need and sess is None:
                        sess = use
                else:
                    expected = isinstance(ended[1], mk.mkExceptions.GenderException) and do == 'name' and not st['noexcept'] and any(first_name(n) is None for n in names)
                    ctx.check(ended[2] or expected, 'failed', lambda: '{}: {} and no fault struck'.format(what, describe(ended)))
                    if do != 'download' and need and sess is None:
                        # the table may have been read before it failed: it is that on the disk
                        pass
            got = held()
            right = [new] if ended is None or ended[0] == 'ok' else [disk, new]
            if ended is not None and ended[0] == 'raise' and not ended[2]:
                right = [disk, new]
            ok = [r for r in right if got == (None if r is None else tables[r])]
            ctx.check(bool(ok), 'data', lambda: 'after step {} ({}{}) the data is {} (right: {})'.format(
                si, do, '' if ended is None else ', ' + describe(ended), 'absent' if got is None else '{} names, neither of the versions'.format(len(got)) if got not in list(tables.values()) else [k for k in tables if tables[k] == got],
                ' or '.join('absent' if r is None else str(r) for r in right)))
            ctx.note('data compared')
            f = st.get('fault') or {}
            ctx.state(do, st.get('how'), disk is not None, sess is not None, f.get('kind'), f.get('op'), ended and ended[0], f.get('loss', [None])[0], err and err[0], site.asked)
            disk = ok[0]
            if do == 'download' and ended[0] != 'crash':
                # a session that read the data before keeps what it read; the next one uses what is there now
                proc.restart()
                sess = None


def question(ctx, mk, st, C, recs, authors, tbl, si):
    ng = mk.genders

    def g(s):
        f = first_name(s)
        return 'Unknown' if f is None else tbl.get(f, 'Unknown')

    def counts(rs):
        lst = [g(a) for R in rs for a in authors[R]]
        return [lst.count(k) for k in ('Male', 'Female', 'Unknown')]

    def frac(c):
        return [x / (sum(c) or 1) for x in c]
    order = ('Male', 'Female', 'Unknown')
    if st['do'] == 'name':
        names = [str(n) for n in st['names']]
        if st['noexcept']:
            return names, lambda: [ng.nameStringGender(n, noExcept=True) for n in names], [g(n) for n in names]
        return names, lambda: [ng.nameStringGender(n) for n in names], [g(n) for n in names] if all(first_name(n) is not None for n in names) else ['an error']
    if st['do'] == 'rec':
        if not recs:
            return [], lambda: None, None
        R = recs[st['r'] % len(recs)]
        names, how = authors[R], st['how']
        if how == 'auth':
            return names, lambda: R.authGenders(), {a: g(a) for a in names}
        if how == 'genders':
            return names, lambda: ng.recordGenders(R), {a: g(a) for a in names}
        c = counts([R])
        if how == 'counts':
            return names, lambda: R.authGenders(countsOnly=True), dict(zip(order, c))
        return names, lambda: R.authGenders(fractionsMode=True), dict(zip(order, frac(c)))
    names = [a for R in recs for a in authors[R]]
    how, c = st['how'], counts(recs)
    if how == 'stats':
        return names, lambda: C.genderStats(), dict(zip(order, c))
    if how == 'fractions':
        return names, lambda: C.genderStats(asFractions=True), dict(zip(order, frac(c)))
    per = sorted([len(authors[R])] + counts([R]) for R in recs)
    if how == 'dict':
        def fn():
            d = C.makeDict(onlyTheseTags=['title'], genderCounts=True)
            return sorted([m + f + u, m, f, u] for m, f, u in zip(d['num-Male'], d['num-Female'], d['num-Unknown']))
        return names, fn, per

    def fn():
        p = os.path.join(ctx.root, 'd', 'out{}.csv'.format(si))
        C.writeCSV(p, onlyTheseTags=['id', 'title'])
        with open(p, 'r', encoding='utf-8', newline='') as fh:
            rows = list(csv.DictReader(fh))
        return sorted([sum(int(r['num-' + k]) for k in order)] + [int(r['num-' + k]) for k in order] for r in rows)
    return names, fn, per
