"""P06: exports are complete, hold what the collection reports and raise when the disk fails, in any locale."""
import csv
import io
import os

from .. import common, corpus, mini, queries
from ..common import pick

RUNS = {'quick': 23500, 'thorough': 160000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'writeCSV, writeBib, bibString, forBurst, forNLP, rankedSeries, timeSeries of record and grant collections, the csv module, text encoding and buffering'
STUB = 'disk (real bytes, simulated calls and failures), the locale (the encoding of files opened without one)'
STATE_MEASURE = '(export, options, kind of the fault and the call it struck, how the export ended)'
KNOWN = {'bib-tail': ({'kind': 'mini', 'world': {}, 'name': 0, 'steps': [], 'known': 1,
                       'specs': [{'k': 1, 'au': [0], 'kw': [], 'wc': [], 'cr': [], 'py': 1, 'j': 0, 'bp': 0, 'f': 0}]}, 'bib-tail')}

DROPS = [['the'], ['of', 'the'], ['gas'], ['a', 'the the'], ['']]
ERR = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT']
NAMES = ['lib', 'a name, with commas', 'Übung', 'n' * 230, '2001']
SPLITS = ['year', 'journal', 'j9', 'authorsFull', 'keywords', 'title', 'AU', 'id', 'PY', 'abstract']
TAGSETS = [['UT', 'PY', 'CR', 'AF'], ['year', 'citations', 'title'], ['AF'], ['journal', 'nosuchtag'], ['id', 'DOI', 'authorsShort', 'keywords', 'abstract', 'j9', 'volume']]
STEM = [None, None, lambda t: t[:3], lambda t: t + 'x']
NLPCOLS = [None, None, ['year', 'journal'], ['authorsFull', 'citations'], ['nosuchtag', 'abstract'], ['NR', 'TC', 'wosTimesCited']]


def gen(rng, i, tier):
    kind = pick(rng, ['mini', 'corpus', 'corpus', 'corpus', 'grants'])
    sc = {'kind': kind, 'bad': common.gen_bad(rng), 'world': common.world_conf(rng, locale_encoding=pick(rng, ['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252'])), 'name': rng.randrange(len(NAMES))}
    if kind == 'mini':
        sc['specs'] = mini.specs(rng, 1, 5)
    else:
        sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS if kind == 'corpus' else corpus.GRANT_FMTS, j, kmax=60, nmax=3) for j in range(rng.choice([1, 1, 2, 3]))]
        common.enlarge(rng, sc['files'], .004, sc['world'])
    if kind != 'grants' and rng.random() < .06:
        sc['sur'] = 1 + rng.randrange(7)
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3] if tier == 'quick' else [2, 4, 8])):
        x = pick(rng, ['csv', 'csv', 'csvsplit', 'bib', 'bib', 'burst', 'nlp', 'nlp', 'rank', 'series'] if kind != 'grants' else ['rank', 'series'])
        st = {'x': x, 'a': rng.randrange(1 << 16), 'out': rng.randrange(3), 'hit': None}
        if rng.random() < .55:
            st['hit'] = {'op': pick(rng, ['open_w|write|close_w', 'open_w|write|close_w', 'write', 'close_w', 'open_w']), 'at': rng.random(), 'kind': pick(rng, ERR + ['short', 'ENOSPC']),
                         'sticky': rng.random() < .3, 'arg': rng.randrange(500), 'lose': rng.random() < .5}
        steps.append(st)
    sc['steps'] = steps
    return sc


def text(v, sep='|'):
    if isinstance(v, str):
        return v
    if v is None:
        return ''
    if hasattr(v, '__iter__'):
        return sep.join(str(x) for x in v)
    return str(v)


def bits(a, *choices):
    """Pick one of each list by the digits of a."""
    out = []
    for c in choices:
        out.append(c[a % len(c)])
        a //= len(c)
    return out


def read_rows(data, **kw):
    return list(csv.reader(io.StringIO(data.decode('utf-8'), newline=''), strict=True, **kw))


class Export:
    """One export: fn(name) runs it, check(name) holds it against the collection."""

    def __init__(self, ctx, w, C, st):
        self.ctx, self.w, self.C, self.st = ctx, w, C, st
        self.args = []
        self.label = st['x']
        self.may_raise = ()
        getattr(self, 'x_' + st['x'])(ctx.mk, C, st['a'])

    def fail(self, cls, msg):
        self.ctx.fail(cls, '{}: {}'.format(self.label, msg))

    def same(self, got, want, cls, what):
        d = common.diff(got, want)
        if d is not None:
            self.fail(cls, '{}: {} (right: what the collection reports)'.format(what, d))
        self.ctx.note('values compared', 1)

    def data(self, name):
        if not common.exists(self.w, name):
            self.fail('missing-file', 'returned normally but there is no file {!r}, only {}'.format(name, common.ls(self.w)))
        return common.get_file(self.w, name)

    # -- CSV -----------------------------------------------------------------------------------
    def csv_options(self, mk, C, a):
        num, long_, tags, first, delim, quote, ldelim, default = bits(a, [True, False], [False, False, True], [None, None] + TAGSETS, [None, None, ['year', 'title'], ['UT', 'nosuchtag']],
                                                                     [',', ',', ';', '\t'], ['"', '"', "'"], ['|', '|', ' and '], [False, False, False, True])
        kw = {'genderCounts': False, 'numAuthors': num, 'longNames': long_, 'csvDelimiter': delim, 'csvQuote': quote, 'listDelimiter': ldelim}
        if tags is not None:
            kw['onlyTheseTags'] = list(tags)
            self.args.append(kw['onlyTheseTags'])
        if first is not None:
            kw['firstTags'] = list(first)
            self.args.append(kw['firstTags'])
        self.kw, self.default = kw, default
        short = lambda t: tagdicts(mk)[0].get(t, t)
        first = [short(t) for t in (first if first is not None else ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI'])]
        if tags:
            tags = [short(t) for t in tags]
            self.first = [t for t in first if t in tags]
            self.cols = set(tags)
        else:
            self.first = first
            self.cols = set(first)
            for R in C:
                self.cols |= set(R.keys())
        if long_:
            if any(t not in tagdicts(mk)[1] for t in self.cols):
                self.may_raise = (KeyError,)
            self.first = [tagdicts(mk)[1].get(t) for t in self.first]
            self.cols = {tagdicts(mk)[1].get(t) for t in self.cols}

    def csv_row(self, R):
        row = {c: text(R.get(c), self.kw['listDelimiter']) for c in self.cols}
        if self.kw['numAuthors']:
            row['num-Authors'] = str(len(R.get('authorsShort', [])))
        return sorted(map(list, row.items()))

    def csv_read(self, name):
        rows = read_rows(self.data(name), delimiter=self.kw['csvDelimiter'], quotechar=self.kw['csvQuote'])
        if not rows:
            self.fail('csv-header', '{} is empty'.format(name))
        head = rows[0]
        want = sorted(self.cols) + (['num-Authors'] if self.kw['numAuthors'] else [])
        if sorted(head) != sorted(want) or head[:len(self.first)] != self.first:
            self.fail('csv-header', '{} has the columns {}; right: {} first, of {}'.format(name, head, self.first, sorted(want)))
        for r in rows[1:]:
            if len(r) != len(head):
                self.fail('csv-row', '{}: a row of {} cells under {} columns: {}'.format(name, len(r), len(head), r))
        return sorted(sorted(map(list, zip(head, r))) for r in rows[1:])

    def x_csv(self, mk, C, a):
        self.csv_options(mk, C, a)

        def fn(name):
            if self.default:
                C.writeCSV(**self.kw)
            else:
                C.writeCSV(os.path.join(self.ctx.root, name), **self.kw)

        def check(name):
            if self.default:
                name = C.name[:200] + '.csv'
            self.same(self.csv_read(name), sorted(self.csv_row(R) for R in C), 'csv-rows', 'rows of ' + name)
        self.fn, self.check = fn, check

    def x_csvsplit(self, mk, C, a):
        tag = SPLITS[a % len(SPLITS)]
        self.csv_options(mk, C, a // len(SPLITS))
        self.default = False
        self.label = 'writeCSV(splitByTag={!r})'.format(tag)
        groups = {}
        for R in C:
            if tag not in R:
                continue
            v = R[tag]
            v = v if isinstance(v, list) else [str(v)]
            for x in dict.fromkeys(str(x)[:200] for x in v):
                groups.setdefault(x, []).append((R, sum(str(y)[:200] == x for y in v)))
        if any('/' in g or len((g + '-xxxxxxxxxxxxx').encode('utf-8', 'replace')) > 254 for g in groups):
            self.may_raise = self.may_raise + (OSError,)

        def fn(name):
            for f in common.ls(self.w):
                if f.endswith('-' + name):
                    common.rm_file(self.w, f)
            C.writeCSV(name, splitByTag=tag, **self.kw)

        def check(name):
            files = sorted(f for f in common.ls(self.w) if f.endswith('-' + name))
            want = sorted('{}-{}'.format(g, name) for g in groups)
            if files != want:
                self.fail('csv-split', 'files {}; right: {}'.format(files, want))
            for g, rs in groups.items():
                got = self.csv_read('{}-{}'.format(g, name))
                lo = sorted(self.csv_row(R) for R, n in rs)
                hi = sorted(self.csv_row(R) for R, n in rs for _ in range(n))    # a value a record has twice may give it two rows
                if len(got) != len(hi):
                    hi = lo
                self.same(got, hi, 'csv-rows', 'rows of {}-{}'.format(g, name))
        self.fn, self.check = fn, check

    # -- bibtex --------------------------------------------------------------------------------
    def x_bib(self, mk, C, a):
        wos, reduced, nice, mx, default = bits(a, [False, False, True], [False, True], [True, False], [1000, 1000, 40, 100000], [False, False, False, True])
        kw = {'maxStringLength': mx, 'wosMode': wos, 'reducedOutput': reduced, 'niceIDs': nice}
        if any(R.bad for R in C):
            self.may_raise = (mk.mkExceptions.mkException,)

        def fn(name):
            if default:
                C.writeBib(**kw)
            else:
                C.writeBib(os.path.join(self.ctx.root, name), **kw)

        def check(name):
            if default:
                name = C.name[:200] + '.bib'
            got = self.data(name).decode('utf-8')
            at = got.find('\n\n')
            if len(C) == 0:
                return
            if at < 0 or any(not ln.startswith('%') for ln in got[:at].split('\n')):
                self.fail('bib-head', '{} starts {!r}'.format(name, got[:80]))
            body = got[at:]
            want = []
            for R in C:
                if R.bad:
                    continue
                entry = R.bibString(maxLength=mx, WOSMode=wos, restrictedOutput=reduced, niceID=nice)
                want.append(entry)
                self.bib_entry(mk, R, entry, mx, wos, reduced, nice)
            rest = body
            for e in sorted(want, key=len, reverse=True):
                if '\n\n' + e not in rest:
                    self.fail('bib-entry', '{} lacks the entry {!r}'.format(name, e[:200]))
                rest = rest.replace('\n\n' + e, '', 1)
            if rest.strip():
                self.fail('bib-entry', '{} holds something else too: {!r}'.format(name, rest.strip()[:200]))
        self.fn, self.check = fn, check

    def bib_entry(self, mk, R, entry, mx, wos, reduced, nice):
        """The text of an entry against the record."""
        fail = lambda msg: self.fail('bib-fields', 'entry of {}: {}'.format(R.id, msg))
        kind, _, rest = entry.partition('{')
        key, _, rest = rest.partition(',\n')
        if not kind.startswith('@') or not key.strip() or not rest.endswith('}'):
            fail('not an entry: {!r}'.format(entry[:100]))
        if not nice and key.strip() != ('ISI:' + R.id[4:] if wos else str(R.id)):
            fail('its key is {!r}'.format(key))
        rest = rest[:-1].strip()
        authors = 'author = {{{{{}}}}},'.format(' and '.join(R.get('authorsFull', ['None'])))
        if not rest.startswith(authors):
            fail('starts with {!r}; right: {!r}'.format(rest[:100], authors))
        rest = rest[len(authors):].lstrip()
        if reduced:
            fields = {k: R[k] for k in mk.commonRecordFields if k in R}
        else:
            fields = {k: R[k] for k in R.keys()}
        while rest:
            tag, eq, rest = rest.partition(' = ')
            if not eq or tag not in fields:
                fail('an unknown field at {!r}'.format((tag + eq + rest)[:100]))
            v = fields.pop(tag)
            sep = '\n   ' if wos else ' and '
            v = sep.join(str(x) for x in v) if isinstance(v, list) else str(v)
            if wos:
                forms = ['{{' + v + '}},']
            elif len(v) > mx:
                w = v.replace('"', '')
                forms = ['"{}",'.format('" # "'.join(w[i:i + mx] for i in range(0, len(w), mx))),
                         # known finding bib-tail: the last part is missing when it is shorter than the others
                         '"{}",'.format('" # "'.join(w[i * mx:i * mx + mx] for i in range(len(w) // mx)))]
            elif '"' in v:
                forms = ['{' + v.replace('{', '\\{').replace('}', '\\}') + '},']
            else:
                forms = ['"' + v + '",', '{' + v + '},']
            for f in forms:
                if rest.startswith(f):
                    rest = rest[len(f):].lstrip()
                    self.ctx.note('values compared')
                    break
            else:
                fail('{} is {!r}...; right: {!r}'.format(tag, rest[:120], v[:120]))
        if fields:
            fail('it lacks {}'.format(sorted(fields)))

    # -- tables of words -----------------------------------------------------------------------
    def words(self, a):
        drop, lower, num, non, white, stem = bits(a, [None, None, None] + DROPS, [True, False], [True, False], [True, False], [True, False], STEM)
        kw = {'lower': lower, 'removeNumbers': num, 'removeNonWords': non, 'removeWhitespace': white}
        if drop is not None:
            kw['dropList'] = list(drop)
            self.args.append(kw['dropList'])
        if stem is not None:
            kw['stemmer'] = stem
        return kw

    @staticmethod
    def prepared(s, kw, flat):
        if 'dropList' in kw:
            if flat:
                s = s.replace('\n', ' ')
            parts = s.split(' ')
            for d in kw['dropList']:
                dp = d.split(' ')
                out, i = [], 0
                # words are what stands between spaces
                while i < len(parts):
                    if parts[i:i + len(dp)] == dp and (d or len(parts) > 1):
                        i += len(dp)
                    else:
                        out.append(parts[i])
                        i += 1
                parts = out if out else ['']
            s = ' '.join(parts)
        if kw['removeWhitespace']:
            out = []
            for c in s:
                c = ' ' if c.isspace() else c
                if c == ' ' and out and out[-1] == ' ':
                    continue
                out.append(c)
            s = ''.join(out)
        if kw['lower']:
            s = s.lower()
        out = []
        for c in s:
            if c != ' ' and (kw['removeNumbers'] and c.isdecimal() or kw['removeNonWords'] and not (c.isalnum() or c == '_')):
                continue
            out.append(c)
        return ''.join(out)

    def x_burst(self, mk, C, a):
        tag, = bits(a, ['keywords', 'title', 'abstract', 'authorsFull', 'nosuchtag'])
        kw = self.words(a // 5)
        drop = kw.get('dropList')
        want = []
        for R in C:
            if 'year' in R and tag in R:
                v = R[tag]
                s = self.prepared(' '.join(str(x) for x in v) if isinstance(v, list) else str(v), kw, False)
                want += [[str(R['year']), kw['stemmer'](t) if 'stemmer' in kw else t] for t in s.split(' ')]
        want.sort()
        tricky = drop is not None and '' in drop

        def fn(name):
            return C.forBurst(tag, outputFile=os.path.join(self.ctx.root, name), **kw)

        def check(name, ret):
            got = sorted([str(y), x] for y, x in zip(ret['year'], ret['word']))
            rows = read_rows(self.data(name))
            rows = rows[1:] if rows[:1] == [['year', 'word']] else rows
            # a row of one empty word is still a row
            self.same(sorted(rows), got, 'burst-file', 'rows of the file and what was returned')
            if not tricky:
                self.same(got, want, 'burst-words', 'words')
        self.fn, self.check, self.returns = fn, check, True

    def x_nlp(self, mk, C, a):
        cols, cop = bits(a, NLPCOLS, [False, True])
        kw = self.words(a // 10)
        want = []
        for R in C:
            ab = R.get('abstract', '')
            ab = ' '.join(ab) if isinstance(ab, list) else ab
            row = {'id': text(R.id), 'year': text(R.get('year', '')), 'title': text(R.get('title', '')), 'keywords': '|'.join(R.get('keywords', []))}
            for c in cols or []:
                if c not in ('id', 'year', 'title', 'keywords', 'abstract'):
                    row[c] = text(R.get(c))
            s = self.prepared(ab, kw, True)
            row['abstract'] = ' '.join(kw['stemmer'](t) for t in s.split(' ')) if 'stemmer' in kw else s
            if cop:
                row['copyright'] = None
                row['abstract'] = [ab, kw]
            want.append(row)
        tricky = '' in kw.get('dropList', [])
        if cols:
            kw = dict(kw, extraColumns=list(cols))
            self.args.append(kw['extraColumns'])

        def fn(name):
            return C.forNLP(os.path.join(self.ctx.root, name), removeCopyright=cop, **kw)

        def check(name, ret):
            n = len(ret['id'])
            if any(len(v) != n for v in ret.values()):
                self.fail('nlp-table', 'columns of {} rows'.format({k: len(v) for k, v in ret.items()}))
            got = [{k: text(v[i]) for k, v in ret.items()} for i in range(n)]
            rows = read_rows(self.data(name))
            table = [dict(zip(rows[0], r)) for r in rows[1:]]
            self.same(rows and sorted(rows[0]), sorted(ret), 'nlp-file', 'columns of the file and what was returned')
            self.same(table, got, 'nlp-file', 'rows of the file and what was returned')
            key = lambda r: sorted((k, v) for k, v in r.items() if k not in ('abstract', 'copyright'))
            if len(got) != len(want):
                self.fail('nlp-table', '{} rows for {} records'.format(len(got), len(want)))
            for g, x in zip(sorted(got, key=key), sorted(want, key=key)):
                self.same(key(g), key(x), 'nlp-table', 'a row')
            if cop:
                if not (kw['lower'] or kw['removeNumbers'] or kw['removeNonWords'] or 'dropList' in kw or 'stemmer' in kw):
                    whole = sorted(self.prepared(x['abstract'][0], kw, True).rstrip() for x in want)
                    self.same(sorted((g['abstract'] + g['copyright']).rstrip() for g in got), whole, 'nlp-copyright', 'abstracts with their copyrights')
            elif not tricky:
                self.same(sorted(g['abstract'] for g in got), sorted(x['abstract'] for x in want), 'nlp-words', 'abstracts')
        self.fn, self.check, self.returns = fn, check, True

    # -- series --------------------------------------------------------------------------------
    def tag(self, C, a):
        tags = sorted({k for R in C for k in R.keys()}, key=str) + (['authorsFull', 'keywords', 'year', 'title', 'citations', 'journal'] if self.st['x'] and a & 1 else [])
        return tags[a // 2 % len(tags)] if tags else 'year'

    def values(self, C, tag):
        for R in C:
            if tag in R:
                v = R[tag]
                for x in v if isinstance(v, list) else [v]:
                    yield R, x

    def x_rank(self, mk, C, a):
        pan, up, lim, cnt = bits(a, [True, False], [True, False], [False, False, True], [True, False])
        tag = self.tag(C, a // 24)
        self.label = 'rankedSeries({!r})'.format(tag)
        kw = {'pandasMode': pan, 'greatestFirst': up, 'giveCounts': cnt}
        counts = {}
        try:
            vals = [x for R, x in self.values(C, tag)]
            if lim:
                kw['limitTo'] = vals[::2]
                self.args.append(kw['limitTo'])
            for x in vals:
                if not lim or not kw['limitTo'] or x in kw['limitTo']:
                    counts[x] = counts.get(x, 0) + 1
        except TypeError:
            self.may_raise = (TypeError,)

        def fn(name):
            return C.rankedSeries(tag, outputFile=os.path.join(self.ctx.root, name), **kw)

        def check(name, ret):
            rows = read_rows(self.data(name))
            self.same(rows[:1], [[str(tag), 'count']], 'rank-file', 'head of the file')
            ns = [int(r[1]) for r in rows[1:]]
            if ns != sorted(ns, reverse=up):
                self.fail('rank-file', 'counts in the order {}'.format(ns))
            self.same(sorted(rows[1:]), sorted([text_cell(x), str(n)] for x, n in counts.items()), 'rank-file', 'rows')
        self.fn, self.check, self.returns = fn, check, True

    def x_series(self, mk, C, a):
        pan, up, lim, none = bits(a, [True, False], [True, False], [False, False, True], [False, False, False, True])
        tag = None if none else self.tag(C, a // 48)
        self.label = 'timeSeries({!r})'.format(tag)
        kw = {'pandasMode': pan, 'greatestFirst': up}
        years = {}
        try:
            if tag is None:
                pairs = [(R, R) for R in C]
            else:
                pairs = list(self.values(C, tag))
                if lim:
                    kw['limitTo'] = [x for _, x in pairs][::2]
                    self.args.append(kw['limitTo'])
            for R, x in pairs:
                if 'year' in R and not (kw.get('limitTo') and x not in kw['limitTo']):
                    y = R['year']
                    years.setdefault(x, set()).add(y)
            sorted(y for ys in years.values() for y in ys)
        except TypeError:
            self.may_raise = (TypeError,)

        def fn(name):
            return C.timeSeries(tag, outputFile=os.path.join(self.ctx.root, name), **kw)

        def check(name, ret):
            rows = read_rows(self.data(name))
            self.same(rows[:1], [[str(tag), 'years']], 'series-file', 'head of the file')
            self.same(sorted([r[0], sorted(r[1].split('|'))] for r in rows[1:]), sorted([text_cell(x), sorted(text(y) for y in ys)] for x, ys in years.items()), 'series-file', 'rows')
        self.fn, self.check, self.returns = fn, check, True


def tagdicts(mk):
    import metaknowledge.recordCollection as m
    return m.fullToTagDict, m.tagToFullDict


def text_cell(x):
    return '' if x is None else str(x)


def load(ctx, w, sc):
    mk = ctx.mk
    os.makedirs(os.path.join(ctx.root, 'lib'), exist_ok=True)
    if sc['kind'] == 'mini':
        common.put_file(w, 'lib/m.isi', mini.render(mini.clean(sc['specs'])))
    else:
        for f in sc['files']:
            if isinstance(f, dict) and f['recs']:
                common.put_file(w, 'lib/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))
    cls = mk.GrantCollection if sc['kind'] == 'grants' else mk.RecordCollection
    C = cls(os.path.join(ctx.root, 'lib'))
    C.name = NAMES[sc['name'] % len(NAMES)]
    if sc.get('sur'):
        # text no file can hold
        d = {'PT': ['J'], 'AU': ['Smith, A'], 'AF': ['Smith, Ann'], 'TI': ['Odd one'], 'AB': ['Odd text'], 'DE': ['odd key'], 'PY': ['2001'], 'UT': ['WOS:SURROGATE']}
        for b, t in enumerate(['TI', 'AB', 'DE']):
            if sc['sur'] >> b & 1:
                d[t] = [d[t][0] + ' \udc80']
        C.add(mk.WOSRecord(d))
    return C


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    with w:
        C = load(ctx, w, sc)
        common.mark_bad(C, sc)
        if sc.get('known'):
            R = next(iter(C))
            s = R.bibString(maxLength=7)
            ctx.check('"{}"'.format(R['UT']) in s.replace('" # "', ''), 'bib-tail', 'writeBib(maxStringLength=7) and bibString(maxLength=7) lose the end of {!r}'.format(R['id']))
            return
        before = common.dump_collection(C)
        for n, st in enumerate(sc['steps']):
            step(ctx, w, C, n, st)
            d = common.diff(common.dump_collection(C), before)
            ctx.check(d is None, 'collection-changed', lambda: 'step {} ({}): {} (right: before)'.format(n, st['x'], d))


def attempt(ctx, e, name):
    """('ok', returned) or ('raise', exception)"""
    args = [list(x) for x in e.args]
    try:
        r = 'ok', e.fn(name)
    except Exception as exc:      # noqa
        r = 'raise', exc
    ctx.check(args == e.args, 'argument-changed', lambda: '{}: the arguments became {}; right: {}'.format(e.label, e.args, args))
    return r


def verify(e, name, ret):
    e.check(name, ret) if getattr(e, 'returns', False) else e.check(name)
    e.ctx.note('exports verified')


def step(ctx, w, C, n, st):
    e = Export(ctx, w, C, st)
    e.label = 'step {}: {}'.format(n, e.label)
    name = 'out{}.dat'.format(st['out'])
    io0 = w.steps
    ref = attempt(ctx, e, 'ref-{}.dat'.format(n))
    n_io = w.steps - io0
    if ref[0] == 'raise' and isinstance(ref[1], UnicodeEncodeError) and any('\udc80' in x for R in C for v in common.raw_fields(R).values() for x in v):
        ctx.active = True
        ctx.note('exports of text no file can hold')
        return
    if ref[0] == 'raise':
        ctx.check(isinstance(ref[1], e.may_raise), 'export-failed', lambda: '{} failed without any fault: {!r}'.format(e.label, ref[1]))
        ctx.note('exports that cannot work')
        ctx.state(st['x'], 'impossible', type(ref[1]).__name__)
        return
    verify(e, 'ref-{}.dat'.format(n), ref[1])
    h = st['hit']
    if h is not None and n_io:
        f = {'op': h['op'] if h['kind'] != 'short' else 'write', 'n': int(h['at'] * max(1, n_io if '|' in h['op'] else n_io // 2)), 'kind': h['kind'], 'arg': h['arg'], 'lose': h['lose']}
        if '|' not in f['op']:
            f['n'] = int(h['at'] ** 2 * (1 if f['op'] != 'write' else max(1, n_io - 2)))
        if h['sticky'] and h['kind'] != 'short':
            f['sticky'] = True
        w.faults = [f]
        k = len(w.fired_list)
        got = attempt(ctx, e, name)
        w.faults = []
        fired = w.fired_list[k:]
        ctx.state(st['x'], st['a'] % 24, h['kind'], fired[0]['op'] if fired else None, got[0])
        if fired:
            ctx.active = True
            ctx.note('exports struck by a fault')
        if fired and h['kind'] != 'short':
            ctx.check(got[0] == 'raise', 'error-swallowed', lambda: '{}: {} of {} failed with {}, but the export returned normally'.format(e.label, fired[0]['op'], fired[0]['rel'], h['kind']))
            ctx.check(isinstance(got[1], (OSError, mkexc(ctx))), 'wrong-error', lambda: '{}: a failing disk made it raise {!r}'.format(e.label, got[1]))
        else:
            ctx.check(got[0] == 'ok', 'export-failed', lambda: '{} failed although the disk did not: {!r}'.format(e.label, got[1]))
            verify(e, name, got[1])
    else:
        ctx.state(st['x'], st['a'], None)
    got = attempt(ctx, e, name)
    ctx.check(got[0] == 'ok', 'export-failed', lambda: '{} failed without any fault: {!r}'.format(e.label, got[1]))
    verify(e, name, got[1])


def mkexc(ctx):
    return ctx.mk.mkExceptions.mkException
