"""P16: every counting analysis is what counting the records gives, in each of its forms and after any history."""
import csv
import io
import os
from collections import Counter

from .. import common, corpus, fields, mini, queries, truth
from ..common import pick
from .p09 import build, interrupted

RUNS = {'quick': 27000, 'thorough': 220000}
CAP = {'quick': 100, 'thorough': 800}
CROSS = True
REAL = 'record parsing, field processing, citations, all counting analyses of RecordCollection and diffusion'
STUB = 'disk (real bytes, simulated calls), hash seed of the process and insertion order (chosen by the scenario), Ctrl-C (raised at a chosen line), terminal size, clock'
STATE_MEASURE = 'distinct (analysis, form, size of the answer) triples'
TAGS = ['AU', 'authorsFull', 'keywords', 'DE', 'journal', 'year', 'title', 'WC', 'j9', 'citations', 'volume', 'authorsShort', 'CR', 'PY', 'subjects', 'nonexistent']
FTAGS = {'wos': ['AU', 'AF', 'keywords', 'DE', 'citations', 'year', 'TI', 'SO', 'FU', 'NR', 'authorsFull', 'month'], 'med': ['AU', 'FAU', 'OT', 'year', 'JT', 'authorsFull', 'keywords', 'PT'],
         'pro': ['authorsFull', 'title', 'year', 'keywords', 'Subject', 'Classification'], 'sco': ['authorsFull', 'citations', 'year', 'title', 'Author Keywords', 'journal', 'authorsShort']}
OPS = ['ranked', 'ranked', 'series', 'cooc', 'stats', 'citesof', 'citefilter', 'citefilter', 'years', 'getcites', 'getcites', 'rpys', 'diff', 'diff', 'diff', 'glimpse', 'reccites', 'diffadd']


def gen(rng, i, tier):
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            q = {'op': 'query', 'q': pick(rng, queries.RECORD_QUERIES), 'a': rng.randrange(512)}
            if rng.random() < .3:
                q['kbd'] = int(2 ** (rng.random() * 12))
            steps.append(q)
        s = {'op': pick(rng, OPS), 'o': rng.randrange(1 << 16), 'a': rng.randrange(48), 'b': rng.randrange(48), 'c': rng.randrange(48)}
        if rng.random() < .1:
            s['kbd'] = int(2 ** (rng.random() * 10))
        steps.append(s)
    sc = {'world': common.world_conf(rng), 'bad': common.gen_bad(rng), 'steps': steps, 'src': rng.randrange(1 << 14), 'tty': [rng.choice([20, 55, 80, 100, 200]), rng.choice([3, 10, 24, 50])]}
    if rng.random() < .25:
        return dict(sc, mode='files', files=[common.file_spec(rng, corpus.RECORD_FMTS, j, kmax=14, nmax=6) for j in range(rng.randint(1, 2))])
    specs = mini.large(rng, .015) or mini.specs(rng, 1, 8 if tier == 'quick' else 14)
    if any(t['op'] == 'rpys' for t in steps):       # neighbouring years, each cited often
        near = [c for c in range(50, 50 + len(mini.EXT)) if 1999 <= mini.EXT[c % len(mini.EXT)][1] <= 2004]
        for x in specs:
            x['cr'] = x['cr'] + rng.sample(near, rng.randrange(len(near)))
    return dict(sc, mode='mini', specs=specs, order=rng.randrange(1000), build=pick(rng, ['load', 'load', 'add', 'copy', 'union']))


# ------------------------------------------------------------------------------ what is counted
def cview(c):
    """A library citation as the dictionary mini.view makes."""
    d = {'id': c.ID(), 'original': str(c), 'bad': bool(c.bad), 'anon': bool(c.isAnonymous())}
    for a in ('author', 'year', 'journal', 'V', 'P', 'misc', 'DOI'):
        if hasattr(c, a):
            d[a] = getattr(c, a)
    return d


def rview(R, tags):
    """A record as a view, from its fields (read from a collection of its own, loaded freshly)."""
    v = {}
    for t in tags:
        x = R.get(t)
        if x is not None:
            v[t] = [cview(y) if type(y).__name__ == 'Citation' else y for y in x] if isinstance(x, list) else x
    return {'id': R.id, 'self': cview(R.createCitation()), 'selves': [cview(c) for c in R.createCitation(multiCite=True)], 'cites': v.get('citations', []), 'vals': v}


def key(x):
    return ('cite', x['id']) if isinstance(x, dict) else ('cite', x.ID()) if type(x).__name__ == 'Citation' else ('rec', x.id) if hasattr(x, 'sourceFile') else x


def vals(v, tag):
    x = v['vals'].get(tag)
    return [] if x is None else x if isinstance(x, list) else [x]


def tagged(k):
    """Whether k stands for a citation or a record (values may be tuples of their own)."""
    return isinstance(k, tuple) and len(k) == 2 and k[0] in ('cite', 'rec')


class A:
    """The analyses of one collection and what they must give."""

    def __init__(self, ctx, w, C, vs, src):
        self.ctx, self.w, self.mk, self.C, self.vs = ctx, w, ctx.mk, C, vs
        self.origs = {}
        for v in vs:
            for c in v['cites']:
                self.origs.setdefault(c['original'], c)
        seen, self.src = set(), []
        for j, v in enumerate(vs):
            ids = {c['id'] for c in v['selves']} | {v['self']['id']}
            if src >> j & 1 and not ids & seen:
                self.src.append(v)
            if src >> j & 1:
                seen |= ids
        self.n = 0

    def same(self, got, want, what):
        self.ctx.check(got == want, 'count', lambda: '{}: got {!r}, the records give {!r}'.format(what, trim(got, want), trim(want, got)))

    def out(self):
        self.n += 1
        return 'out{}.csv'.format(self.n)

    def rows(self, name):
        return list(csv.reader(io.StringIO(common.get_file(self.w, name).decode('utf-8'), newline='')))

    # rankings
    def ranked(self, s, tags):
        t = tags[s['a'] % len(tags)]
        b = [bool(s['o'] >> j & 1) for j in range(10)]
        want = Counter(key(x) for v in self.vs for x in vals(v, t))
        limit = None
        if b[0]:
            limit = [x for x in sorted(want, key=repr) if not tagged(x)][s['b'] % 3:5]
            if limit:
                want = Counter({k: n for k, n in want.items() if k in limit})
        fname = self.out() if b[1] else None
        great = b[2]
        mode = s['o'] // 16 % 4
        kw = [dict(pandasMode=True), dict(pandasMode=False), dict(pandasMode=False, giveCounts=False, giveRanks=True), dict(pandasMode=False, giveCounts=False)][mode]
        got = self.C.rankedSeries(t, outputFile=fname, greatestFirst=great, limitTo=limit or None, **kw)
        levels = sorted(set(want.values()), reverse=True)
        rank = {k: 1 + levels.index(n) for k, n in want.items()}
        what = 'rankedSeries({!r}, {}, greatestFirst={}, limitTo={})'.format(t, kw, great, limit)
        if mode == 0:
            self.same(sorted(got), ['count', 'entry', 'rank'], what)
            es = [key(e) for e in got['entry']]
            self.same(sorted(zip(map(repr, es), got['count'], got['rank'])), sorted((repr(k), n, rank[k]) for k, n in want.items()), what)
        else:
            es = [key(e) for e in (got if mode == 3 else [e for e, _ in got])]
            if mode == 3:
                self.same(sorted(map(repr, es)), sorted(map(repr, want)), what)
            else:
                self.same(sorted((repr(key(e)), n) for e, n in got), sorted((repr(k), n if mode == 1 else rank[k]) for k, n in want.items()), what)
        ns = [want[e] for e in es]
        self.same(ns, sorted(ns, reverse=great), what + ' order')
        if fname:
            rows = self.rows(fname)
            self.same(rows[0], [str(t), 'count'], what + ' file header')
            self.table_rows(rows[1:], Counter(want), what + ' file')
        return sorted(map(repr, want.items()))

    def text(self, k):
        return None if tagged(k) else str(k)

    def table_rows(self, rows, want, what):
        """Rows (text of the entry, str(count)); a citation may show as any of its originals."""
        left = Counter()
        for r in rows:
            c = self.origs.get(r[0])
            left[(('cite', c['id']) if c is not None and ('cite', c['id']) in want else r[0], r[1])] += 1
        self.same(sorted(map(repr, left.elements())), sorted(repr((k if tagged(k) else str(k), str(n))) for k, n in want.items()), what)

    def series(self, s, tags):
        b = [bool(s['o'] >> j & 1) for j in range(10)]
        t = None if s['a'] % 4 == 0 else tags[s['a'] % len(tags)]
        want = {}
        for v in self.vs:
            y = v['vals'].get('year')
            if y is None:
                continue
            for x in ([('rec', v['id'])] if t is None else [key(z) for z in vals(v, t)]):
                want.setdefault(x, Counter())[y] += 1
        limit = None
        if b[0] and t is not None:
            limit = [x for x in sorted(want, key=repr) if not tagged(x)][s['b'] % 3:5]
            if limit:
                want = {k: n for k, n in want.items() if k in limit}
        fname = self.out() if b[1] else None
        mode = s['o'] // 16 % 3
        kw = [dict(pandasMode=True), dict(pandasMode=False), dict(pandasMode=False, giveYears=False)][mode]
        got = self.C.timeSeries(t, outputFile=fname, greatestFirst=b[2], limitTo=limit or False, **kw)
        what = 'timeSeries({!r}, {}, greatestFirst={}, limitTo={})'.format(t, kw, b[2], limit)
        flat = [(k, y, n) for k, d in want.items() for y, n in d.items()]
        if mode == 0:
            self.same(sorted(zip((repr(key(e)) for e in got['entry']), got['year'], got['count'])), sorted((repr(k), y, n) for k, y, n in flat), what)
            years = got['year']
        elif mode == 1:
            self.same(sorted((repr(key(e)), y) for e, y in got), sorted((repr(k), y) for k, y, _ in flat), what)
            years = [y for _, y in got]
        else:
            self.same(sorted(repr(key(e)) for e in got), sorted(repr(k) for k, _, _ in flat), what)
            years = []
        self.same(years, sorted(years, reverse=b[2]), what + ' order')
        if fname:
            rows = self.rows(fname)
            self.same(rows[0], [str(t), 'years'], what + ' file header')
            if t is not None:
                left = []
                for r in rows[1:]:
                    c = self.origs.get(r[0])
                    left.append(repr((('cite', c['id']) if c is not None and ('cite', c['id']) in want else r[0], sorted(r[1].split('|')))))
                self.same(sorted(left), sorted(repr((k if tagged(k) else str(k), sorted(str(y) for y in d))) for k, d in want.items()), what + ' file')
            else:
                self.same(len(rows) - 1, len(want), what + ' file')
        return sorted((repr(k), y, n) for k, y, n in flat)

    def cooc(self, s, tags):
        t = tags[s['a'] % len(tags)]
        others = [tags[s['b'] % len(tags)]] + ([tags[s['c'] % len(tags)]] if s['o'] & 1 else [])
        want = {}
        for v in self.vs:
            for k in vals(v, t):
                want.setdefault(repr(key(k)), Counter())
            for o in others:
                for x in vals(v, o):
                    for k in vals(v, t):
                        want[repr(key(k))][repr(key(x))] += 1
        got = {repr(key(k)): {repr(key(x)): n for x, n in d.items()} for k, d in self.C.cooccurrenceCounts(t, *others).items()}
        self.same(srt(got), srt(want), 'cooccurrenceCounts({!r}, {})'.format(t, others))
        return srt(want)

    def stats(self, s, tags):
        kt = ['citation', 'journal', 'year', 'author'][s['a'] % 4]
        want = Counter()
        for v in self.vs:
            for c in v['cites']:
                if kt == 'citation':
                    want[('cite', c['id'])] += 1
                elif c.get(kt) is not None:
                    want[c[kt]] += 1
        if s['o'] & 1:
            d = self.C.localCiteStats(pandasFriendly=True, keyType=kt)
            got = Counter({key(k): n for k, n in zip(d['Citations'], d['Counts'])})
            self.same((sorted(d), len(d['Citations'])), (['Citations', 'Counts'], len(want)), 'localCiteStats table')
        else:
            got = {key(k): n for k, n in self.C.localCiteStats(keyType=kt).items()}
        self.same(srt(got), srt(want), 'localCiteStats(keyType={!r})'.format(kt))
        return srt(want)

    def subset(self, got, ids, what):
        self.same(sorted(R.id for R in got), sorted(ids), what)
        self.ctx.check(all(self.C.getID(R.id) == R for R in got), 'count', lambda: what + ': records are not those of the collection')
        return sorted(ids)

    def citesof(self, s, tags):
        by_id = {R.id: R for R in self.C}
        v = self.vs[s['a'] % len(self.vs)]
        how = s['o'] % 4
        if how == 3 and v['cites']:
            c = v['cites'][s['b'] % len(v['cites'])]
            R = by_id[v['id']]
            arg, want = [x for x in R.get('citations') if x.ID() == c['id']][0], c['id']
        else:
            arg, want = [by_id[v['id']], v['id'], by_id[v['id']].createCitation(), v['id']][how], v['self']['id']
        return self.subset(self.C.localCitesOf(arg), [x['id'] for x in self.vs if any(c['id'] == want for c in x['cites'])], 'localCitesOf({!r})'.format(arg))

    def citefilter(self, s, tags):
        f = ['all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'][s['a'] % 9]
        k = ['a', 'SMITH', 'nature', 'V3', '', '1', 'Adams', 'ANON'][s['b'] % 8] if f != 'year' else str(mini.PY[s['b'] % 4]) if s['b'] % 3 else '1990'
        rev, case = bool(s['o'] & 1), bool(s['o'] & 2)

        def hit(c):
            if f == 'all':
                return k in c['original'] if case else k.upper() in c['original'].upper()
            if f == 'anonymous':
                return c['anon']
            if f == 'bad':
                return c['bad']
            if c.get(f) is None:
                return False
            if f == 'year':
                return c['year'] == int(k)
            return k.upper() in (c[f].upper() if f == 'author' else c[f])
        ids = [v['id'] for v in self.vs if any(hit(c) for c in v['cites']) != rev]
        return self.subset(self.C.citeFilter(keyString=k, field=f, reverse=rev, caseSensitive=case), ids, 'citeFilter({!r}, {!r}, reverse={}, caseSensitive={})'.format(k, f, rev, case))

    def years(self, s, tags):
        lo = [1900, 1998, 2000, 2001, 2005, 2010][s['a'] % 6]
        hi = [1998, 2001, 2004, 2005, 2012][s['b'] % 5]
        ids = [v['id'] for v in self.vs if v['vals'].get('year') is not None and lo <= v['vals']['year'] <= hi]
        missing = any(v['vals'].get('year') is None for v in self.vs)
        if s['o'] & 1:
            st, got = common.outcome(lambda: self.C.yearSplit(lo, hi, dropMissingYears=False))
            if missing:
                self.ctx.check(st == 'raise' and isinstance(got, TypeError), 'count', 'yearSplit must raise when a year is missing and missing years are not dropped')
                return None
            self.ctx.check(st == 'ok', 'count', lambda: 'yearSplit raised {!r}'.format(got))
        else:
            got = self.C.yearSplit(lo, hi)
        return self.subset(got, ids, 'yearSplit({}, {})'.format(lo, hi))

    def cite_list(self, vs, s):
        f = [None, 'year', 'journal', 'author', 'V', 'DOI'][s['a'] % 6]
        v = [None, 2001, [2001, 1990], 'NATURE', ['NATURE', 'GENE'], 'Adams J', 'V3'][s['b'] % 7]
        out = []
        for x in vs:
            for c in x['cites']:
                if f is None or c.get(f) is not None and (v is None or c[f] in (v if isinstance(v, list) else [v])):
                    out.append(c)
        return f, v, out

    def cite_rows(self, got, want, counts, what):
        cols = ['author', 'citeString', 'journal', 'year'] + (['fraction-cites-overall', 'fraction-cites-year', 'num-cites'] if counts else [])
        self.same(sorted(got), sorted(cols), what + ' columns')
        n = Counter(c['id'] for c in want)
        per_year = Counter(c['year'] for c in want if 'year' in c)
        ids = []
        for row in zip(*(got[c] for c in cols)):
            r = dict(zip(cols, row))
            c = self.origs.get(r['citeString'])
            self.ctx.check(c is not None and n[c['id']], 'count', lambda: '{}: {!r} is not among the citations'.format(what, r['citeString']))
            ids.append(c['id'])
            for a in ('author', 'journal', 'year'):
                self.same(r[a], c.get(a), '{}: {} of {!r}'.format(what, a, r['citeString']))
            if counts:
                self.same(r['num-cites'], n[c['id']], '{}: num-cites of {!r}'.format(what, r['citeString']))
                self.same(r['fraction-cites-overall'], n[c['id']] / len(want), '{}: overall fraction of {!r}'.format(what, r['citeString']))
                if 'year' in c:
                    self.same(r['fraction-cites-year'], n[c['id']] / per_year[c['year']], '{}: fraction of the year of {!r}'.format(what, r['citeString']))
        self.same(sorted(ids), sorted(n), what)
        self.same({len(x) for x in got.values()}, {len(n)}, what + ' column lengths')

    def getcites(self, s, tags):
        f, v, want = self.cite_list(self.vs, s)
        what = 'getCitations(field={!r}, values={!r})'.format(f, v)
        if s['o'] & 1:
            got = self.C.getCitations(field=f, values=v, pandasFriendly=False)
            self.same(sorted(c.ID() for c in got), sorted({c['id'] for c in want}), what)
        else:
            counts = bool(s['o'] & 2)
            self.cite_rows(self.C.getCitations(field=f, values=v, counts=counts), want, counts, what)
        return sorted({c['id'] for c in want})

    def reccites(self, s, tags):
        v = self.vs[s['c'] % len(self.vs)]
        f, val, want = self.cite_list([v], s)
        R = self.C.getID(v['id'])
        what = 'Record.getCitations(field={!r}, values={!r})'.format(f, val)
        if s['o'] & 1:
            self.same([c.ID() for c in R.getCitations(field=f, values=val, pandasFriendly=False)], [c['id'] for c in want], what)
        else:
            self.cite_rows(R.getCitations(field=f, values=val), want, False, what)
        return [c['id'] for c in want]

    def rpys(self, s, tags):
        lo = [None, None, 1985, 1990, 2000, 1998 + s['a'] // 7][s['a'] % 6]
        hi = [None, None, 1995, 2001, 2010, 1999 + s['b'] // 7][s['b'] % 6]
        drop = [None, 1990, [1990, 2001], {1999}][s['c'] % 4]
        empty = bool(s['o'] & 1)
        yc = Counter()
        for v in self.vs:
            y = v['vals'].get('year', float('inf'))
            for c in v['cites']:
                z = c.get('year')
                if z is None or hi is not None and z > hi + 2 or lo is not None and z < lo - 2 or y < z + 2:
                    continue
                yc[z] += 1
        got = self.C.rpys(minYear=lo, maxYear=hi, dropYears=drop, rankEmptyYears=empty)
        what = 'rpys(minYear={}, maxYear={}, dropYears={}, rankEmptyYears={})'.format(lo, hi, drop, empty)
        self.same(sorted(got), ['abs-deviation', 'count', 'rank', 'year'], what)
        if not yc and (lo is None or hi is None):
            self.same({len(x) for x in got.values()}, {0}, what)
            return []
        a = max(min(yc), 1000) if lo is None else lo
        b = min(max(yc), 2100) if hi is None else hi
        dropped = set() if drop is None else {drop} if isinstance(drop, int) else set(drop)
        want = {}
        for y in range(a, b + 1):
            if y not in dropped:
                want[y] = (yc[y], yc[y] - sorted(yc[y + d] for d in (-2, -1, 0, 1, 2))[2])
        rows = sorted(zip(got['year'], got['count'], got['abs-deviation']))
        self.same(rows, sorted((y, c, d) for y, (c, d) in want.items()), what)
        # years with equal deviations may be ranked in any order
        ranks = dict(zip(got['year'], got['rank']))
        order = sorted(want, key=lambda y: want[y][1])
        pos = {}
        for i, y in enumerate(order, 1):
            pos.setdefault(want[y][1], []).append(i)
        seen = set()
        for y in want:
            if want[y][0] == 0 and not empty:
                self.same(ranks[y], 0, what + ' rank of the empty year {}'.format(y))
            else:
                self.ctx.check(ranks[y] in pos[want[y][1]] and ranks[y] not in seen, 'count', lambda: '{}: rank of {} is {}, possible are {}'.format(what, y, ranks[y], pos[want[y][1]]))
                seen.add(ranks[y])
        return sorted(rows)

    # diffusion
    def expect_diff(self, src, dst, stype, extra, all_authors):
        credit, counts = {}, {}
        for v in src:
            xs = [('rec', v['id'])] if stype == 'raw' else [key(x) for x in vals(v, stype)]
            if not xs:
                continue
            for c in (v['selves'] if all_authors else [v['self']]):
                credit[c['id']] = xs
            for x in xs:
                counts.setdefault(x, Counter({'TargetCount': 0}))
        for v in dst:
            for c in v['cites']:
                for x in credit.get(c['id'], ()):
                    counts[x]['TargetCount'] += 1
                    if extra is not None:
                        for e in vals(v, extra):
                            counts[x][key(e)] += 1
        return {k: dict(d, TargetCount=d['TargetCount']) if extra is not None else d['TargetCount'] for k, d in counts.items()}

    def diff(self, s, tags):
        b = [bool(s['o'] >> j & 1) for j in range(8)]
        stype = (['raw'] * 5 + ['authorsFull', 'WC', 'journal', 'keywords', 'year', 'AU'])[s['a'] % 11]
        extra = [None, None, 'year', 'WC', 'PY', 'keywords'][s['b'] % 6]
        if extra in (stype, 'PY' if stype == 'year' else None):
            extra = None
        if any(t is not None and t != 'raw' and t not in tags for t in (stype, extra)):
            return None
        S = self.mk.RecordCollection([R for R in self.C if R.id in {v['id'] for v in self.src}])
        allau = b[0]
        got = self.mk.diffusionCount(S, self.C, sourceType=stype, extraValue=extra, pandasFriendly=b[1], compareCounts=b[2], numAuthors=b[3], useAllAuthors=allau)
        want = self.expect_diff(self.src, self.vs, stype, extra, allau)
        loc = self.expect_diff(self.src, self.src, stype, extra, allau)
        what = 'diffusionCount(sourceType={!r}, extraValue={!r}, pandasFriendly={}, compareCounts={}, useAllAuthors={})'.format(stype, extra, b[1], b[2], allau)
        if not b[1]:
            norm = lambda d: {repr(key(k)): n for k, n in d.items()} if isinstance(d, dict) else d      # noqa
            g = {repr(key(k)): tuple(norm(x) for x in n) if isinstance(n, tuple) else norm(n) for k, n in got.items()}
            e = {repr(k): (norm(n), norm(loc[k])) if b[2] else norm(n) for k, n in want.items()}
            self.same(srt(g), srt(e), what)
            return srt(e)
        n = {len(x) for x in got.values()}
        self.ctx.check(len(n) == 1, 'count', lambda: '{}: columns of different lengths: {}'.format(what, {k: len(x) for k, x in got.items()}))
        cols = ['TargetCount'] + (['SourceCount'] if b[2] else []) + ([extra] if extra else [])
        for c in cols:
            self.ctx.check(c in got, 'count', lambda: '{}: no column {}'.format(what, c))
        if stype == 'raw':
            by_id = {v['id']: v for v in self.src}
            idcol = [c for c in ('UT', 'PMID', 'EID', 'ProQuest document ID') if c in got]
            if not self.src:
                return []
            if not idcol:
                return None
            ids = [('rec', x) for x in got[idcol[0]]]
            if idcol[0] != 'UT' or None in got['UT']:
                return None
            if b[3]:
                for i, x in zip(ids, got['numAuthors']):
                    self.same(x, len(vals(by_id[i[1]], 'authorsShort')), what + ' numAuthors')
            for i, x in zip(ids, zip(got.get('TI', [])) if 'TI' in got else ()):
                self.same(x[0], by_id[i[1]]['vals'].get('title'), what + ' title of {}'.format(i[1]))
        else:
            ids = [key(x) for x in got[stype]]
        g = []
        for j, i in enumerate(ids):
            g.append(repr((i, key(got[extra][j]) if extra else None, got['TargetCount'][j], got['SourceCount'][j] if b[2] else None)))
        e = []
        for i, d in want.items():
            for x, c in (d.items() if extra else [(None, d)]):
                e.append(repr((i, x, c, (loc[i].get(x, 0) if extra else loc[i]) if b[2] else None)))
        self.same(sorted(g), sorted(e), what)
        return sorted(e)

    def diffadd(self, s, tags):
        """Counts added to the nodes of a graph."""
        import networkx as nx
        tag = ['citations', 'authorsFull', 'keywords'][s['a'] % 3]
        extra = [None, None, 'year'][s['b'] % 3]
        if 'authorsFull' not in tags or 'keywords' not in tags:
            return None
        S = self.mk.RecordCollection([R for R in self.C if R.id in {v['id'] for v in self.src}])
        want = self.expect_diff(self.src, self.vs, tag, extra, True)
        g = nx.Graph()
        names = {}
        for k in want:
            if not tagged(k):
                names[k] = k
        if tag == 'citations':
            for v in self.src:
                for c in v['cites']:
                    names[c['original']] = ('cite', c['id'])
        names['somebody else'] = None
        g.add_nodes_from(names)
        # the years by decade, and keys every node has to get
        fold = (lambda y: '{}0s'.format(str(y)[:3])) if extra and s['o'] & 2 else None
        keys = None if not extra or not s['o'] & 4 else ['1990s', '2000s', 2001, 'never']
        before = self.mk.diffusionCount(S, self.C, sourceType=tag, extraValue=extra, extraMapping=fold) if s['o'] & 1 else None
        n = None if before is None else len(before)
        self.mk.diffusionAddCountsFromSource(g, S, self.C, nodeType=tag, extraType=extra, diffusionLabel='D', countsDict=before, extraKeys=keys, extraMapping=fold)
        self.ctx.check(before is None or len(before) == n, 'argument-changed', lambda: 'diffusionAddCountsFromSource changed the counts it was given: {} entries of {}'.format(len(before), n))
        firsts = {}
        for name, k in names.items():
            if tagged(k):
                firsts.setdefault(k, []).append(name)
        for name, k in names.items():
            d = dict(g.nodes[name])
            w = want.get(k, 0) if k is not None else 0
            e = dict.fromkeys(keys or [], 0)
            for x, c in w.items() if isinstance(w, dict) else [('TargetCount', w)]:
                x = 'D' if x == 'TargetCount' else fold(x) if fold else x
                e[x] = c + (e.get(x) or 0)
            if tagged(k) and len(firsts[k]) > 1:
                continue        # equal citations with different texts: the counts go to one of the texts
            self.same(d, e, 'diffusionAddCountsFromSource(nodeType={!r}, extraType={!r}, extraKeys={!r}, by decade {}): node {!r}'.format(tag, extra, keys, bool(fold), name))
        return sorted(map(repr, want.items()))

    def glimpse(self, s, tags):
        cols, rows = self.w.tty or (80, 24)
        cols, rows = (80 if cols < 55 else cols), (24 if rows < 6 else rows)
        ts = [[], ['keywords'], ['authorsFull', 'year'], ['journal', 'keywords', 'authorsFull']][s['a'] % 4]
        if any(t not in tags for t in (ts or ['authorsFull', 'journal', 'citations'])):
            return None
        text = self.C.glimpse(*ts, compact=bool(s['o'] & 1))
        lines = text.split('\n')
        self.ctx.check('{} Records from'.format(len(self.vs)) in text, 'count', lambda: 'glimpse does not say {} records: {!r}'.format(len(self.vs), lines[:3]))
        if s['o'] & 1:
            return None
        secs = {t: t for t in ts} or {'Top Authors': 'authorsFull', 'Top Journals': 'journal', 'Top Cited': 'citations'}
        blocks = text.split('\n\n')
        for name, t in secs.items():
            want = Counter(key(x) for v in self.vs for x in vals(v, t))
            levels = sorted(set(want.values()), reverse=True)
            block = [x for x in blocks if x.split('\n')[0] == name or x.split('\n')[0] == '' and name in x.split('\n')[:2]]
            self.ctx.check(bool(block), 'count', lambda: 'glimpse has no part {!r}'.format(name))
            got = [r.split(' ', 1) for r in block[0].split('\n') if r and r != name]
            # how many fit is up to the layout, but the first always do
            ranks = sorted(1 + levels.index(c) for c in want.values())
            self.ctx.check(len(got) == len(ranks) or len(got) >= 1 and (rows - 8) // 2 < len(ranks), 'count', lambda: 'glimpse({}) lists {} of {} entries on {} lines'.format(ts, len(got), len(ranks), rows))
            ranks = ranks[:len(got)]
            self.same([int(r[0]) for r in got], ranks, 'glimpse({}) ranks of {!r}'.format(ts, name))
            for r in got:
                width = cols - len(r[0]) - 1
                ok = {(c['original'] if tagged(k) else str(k))[:width] for k, m in want.items() if 1 + levels.index(m) == int(r[0])
                      for c in ([x for x in self.origs.values() if tagged(k) and x['id'] == k[1]] or [{'original': ''}])}
                self.ctx.check((r[1] if len(r) > 1 else '') in ok, 'count', lambda: 'glimpse({}) lists {!r} at rank {}, but there are {!r}'.format(ts, r[1:], r[0], sorted(ok)[:8]))
        return None


def srt(d):
    return sorted((repr(k), srt(v) if isinstance(v, dict) else [srt(x) if isinstance(x, dict) else x for x in v] if isinstance(v, tuple) else v) for k, v in d.items())


def trim(a, b):
    """What of a differs from b, for messages."""
    if isinstance(a, list) and isinstance(b, list) and len(a) > 6:
        return [x for x in a if x not in b][:6] or a[:40]
    return a


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=tuple(sc['tty']) if sc.get('tty') and all(sc['tty']) else None)
    w_specs = None
    if sc['mode'] == 'mini':
        w_specs = mini.clean(sc['specs'])
        if not w_specs:
            return
    with w:
        if sc['mode'] == 'mini':
            C = build(ctx, w, w_specs, sc)
            vs = mini.views(w_specs)
            tags = TAGS
        else:
            os.makedirs(os.path.join(ctx.root, 'f'), exist_ok=True)
            files = [f for f in sc['files'] if isinstance(f, dict)]
            for f in files:
                common.put_file(w, 'f/' + f['name'], corpus.render(f))
            C = mk.RecordCollection(os.path.join(ctx.root, 'f'))
            tags = sorted({t for f in files for t in FTAGS[f['fmt']]})
            vs = sorted((rview(R, tags + ['authorsShort', 'citations', 'year', 'title']) for R in mk.RecordCollection(os.path.join(ctx.root, 'f'))), key=lambda v: str(v['id']))
            if not vs:
                return
            # what the records hold does not come from the library alone
            held = {i: (f['fmt'], e['fields']) for f in files for i, e in truth.record_entries(f)}
            for R in mk.RecordCollection(os.path.join(ctx.root, 'f')):
                wrong = fields.disagreement(R, *held[R.id])
                ctx.check(wrong is None, 'value', lambda: wrong)
        common.mark_bad(C, sc)
        a = A(ctx, w, C, vs, sc['src'])
        for si, st in enumerate(sc['steps']):
            if st['op'] == 'query':
                f = lambda: queries.run(mk, C, st['q'], st['a'])        # noqa
                if sc['mode'] == 'files':
                    f = lambda: queries.outcome(lambda: queries.run(mk, C, st['q'], st['a']))       # noqa
                if 'kbd' in st:
                    interrupted(ctx, w, f, st['kbd'])
                else:
                    f()
                continue
            f = lambda: getattr(a, st['op'])(st, tags)      # noqa
            if 'kbd' in st:
                interrupted(ctx, w, f, st['kbd'])
            res = f()
            ctx.note('analyses compared')
            ctx.active = True
            ctx.state(st['op'], st['o'] & 7, len(res or ()))
            ctx.observe('{}:{}'.format(si, st['op']), res)
