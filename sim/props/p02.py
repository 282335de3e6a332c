"""P02: Ctrl-C or a failing disk is always passed on and alters nothing passed in."""
import csv
import gc
import io
import os

from .. import common, corpus, mini, queries
from ..common import pick
from ..sched import Scheduler
from .p10 import table

RUNS = {'quick': 23500, 'thorough': 150000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'loading, records, collections, analyses, networks, exports, graph files'
STUB = 'disk (real bytes, simulated calls and failures), Ctrl-C (raised at a chosen executed line or system call)'
STATE_MEASURE = '(operation, kind of the fault, where it struck in tenths of the call, how the call ended)'
EXPORTS = ['csv', 'csv', 'csvsplit', 'bib', 'file', 'graph', 'graph', 'edges', 'nodes', 'tnet', 'burstfile', 'nlpfile', 'rankfile', 'seriesfile', 'coocfile', 'localfile', 'readgraph', 'merge', 'stats',
           'diffcount', 'diffadd', 'multidump']
ERR = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE']


def question(rng, kind):
    if kind == 'grants':
        return [pick(rng, queries.GRANT_QUERIES + ['x-load', 'x-load']), rng.randrange(512)]
    r = rng.random()
    if r < .22:
        return ['x-load', rng.randrange(512)]
    if r < .55:
        return ['x-' + pick(rng, EXPORTS), rng.randrange(512)]
    return [pick(rng, [q for q in queries.RECORD_QUERIES if q != 'glimpse']), rng.randrange(512)]


def gen(rng, i, tier):
    kind = pick(rng, ['mini', 'mini', 'corpus', 'corpus', 'grants'])
    sc = {'kind': kind, 'world': common.world_conf(rng)}
    if kind == 'mini':
        sc['specs'] = mini.specs(rng, 1, 5)
    else:
        sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS if kind == 'corpus' else corpus.GRANT_FMTS, j, kmax=20, nmax=3) for j in range(rng.choice([1, 1, 2, 3]))]
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3] if tier == 'quick' else [2, 4, 8])):
        q, a = question(rng, kind)
        st = {'q': q, 'a': a, 'others': [question(rng, kind) for _ in range(rng.choice([0, 1, 1]))], 'hits': []}
        for _ in range(rng.choice([1, 1, 2])):
            h = pick(rng, ['line', 'line', 'iokbd', 'ioerr', 'ioerr'])
            st['hits'].append({'how': h, 'at': rng.random(), 'kind': pick(rng, ERR), 'sticky': rng.random() < .2, 'keep': rng.random() < .5, 'lose': rng.random() < .3, 'arg': rng.randrange(5000)})
        steps.append(st)
    sc['steps'] = steps
    return sc


def put_files(ctx, w, sc):
    if sc['kind'] == 'mini':
        os.makedirs(os.path.join(ctx.root, 'lib'), exist_ok=True)
        common.put_file(w, 'lib/m.isi', mini.render(mini.clean(sc['specs'])))
    else:
        os.makedirs(os.path.join(ctx.root, 'lib'), exist_ok=True)
        for f in sc['files']:
            if isinstance(f, dict) and f['recs']:
                common.put_file(w, 'lib/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))


def load(ctx, sc, a=0):
    mk = ctx.mk
    cls = mk.GrantCollection if sc['kind'] == 'grants' else mk.RecordCollection
    if a % 4 == 1:
        names = sorted(n for n in os.listdir('lib') if not n.startswith('.') and 'Cache' not in n)
        if names:
            return cls(os.path.join(ctx.root, 'lib', names[a // 4 % len(names)]))
    if a % 4 == 2:
        return cls(os.path.join(ctx.root, 'lib'), cached=True)
    return cls(os.path.join(ctx.root, 'lib'))


class Call:
    """One call of the library with its arguments, prepared outside of the faults."""

    def __init__(self, ctx, w, sc, C, q, a, tag):
        mk = ctx.mk
        self.ctx, self.w, self.C, self.q = ctx, w, C, q
        self.graphs = []
        self.files = []
        self.extra = []
        name = 'out-' + tag
        p = os.path.join(ctx.root, name)
        x = q[2:]
        self.res = lambda v: v
        if not q.startswith('x-'):
            self.fn = lambda: queries.run(mk, C, q, a)
            return
        if x == 'load':
            self.fn = lambda: load(ctx, sc, a)
            self.res = lambda D: {'C': common.dump_collection(D)}
        elif x == 'csv':
            self.fn = lambda: C.writeCSV(p, genderCounts=False, numAuthors=bool(a & 1), onlyTheseTags=['UT', 'PY', 'CR', 'AF'] if a & 2 else None)
            self.res = lambda v: table(w, name)
        elif x == 'csvsplit':
            self.fn = lambda: C.writeCSV(name, genderCounts=False, splitByTag=['year', 'j9', 'keywords', 'citations'][a % 4])
            self.res = lambda v: [[f[:-len(name)], table(w, f)] for f in common.ls(w) if f.endswith('-' + name)]
        elif x == 'bib':
            self.fn = lambda: C.writeBib(p, wosMode=bool(a & 1), reducedOutput=bool(a & 2), niceIDs=bool(a & 4))
            self.res = lambda v: sorted(common.get_file(w, name).decode('utf-8').split('\n\n'))
        elif x == 'file':
            self.fn = lambda: C.writeFile(p)
            self.res = lambda v: sorted(common.get_file(w, name).split(b'\n'))
            self.res = lambda v: sorted(common.get_file(w, name).decode('latin-1').split('\n'))
        elif x in ('graph', 'edges', 'nodes', 'tnet', 'readgraph', 'merge', 'stats'):
            G = [lambda: C.networkCoAuthor(), lambda: C.networkTwoMode('keywords', 'year'), lambda: C.networkCitation(nodeInfo=False), lambda: C.networkMultiLevel('keywords', 'journal')][a % 4]()
            if x == 'tnet':
                G = C.networkTwoMode('keywords', 'authorsFull', recordType=True)
            H = C.networkOneMode('keywords') if x == 'merge' else None
            self.graphs = [g for g in (G, H) if g is not None]
            for g in self.graphs:
                # lists of attributes have no order of their own and node attributes only need to be writable
                for n in g.nodes():
                    g.nodes[n].pop('year', None)
            if x == 'graph':
                self.fn = lambda: mk.writeGraph(G, p, typing=bool(a & 4), edgeInfo=bool(a & 8))
                self.res = lambda v: [[f[len(name):], table(w, f)] for f in common.ls(w) if f.startswith(name + '_')]
            elif x == 'edges':
                self.fn = lambda: mk.writeEdgeList(G, p, extraInfo=bool(a & 4))
                self.res = lambda v: table(w, name)
            elif x == 'nodes':
                self.fn = lambda: mk.writeNodeAttributeFile(G, p)
                self.res = lambda v: table(w, name)
            elif x == 'tnet':
                self.fn = lambda: mk.writeTnetFile(G, p, 'type', weighted=bool(a & 4))
                self.res = lambda v: common.get_file(w, name).decode('utf-8').split('\n')
                self.tnet = True
            elif x == 'readgraph':
                mk.writeGraph(G, p)
                self.fn = lambda: mk.readGraph(p + '_edgeList.csv', p + '_nodeAttributes.csv', directed=G.is_directed())
                self.res = queries.graph
            elif x == 'stats':
                self.fn = lambda: [mk.graphStats(G), mk.graphStats(G, makeString=False), mk.graphStats(G, sentenceString=True)]
            else:
                T = G.copy()
                self.graphs = [H]
                self.fn = lambda: mk.mergeGraphs(T, H) if not T.is_directed() else None
        elif x == 'burstfile':
            self.fn = lambda: queries.canon(C.forBurst('keywords', outputFile=p))
            self.res = lambda v: [v, sorted(common.get_file(w, name).decode('utf-8').split('\n'))]
        elif x == 'nlpfile':
            self.fn = lambda: queries.canon(C.forNLP(p, removeCopyright=bool(a & 1)))
            self.res = lambda v: [v, table(w, name)]
        elif x == 'rankfile':
            self.fn = lambda: queries.canon(C.rankedSeries(['keywords', 'authorsFull'][a % 2], outputFile=p, pandasMode=bool(a & 4)))
            self.res = lambda v: [v, common.get_file(w, name).decode('utf-8')]
        elif x == 'seriesfile':
            self.fn = lambda: queries.canon(C.timeSeries(['keywords', 'authorsFull'][a % 2], outputFile=p, pandasMode=bool(a & 4)))
            self.res = lambda v: [v, common.get_file(w, name).decode('utf-8')]
        elif x == 'coocfile':
            self.fn = lambda: queries.canon(C.cooccurrenceCounts('keywords', 'year', 'journal'))
        elif x == 'localfile':
            self.fn = lambda: queries.canon(C.localCiteStats(pandasFriendly=bool(a & 1)))
        elif x in ('diffcount', 'diffadd'):
            S = mk.RecordCollection([R for i, R in enumerate(sorted(C, key=lambda R: R.id)) if i % 2 == a % 2])
            self.extra = [S]
            if x == 'diffcount':
                self.fn = lambda: queries.canon({str(queries.canon(k)): v for k, v in mk.diffusionCount(S, C, pandasFriendly=False, extraValue='year' if a & 2 else None).items()}) if not a & 4 else queries.rows(mk.diffusionCount(S, C, pandasFriendly=True))
            else:
                g = C.networkCoAuthor() if a & 2 else mk.diffusionGraph(S, C, sourceType='authorsFull', targetType='authorsFull')
                self.fn = lambda: queries.canon(mk.diffusionAddCountsFromSource(g.copy(), S, C, nodeType='authorsFull'))
                self.graphs = [g]
        elif x == 'multidump':
            self.fn = lambda: [queries.canon(R.subDict(['year', 'citations', 'title'])) for R in queries.good(C)]
        else:
            raise KeyError(q)

    def snapshot(self):
        out = {}
        for n, X in enumerate([self.C] + self.extra):
            out['collection {}'.format(n)] = common.dump_collection(X)
        for n, g in enumerate(self.graphs):
            d = queries.graph(g)
            if getattr(self, 'tnet', False):
                d = {'kind': d['kind'], 'nodes': [[i, [x for x in at if x[0] != 'tnet-ID']] for i, at in d['nodes']], 'edges': d['edges']}
            out['graph {}'.format(n)] = d
        return out

    def result(self):
        """The answer in canonical form; errors that do not come from outside are answers too."""
        try:
            v = self.fn()
        except (OSError, KeyboardInterrupt):
            raise
        except Exception as e:      # noqa
            return {'raise': type(e).__name__}
        return {'ok': self.res(v)}


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    put_files(ctx, w, sc)
    kept = []
    with w:
        for n, st in enumerate(sc['steps']):
            step(ctx, w, sc, n, st, kept)
        # what was kept of the failed calls is dropped only now
        finals = [(k, k.again()) for k in kept]
        for k in kept:
            k.exc = None
        gc.collect()
        for k, want in finals:
            d = common.diff(k.again(), want)
            ctx.check(d is None, 'late-write', lambda: '{}: the output of the second call changed when the error of the first was forgotten: {} (right: before)'.format(k.what, d))


class Kept:
    def __init__(self, what, exc, call):
        self.what, self.exc, self.call = what, exc, call

    def again(self):
        """Contents of the files the call wrote."""
        w = self.call.w
        tag = self.call.tag
        return {f: common.get_file(w, f).decode('latin-1') for f in common.ls(w) if tag in f}


def step(ctx, w, sc, n, st, kept):
    mk = ctx.mk
    q, a = st['q'], st['a']
    prefix = os.path.join(ctx.code, 'metaknowledge') + os.sep
    # what the call does without faults, and how long it is
    call = Call(ctx, w, sc, load(ctx, sc), q, a, 's{}ref'.format(n))
    io0 = w.steps
    try:
        ref = call.result()
    except OSError as e:
        return      # this call cannot work (a value that is no file name)
    n_io = w.steps - io0
    if any(h['how'] == 'line' for h in st['hits']):
        again = Call(ctx, w, sc, load(ctx, sc), q, a, 's{}cnt'.format(n))
        s = Scheduler(w, (), line_prefix=prefix, line_kbd=10 ** 9)
        try:
            s.trace_on()
            again.result()
        finally:
            s.trace_off()
            w.sched = None
        n_lines = s.lines_main
    others = []
    for oq, oa in st['others']:
        if oq.startswith('x-'):
            continue
        C = load(ctx, sc)
        others.append((oq, oa, queries.outcome(lambda: queries.run(mk, C, oq, oa))))
    C = load(ctx, sc)
    call = Call(ctx, w, sc, C, q, a, 's{}run'.format(n))
    call.tag = 's{}run'.format(n)
    before = call.snapshot()
    for h in st['hits']:
        if h['how'] == 'ioerr' and not n_io or h['how'] == 'iokbd' and not n_io:
            continue
        what = 'step {}: {}({}), {} at {:.2f}'.format(n, q, a, h['how'] if h['how'] != 'ioerr' else h['kind'], h['at'])
        exc, got = None, None
        s = None
        try:
            if h['how'] == 'line':
                s = Scheduler(w, (), line_prefix=prefix, line_kbd=1 + int(h['at'] * n_lines))
                s.trace_on()
            elif h['how'] == 'iokbd':
                w.faults = [{'op': '*', 'n': int(h['at'] * n_io), 'kind': 'kbd', 'arg': h['arg']}]
            else:
                # stat and rename are left alone: python itself answers a failing stat with "no such file"
                w.faults = [{'op': 'open_r|open_w|read|write|close_w|listdir', 'n': int(h['at'] * n_io * .8), 'kind': h['kind'], 'sticky': h['sticky'], 'arg': h['arg'], 'lose': h['lose']}]
            try:
                got = call.fn()
            except BaseException as e:      # noqa
                exc = e
        finally:
            if s is not None:
                s.trace_off()
                w.sched = None
                hit = ['line'] if s.line_kbd is None else []
            else:
                hit = [f for f in w.fired_list[-50:]] if any(f.get('done') or f.get('seen', 0) > f['n'] for f in w.faults) else []
            where = w.fired_list[-1] if hit and s is None else None
            w.faults = []
        if not hit:
            ctx.note('faults that struck after the end')
        kind = 'kbd' if h['how'] != 'ioerr' else 'err'
        ctx.state(q, kind, int(h['at'] * 10), type(exc).__name__)
        if hit:
            ctx.active = True
            ctx.note('calls struck by a fault')
            if kind == 'kbd':
                ctx.check(isinstance(exc, KeyboardInterrupt), 'interrupt-swallowed', lambda: '{}: Ctrl-C during the call, but it {}'.format(what, 'returned normally' if exc is None else 'raised {!r}'.format(exc)))
            elif exc is None:
                tolerated(ctx, w, call, where, got, ref, what)
            else:
                ctx.check(isinstance(exc, (OSError, mk.mkExceptions.mkException)), 'wrong-error', lambda: '{}: a failing disk made the call raise {!r}'.format(what, exc))
        elif exc is not None:
            # the call itself ends with an error, with or without faults
            ctx.check(ref == {'raise': type(exc).__name__}, 'answer-afterwards', lambda: '{}: raised {!r}; without faults: {}'.format(what, exc, ref))
        d = common.diff(call.snapshot(), before)
        ctx.check(d is None, 'argument-changed', lambda: '{} (ended with {!r}): {} (right: before the call)'.format(what, exc, d))
        ctx.check(mk.VERBOSE_MODE is False or mk.VERBOSE_MODE is True, 'argument-changed', 'VERBOSE_MODE is {!r}'.format(mk.VERBOSE_MODE))
        if h['keep'] and exc is not None:
            kept.append(Kept(what, exc, call))
        else:
            exc = None
        got = None
    if a % 3 == 2:
        d = common.diff(queries.census(C, a), queries.census(load(ctx, sc), a), 'record')
        ctx.check(d is None, 'answer-afterwards', lambda: 'step {}: fields after {}({}) was interrupted: {} (right: never interrupted)'.format(n, q, a, d))
    res = call.result()
    d = common.diff(res, ref, q)
    ctx.check(d is None, 'answer-afterwards', lambda: 'step {}: {}({}) after being interrupted: {} (right: never interrupted)'.format(n, q, a, d))
    for oq, oa, want in others:
        d = common.diff(queries.outcome(lambda: queries.run(mk, C, oq, oa)), want, oq)
        ctx.check(d is None, 'answer-afterwards', lambda: 'step {}: {}({}) after {}({}) was interrupted: {} (right: never interrupted)'.format(n, oq, oa, q, a, d))
    if a % 3 != 2:
        d = common.diff(queries.census(C, a), queries.census(load(ctx, sc), a), 'record')
        ctx.check(d is None, 'answer-afterwards', lambda: 'step {}: fields after {}({}) was interrupted: {} (right: never interrupted)'.format(n, q, a, d))
    d = common.diff(call.snapshot(), before)
    ctx.check(d is None, 'argument-changed', lambda: 'step {}: {}({}), and other calls: {} (right: before)'.format(n, q, a, d))
    ctx.note('calls repeated')


def tolerated(ctx, w, call, where, got, ref, what):
    """A failing disk that did not raise: the result says so, or the disk was only asked for a cache."""
    if call.q == 'x-load':
        if got.errors or got.bad or any(R.bad for R in got):
            return
    d = common.diff({'ok': call.res(got)}, ref)
    if call.q == 'x-load' and d is None and ('Cache' in where['rel'] or where['op'] in ('close_w', 'open_w', 'write')):
        return      # the cache
    if d is None and where['op'] in ('open_r', 'read') and call.q == 'x-load':
        return      # tried again, or not needed
    ctx.fail('error-swallowed', '{}: {} of {} failed with {}, but the call returned normally{}'.format(what, where['op'], where['rel'], where['kind'], '' if d is None else ' with another result: ' + d))
