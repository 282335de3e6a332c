"""P07: graph files read back as the same graph; filters, merges and statistics follow their thresholds; files are never overwritten unasked."""
import csv
import io
import os

from .. import common, mini, queries
from ..common import pick

RUNS = {'quick': 44000, 'thorough': 300000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'writeGraph, writeEdgeList, writeNodeAttributeFile, writeTnetFile, readGraph, dropEdges, dropNodesByDegree, dropNodesByCount, mergeGraphs, graphStats, networkx, the csv module'
STUB = 'disk (real bytes, simulated calls and failures), the locale (the encoding of files opened without one)'
STATE_MEASURE = '(sequence of operations with their options, kind of fault and the call it struck, how it ended)'

NAMES = ['a', 'b', 'Smith, A', 'say "hi"', 'two\nlines', 'cr\rhere', 'win\r\nline', 'Müller, Jörg', '中文', '\U0001F600', ' lead', 'trail ', "it's", '2001', 'x;y', 'tab\there', '\u2028sep', '',
         '=1+1', 'None', 'z' * 300, '\ufeffbom', '"', ',', '1.0', 'nan', '-', 'a b']
VALS = [1, 2, 3, 5, 0, -1, 2.5, 'x', 'a, b', 'q"q', 'l\nl', 'ü', '', '7', True, None, 1e20, 'r\rr']
ATTRS = ['count', 'weight', 'type', 'info', 'Year of it', 'ü', 'a,b']
ERR = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE']
SUFFIX = ['csv', 'txt', 'edges.csv']
PATHS = ['g', 'g', 'sub/g', 'sub/', 'G.h', 'gü', 'sub/../g2', 'G h']


def graph_spec(rng, multi=False):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7])
    ids = rng.sample(range(len(NAMES)), n)
    nums = rng.random() < .2
    g = {'directed': rng.random() < .5, 'nodes': [], 'edges': [], 'nums': nums}
    uniform = rng.random() < .4
    nat = rng.sample(range(len(ATTRS)), rng.choice([0, 1, 1, 2]))
    eat = rng.sample(range(len(ATTRS)), rng.choice([0, 1, 1, 2]))
    weird = rng.random() < .5

    def attrs(pool):
        return [[k, rng.randrange(len(VALS)) if weird and k > 1 else rng.randrange(5)] for k in pool if uniform or rng.random() < .7]
    base = [0] if rng.random() < .7 else []
    ebase = [1] if rng.random() < .7 else []
    for i in ids:
        g['nodes'].append([i, attrs(base + [k for k in nat if k not in base])])
    if ids:
        for _ in range(rng.choice([0, 1, 2, 4, 7, 10])):
            g['edges'].append([pick(rng, ids), pick(rng, ids), attrs(ebase + [k for k in eat if k not in ebase])])
    if rng.random() < .03:
        g['blow'] = blow_spec(rng)
    return g


def blow_spec(rng):
    """Sizes around those at which the display is told of the progress."""
    return [rng.choice([45, 99, 100, 101, 200, 301]), rng.choice([0, 99, 500, 999, 1000, 1001, 2000, 2500])]


def blown(b):
    nn, ne = max(1, b[0]), b[1]
    return ['n{}'.format(k) for k in range(nn)], [(k % nn, (k % nn + 1 + k // nn * 3) % nn, k % 5 + 1) for k in range(ne)]


def gen(rng, i, tier):
    sc = {'world': common.world_conf(rng, locale_encoding=pick(rng, ['utf-8', 'utf-8', 'ascii', 'latin-1'])), 'graphs': [], 'steps': []}
    for _ in range(2):
        if rng.random() < .25:
            sc['graphs'].append({'specs': mini.specs(rng, 1, 5), 'net': rng.randrange(8)})
        else:
            sc['graphs'].append(graph_spec(rng))
    for _ in range(rng.choice([1, 2, 3, 5] if tier == 'quick' else [3, 6, 12])):
        op = pick(rng, ['write', 'write', 'write', 'files', 'keep', 'tnet', 'dropE', 'dropE', 'dropD', 'dropD', 'dropC', 'merge', 'stats', 'foreign', 'multi', 'degree'])
        st = {'op': op, 'g': rng.randrange(2), 'a': rng.randrange(1 << 16), 'hit': None}
        if op in ('write', 'files', 'tnet', 'keep') and rng.random() < .45:
            st['hit'] = {'op': pick(rng, ['open_w|write|close_w|open_r|read', 'open_w|write|close_w', 'write', 'close_w', 'open_w', 'open_r|read']), 'n': int(rng.random() ** 2 * 12),
                         'kind': pick(rng, ERR + ['short']), 'sticky': rng.random() < .3, 'arg': rng.randrange(300), 'lose': rng.random() < .5}
        if op == 'tnet':
            st['t'] = tnet_spec(rng)
        sc['steps'].append(st)
    return sc


def tnet_spec(rng):
    n = rng.choice([2, 3, 4, 6])
    ids = rng.sample(range(len(NAMES)), n)
    m = [rng.randrange(2) if rng.random() < .93 else rng.choice([2, None]) for _ in ids]
    return {'nodes': [[i, k] for i, k in zip(ids, m)], 'edges': [[rng.randrange(n), rng.randrange(n), rng.randrange(1, 6), rng.randrange(4)] for _ in range(rng.choice([0, 1, 3, 6]))],
            'clean': rng.random() < .85, 'multi': rng.random() < .3, 'directed': rng.random() < .3, 'src': rng.choice([None, None, 0, 1]), 'blow': blow_spec(rng) if rng.random() < .03 else None}


def bits(a, *choices):
    out = []
    for c in choices:
        out.append(c[a % len(c)])
        a //= len(c)
    return out


class Model:
    """Nodes and edges of a graph as plain dictionaries."""

    def __init__(self, directed):
        self.directed = directed
        self.nodes = {}
        self.edges = {}

    @staticmethod
    def of(G):
        m = Model(G.is_directed())
        m.nodes = {n: dict(d) for n, d in G.nodes(data=True)}
        m.edges = {m.key(u, v): dict(d) for u, v, d in G.edges(data=True)}
        return m

    def key(self, u, v):
        return (u, v) if self.directed else frozenset((u, v))

    @staticmethod
    def ends(k):
        k = tuple(k)
        return k if len(k) == 2 else (k[0], k[0])

    def drop_node(self, n):
        del self.nodes[n]
        self.edges = {k: d for k, d in self.edges.items() if n not in k}

    def touching(self, n):
        return [d for k, d in self.edges.items() if n in k]

    def view(self, written=False, edge_info=True, node_info=True):
        """Sorted lists; written: as text, where an attribute that is missing is one that is empty."""
        f = (lambda d: sorted([str(k), '' if v is None else str(v)] for k, v in d.items() if v is not None and str(v) != '')) if written else (lambda d: sorted(([repr(k), repr(v)] for k, v in d.items())))
        s = str if written else repr
        return {'directed': self.directed, 'nodes': sorted([s(n), f(d) if node_info else []] for n, d in self.nodes.items()),
                'edges': sorted([list(map(s, self.ends(k))) if self.directed else sorted(map(s, self.ends(k))), f(d) if edge_info else []] for k, d in self.edges.items())}


def build(ctx, sc, g, w):
    import networkx as nx
    if 'specs' in g:
        specs = mini.clean(g['specs'])
        common.put_file(w, 'm.isi', mini.render(specs))
        C = ctx.mk.RecordCollection(os.path.join(ctx.root, 'm.isi'))
        return [lambda: C.networkCoAuthor(), lambda: C.networkCitation(), lambda: C.networkCoCitation(), lambda: C.networkOneMode('keywords'), lambda: C.networkTwoMode('keywords', 'year'),
                lambda: C.networkMultiLevel('year', 'journal', 'authorsFull'), lambda: C.networkBibCoupling(), lambda: C.networkCitation(weighted=False, count=False)][g['net'] % 8]()
    G = nx.DiGraph() if g['directed'] else nx.Graph()
    name = lambda i: NAMES[i % len(NAMES)] if not (g['nums'] and i % 3 == 0) else 100 + i
    at = lambda d: {ATTRS[k % len(ATTRS)]: VALS[v % len(VALS)] for k, v in d}
    for i, d in g['nodes']:
        G.add_node(name(i), **at(d))
    for i, j, d in g['edges']:
        G.add_edge(name(i), name(j), **at(d))
    if g.get('blow'):
        N, E = blown(g['blow'])
        G.add_nodes_from((x, {'count': len(x) + k % 7}) for k, x in enumerate(N))
        G.add_edges_from((N[u], N[v], {'weight': k}) for u, v, k in E)
    return G


def run(ctx, sc):
    w = ctx.world(sc['world'], tty=None)
    with w:
        os.makedirs(os.path.join(ctx.root, 'sub'), exist_ok=True)
        G = [build(ctx, sc, g, w) for g in sc['graphs']]
        for n, st in enumerate(sc['steps']):
            ctx.state(*[(s['op'], s['a'] % 8) for s in sc['steps'][max(0, n - 2):n + 1]])
            OPS[st['op']](ctx, w, sc, G, n, st)


def call(fn):
    try:
        return 'ok', fn()
    except Exception as e:      # noqa
        return 'raise', e


def same(ctx, cls, what, got, want):
    d = common.diff(got, want)
    ctx.check(d is None, cls, lambda: '{}: {}'.format(what, d))
    ctx.note('graphs compared')


def struck(ctx, w, st, fn, what, files):
    """Run fn under the step's fault: an error of the disk must come out."""
    h = st['hit']
    f = {'op': h['op'] if h['kind'] != 'short' else 'write', 'n': h['n'], 'kind': h['kind'], 'arg': h['arg'], 'lose': h['lose']}
    if h['sticky'] and h['kind'] != 'short':
        f['sticky'] = True
    k = len(w.fired_list)
    w.faults = [f]
    try:
        r = call(fn)
    finally:
        w.faults = []
    fired = w.fired_list[k:]
    ctx.state(st['op'], h['kind'], fired[0]['op'] if fired else None, r[0])
    if fired and h['kind'] != 'short':
        ctx.active = True
        ctx.note('calls struck by a fault')
        ctx.check(r[0] == 'raise', 'error-swallowed', lambda: '{}: {} of {} failed with {}, but the call returned normally'.format(what, fired[0]['op'], fired[0]['rel'], h['kind']))
        ctx.check(isinstance(r[1], OSError), 'wrong-error', lambda: '{}: a failing disk made it raise {!r}'.format(what, r[1]))
        return None
    return r


def names_of(path, typing, directed, suffix):
    """Where writeGraph puts its files."""
    path = os.path.normpath(path)
    t = '' if not typing else ('_directed' if directed else '_undirected')
    d, b = os.path.split(path)
    return tuple(os.path.join(d, '{}_{}{}.{}'.format(b, kind, t, suffix)) for kind in ('edgeList', 'nodeAttributes'))


def mixed(dicts):
    """Some have attributes the first does not."""
    dicts = list(dicts)
    return any(set(d) - set(dicts[0]) for d in dicts[1:])


def options(sc, G, st):
    info, typing, suffix, path, same_, absolute, missing_nodes = bits(st['a'], [True, True, False], [False, True], SUFFIX, PATHS, [False, False, True], [False, True], [False, False, True])
    return info, typing, suffix, path, same_, absolute, missing_nodes


def op_write(ctx, w, sc, G, n, st):
    """writeGraph, then readGraph."""
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    info, typing, suffix, path, allsame, absolute, edges_only = options(sc, G, st)
    m = Model.of(H)
    before = m.view()
    what = 'step {}: writeGraph({!r})'.format(n, path)
    e, v = names_of(path, typing, m.directed, suffix)
    p = os.path.join(ctx.root, path) if absolute else path
    kw = dict(edgeInfo=info, typing=typing, suffix=suffix, allSameAttribute=allsame, overwrite=not st['a'] >> 12 & 1)
    if not kw['overwrite']:
        common.rm_file(w, e)
        common.rm_file(w, v)
    write = lambda: mk.writeGraph(H, p, **kw)
    read = lambda: mk.readGraph(e, None if edges_only else v, directed=m.directed)
    bad = allsame and (info and mixed(m.edges.values()) or mixed(m.nodes.values()))
    for attempt in (0, 1):
        if attempt == 0 and st['hit'] is None:
            continue
        both = lambda: (write(), read())[1]
        r = struck(ctx, w, st, both, what, (e, v)) if attempt == 0 else call(both)
        if attempt == 0 and not kw['overwrite']:
            rest = [common.exists(w, f) for f in (e, v)]
            if r is None:
                for f in (e, v):
                    common.rm_file(w, f)
            elif attempt == 0:
                for f in (e, v):
                    common.rm_file(w, f)
        same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
        if r is None:
            continue
        if r[0] == 'raise':
            ctx.check(bad and isinstance(r[1], ValueError), 'write-failed', lambda: '{} raised {!r}'.format(what, r[1]))
            continue
        ctx.check(not (allsame and bad), 'attributes-lost', lambda: '{} with allSameAttribute returned although not all have the same attributes'.format(what))
        got = Model.of(r[1])
        want = Model.of(H)
        if edges_only:
            want.nodes = {x: {} for x in want.nodes if want.touching(x)}
        same(ctx, 'read-back', what + ' and readGraph (left: read, right: written)', got.view(True), want.view(True, edge_info=info))
        ctx.active = True


def read_csv(w, rel):
    rows = list(csv.reader(io.StringIO(common.get_file(w, rel).decode('utf-8'), newline=''), strict=True))
    return rows


def op_files(ctx, w, sc, G, n, st):
    """writeEdgeList and writeNodeAttributeFile, read by another program."""
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    m = Model.of(H)
    before = m.view()
    info, allsame, which, absolute = bits(st['a'], [True, False], [False, False, True], ['edges', 'nodes'], [False, True])
    name = 'list{}.csv'.format(st['a'] // 24 % 3)
    p = os.path.join(ctx.root, name) if absolute else name
    what = 'step {}: {}'.format(n, 'writeEdgeList' if which == 'edges' else 'writeNodeAttributeFile')
    fn = (lambda: mk.writeEdgeList(H, p, extraInfo=info, allSameAttribute=allsame)) if which == 'edges' else (lambda: mk.writeNodeAttributeFile(H, p, allSameAttribute=allsame))
    bad = allsame and (mixed(m.edges.values()) if which == 'edges' and info else mixed(m.nodes.values()) if which == 'nodes' else False)
    if st['hit'] is not None and 'r' not in st['hit']['op'].replace('open_w|write|close_w', '').replace('write', ''):
        struck(ctx, w, st, fn, what, [name])
        same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
    r = call(fn)
    same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
    if r[0] == 'raise':
        ctx.check(bad and isinstance(r[1], ValueError), 'write-failed', lambda: '{} raised {!r}'.format(what, r[1]))
        return
    ctx.check(not bad, 'attributes-lost', lambda: '{} with allSameAttribute returned although not all have the same attributes'.format(what))
    rows = read_csv(w, name)
    head = ['Source', 'Target'] if which == 'edges' else ['ID']
    k = len(head)
    ctx.check(rows and rows[0][:k] == head, 'file', lambda: '{}: the head is {}; right: {} first'.format(what, rows[:1], head))
    got = [[r[:k] if m.directed or which == 'nodes' else sorted(r[:k]), sorted([a, b] for a, b in zip(rows[0][k:], r[k:]) if b != '')] for r in rows[1:]]
    src = m.view(True, edge_info=info)['edges'] if which == 'edges' else [[[x], d] for x, d in m.view(True)['nodes']]
    same(ctx, 'file', what + ' (left: rows of the file, right: the graph)', sorted(got), sorted(src))
    ctx.active = True


def op_keep(ctx, w, sc, G, n, st):
    """writeGraph without overwriting, where one or both files are there already."""
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    info, typing, suffix, path, allsame, absolute, _ = options(sc, G, st)
    files = names_of(path, typing, H.is_directed(), suffix)
    which = st['a'] >> 8 & 3 or 3
    old = {}
    for i, f in enumerate(files):
        common.rm_file(w, f)
        if which >> i & 1:
            data = 'old contents {} of {}\n'.format(n, i).encode() * (st['a'] >> 10 & 3)
            common.put_file(w, f, data)
            old[f] = data
    what = 'step {}: writeGraph({!r}, overwrite=False) where {} exist'.format(n, path, sorted(old))
    fn = lambda: mk.writeGraph(H, os.path.join(ctx.root, path) if absolute else path, edgeInfo=info, typing=typing, suffix=suffix, overwrite=False)
    before = Model.of(H).view()
    r = struck(ctx, w, st, fn, what, files) if st['hit'] is not None else call(fn)
    if r is not None:
        ctx.check(r[0] == 'raise' and isinstance(r[1], OSError), 'overwrote', lambda: '{}: it {}'.format(what, 'returned normally' if r[0] == 'ok' else 'raised {!r}'.format(r[1])))
    for f, data in old.items():
        now = common.get_file(w, f) if common.exists(w, f) else None
        ctx.check(now == data, 'overwrote', lambda: '{}: {} is now {!r}'.format(what, f, now))
    same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
    ctx.active = True


def op_foreign(ctx, w, sc, G, n, st):
    """readGraph of files of another program, with other column names."""
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    m = Model.of(H)
    crlf, quote, idk, es, ed, listed, miss = bits(st['a'], ['\r\n', '\n'], [csv.QUOTE_ALL, csv.QUOTE_MINIMAL], ['ID', 'node', 'Id ü'], ['Source', 'from'], ['Target', 'to'], [True, True, False],
                                                  [False] * 6 + [True])
    attrs = lambda ds: sorted({a for d in ds for a in d})

    def put(rel, head, rows):
        buf = io.StringIO(newline='')
        wr = csv.writer(buf, quoting=quote, lineterminator=crlf)
        wr.writerow(head)
        wr.writerows(rows)
        common.put_file(w, rel, buf.getvalue().encode('utf-8'))
    order = st['a'] >> 10 & 1
    ea = attrs(m.edges.values())
    head = ea + [es, ed] if order else [es, ed] + ea
    rows = []
    for k, d in m.edges.items():
        u, v = m.ends(k)
        at = [d.get(a, '') for a in ea]
        rows.append(at + [u, v] if order else [u, v] + at)
    put('for-e.csv', head, rows)
    na = attrs(m.nodes.values())
    inlist = [(x, d) for i, (x, d) in enumerate(m.nodes.items()) if listed or i % 2]
    if quote == csv.QUOTE_MINIMAL and not na and any(x == '' for x, d in inlist):
        return      # an empty line: no program could tell
    put('for-n.csv', [idk] + na if not order else na + [idk], [[x] + [d.get(a, '') for a in na] if not order else [d.get(a, '') for a in na] + [x] for x, d in inlist])
    what = 'step {}: readGraph of foreign files'.format(n)
    r = call(lambda: mk.readGraph('for-e.csv', 'for-n.csv', directed=m.directed, idKey=idk, eSource='nosuch' if miss else es, eDest=ed))
    if miss and m.edges:
        ctx.check(r[0] == 'raise' and isinstance(r[1], KeyError), 'read-back', lambda: '{} with a wrong column name: {!r}'.format(what, r))
        return
    ctx.check(r[0] == 'ok', 'read-failed', lambda: '{} raised {!r}'.format(what, r[1]))
    want = Model(m.directed)
    want.nodes = {x: {} for x in m.nodes if m.touching(x)}
    want.nodes.update((x, d) for x, d in inlist)
    want.edges = m.edges
    same(ctx, 'read-back', what, Model.of(r[1]).view(True), want.view(True))
    ctx.active = True


LIMITS = [None, None, 0, 1, 2, 3, 5, -1, 2.5, float('inf')]


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def op_dropE(ctx, w, sc, G, n, st):
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    lo, hi, par, ign, loops = bits(st['a'], LIMITS, LIMITS, ['weight', 'weight', 'count', 'info'], [True, False], [False, False, True])
    m = Model.of(H)
    kw = {'parameterName': par, 'ignoreUnweighted': ign, 'dropSelfLoops': loops}
    if lo is not None:
        kw['minWeight'] = lo
    if hi is not None:
        kw['maxWeight'] = hi
    if loops:
        m.edges = {k: d for k, d in m.edges.items() if len(set(k)) > 1}
    err = None
    lo = -float('inf') if lo is None else lo
    hi = float('inf') if hi is None else hi
    if (lo, hi) != (-float('inf'), float('inf')):
        if any(par in d and not number(d[par]) for d in m.edges.values()):
            return      # no number to compare
        if not ign and any(par not in d for d in m.edges.values()):
            err = KeyError
        m.edges = {k: d for k, d in m.edges.items() if par not in d or lo <= d[par] <= hi}
    finish(ctx, H, 'step {}: dropEdges({})'.format(n, kw), lambda: mk.dropEdges(H, **kw), m, err, st, G)


def finish(ctx, H, what, fn, m, err, st, G, cls='filter'):
    other = [(g, Model.of(g).view()) for g in G if g is not H]
    r = call(fn)
    if err is not None:
        ctx.check(r[0] == 'raise' and isinstance(r[1], err), cls, lambda: '{}: {!r}; right: {}'.format(what, r, err.__name__))
    else:
        ctx.check(r[0] == 'ok', cls, lambda: '{} raised {!r}'.format(what, r[1]))
        same(ctx, cls, what + ' (left: the graph, right: by its definition)', Model.of(H).view(), m.view())
    for g, v in other:
        same(ctx, 'argument-changed', what + ' changed the other graph', Model.of(g).view(), v)
    ctx.active = True


def op_dropD(ctx, w, sc, G, n, st):
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    lo, hi, par, use, inc = bits(st['a'], LIMITS, LIMITS, ['weight', 'weight', 'count', 'info'], [True, False], [True, True, False])
    m = Model.of(H)
    kw = {'parameterName': par, 'useWeight': use, 'includeUnweighted': inc}
    if lo is not None:
        kw['minDegree'] = lo
    if hi is not None:
        kw['maxDegree'] = hi
    err = None
    if use:
        if any(par in d and not number(d[par]) for d in m.edges.values()):
            return
        if not inc and any(par not in d for d in m.edges.values()):
            err = KeyError
    bad = []
    for x in m.nodes:
        t = m.touching(x)
        deg = sum(d.get(par, 1) for d in t) if use else len(t)
        if lo is not None and deg < lo or hi is not None and deg > hi:
            bad.append(x)
    for x in bad:
        m.drop_node(x)
    finish(ctx, H, 'step {}: dropNodesByDegree({})'.format(n, kw), lambda: mk.dropNodesByDegree(H, **kw), m, err, st, G)


def op_dropC(ctx, w, sc, G, n, st):
    mk = ctx.mk
    H = G[st['g'] % len(G)]
    lo, hi, par, ign = bits(st['a'], LIMITS, LIMITS, ['count', 'count', 'weight', 'info'], [True, False])
    m = Model.of(H)
    kw = {'parameterName': par, 'ignoreMissing': ign}
    if lo is not None:
        kw['minCount'] = lo
    if hi is not None:
        kw['maxCount'] = hi
    if any(par in d and not number(d[par]) for d in m.nodes.values()):
        return
    err = KeyError if not ign and any(par not in d for d in m.nodes.values()) else None
    for x, d in list(m.nodes.items()):
        if par in d and (lo is not None and d[par] < lo or hi is not None and d[par] > hi):
            m.drop_node(x)
    finish(ctx, H, 'step {}: dropNodesByCount({})'.format(n, kw), lambda: mk.dropNodesByCount(H, **kw), m, err, st, G)


def op_multi(ctx, w, sc, G, n, st):
    """Filters of graphs with parallel edges, as diffusionGraph makes them."""
    import networkx as nx
    mk = ctx.mk
    from random import Random
    r = Random(st['a'])
    H = G[st['g'] % len(G)]
    M = (nx.MultiDiGraph if H.is_directed() else nx.MultiGraph)()
    M.add_nodes_from((x, dict(d)) for x, d in H.nodes(data=True))
    rows = []
    for u, v, d in H.edges(data=True):
        for k in range(r.choice([1, 1, 2, 3])):
            e = dict(d) if k == 0 else {'weight': r.choice([1, 2, 3, 2.5, 7]), 'count': r.choice([1, 2])}
            if not number(e.get('weight', 1)):
                e.pop('weight')
            key = r.choice([k, 'k%d' % k])
            if r.random() < .3:
                u, v = (v, u) if not H.is_directed() else (u, v)
            M.add_edge(u, v, key, **e)
            rows.append((u, v, key, e))
    what, lo, hi, ign = bits(st['a'], ['edges', 'edges', 'edges', 'degree', 'count'], LIMITS, LIMITS, [True, False])
    kw = {}
    a, b = -float('inf') if lo is None else lo, float('inf') if hi is None else hi
    nodes = {x: dict(d) for x, d in H.nodes(data=True)}
    err = None
    if what == 'edges':
        loops = r.random() < .3
        kw = {'minWeight': a, 'maxWeight': b, 'ignoreUnweighted': ign, 'dropSelfLoops': loops}
        keep = [e for e in rows if not (loops and e[0] == e[1])]
        if (a, b) != (-float('inf'), float('inf')):
            if not ign and any('weight' not in e[3] for e in keep):
                err = KeyError
            keep = [e for e in keep if a <= e[3].get('weight', a if lo is not None else b) <= b or 'weight' not in e[3]]
        fn = lambda: mk.dropEdges(M, **kw)
    else:
        if what == 'degree':
            kw = {'minDegree': a, 'maxDegree': b, 'useWeight': ign}
            val = {x: sum((e[3].get('weight', 1) if ign else 1) for e in rows if x in e[:2]) for x in nodes}
            fn = lambda: mk.dropNodesByDegree(M, **kw)
        else:
            if any(not number(d.get('count', 1)) for d in nodes.values()):
                return
            kw = {'minCount': a, 'maxCount': b, 'ignoreMissing': True}
            val = {x: d['count'] for x, d in nodes.items() if 'count' in d}
            fn = lambda: mk.dropNodesByCount(M, **kw)
        gone = {x for x, v in val.items() if v < a or v > b}
        nodes = {x: d for x, d in nodes.items() if x not in gone}
        keep = [e for e in rows if not gone & set(e[:2])]
    text = 'step {}: {} of a graph with parallel edges ({})'.format(n, what, kw)
    out = call(fn)
    if err is not None:
        ctx.check(out[0] == 'raise' and isinstance(out[1], err), 'filter', lambda: '{}: {!r}; right: {}'.format(text, out, err.__name__))
        return
    ctx.check(out[0] == 'ok', 'filter', lambda: '{} raised {!r}'.format(text, out[1]))
    ends = lambda u, v: [repr(u), repr(v)] if H.is_directed() else sorted([repr(u), repr(v)])
    got = {'nodes': sorted([repr(x), sorted(map(repr, d.items()))] for x, d in M.nodes(data=True)), 'edges': sorted([ends(u, v), repr(k), sorted(map(repr, d.items()))] for u, v, k, d in M.edges(data=True, keys=True))}
    want = {'nodes': sorted([repr(x), sorted(map(repr, d.items()))] for x, d in nodes.items()), 'edges': sorted([ends(u, v), repr(k), sorted(map(repr, d.items()))] for u, v, k, d in keep)}
    same(ctx, 'filter', text + ' (left: the graph, right: by its definition)', got, want)
    ctx.active = True


def op_merge(ctx, w, sc, G, n, st):
    mk = ctx.mk
    T = G[st['g'] % len(G)]
    A = G[(st['g'] + 1) % len(G)]
    if T.is_directed() != A.is_directed() or T is A:
        return
    nv, ev = bits(st['a'], ['count', 'count', None, 'info', 'weight'], ['weight', 'weight', None, 'count', 'type'])
    m, x = Model.of(T), Model.of(A)
    for mine, theirs, inc in ((m.nodes, x.nodes, nv), (m.edges, x.edges, ev)):
        for k, d in theirs.items():
            if k not in mine:
                mine[k] = dict(d)
            elif inc and inc in d:
                have = mine[k].get(inc)
                if not number(d[inc]) or (inc in mine[k] and not number(have)):
                    return      # nothing to add up
                mine[k][inc] = d[inc] if inc not in mine[k] else have + d[inc]
    finish(ctx, T, 'step {}: mergeGraphs({}, {})'.format(n, nv, ev), lambda: mk.mergeGraphs(T, A, incrementedNodeVal=nv, incrementedEdgeVal=ev), m, None, st, G, 'merge')


def transitivity(m):
    """Closed pairs of neighbours over all pairs of neighbours."""
    near = {x: set() for x in m.nodes}
    for k in m.edges:
        u, v = m.ends(k)
        if u != v:
            near[u].add(v)
            near[v].add(u)
    pairs = closed = 0
    for x, y in near.items():
        pairs += len(y) * (len(y) - 1)
        closed += sum(len(y & near[z]) for z in y)
    return closed / pairs if closed else 0


def op_stats(ctx, w, sc, G, n, st):
    mk = ctx.mk
    import networkx as nx
    H = G[st['g'] % len(G)]
    m = Model.of(H)
    before = m.view()
    N, E = len(m.nodes), len(m.edges)
    loops = sum(len(set(k)) == 1 for k in m.edges)
    iso = sum(not m.touching(x) for x in m.nodes)
    dens = 0 if E == 0 or N <= 1 else E / (N * (N - 1)) * (1 if m.directed else 2)
    want = {'nodes': N, 'edges': E, 'isolates': iso, 'loops': loops, 'density': dens}
    names = ['nodes', 'edges', 'isolates', 'loops', 'density']
    k, form = bits(st['a'], range(8), ['tuple', 'lines', 'sentence'])
    if not m.directed:
        names.append('transitivity')
        want['transitivity'] = transitivity(m)
    if st['a'] % 197 == 5:      # more than a million nodes
        H = nx.empty_graph(1000003, create_using=type(H))
        H.add_edges_from([(0, 1), (2, 2)])
        names = ['nodes', 'edges', 'isolates', 'loops']
        want, m = {'nodes': 1000003, 'edges': 2, 'isolates': 1000000, 'loops': 1}, None
    sel = [names[(st['a'] // 7 + i * (1 + k % 3)) % len(names)] for i in range(k)]
    if form != 'tuple':
        sel = [x for x in names if x in sel]
    what = 'step {}: graphStats({})'.format(n, sel)
    r = call(lambda: mk.graphStats(H, stats=tuple(sel), makeString=form != 'tuple', sentenceString=form == 'sentence'))
    ctx.check(r[0] == 'ok', 'stats', lambda: '{} raised {!r}'.format(what, r[1]))
    g = lambda x: '{:G}'.format(x) if isinstance(x, float) else str(x)
    if form == 'tuple':
        exp = [want[s] for s in sel]
        got = list(r[1])
        ok = len(got) == len(exp) and all(abs(a - b) < 1e-12 for a, b in zip(got, exp))
    elif form == 'lines':
        exp = '\n'.join('{}: {}'.format({'loops': 'Self loops'}.get(s, s.capitalize()), g(want[s])) for s in sel)
        got, ok = r[1], r[1] == exp
    else:
        ph = [{'density': 'a density of ' + g(want.get('density', 0)), 'transitivity': 'a transitivity of ' + g(want.get('transitivity', 0)), 'loops': g(want['loops']) + ' self loops'}.get(s, g(want[s]) + ' ' + s) for s in sel]
        exp = 'The graph has ' + (ph[0] if len(ph) == 1 else ', '.join(ph[:-1]) + ' and ' + ph[-1] if ph else '')
        got, ok = r[1], r[1] == exp
    ctx.check(ok, 'stats', lambda: '{}: {!r}; right: {!r}'.format(what, got, exp))
    if m is not None:
        same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
    ctx.note('statistics compared')


def op_degree(ctx, w, sc, G, n, st):
    """getNodeDegrees and getDegreeDistribution."""
    gh = ctx.mk.graphHelpers
    H = G[st['g'] % len(G)]
    m = Model.of(H)
    before = m.view()
    par, strict, kind, used = bits(st['a'], ['weight', 'weight', 'count', None], [False, False, True], ['bi', 'in', 'out', 'both'], [True, False])
    want = {x: 0 for x in m.nodes}
    err = None
    if kind == 'both':
        err = ValueError if m.edges else None
    for k, d in m.edges.items():
        if par and par in d and not (isinstance(d[par], (int, float)) and float(d[par]).is_integer() and abs(d[par]) < 1e6):
            return
        if par and par not in d and strict:
            err = KeyError
    if kind in ('in', 'out') and not m.directed:
        kind = 'bi'
    for k, d in m.edges.items():
        v = int(d.get(par, 1)) if par else 1
        u, x = m.ends(k)
        if kind in ('bi', 'out'):
            want[u] += v
        if kind in ('bi', 'in'):
            want[x] += v
    what = 'step {}: getNodeDegrees(weightString={!r}, strictMode={}, edgeType={!r})'.format(n, par, strict, kind)
    r = call(lambda: gh.getNodeDegrees(H, weightString=par, strictMode=strict, edgeType=kind))
    if err is not None:
        ctx.check(r[0] == 'raise' and isinstance(r[1], (ValueError, KeyError)), 'degrees', lambda: '{}: {!r}, an error is right'.format(what, r[1]))
    else:
        ctx.check(r[0] == 'ok' and r[1] == want, 'degrees', lambda: '{}: {!r}; right: {!r}'.format(what, r[1], want))
        if want and used and min(want.values()) >= 0 and max(want.values()) < 10000:
            exp = [0] * (max(want.values()) + 1)
            for v in want.values():
                exp[v] += 1
            r = call(lambda: gh.getDegreeDistribution(H, weightParameter=par, strictWeightNames=strict, directionalType=kind))
            ctx.check(r[0] == 'ok' and r[1] == exp, 'degrees', lambda: 'the distribution after {}: {!r}; right: {!r}'.format(what, r[1], exp))
    same(ctx, 'argument-changed', what + ' changed the graph', Model.of(H).view(), before)
    ctx.note('degrees compared')


def op_tnet(ctx, w, sc, G, n, st):
    import networkx as nx
    mk = ctx.mk
    t = st['t']
    H = {(0, 0): nx.Graph, (0, 1): nx.MultiGraph, (1, 0): nx.DiGraph, (1, 1): nx.MultiDiGraph}[(int(t['directed']), int(t['multi']))]()
    nodes = []
    for i, k in t['nodes']:
        x = NAMES[i % len(NAMES)]
        if x in H:
            continue
        if t['clean'] and k not in (0, 1):
            k = 0
        nodes.append((x, k))
        H.add_node(x, **({'mode': ['A', 'B', 'C'][k]} if k is not None else {}))
    if not nodes:
        return
    more = list(t['edges'])
    if t.get('blow'):
        N, E = blown(t['blow'])
        at = len(nodes)
        for k, x in enumerate(N):
            nodes.append((x, k % 2))
            H.add_node(x, mode='AB'[k % 2])
        more += [(at + u, at + v, k, k % 4) for u, v, k in E if t['clean'] is False or u % 2 != v % 2]
    modes = dict(nodes)
    for u, v, wt, key in more:
        u, v = nodes[u % len(nodes)][0], nodes[v % len(nodes)][0]
        if t['clean'] and modes[u] == modes[v]:
            continue
        if t['multi']:
            H.add_edge(u, v, key='2001-01-0{}'.format(key), weight=wt)
        else:
            H.add_edge(u, v, weight=wt)
    weighted, timed = bits(st['a'], [True, False], [True, False])
    timed = timed and t['multi']
    kinds = {k for _, k in nodes}
    src = None if t['src'] is None else ['A', 'B'][t['src'] % 2]
    letters = {None if k is None else ['A', 'B', 'C'][k] for k in kinds}
    legal = None not in letters and len(letters | ({src} if src else set())) == 2 and all(modes[u] != modes[v] for u, v in H.edges())
    if len(letters) == 1 and src and None not in letters and src not in letters:
        return      # modes that are only named
    what = 'step {}: writeTnetFile'.format(n)
    kw = {'weighted': weighted, 'sourceMode': src}
    if timed:
        kw['timeString'] = 'time'
    name = 'tnet{}.txt'.format(n)
    fn = lambda: mk.writeTnetFile(H, name, 'mode', **kw)
    if st['hit'] is not None and legal and 'r' not in st['hit']['op'].replace('open_w|write|close_w', '').replace('write', ''):
        struck(ctx, w, st, fn, what, [name])
    r = call(fn)
    if not legal:
        ctx.check(r[0] == 'raise' and isinstance(r[1], mk.mkExceptions.RCValueError), 'tnet', lambda: '{} of a network that is not two-mode: {!r}'.format(what, r))
        return
    ctx.check(r[0] == 'ok', 'tnet', lambda: '{} raised {!r}'.format(what, r[1]))
    ids = {x: d.get('tnet-ID') for x, d in H.nodes(data=True)}
    ctx.check(sorted(ids.values(), key=str) == sorted(range(1, len(ids) + 1), key=str), 'tnet', lambda: '{}: the ids are {}'.format(what, ids))
    got = common.get_file(w, name).decode('utf-8').split('\n')
    ctx.check(got[-1] == '', 'tnet', lambda: '{}: the last line is cut: {!r}'.format(what, got[-1]))
    got = sorted(x.split(' ') for x in got[:-1])
    want = []
    firsts = {['A', 'B', 'C'][modes[x]] for x in ids for r_ in got if r_[1 if timed else 0] == str(ids[x])}
    ctx.check(len(firsts) <= 1 and (src is None or firsts <= {src}), 'tnet', lambda: '{}: the first column holds modes {} (asked for {})'.format(what, firsts, src))
    first = next(iter(firsts)) if firsts else None
    for e in (H.edges(keys=True, data=True) if t['multi'] else H.edges(data=True)):
        u, v, d = e[0], e[1], e[-1]
        if ['A', 'B', 'C'][modes[u]] != first:
            u, v = v, u
        want.append((['"{}"'.format(e[2])] if timed else []) + [str(ids[u]), str(ids[v])] + ([str(d['weight'])] if weighted else []))
    same(ctx, 'tnet', what + ' (left: lines, right: edges)', got, sorted(want))
    ctx.active = True


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}
