"""P09: every network is what its definition gives for the records, whatever happened before and in whatever order."""
import os

from .. import common, corpus, mini, model, queries, truth
from ..common import pick
from ..sched import Scheduler

KNOWN = {k: ({'mode': 'known', 'which': k, 'world': {}}, k) for k in ('diffusion-raw', 'diffusion-string', 'equal-citations', 'expanded-order')}
RUNS = {'quick': 23500, 'thorough': 200000}
CAP = {'quick': 100, 'thorough': 800}
CROSS = True
REAL = 'record parsing, field processing, all network builders, networkx'
STUB = 'disk (real bytes, simulated calls), hash seed of the process and insertion order (chosen by the scenario), Ctrl-C (raised at a chosen line)'
STATE_MEASURE = 'distinct (network kind, options, size of the graph) triples'
TAGS = ['AU', 'authorsFull', 'keywords', 'DE', 'journal', 'year', 'title', 'WC', 'j9', 'citations', 'volume', 'authorsShort']
LTAGS = ['AU', 'authorsFull', 'keywords', 'DE', 'WC', 'authorsShort']


def net(rng):
    k = pick(rng, ['coauthor', 'coauthor', 'cocite', 'cocite', 'cite', 'cite', 'cite', 'coupling', 'onemode', 'twomode', 'twomode', 'multimode', 'multilevel', 'multilevel', 'diffgraph'])
    return {'k': k, 'o': rng.randrange(1 << 16), 'a': rng.randrange(12), 'b': rng.randrange(12), 'c': rng.randrange(12), 'nt': rng.randrange(5), 'kw': rng.randrange(48)}


def gen(rng, i, tier):
    if rng.random() < .12:
        return {'mode': 'grants', 'world': common.world_conf(rng), 'files': [common.file_spec(rng, ['nserc', 'nserc', 'nsf', 'cihr', 'fall'], j, kmax=12, nmax=6) for j in range(rng.randint(1, 3))],
                'nets': [rng.randrange(640) for _ in range(2)]}
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            q = {'op': 'query', 'q': pick(rng, queries.RECORD_QUERIES), 'a': rng.randrange(512)}
            if rng.random() < .3:
                q['kbd'] = int(2 ** (rng.random() * 12))
            steps.append(q)
        steps.append(dict(net(rng), op='net'))
    return {'mode': 'mini', 'bad': common.gen_bad(rng), 'specs': mini.large(rng, .01) or mini.specs(rng, 1, 8 if tier == 'quick' else 14), 'src': rng.randrange(1 << 14), 'order': rng.randrange(1000), 'build': pick(rng, ['load', 'load', 'add', 'copy', 'union']),
            'world': common.world_conf(rng), 'steps': steps}


def stem1(s):
    return s[:1].lower()


def stem2(s):
    return s[-1:]


def interrupted(ctx, w, fn, n):
    s = Scheduler(w, (), line_prefix=os.path.join(ctx.code, 'metaknowledge') + os.sep, line_kbd=n)
    try:
        s.trace_on()
        try:
            return 'ok', fn()
        except KeyboardInterrupt:
            ctx.note('calls interrupted')
            return 'kbd', None
    finally:
        s.trace_off()
        w.sched = None


def build(ctx, w, specs, sc):
    """The collection, made in one of several ways that must not matter."""
    mk = ctx.mk
    order = sorted(specs, key=lambda s: (s['k'] * 7919 + sc['order'] * 104729) % 1000003)
    half = len(order) // 2
    if sc['build'] == 'load':
        common.put_file(w, 'm.isi', mini.render(order))
        return mk.RecordCollection(os.path.join(ctx.root, 'm.isi'))
    if sc['build'] == 'copy':
        common.put_file(w, 'm.isi', mini.render(order))
        return mk.RecordCollection(os.path.join(ctx.root, 'm.isi')).copy()
    # citations refer to records by what is in the file, so the text is rendered from the whole set
    by_id = {R.id: R for R in mini.records(mk, specs)}
    made = [by_id[mini.pid(s['k'])] for s in order]
    if sc['build'] == 'add':
        C = mk.RecordCollection()
        for R in made:
            C.add(R)
        return C
    return mk.RecordCollection(made[:half]) | mk.RecordCollection(made[half:])


def expect(ctx, mk, C, vs, n, srcs):
    """(label, graph, model graph, options for the comparison)"""
    o = n['o']
    b = [bool(o >> j & 1) for j in range(16)]
    k = n['k']
    T, L = TAGS, LTAGS
    t1, t2, t3 = T[n['a'] % len(T)], T[n['b'] % len(T)], T[n['c'] % len(T)]
    kw = {}
    if k == 'coauthor':
        info = [False, True, ['year', 'title', 'authorsShort']][n['a'] % 3]
        g = C.networkCoAuthor(weighted=b[0], count=b[1], useShortNames=b[2], citeProfile=b[3], detailedInfo=info)
        want = model.coauthor(vs, 'authorsShort' if b[2] else 'authorsFull', b[0], b[1])
        if b[3]:
            check_profile(ctx, g, vs, 'authorsShort' if b[2] else 'authorsFull')
        check_author_info(ctx, g, vs, 'authorsShort' if b[2] else 'authorsFull', info)
        return g, want, kw
    if k in ('cocite', 'cite'):
        nt = ['full', 'original', 'author', 'year', 'journal'][n['nt'] % 5]
        words = [None, None, None, 'nature', ['adams', 'GENE'], ['v3']][n['kw'] % 6]
        wl = [words] if isinstance(words, str) else words
        info = b[4] and nt != 'journal'
        opts = dict(nodeType=nt, weighted=b[0], count=b[1], dropAnon=b[2], keyWords=words, coreOnly=b[3], nodeInfo=info, fullInfo=b[5])
        if nt == 'full':
            opts.update(detailedCore=[True, False, ['AF', 'year', 'title']][n['a'] % 3], addCR=b[6] and n['a'] % 3 != 1, detailedCoreAttributes=b[7])
        core = opts.get('detailedCore', True)
        core = CORE if core is True else ['AF', 'PY', 'TI'] if core else []
        spec = dict(core=core, attributes=opts.get('detailedCoreAttributes'), cr=opts.get('addCR'))
        build = C.networkCoCitation if k == 'cocite' else lambda **o: C.networkCitation(directed=b[8], recordToCite=b[9], **o)
        if nt == 'full' and b[10]:
            check_expanded(ctx, build(**opts), build(expandedCore=True, **opts), vs, b[0])
        if k == 'cocite':
            g = build(**opts)
            check_info(ctx, g, vs, nt, info, b[5], b[1], heads=False, **spec)
            return g, model.cocitation(vs, nt, b[0], b[1], b[2], wl, b[3]), kw
        g = build(**opts)
        check_info(ctx, g, vs, nt, info, b[5], b[1], **spec)
        want = model.citation(vs, nt, b[0], b[1], b[2], wl, b[3], b[8], b[9])
        return g, want, {'edge_attrs': ('yearDiff',)}
    if k == 'coupling':
        g = C.networkBibCoupling(weighted=b[0], fullInfo=b[1], addCR=b[2])
        check_info(ctx, g, vs, 'full', True, b[1], False, cr=b[2])
        return g, model.coupling(vs, b[0]), kw
    stem = [None, None, stem1, stem2][n['kw'] % 4]
    edge_attr = [None, None, 'year', 'WC'][n['nt'] % 4]
    if k in ('onemode', 'multilevel'):
        opts = dict(nodeCount=b[0], edgeWeight=b[1], stemmer=stem, edgeAttribute=edge_attr)
        if b[2]:
            na = opts['nodeAttribute'] = ['journal', 'WC', 'keywords', 'year'][n['kw'] // 4 % 4]
        tags = [t1] if k == 'onemode' else [t1, t2] if b[3] else [t1, t2, t3]
        g = C.networkOneMode(t1, **opts) if k == 'onemode' else C.networkMultiLevel(*tags, **opts)
        want = model.multilevel(vs, tags, b[0], b[1], stem or str, edge_attr)
        if b[2]:
            vals = {}
            for v in vs:
                for t in tags:
                    for x in model.aslist(v['vals'].get(t)):
                        vals.setdefault((stem or str)(model.text(x)), set()).update(str(y) for y in model.aslist(v['vals'].get(na)))
            for x in g.nodes():
                ctx.check(sorted(g.nodes[x].get(na, [])) == sorted(vals.get(x, ())), 'network-attribute',
                          lambda: '{}: nodeAttribute of {!r} is {!r} instead of {!r}'.format(k, x, g.nodes[x].get(na), sorted(vals.get(x, ()))))
        return g, want, kw
    if k == 'twomode':
        s2 = [None, stem1, stem2][n['a'] % 3]
        g = C.networkTwoMode(t1, t2, directed=b[2], nodeCount=b[0], edgeWeight=b[1], recordType=b[3], stemmerTag1=stem, stemmerTag2=s2, edgeAttribute=edge_attr)
        check_types(ctx, g, vs, [t1, t2], b[3], [stem or str, s2 or str])
        return g, model.multimode(vs, [t1, t2], b[0], b[1], b[2], stem or str, edge_attr, s2 or str), kw
    if k == 'multimode':
        tags = [t1, t2] if b[2] else [t1, t2, t3]
        g = C.networkMultiMode(*tags, nodeCount=b[0], edgeWeight=b[1], recordType=b[3], stemmer=stem, edgeAttribute=edge_attr)
        check_types(ctx, g, vs, tags, b[3], [stem or str] * 3)
        return g, model.multimode(vs, tags, b[0], b[1], False, stem or str, edge_attr), kw
    if k == 'diffgraph':
        src_vs = [v for j, v in enumerate(vs) if srcs >> j & 1]
        # two cited records with one citation cannot be told apart: keep one
        seen, use = set(), []
        for v in src_vs:
            if v['self']['id'] not in seen:
                seen.add(v['self']['id'])
                use.append(v)
        ids = {v['id'] for v in use}
        S = mk.RecordCollection([R for R in C if R.id in ids])
        lab = [None, None, 'year', 'WC'][n['nt'] % 4]
        t1, t2 = L[n['a'] % len(L)], L[n['b'] % len(L)]
        g = mk.diffusionGraph(S, C, weighted=b[0], sourceType=t1, targetType=t2, labelEdgesBy=lab)
        return g, model.diffusion(use, vs, t1, t2, b[0], lab), {'node_attrs': ('source', 'target')}
    raise KeyError(k)


def check_types(ctx, g, vs, tags, on, stems):
    """The recorded tag of every node whose value occurs under one tag only (under several the documentation does not say which)."""
    types = {}
    for v in vs:
        for t, st in zip(tags, stems):
            for x in model.aslist(v['vals'].get(t)):
                types.setdefault(st(model.text(x)), set()).add(t)
    for n, d in g.nodes(data=True):
        ts = types.get(n, set())
        if not on:
            ctx.check('type' not in d, 'network-attribute', lambda: 'node {!r} has a type though recordType is off'.format(n))
        elif len(ts) == 1:
            ctx.check(d.get('type') in ts, 'network-attribute', lambda: 'type of node {!r} is {!r} instead of {!r}'.format(n, d.get('type'), sorted(ts)[0]))


CORE = ['id', 'authorsFull', 'year', 'title', 'journal', 'volume', 'beginningPage']


def check_info(ctx, g, vs, nt, info, full, count, core=CORE, attributes=False, cr=False, heads=True):
    """What the nodes of a citation network say about themselves is true of one of the citations they stand for."""
    cites, own = {}, {}
    for v in vs:
        own.setdefault(v['self']['id'], []).append(v)
        for c in v['cites'] + [v['self']] * heads:
            cites.setdefault(model.cite_key(c, nt), []).append(c)
    for n, d in g.nodes(data=True):
        def bad(what):
            ctx.fail('network-attribute', 'node {!r} of a network with nodeType {!r} has {} in {!r}'.format(n, nt, what, dict(d)))
        known = {'count', 'info', 'fullCite', 'inCore', 'MK-ID', 'citations'}
        if not info:
            known -= {'info', 'inCore', 'MK-ID', 'citations'}
        if ('fullCite' in d) != full or full and d['fullCite'] not in [c['original'] for c in cites[n]]:
            bad('a wrong fullCite')
        if ('info' in d) != (info and not (attributes and nt == 'full' and core and n in own)):
            bad('a wrong set of attributes')
        if info and nt != 'full':
            if nt != 'journal' and d['info'] != n:
                bad('wrong info')
        elif info and not (core and n in own):
            if d['info'] not in [c['long'] for c in cites[n]] or core and (d['MK-ID'] != 'None' or d['inCore'] is not False):
                bad('wrong info')
            if cr and d['citations'] != '':
                bad('citations')
        elif info:
            mine = [v for v in own[n] if v['id'] == d['MK-ID']]
            if not mine or d['inCore'] is not True:
                bad('a wrong MK-ID or inCore')
            vals = mine[0]['vals']
            if cr and d['citations'] != '|'.join(c['original'] for c in mine[0]['cites']):
                bad('wrong citations')
            if attributes:
                known |= set(core)
                for t in core:
                    x = vals.get(t)
                    x = '|'.join(sorted(x)) if isinstance(x, list) else x
                    if d[t] != x:
                        bad('a wrong {!r} (should be {!r})'.format(t, x))
            else:
                # only what is text, and the first of several
                xs = [x[0] if isinstance(x, list) else x for x in map(vals.get, core)]
                want = ', '.join(x.replace(',', '') for x in xs if isinstance(x, str))
                if d['info'] != want:
                    bad('wrong info (should be {!r})'.format(want))
        if set(d) - known:
            bad('unknown attributes {}'.format(sorted(set(d) - known)))


def check_author_info(ctx, g, vs, tag, info):
    tags = ['year', 'title', 'journal', 'volume', 'beginningPage'] if info is True else ['PY', 'TI', 'AU'] if info else []
    said = {}
    for v in vs:
        d = {}
        for t in tags:
            x = v['vals'].get(t)
            d[t] = ', '.join(y.replace(',', '') for y in x) if isinstance(x, list) else str(x).replace(',', '')
        for a in model.aslist(v['vals'].get(tag)):
            said.setdefault(a, []).append(d)
    for n, d in g.nodes(data=True):
        got = {t: x for t, x in d.items() if t not in ('count', 'citeProfileCites', 'citeProfileCounts')}
        ctx.check(got in said[n], 'network-attribute', lambda: 'author {!r} has the attributes {!r}, its records give {!r}'.format(n, got, said[n]))


def check_expanded(ctx, base, g, vs, weighted):
    """A record in the network is there once for each of its authors, each of them linked as the first is."""
    seen = {}
    for v in vs:
        for i in {c['id'] for c in v['selves']}:
            seen[i] = seen.get(i, 0) + 1
    groups = [[c['id'] for c in v['selves']] for v in vs if len(v['selves']) > 1 and v['selves'][0]['id'] in base]
    if any(n > 1 for n in seen.values()) or any(len(set(x)) < len(x) or set(x[1:]) & set(base) for x in groups):
        return
    want = set(base) | {n for x in groups for n in x}
    ctx.check(set(g) == want, 'expanded', lambda: 'expanded core has the nodes {} instead of {}'.format(sorted(set(g) - want), sorted(want - set(g))))
    first = {n: x[0] for x in groups for n in x}
    for x in groups:
        for i, a in enumerate(x):
            da, df = dict(g.nodes[a]), dict(g.nodes[x[0]])
            ctx.check(da == df, 'expanded', lambda: 'node {!r} has the attributes {!r}, the first author has {!r}'.format(a, da, df))
            for b in x[i + 1:]:
                ctx.check(g.has_edge(a, b), 'expanded', lambda: 'the authors {!r} and {!r} of one record are not linked'.format(a, b))
    for a in g:
        for b, d in g[a].items():
            fa, fb = first.get(a, a), first.get(b, b)
            ctx.check(base.has_edge(fa, fb) or fa == fb, 'expanded', lambda: 'the edge {!r} - {!r} is new but not between authors of one record'.format(a, b))
            ctx.check(('weight' in d) == weighted, 'expanded', lambda: 'edge {!r} - {!r} has the attributes {!r}'.format(a, b, d))
            if a in base and b in base:
                ctx.check(not base.has_edge(a, b) or base[a][b] == d or fa == fb, 'expanded', lambda: 'edge {!r} - {!r} was {!r} and is {!r}'.format(a, b, base[a].get(b), d))
    for a, b in base.edges():
        ctx.check(g.has_edge(a, b), 'expanded', lambda: 'edge {!r} - {!r} is gone'.format(a, b))
    for x in groups:
        for b, d in base[x[0]].items():
            if b in first:
                continue
            for a in x[1:]:
                ctx.check(g.has_edge(a, b) and g[a][b] == d, 'expanded', lambda: 'author {!r} is not linked to {!r} as the first author is: {!r} / {!r}'.format(a, b, g[a].get(b), d))


def check_profile(ctx, g, vs, tag):
    want = {}
    ids = {c['original']: c['id'] for v in vs for c in v['cites']}
    for v in vs:
        for a in model.aslist(v['vals'].get(tag)):
            d = want.setdefault(a, {})
            for c in v['cites']:
                d[c['id']] = d.get(c['id'], 0) + 1
    for n, d in g.nodes(data=True):
        counts = sorted(int(x) for x in d['citeProfileCounts'].split('|') if x)
        ctx.check(counts == sorted(want.get(n, {}).values()), 'network-attribute', lambda: 'citation profile of {!r} has counts {} instead of {}'.format(n, counts, sorted(want.get(n, {}).values())))
        texts = [x for x in d['citeProfileCites'].split('|') if x]
        got = sorted((ids.get(x, x), int(c)) for x, c in zip(texts, d['citeProfileCounts'].split('|')))
        ctx.check(got == sorted(want.get(n, {}).items()), 'network-attribute', lambda: 'citation profile of {!r} is {} instead of {}'.format(n, got, sorted(want.get(n, {}).items())))


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    if sc['mode'] == 'grants':
        return grants(ctx, sc, w)
    if sc['mode'] == 'known':
        with w:
            return known(ctx, sc)
    specs = mini.clean(sc['specs'])
    vs = mini.views(specs)
    with w:
        C = build(ctx, w, specs, sc)
        common.mark_bad(C, sc)
        ctx.check(len(C) == len(vs), 'collection', lambda: '{} records instead of {}'.format(len(C), len(vs)))
        for si, st in enumerate(sc['steps']):
            if st['op'] == 'query':
                if 'kbd' in st:
                    interrupted(ctx, w, lambda: queries.run(mk, C, st['q'], st['a']), st['kbd'])
                else:
                    queries.run(mk, C, st['q'], st['a'])
                continue
            g, want, kw = expect(ctx, mk, C, vs, st, sc['src'])
            d = model.compare(g, want, **kw)
            ctx.check(d is None, 'network', lambda: 'step {}: {} network with options {}: {}'.format(si, st['k'], {x: st[x] for x in ('o', 'a', 'b', 'c', 'nt', 'kw')}, d))
            ctx.note('networks compared')
            ctx.active = True
            ctx.state(st['k'], st['o'] & 15, len(want.nodes), len(want.edges))
            ctx.observe('{}:{}'.format(si, st['k']), queries.graph(g, attrs=('count', 'weight', 'yearDiff', 'source', 'target')))


def grants(ctx, sc, w):
    mk = ctx.mk
    os.makedirs(os.path.join(ctx.root, 'g'))
    for f in sc['files']:
        common.put_file(w, 'g/' + f['name'], corpus.render(f))
    with w:
        C = mk.GrantCollection(os.path.join(ctx.root, 'g'))
        entries = list(truth.merged_grants(sorted(sc['files'], key=lambda f: f['name'])).values())
        for o in sc['nets']:
            b = [bool(o >> j & 1) for j in range(6)]
            inst = b[2]
            tags = [None, None, 'PI Names', ['Holder', 'Institution'], 'nothing'][o // 64 % 5]
            g = (C.networkCoInvestigatorInstitution if inst else C.networkCoInvestigator)(targetTags=tags, count=b[0], weighted=b[1])
            want, fields = model.G(), {}
            for e in entries:
                xs = investigators(e, tags, inst)
                for i, (a, t) in enumerate(xs):
                    want.node(a, 1 if b[0] else 0)
                    fields.setdefault(a, set()).add(t)
                    for c, _ in xs[i + 1:]:
                        want.edge(a, c, b[1])
            for n in g.nodes():
                ctx.check(n not in fields or g.nodes[n].get('field') in fields[n], 'network-attribute', lambda: 'field of {!r} is {!r} instead of one of {!r}'.format(n, g.nodes[n].get('field'), fields[n]))
            d = model.compare(g, want)
            ctx.check(d is None, 'network', lambda: 'co-{} network with options {}: {}'.format('institution' if b[2] else 'investigator', o, d))
            ctx.note('networks compared')
            ctx.active = True
            ctx.state('grants', o, len(want.nodes), len(want.edges))
            ctx.observe('grants:{}'.format(o), queries.graph(g, attrs=('weight',)))


def investigators(e, tags, inst):
    tags = [] if tags is None else [tags] if isinstance(tags, str) else list(tags)
    f = e['fields']
    if e['type'] == 'NSERCGrant':
        tags = tags + [t for t in f if ('institution' if inst else 'name-') in t.lower() and t not in tags]
    elif e['type'] == 'NSFGrant':
        tags = tags + ['Institution' if inst else 'Investigator']
    out = []
    for t in tags:
        x = f.get(t)
        if isinstance(x, list):
            out += [(y.split(';')[0].strip(), t) for y in x]
        elif x is not None:
            out += [(y.strip(), t) for y in x.split(';')]
    return out


def known(ctx, sc):
    """Probes of recorded findings: each states what the definition asks for."""
    mk = ctx.mk
    two = [{'k': 0, 'au': [0], 'kw': [], 'wc': [], 'cr': [], 'py': 2, 'j': 0, 'bp': 0, 'f': 0}, {'k': 1, 'au': [0], 'kw': [], 'wc': [], 'cr': [], 'py': 2, 'j': 0, 'bp': 0, 'f': 0},
           {'k': 2, 'au': [1], 'kw': [], 'wc': [], 'cr': [0], 'py': 3, 'j': 1, 'bp': 0, 'f': 0}]
    recs = mini.records(mk, two)
    if sc['which'] == 'diffusion-raw':
        C = mk.RecordCollection(recs)
        g = mk.diffusionGraph(C, C)
        ctx.check(all(hasattr(n, 'sourceFile') for n in g.nodes()), 'diffusion-raw', lambda: 'nodes are not records but {!r}'.format(sorted(map(str, g.nodes()))[:5]))
    elif sc['which'] == 'diffusion-string':
        C = mk.RecordCollection(recs)
        g = mk.diffusionGraph(C, C, sourceType='SO', targetType='SO')
        ctx.check(set(g.nodes()) == {R['SO'] for R in C}, 'diffusion-string', lambda: 'nodes are not journals but {!r}'.format(sorted(map(str, g.nodes()))[:5]))
    elif sc['which'] == 'expanded-order':
        def rec(uid, au, cr):
            text = 'PT J\n' + ''.join(('   ' if i else 'AU ') + a + '\n' for i, a in enumerate(au)) + 'TI t\nSO NATURE\n'
            return mk.WOSRecord(text + ''.join(('   ' if i else 'CR ') + c + '\n' for i, c in enumerate(cr)) + 'J9 NATURE\nPY 2001\nUT WOS:{}\nER\n'.format(uid))
        got = set()
        for n in range(24):
            C = mk.RecordCollection([rec('a{}'.format(n), ['Smith, A', 'Li, W'], []), rec('b{}'.format(n), ['Li, W', 'Abe, K'], []),
                                     rec('c{}'.format(n), ['Zed, Q'], ['Smith A, 2001, NATURE', 'Old T, 1990, GENE'])])
            got.add(tuple(sorted(C.networkCoCitation(expandedCore=True).nodes())))
        ctx.check(len(got) == 1, 'expanded-order', lambda: 'records that differ in their ids only give the nodes {}'.format(sorted(got)))
    elif sc['which'] == 'equal-citations':
        C = mk.RecordCollection(recs)
        c = mk.diffusionCount(C, C)
        ctx.check(sorted(c.values()) == [0, 1, 1], 'equal-citations', lambda: 'two records with the cited citation, counts are {}'.format(sorted(c.values())))
