"""Read-only operations of the library as named queries with canonical answers.

Each query is fn(mk, C, a) where a is a small integer that selects options; what it returns is plain data that does
not depend on the order collections are iterated in, unless the order is part of the answer.
"""
import copy
import io
import pickle

TAGS = {'wos': ['AU', 'AF', 'TI', 'SO', 'J9', 'PY', 'DE', 'ID', 'CR', 'WC', 'SC', 'AB', 'UT', 'DI', 'VL', 'BP', 'PD', 'C1', 'FU', 'TC', 'NR', 'EP'],
        'med': ['AU', 'FAU', 'TI', 'TA', 'JT', 'DP', 'PMID', 'OT', 'AD', 'AB', 'PG', 'VI', 'GR', 'AID', 'PT', 'DA', 'EDAT', 'SO', 'LA'],
        'pro': ['Author', 'Title', 'Abstract', 'Subject', 'Classification', 'Identifier / keyword', 'Degree date', 'ProQuest document ID', 'url', 'Name'],
        'sco': ['Authors', 'Title', 'Year', 'Abbreviated Source Title', 'References', 'Author Keywords', 'Abstract', 'Volume', 'Cited by', 'DOI', 'EID']}
LONG = ['authorsShort', 'authorsFull', 'title', 'journal', 'year', 'keywords', 'citations', 'abstract', 'id', 'DOI', 'volume', 'month', 'beginningPage', 'j9',
        'grants', 'selfCitation', 'subjects', 'institutions', 'editors', 'address', 'name', 'nonexistent', 'pubMedID', 'authAddress', 'authorsFull', 'wosString']
STR_TAGS = ['authorsFull', 'authorsShort', 'keywords', 'journal', 'title', 'subjects', 'DE', 'AU', 'WC', 'OT', 'year', 'Author Keywords', 'citations', 'j9']


def tag_names(a):
    pool = [t for ts in TAGS.values() for t in ts] + LONG
    return pool[a % len(pool)]


def canon(v):
    t = type(v).__name__
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, bytes):
        return 'b:' + v.decode('latin-1')
    if t == 'Citation':
        return 'cite:' + str(v)
    if hasattr(v, 'sourceFile'):
        return '{}:{}:{}'.format(t, v.id, v.error if v.bad else '')
    if t in ('RecordCollection', 'GrantCollection'):
        return {'ids': sorted(str(canon(R)) for R in v), 'bad': v.bad, 'errors': sorted(str(e) for e in v.errors)}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((canon(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {'dict': sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)}
    if t in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'):
        return graph(v)
    if hasattr(v, 'isoformat'):
        return v.isoformat()
    return '{}:{}'.format(t, v)


def graph(G, attrs=None):
    """Nodes and edges with attributes, in an order of their own."""
    def ad(d):
        return sorted(([str(k), sorted(canon(x), key=repr) if isinstance(x, list) else canon(x)] for k, x in d.items() if attrs is None or k in attrs), key=repr)
    nodes = sorted(([repr(canon(n)), ad(d)] for n, d in G.nodes(data=True)), key=repr)
    edges = []
    for e in (G.edges(keys=True, data=True) if G.is_multigraph() else G.edges(data=True)):
        u, v = repr(canon(e[0])), repr(canon(e[1]))
        if not G.is_directed() and v < u:
            u, v = v, u
        edges.append([u, v] + ([canon(e[2])] if G.is_multigraph() else []) + [ad(e[-1])])
    return {'kind': type(G).__name__, 'nodes': nodes, 'edges': sorted(edges, key=repr)}


def rows(d):
    """A table of columns as its sorted rows."""
    if not isinstance(d, dict):
        return canon(d)
    cols = sorted(d)
    return [cols, sorted(([canon(x) for x in r] for r in zip(*(d[c] for c in cols))), key=repr), sorted({len(d[c]) for c in cols})]


def recs(C):
    return sorted(C, key=lambda R: str(canon(R)))


def good(C):
    return [R for R in recs(C) if not R.bad]


def q_field(mk, C, a):
    t = tag_names(a)
    return [[R.id, canon(R.get(t))] for R in good(C)]


def q_raw(mk, C, a):
    t = tag_names(a)
    return [[R.id, canon(R.get(t, raw=True)) if a % 2 else sorted(R.keys())] for R in good(C)]


def q_contains(mk, C, a):
    t = tag_names(a)
    return [[R.id, t in R, len(R)] for R in good(C)]


def q_items(mk, C, a):
    out = []
    for R in good(C)[:3]:
        out.append([R.id, canon(dict(R.items(raw=bool(a % 2)))), canon(list(R.values(raw=bool(a % 2))))])
    return out


def q_cite(mk, C, a):
    return [[R.id, [str(c) for c in R.createCitation(multiCite=True)] if a % 2 else str(R.createCitation())] for R in good(C)]


def q_bib(mk, C, a):
    return [[R.id, outcome(lambda: R.bibString(maxLength=[1000, 60][a % 2], WOSMode=bool(a & 2), restrictedOutput=bool(a & 4), niceID=bool(a & 8)))] for R in good(C)]


def q_write(mk, C, a):
    out = []
    for R in good(C):
        def one():
            f = io.StringIO()
            R.writeRecord(f)
            return f.getvalue()
        out.append([R.id, outcome(one)])
    return out


def q_misc(mk, C, a):
    return [[R.id, R.title, canon(R.authors), str(R), repr(R), canon(R.getCitations(pandasFriendly=False)) if a % 2 else rows(R.getCitations())] for R in good(C)]


def q_copy(mk, C, a):
    out = []
    for R in good(C):
        D = [lambda: R.copy(), lambda: copy.copy(R), lambda: pickle.loads(pickle.dumps(R)), lambda: copy.deepcopy(R)][a % 4]()
        out.append([D.id, D == R, hash(D) == hash(R), canon({k: D.get(k, raw=True) for k in D.keys()}), canon(D.get(tag_names(a)))])
    return out


def q_dict(mk, C, a):
    kw = {'genderCounts': False, 'numAuthors': bool(a & 1), 'raw': bool(a & 2)}
    if a & 4:
        kw['onlyTheseTags'] = [LONG[a % len(LONG)], TAGS['wos'][a % len(TAGS['wos'])], 'year', 'id']
    return outcome(lambda: rows(C.makeDict(**kw)))


def q_ranked(mk, C, a):
    t = STR_TAGS[a % len(STR_TAGS)]
    m = a // 16 % 4
    if m == 0:
        return rows(C.rankedSeries(t))
    if m == 1:
        return canon(sorted(C.rankedSeries(t, pandasMode=False), key=repr))
    if m == 2:
        return canon(sorted(C.rankedSeries(t, giveRanks=True, giveCounts=False, pandasMode=False, greatestFirst=False), key=repr))
    return canon(sorted(C.rankedSeries(t, giveRanks=False, giveCounts=False, pandasMode=False), key=repr))


def q_series(mk, C, a):
    t = [None, 'authorsFull', 'keywords', 'journal', 'citations'][a % 5]
    if a // 5 % 2:
        return rows(C.timeSeries(t))
    return canon(sorted(C.timeSeries(t, pandasMode=False, giveYears=bool(a & 16)), key=lambda x: repr(canon(x))))


def q_cooc(mk, C, a):
    return canon(C.cooccurrenceCounts(STR_TAGS[a % len(STR_TAGS)], STR_TAGS[(a + 1 + a // 7) % len(STR_TAGS)], 'year'))


def q_coauthor(mk, C, a):
    return graph(C.networkCoAuthor(weighted=bool(a & 1), count=bool(a & 2), useShortNames=bool(a & 4), citeProfile=bool(a & 8), detailedInfo=bool(a & 16)))


def q_cocite(mk, C, a):
    nt = ['full', 'original', 'author', 'year'][a % 4]
    return graph(C.networkCoCitation(nodeType=nt, weighted=bool(a & 4), count=bool(a & 8), dropAnon=bool(a & 16), coreOnly=bool(a & 32), nodeInfo=bool(a & 64),
                                     addCR=bool(a & 128)))


def q_citation(mk, C, a):
    nt = ['full', 'original', 'author', 'year'][a % 4]
    return graph(C.networkCitation(nodeType=nt, weighted=bool(a & 4) or nt in ('author', 'year'), count=bool(a & 8), dropAnon=bool(a & 16), directed=bool(a & 32), nodeInfo=bool(a & 64)))


def q_bibc(mk, C, a):
    return graph(C.networkBibCoupling(weighted=bool(a & 1), fullInfo=bool(a & 2)))


def q_onemode(mk, C, a):
    return graph(C.networkOneMode(STR_TAGS[a % len(STR_TAGS)], nodeCount=bool(a & 1), edgeWeight=bool(a & 2)))


def q_twomode(mk, C, a):
    return graph(C.networkTwoMode(STR_TAGS[a % len(STR_TAGS)], STR_TAGS[(a + 1) % len(STR_TAGS)], directed=bool(a & 1), nodeCount=bool(a & 2), edgeWeight=bool(a & 4)))


def q_multimode(mk, C, a):
    return graph(C.networkMultiMode(STR_TAGS[a % len(STR_TAGS)], STR_TAGS[(a + 1) % len(STR_TAGS)], 'year', nodeCount=bool(a & 2), edgeWeight=bool(a & 4)))


def q_multilevel(mk, C, a):
    return graph(C.networkMultiLevel(STR_TAGS[a % len(STR_TAGS)], STR_TAGS[(a + 3) % len(STR_TAGS)], nodeCount=bool(a & 2), edgeWeight=bool(a & 4)))


def q_local(mk, C, a):
    return canon(C.localCiteStats(keyType=['citation', 'year', 'author', 'journal'][a % 4])) if a & 4 else rows(C.localCiteStats(pandasFriendly=True))


def q_citesof(mk, C, a):
    rs = good(C)
    if not rs:
        return None
    R = rs[a % len(rs)]
    return canon(C.localCitesOf([R, R.id, R.createCitation()][a % 3]))


def q_filter(mk, C, a):
    f = ['all', 'author', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'][a % 8]
    key = {'year': '2005'}.get(f, ['a', 'SMITH', 'V3', ''][a // 8 % 4])
    return canon(C.citeFilter(keyString=key, field=f, reverse=bool(a & 32)))


def q_years(mk, C, a):
    return canon(C.yearSplit(1990 + a % 20, 2000 + a % 17))


def q_cites(mk, C, a):
    return canon(sorted(C.getCitations(pandasFriendly=False), key=str)) if a % 2 else rows(C.getCitations(field=[None, 'year', 'journal'][a % 3]))


def q_rpys(mk, C, a):
    return outcome(lambda: canon(C.rpys(minYear=1970, maxYear=2015, rankEmptyYears=False)))


def q_nlp(mk, C, a):
    return rows(C.forNLP(lower=bool(a & 1), removeNumbers=bool(a & 2), removeNonWords=bool(a & 4), removeCopyright=bool(a & 8)))


def q_burst(mk, C, a):
    return rows(C.forBurst(['keywords', 'abstract', 'title', 'year'][a % 4], lower=bool(a & 4)))


def q_sets(mk, C, a):
    D = C.copy()
    E = type(C)(iter(list(good(C))[:a % 5]))
    return [canon(C & E), canon(C - E), canon(D | E), canon(C ^ E), C == D, len(C) >= len(E), sorted(C.tags()) if not any(R.bad for R in C) else None]


def q_chunk(mk, C, a):
    cs = C.chunk(1 + a % 4)
    return [sorted(len(c) for c in cs), sorted(str(canon(R)) for c in cs for R in c)]


def q_ids(mk, C, a):
    return [[R.id, C.containsID(R.id), canon(C.getID(R.id)), R in C] for R in good(C)] + [canon(C.badEntries()), C.containsID('x'), repr(C), len(C)]


def q_pickle(mk, C, a):
    D = pickle.loads(pickle.dumps(C))
    return [canon(D), D == C]


def q_diff(mk, C, a):
    k = ['raw', 'UT', 'journal', 'authorsFull', 'year'][a % 5]
    d = mk.diffusionCount(C, C, sourceType=k, extraValue=[None, 'year'][a // 5 % 2])
    return canon(d)


def q_diffgraph(mk, C, a):
    k = ['authorsFull', 'WC', 'CR', 'AU'][a % 4]
    return graph(mk.diffusionGraph(C, C, sourceType=k, targetType=['authorsFull', 'AU'][a // 4 % 2], weighted=bool(a & 8)))


def q_glimpse(mk, C, a):
    s = C.glimpse(*([], ['keywords'], ['authorsFull', 'year'])[a % 3], compact=bool(a & 4))
    return s


def q_copyright(mk, C, a):
    return canon(C.findProbableCopyright())


def census(C, salt=0):
    """Every field of every record under each of its names, asked for in an order that depends on salt."""
    out = {}
    for R in C:
        alt = getattr(R, 'getAltName', lambda t: None)
        names = list(R.keys())
        names = sorted(set(names + [alt(t) for t in names if alt(t)] + LONG))
        if names:
            names = names[salt % len(names):] + names[:salt % len(names)]
        d = out[str(R.id)] = {}
        for t in names[::-1] if salt & 1 else names:
            d[t] = outcome(lambda: canon(R[t]))
            d['in ' + t] = t in R
    return out


def outcome(fn):
    try:
        return ['ok', fn()]
    except Exception as e:      # noqa
        return ['raise', type(e).__name__, str(e)[:200]]


QUERIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('q_')}
GRANT_QUERIES = ['raw', 'items', 'dictless', 'ranked', 'sets', 'chunk', 'pickle', 'coinv', 'invest', 'gcopy', 'onemode', 'cooc']


def q_invest(mk, C, a):
    return sorted(([str(canon(G)), canon(G.getInvestigators()), canon(G.getInstitutions())] for G in C if not G.bad), key=repr)


def q_coinv(mk, C, a):
    return graph(C.networkCoInvestigator(count=bool(a & 1), weighted=bool(a & 2))) if a & 4 else graph(C.networkCoInvestigatorInstitution(count=bool(a & 1), weighted=bool(a & 2)))


def run(mk, C, name, a):
    return QUERIES[name](mk, C, a)


RECORD_QUERIES = sorted(QUERIES)
QUERIES['invest'] = q_invest
QUERIES['coinv'] = q_coinv
GRANT_QUERIES = ['sets', 'chunk', 'pickle', 'coinv', 'invest']
