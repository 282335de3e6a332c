"""Small dense record sets: few authors, keywords and journals, many repeated and mutual citations.

A spec is {'k': id, 'au': [i], 'kw': [i], 'wc': [i], 'cr': [c], 'py': i or -1, 'j': i, 'bp': i, 'f': flags}.  The views
below are what the definitions of the networks and counts are applied to; they come from the spec alone, not from
the library.
"""
AU = [('Smith, A', 'Smith, Ann'), ('Li, W', 'Li, Wei'), ('Gadzal, M', 'Gadzal, Marek'), ('Smith, B', 'Smith, Bob'), ('Muller, J', 'Müller, Jörg'),
      ("O'Neil, P", "O'Neil, Pat"), ('Abe, K', 'Abe, Ken')]
KW = ['gas', 'genes', 'networks', 'co-authors', 'methods', 'water']
WC = ['Sociology', 'Genetics & Heredity', 'Engineering, Chemical']
JN = [('NATURE', 'Nature'), ('GENE', 'Gene'), ('J NETW', 'Journal of Networks'), ('SCIENCE', 'Science')]
PY = [1998, 2001, 2005, 2010]
# author, year, journal, volume, page, DOI, rest
EXT = [('Adams J', 1990, 'NATURE', 'V3', 'P10', '10.1/a', None), ('Adams J', 1990, 'NATURE', 'V4', None, None, None), ('[Anonymous]', 2001, 'GENE', None, None, None, None),
       ('Brown K', 1985, None, None, None, None, None), (None, 1999, 'SCIENCE', 'V2', None, None, None), ('Clark M', 2004, 'J OF X', None, 'P7', None, None),
       ('Adams J', 1991, 'SCIENCE', 'V1', 'P1', None, None), ('Dean P', 2001, 'NATURE', 'V9', 'P33', '10.1/b', None), ('[Anonymous]', 2001, 'GENE', 'V2', None, None, None),
       ('Dean P', 2001, 'NATURE', None, None, None, None), ('Old T', 998, 'ANN', None, None, None, None), ('New T', 2008, 'GENE', 'V1', 'P2', None, None),
       ('Ellis Q', 2001, 'GENE', 'V2', 'P3', '10.1/c', None), ('Ford R', 2000, 'GENE', 'V3', None, None, None), ('Ford R', 2002, 'NATURE', None, 'P2', None, None),
       ('Gray S-T', 2003, 'SCIENCE', 'V5', 'P8', None, None), ("O'Hara D", 2000, 'J NETW', None, None, '10.1/d', None)]


def view(author, year, journal, V, P, doi):
    """How a citation with these parts is known."""
    original = ', '.join(x for x in [author, None if year is None else str(year), journal, V, P, None if doi is None else 'DOI ' + doi] if x)
    a = None if author is None else author.replace('.', '').upper().title()
    j = None if journal is None else journal.upper()
    ident = ', '.join(str(x) for x in (a, year, j) if x)
    extras = [x for x in (V, P) if x]
    return {'id': ident, 'original': original, 'author': a, 'year': year, 'journal': j, 'V': V, 'P': P, 'DOI': None if doi is None else doi.upper(), 'misc': None,
            'bad': a is None or year is None or j is None, 'anon': a == '[Anonymous]', 'long': ', '.join([ident] + extras)}


def clean(specs):
    """Specs with unique ids and indices in range, whatever shrinking did to them."""
    out, seen = [], set()
    for s in specs:
        if not isinstance(s, dict) or s['k'] in seen:
            continue
        seen.add(s['k'])
        t = dict(s)
        t['au'] = uniq(i % len(AU) for i in s['au'])
        t['kw'] = uniq(i % len(KW) for i in s['kw'])
        t['wc'] = uniq(i % len(WC) for i in s['wc'])
        t['j'] = s['j'] % len(JN)
        if not t['au'] and t['py'] < 0:
            t['py'] = 0     # a citation of a journal alone reads like one of a person
        out.append(t)
    return out


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def parts(s):
    """The parts of the citation of record s."""
    return (AU[s['au'][0]][0].replace(',', '') if s['au'] else None, None if s['py'] < 0 else PY[s['py'] % len(PY)], JN[s['j']][0],
            'V{}'.format(s['k'] % 5 + 1) if s['f'] & 1 else None, 'P{}'.format(s['bp'] + 1) if s['f'] & 2 else None,
            '10.2/r{}'.format(s['k']) if s['f'] & 4 else None)


def cited(c, by_k):
    """Citation code: below 50 the record of that id if it is there, else one of the pool."""
    if c < 50 and c in by_k:
        return parts(by_k[c])
    return EXT[c % len(EXT)][:6]


def pid(k):
    return 'WOS:{:015d}'.format(k)


def views(specs):
    """[{'id', 'self', 'cites', 'vals': {tag: list or scalar or None}}] for clean specs, everything about each record."""
    by_k = {s['k']: s for s in specs}
    out = []
    for s in specs:
        cites = [view(*cited(c, by_k)) for c in s['cr']]
        v = {}
        if s['au']:
            v['AU'] = v['authorsShort'] = [AU[i][0] for i in s['au']]
            v['AF'] = v['authorsFull'] = [AU[i][1] for i in s['au']]
        if s['kw']:
            v['DE'] = v['authKeywords'] = [KW[i] for i in s['kw']]
            v['ID'] = v['keywords'] = [KW[i].upper() for i in s['kw'][:3]]
        if s['wc']:
            v['WC'] = v['subjects'] = [WC[i] for i in s['wc']]
        v['SO'] = v['journal'] = JN[s['j']][1].upper()
        v['J9'] = v['j9'] = JN[s['j']][0]
        v['TI'] = v['title'] = title(s)
        if s['py'] >= 0:
            v['PY'] = v['year'] = PY[s['py'] % len(PY)]
        if s['f'] & 1:
            v['VL'] = v['volume'] = str(s['k'] % 5 + 1)
        if s['f'] & 2:
            v['BP'] = v['beginningPage'] = str(s['bp'] + 1)
        v['UT'] = v['id'] = pid(s['k'])
        if cites:
            v['CR'] = v['citations'] = cites
        out.append({'id': pid(s['k']), 'self': view(*parts(s)), 'selves': [view(AU[i][0].replace(',', ''), *parts(s)[1:]) for i in s['au']] or [view(*parts(s))],
                    'cites': cites, 'vals': v})
    return out


def title(s):
    return 'On {} {}'.format(KW[s['k'] % len(KW)], s['k'] % 3 if s['f'] & 8 else s['k'])


def render(specs):
    """The WOS file of these records (clean specs)."""
    by_k = {s['k']: s for s in specs}
    out = ['\ufeffFN Thomson Reuters Web of Science\n', 'VR 1.0\n']
    for s in specs:
        f = [('PT', ['J'])]
        if s['au']:
            f.append(('AU', [AU[i][0] for i in s['au']]))
            f.append(('AF', [AU[i][1] for i in s['au']]))
        f.append(('TI', [title(s)]))
        f.append(('SO', [JN[s['j']][1]]))
        if s['kw']:
            f.append(('DE', ['; '.join(KW[i] for i in s['kw'])]))
            f.append(('ID', ['; '.join(KW[i] for i in s['kw'][:3])]))
        if s['cr']:
            f.append(('CR', [view(*cited(c, by_k))['original'] for c in s['cr']]))
        f.append(('J9', [JN[s['j']][0]]))
        if s['py'] >= 0:
            f.append(('PY', [str(PY[s['py'] % len(PY)])]))
        if s['f'] & 1:
            f.append(('VL', [str(s['k'] % 5 + 1)]))
        if s['f'] & 2:
            f.append(('BP', [str(s['bp'] + 1)]))
        if s['f'] & 4:
            f.append(('DI', ['10.2/r{}'.format(s['k'])]))
        if s['wc']:
            f.append(('WC', ['; '.join(WC[i] for i in s['wc'])]))
        f.append(('UT', [pid(s['k'])]))
        for tag, lines in f:
            for i, l in enumerate(lines):
                out.append((tag + ' ' if i == 0 else '   ') + l + '\n')
        out.append('ER\n\n')
    out.append('EF')
    return ''.join(out).encode('utf-8')


def records(mk, specs):
    """The records made one by one from their text, in the order of the specs (clean)."""
    whole = render(specs).decode('utf-8')
    return [mk.WOSRecord(r + 'ER\n') for r in whole.split('\n', 2)[2].split('ER\n\n')[:-1]]


def spec(rng, k, kmax):
    return {'k': k, 'au': rng.sample(range(len(AU)), rng.choice([0, 1, 1, 2, 2, 3, 4])), 'kw': rng.sample(range(len(KW)), rng.choice([0, 1, 2, 3])),
            'wc': rng.sample(range(len(WC)), rng.choice([0, 1, 1, 2])), 'cr': cites(rng, kmax), 'py': rng.choice([-1, 0, 1, 2, 2, 3, 3]), 'j': rng.randrange(len(JN)),
            'bp': rng.randrange(3), 'f': rng.randrange(16)}


def cites(rng, kmax):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        c = rng.randrange(kmax) if rng.random() < .5 else 50 + rng.randrange(len(EXT) * 3)
        if c not in out or rng.random() < .15:
            out.append(c)
    return out


def specs(rng, lo=1, hi=8):
    n = rng.randint(lo, hi)
    kmax = n + 2
    return [spec(rng, k, kmax) for k in rng.sample(range(kmax), n)]


def large(rng, p):
    """Now and then a collection as large as real ones, else None."""
    if rng.random() >= p:
        return None
    n = rng.choice([25, 36, 47])      # numbers from 50 on are cited works
    return specs(rng, n, n)
