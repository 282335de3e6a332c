"""Ground-truth corpora: every record is a pure function of (format, k), every file of its spec.

A file spec is JSON: {"fmt": ..., "name": ..., "recs": [k, ...], "v": variant number}.
render(spec) gives the bytes; model(spec) gives what a correct reader must find in them:
{record id: OrderedDict-like list of (field, raw value)}.
"""
import io
import csv
from random import Random

AUTH = [('Gadzal', 'Marek'), ('Smith', 'Ann'), ('de la Cruz', 'Juana I.'), ('Müller', 'Jörg'), ('Li', 'Wei'),
        ("O'Neil", 'Pat'), ('Nguyen', 'Thi-Ha'), ('Brown', 'C. D.'), ('Ahmed', 'Sara'), ('Zhang', 'Y.')]
JOURN = [('PETROL SCI TECHNOL', 'PETROLEUM SCIENCE AND TECHNOLOGY'), ('GENE', 'GENE'), ('NATURE', 'NATURE'),
         ('J ASIAN EARTH SCI', 'JOURNAL OF ASIAN EARTH SCIENCES'), ('SCIENTOMETRICS', 'SCIENTOMETRICS'),
         ('AM J SOCIOL', 'AMERICAN JOURNAL OF SOCIOLOGY')]
WORDS = ['network', 'survey', 'of', 'gas', 'method', 'ABC', 'measure', 'theory', 'the', 'co-citation', 'models', 'protein', 'water']
KEYS = ['gas geochemistry', 'reservoir', 'networks', 'sociology', 'bitumen', 'genes', 'co-authors', 'methods']
MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC']
UNI = ['Univ Waterloo, Waterloo, ON, Canada.', 'China Univ Geosci, Wuhan, Peoples R China.', 'McMaster Univ, Hamilton, ON, Canada.',
       'Univ Lodz, Lodz, Poland.']


def R(fmt, k):
    return Random('{}-{}'.format(fmt, k))


def initials(first):
    return ''.join(p[0].upper() for p in first.replace('-', ' ').replace('.', ' ').split())


def cite_for(k):
    """The citation string other WOS records use for WOS record k."""
    b = wos_basics(k)
    parts = []
    if b['au']:
        parts.append('{} {}'.format(b['au'][0][0], initials(b['au'][0][1])))
    if b['year']:
        parts.append(str(b['year']))
    parts.append(b['journal'][0])
    if b['vol']:
        parts.append('V' + b['vol'])
    if b['bp']:
        parts.append('P' + b['bp'])
    if b['doi']:
        parts.append('DOI ' + b['doi'])
    return ', '.join(parts)


def wos_basics(k):
    r = R('wosb', k)
    return {
        'au': r.sample(AUTH, r.choice([1, 1, 2, 2, 3, 4])),
        'year': r.choice([1998, 2001, 2005, 2005, 2010, 2014]),
        'journal': r.choice(JOURN),
        'vol': r.choice(['3', '12', '104', '']) ,
        'bp': r.choice(['1', '57', '1437', '']),
        'doi': '10.1016/x.{}.{:03d}'.format(r.randrange(3), k) if r.random() < .7 else '',
    }


def sentence(r, n):
    return ' '.join(r.choice(WORDS) for _ in range(n))


ODD = ['\u2028line separator', 'next\x85line', 'non\xa0breaking', 'e\u0301 combining', '\U0001F600 emoji', 'tab\there', '\x0cform\x0bfeed', 'ER of', 'EF of', 'VR 1.0',
       'PMID- 1', 'semi; colon', 'x' * 3000, '<b>&amp;</b>', '{braces}', 'back\\slash', "quote's", '50% of $5 #1', 'a = b', '沈慧萍', '-', '1.', 'PT J', '\x1cfs']


def odd(r, k, ok=lambda s: True):
    """Every tenth record has text that trips careless readers up, the one before it ends in blanks."""
    if k % 10 == 8:
        return r.choice([' ', '  ', '\t', '\xa0', ' \t '])
    if k % 10 != 9:
        return ''
    return ' ' + r.choice([s for s in ODD if ok(s)]) + ' end'


# ------------------------------------------------------------------------------------- spice
# Records from k = SPICED on carry one to three of the unusual things real files hold (k below that is plain).
SPICED = 40
TRICKY = ['a : b', 'a:b', 'x - y', 'A; B', ';', 'A, B', ',', '"', '""', '(c) 2009', '[Anonymous]', 'None', 'nan', '0', '-1', 'True', 'µg', 'ÀÉÎ', 'ß', '|', '/', '//', '\\n',
          '%s {} {0}', '#', 'ER', 'EF', 'FN', 'PMID', 'UT WOS:1', 'Document 1 of 2', 'http://a.b/c?d=e&f', '...', "''", '  two  blanks', '=1+1', '@x', '&lt;', '\\']
WIDE = ['沈慧萍', '\U0001F600', '\u2028', '\ufeff', '\u202e', 'e\u0301', '\u00ad', 'İ', 'ﬁ']


def tricky(r, wide=True, without=''):
    pool = [t for t in TRICKY + (WIDE if wide else []) if not any(c in t for c in without)]
    return '{}{}{}'.format(r.choice(['', 'pre ', 'pre']), r.choice(pool), r.choice(['', ' post', 'post']))


def spice(fmt, k):
    return Random('spice-{}-{}'.format(fmt, k)) if k >= SPICED else None


def many(r):
    """As many authors or references as the largest real records have."""
    return r.choice([9, 10, 11, 16, 31, 60, 101, 140])


def crowd(r):
    return [('{}{}{}'.format(r.choice(AUTH)[0], 'abcdefghij'[i // 10 % 10], 'klmnopqrst'[i % 10] * (1 + i // 100)), r.choice(['Ann', 'Bo', 'Cy D.'])) for i in range(many(r))]


def wos_spice(r, f):
    def add(tag, lines):
        if tag not in [t for t, _ in f]:
            f.insert(r.randrange(1, len(f)), (tag, lines))
    for _ in range(r.choice([1, 2, 3])):
        n = r.randrange(14)
        if n == 9:
            add(r.choice(['GP', 'BS', 'PI', 'AR', 'EI', 'MA', 'JI', 'D2', 'SU', 'PN', 'SI', 'PM']), [r.choice([tricky(r), 'Ab-12', '7 '])] + [sentence(r, 2)] * r.randrange(2))
            add(r.choice(['PG', 'Z9']), [str(r.randrange(300))])
        elif n == 10:
            add(r.choice(['BE', 'BA', 'BF', 'ED']), ['{}, {}'.format(l, fi) for l, fi in r.sample(AUTH, r.randint(1, 3))])
            add('SP', [', '.join(r.sample(KEYS, r.randint(1, 3))) for _ in range(r.randint(1, 2))])
        elif n == 11:
            f[:] = [x for x in f if x[0] != 'PD']
            add('PD', [r.choice(['SPR', 'SUM', 'FAL', 'WIN', 'MAR-APR', 'Dec-Jan 3', 'sum 4', 'OCT 2 x', 'WIN-SPR'])])
        elif n == 13:
            if r.random() < .6:
                c = crowd(r)
                f[:] = [(t, l + ['{}, {}'.format(a, initials(b) if t == 'AU' else b) for a, b in c]) if t in ('AU', 'AF') else (t, l) for t, l in f]
            else:
                f[:] = [(t, l + ['{} {}, {}, {}, V{}, P{}'.format(r.choice(AUTH)[0], r.choice('ABC'), 1950 + i % 60, r.choice(JOURN)[0], i, i + 1) for i in range(2 * many(r))]) if t == 'CR' else (t, l) for t, l in f]
        elif n == 12:
            f[:] = [(t, [l[0] + ';'] + [w + (';' if i == 0 else '') for i, w in enumerate(r.sample(KEYS, 2))]) if t in ('FU', 'SC', 'WC', 'DE', 'ID') else (t, l) for t, l in f]
            add(r.choice(['BN', 'EM', 'RI', 'OI']), ['one; two;', r.choice(['three', 'three; four'])])
            f[:] = [(t, [l[0] + ' ']) if t in ('VL', 'BP', 'EP') else (t, l) for t, l in f]
        elif n == 0:
            add(r.choice(['EM', 'OI', 'RI', 'PA', 'PU', 'GA', 'RP', 'CT', 'SE', 'FX', 'HO']), [tricky(r)])
        elif n == 1:
            add(r.choice(['FX', 'RP', 'CT', 'CY', 'CL']), [tricky(r), tricky(r), sentence(r, 3)])
        elif n == 2:
            add(r.choice(['PA', 'GA', 'SE', 'EM', 'CT']), [r.choice(['', ' ', 'x'])])        # an empty value
        elif n == 3:
            f[:] = [(t, l + [l[-1] + ' ' + tricky(r)]) if t == 'C1' else (t, l) for t, l in f]
        elif n == 4:
            f[:] = [(t, [l[0] + '; ' + tricky(r, without=';')] + l[1:]) if t == r.choice(['DE', 'ID']) else (t, l) for t, l in f]
        elif n == 5:
            f[:] = [(t, [tricky(r) + ' ' + l[0]] + l[1:]) if t in ('TI', 'SO') else (t, l) for t, l in f]
        elif n == 6:
            f[:] = [(t, l + [sentence(r, 4), tricky(r), '']) if t == 'AB' else (t, l) for t, l in f]
        elif n == 7:
            f.reverse() if r.random() < .5 else r.shuffle(f)
        else:
            add(r.choice(['X1', 'Q7', 'ZZ']), [tricky(r)])       # a tag nobody has heard of
    return f


MED_RARE = '''FIR PROF PUBM MHDA LID OCI PMCR UOF ORI MID PMC RIN RPF CIN FPS EFR SPIN FED NM OABL DDIN GN CRF CRI ROF OID RPI EN PS PL CTI VTI
DCOM BTI DRIN RF UIN LR SFM EIN PRIN DEP SI ISBN'''.split()


def med_spice(r, f):
    def tr():
        return tricky(r, wide=False)
    first = [i for i, (t, _) in enumerate(f) if t == 'AU']
    for _ in range(r.choice([1, 2, 3])):
        n = r.randrange(13)
        if n == 12 and sum(t == 'AU' for t, _ in f) < 9:
            for a, b in crowd(r):
                f += [('FAU', '{}, {}'.format(a, b)), ('AU', '{} {}'.format(a, initials(b)))] + [('AD', 'Univ ' + a)] * (r.random() < .5)
        elif n == 8:
            for _ in range(r.randint(1, 3)):
                f.append((r.choice(MED_RARE), r.choice([tr(), sentence(r, 2), '2001/02/03 06:00', '12'])))
        elif n == 9:
            f[:] = [(t, r.choice(['2005', '1998-1999', '2001 Winter', '2010 Mar-Apr', 'Spring 2004', '2005 Dec 3-10', '2001 12'])) if t == 'DP' else
                    (t, r.choice(['suppl 3-9', '12', 'e12; discussion 13-4', 'i-xii', 'S1-9, 11', '5;'])) if t == 'PG' else
                    (t, r.choice(['12 Suppl 1', 'Suppl 2', '3-4'])) if t == 'VI' else (t, v) for t, v in f]
        elif n == 10:
            f.append(('GR', r.choice(['AB/NIH/United States', 'R01 1/AB/NCI/United States', 'R01 1/ABC/NCI/United States', 'X/Canada', 'HHMI/United States', '5/x'])))
        elif n == 11:
            f[:] = [(t, r.choice([v + '; ' + v, ';' + v, v + ';', v + ' : ' + v])) if t in ('AD', 'AUID') else (t, v) for t, v in f]
        elif n == 0:
            f[:] = [(t, v + ' ' + tr()) if t == 'AD' else (t, v) for t, v in f]
        elif n == 1:
            f[:] = [(t, v + '\n' + sentence(r, 3) + '\n' + tr()) if t in ('AD', 'TI') else (t, v) for t, v in f]
        elif n == 2:
            f.insert(first[-1] + 1, ('AD', tr()))
        elif n == 3:
            f.append((r.choice(['MH', 'MH', 'RN', 'CN', 'IR', 'PHST', 'STAT', 'OTO', 'COIS', 'TT', 'JID']), tr()))
            f.append((r.choice(['MH', 'CRDT', 'GS', 'CI']), r.choice(['*Genes/genetics', tr(), 'x'])))
        elif n == 4:
            f.append(('GR', r.choice(['no slashes', 'a/b', '1/2/3/4/5/6', 'R01/CA//United States', tr()])))
        elif n == 5:
            f.append(('OT', tr()))
        elif n == 6:
            f.insert(2, ('AD', 'before any author ' + tr()))
            first = [i + 1 for i in first]
        else:
            f.append(('AUID', 'ORCID: ' + tr()))
    # no field may be lost in the blanks at the end of a line or turn into an empty one
    return [(t, v if v.strip() else 'x') for t, v in f]


def pro_spice(r, f):
    for _ in range(r.choice([1, 2])):
        n = r.randrange(4)
        if n == 0:
            f.insert(3, (r.choice(['Committee member', 'Country of publication', 'Department', 'ISBN', 'Place of publication']), [tricky(r, without=':').strip() or 'x']))
        elif n == 1:
            f.append(('Links', ['a: b: c']))
        elif n == 2:
            f[:] = [(t, v + [sentence(r, 3), sentence(r, 2) + ' ' + r.choice(['2.5', '"x"', '; y', '%s'])]) if t in ('Subject', 'Source') else (t, v) for t, v in f]
        else:
            f[:] = [(t, [v[0] + ': ' + (tricky(r).strip() or 'x')] + v[1:]) if t in ('Classification', 'Degree') else (t, v) for t, v in f]
    return f


def sco_spice(r, d):
    def tr():
        return tricky(r, without='"')
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < .1:
            d['Authors'] = ', '.join('{} {}.'.format(a, b[0]) for a, b in crowd(r))
        elif r.random() < .1:
            d['References'] = '; '.join('{} {}., The {}th title ({}) {}, {}, pp. {}-{}'.format(r.choice(AUTH)[0], r.choice('AB'), i, 1950 + i % 60, r.choice(JOURN)[1].title(), i, i, i + 9) for i in range(2 * many(r)))
        if r.random() < .3:
            d[r.choice(['Page count', 'Conference code', 'Cited by'])] = str(r.randrange(500))
            d[r.choice(['Tradenames', 'Manufacturers', 'ISBN', 'Sponsors', 'Language of Original Document'])] = r.choice(['One; Two', 'One', 'One;Two', 'A; B; C'])
            d[r.choice(['Funding Details', 'Page end', 'Molecular Sequence Numbers', 'PubMed ID', 'Conference date', 'Conference location'])] = r.choice(
                ['12', 'NSF', '11, NSF, National Science Foundation; NSERC, Natural Sciences; A, B, C, D'])
        d[r.choice(['Affiliations', 'Authors with affiliations', 'Abstract', 'Correspondence Address', 'Editors', 'Sponsors', 'Conference name', 'CODEN',
                    'Author Keywords', 'Index Keywords', 'Chemicals/CAS', 'Art. No.', 'Funding Details'])] = r.choice(
            [tr, lambda: tr() + ', ' + tr(), lambda: tr() + '; ' + tr(), lambda: ', ' + tr(), lambda: tr() + ',', lambda: '""' + sentence(r, 2) + '"", ' + tr()])()
    return d


def wos_fields(k):
    """[(tag, [lines])] of WOS record k."""
    r = R('wos', k)
    b = wos_basics(k)
    f = [('PT', [r.choice(['J', 'J', 'J', 'B'])])]
    f.append(('AU', ['{}, {}'.format(l, initials(fi)) for l, fi in b['au']]))
    if r.random() < .9:
        f.append(('AF', ['{}, {}'.format(l, fi) for l, fi in b['au']]))
    if r.random() < .08:
        f.append(('CA', [sentence(r, 2)]))
    f.append(('TI', ['{} {}'.format(sentence(r, r.randint(2, 5)).capitalize(), k)] + ([sentence(r, 3) + odd(r, k)] if r.random() < .5 else [])))
    f.append(('SO', [b['journal'][1]]))
    if r.random() < .8:
        f.append(('LA', ['English']))
    f.append(('DT', [r.choice(['Article', 'Review'])]))
    if r.random() < .8:
        f.append(('DE', ['; '.join(r.sample(KEYS, r.randint(1, 4)))]))
    if r.random() < .5:
        f.append(('ID', ['; '.join(r.sample(KEYS, r.randint(1, 3))).upper()]))
    if r.random() < .9:
        ab = sentence(r, r.randint(5, 40)) + odd(r, k)
        if r.random() < .4:
            ab += '. (C) {} Elsevier B.V. All rights reserved.'.format(b['year'])
        f.append(('AB', [ab]))
    if r.random() < .7:
        f.append(('C1', ['[{}] {}'.format('; '.join('{}, {}'.format(l, fi) for l, fi in b['au']), r.choice(UNI))] +
                  ([r.choice(UNI)] if r.random() < .3 else [])))
    if r.random() < .3:
        f.append(('FU', ['Natural Science Foundation [4127{}]; SSHRC [{}]'.format(k % 10, k)]))
    cites = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 7])):
        kind = r.random()
        if kind < .55:
            cites.append(cite_for(r.randrange(14)))
        elif kind < .85:
            cites.append('{} {}, {}, {}, V{}, P{}'.format(r.choice(AUTH)[0], r.choice('ABCDE'), r.choice([1980, 1992, 1998, 2004]),
                                                       r.choice(JOURN)[0], r.randint(1, 3), r.randint(1, 3)))
        elif kind < .95:
            cites.append('*ANON{}, {}'.format(r.randrange(3), r.choice([1901, 2004])))
        else:
            cites.append('[{}], 2004, {}'.format(r.choice(['沈慧萍 Shen Huiping', 'Anonymous']), r.choice(JOURN)[0]))
    seen, uniq = set(), []
    for c in cites:
        if c not in seen:
            seen.add(c)
            uniq.append(c)
    if uniq:
        f.append(('CR', uniq))
    f.append(('NR', [str(len(uniq))]))
    f.append(('TC', [str(r.randrange(40))]))
    f.append(('SN', ['1091-646{}'.format(k % 10)]))
    f.append(('J9', [b['journal'][0]]))
    if r.random() < .6:
        f.append(('PD', ['{} {}'.format(r.choice(MONTHS), r.randint(1, 28))]))
    if b['year']:
        f.append(('PY', [str(b['year'])]))
    if b['vol']:
        f.append(('VL', [b['vol']]))
    if r.random() < .5:
        f.append(('IS', [str(r.randint(1, 12))]))
    if b['bp']:
        f.append(('BP', [b['bp']]))
        f.append(('EP', [str(int(b['bp']) + 9)]))
    if b['doi']:
        f.append(('DI', [b['doi']]))
    if r.random() < .8:
        f.append(('SC', [r.choice(['Engineering; Sociology', 'Sociology', 'Genetics & Heredity'])]))
        f.append(('WC', [r.choice(['Engineering, Chemical; Sociology', 'Sociology', 'Genetics & Heredity'])]))
    if r.random() < .1:
        f = [x for x in f if x[0] not in r.sample(['PY', 'AU', 'J9', 'TI', 'AB', 'AF', 'SO'], 2)]
    f.append(('UT', ['WOS:{:015d}'.format(k)]))
    return wos_spice(spice('wos', k), f) if spice('wos', k) else f


def wos_text(k):
    out = []
    for tag, lines in wos_fields(k):
        for i, l in enumerate(lines):
            out.append((tag + ' ' if i == 0 else '   ') + l + '\n')
    return ''.join(out) + 'ER\n'


def wos_file(spec):
    v = spec.get('v', 0)
    out = ['\ufeffFN Thomson Reuters Web of Science™\n' if v % 2 == 0 else 'FN Thomson Reuters Web of Science\n', 'VR 1.0\n']
    for k in spec['recs']:
        out.append(wos_text(k))
        out.append('\n' * (1 + (v // 2) % 2))
    out.append('EF')
    if (v // 4) % 2:
        out.append('\n')
    return ''.join(out).encode('utf-8')


# ------------------------------------------------------------------------------------- medline
MED_AUTHOR_TAGS = ('AD', 'AUID')


def med_lines(k):
    """[(tag, text)] in file order; text may hold newlines (continuation lines)."""
    r = R('med', k)
    au = r.sample([a for a in AUTH], r.choice([1, 2, 3]))
    yr = r.choice([2001, 2005, 2010, 2016])
    f = [('PMID', str(26000000 + k)), ('OWN', 'NLM'), ('STAT', r.choice(['MEDLINE', 'In-Data-Review'])), ('DA', '{}1207'.format(yr))]
    f.append(('IS', '1879-00{:02d} (Electronic)'.format(k % 100)))
    if r.random() < .8:
        f.append(('VI', str(r.randint(1, 99))))
        f.append(('IP', '{} Pt 3'.format(r.randint(1, 9))))
    f.append(('DP', '{} {} {}'.format(yr, r.choice(MONTHS).title(), r.randint(1, 28)) if r.random() < .8 else str(yr)))
    f.append(('TI', sentence(r, 5).capitalize() + '\n' + sentence(r, 3) + ' {}.'.format(k) if r.random() < .5 else sentence(r, 5) + ' {}.'.format(k)))
    if r.random() < .8:
        f.append(('PG', '{}-{}'.format(r.randint(1, 400), r.randint(401, 500))))
    if r.random() < .8:
        f.append(('AB', '\n'.join(sentence(r, 9) for _ in range(r.randint(1, 4))) + odd(r, k, lambda s: all(ord(c) < 256 for c in s))))
    for l, fi in au:
        f.append(('FAU', '{}, {}'.format(l, fi)))
        f.append(('AU', '{} {}'.format(l, initials(fi))))
        for _ in range(r.choice([0, 1, 1, 2])):
            f.append(('AD', r.choice(UNI)))
        if r.random() < .2:
            f.append(('AUID', 'ORCID: 0000-000{}-1825'.format(r.randrange(10))))
    f.append(('LA', 'eng'))
    if r.random() < .4:
        f.append(('GR', 'R01-{}/GM/NIGMS NIH HHS/United States'.format(k)))
        if r.random() < .5:
            f.append(('GR', 'P30 CA0{}/CA/NCI NIH HHS/United States'.format(k)))
    f.append(('PT', 'Journal Article'))
    j = r.choice(JOURN)
    f.append(('TA', j[0].title()))
    f.append(('JT', j[1].title()))
    f.append(('SB', 'IM'))
    for kw in r.sample(KEYS, r.randint(0, 3)):
        f.append(('OT', kw))
    f.append(('EDAT', '{}/11/03 06:00'.format(yr)))
    f.append(('AID', 'S0378-1119({})01297-4 [pii]'.format(k)))
    if r.random() < .6:
        f.append(('AID', '10.1016/j.gene.{} [doi]'.format(k)))
    f.append(('PST', 'ppublish'))
    f.append(('SO', '{}. {} Jan 15;576(1 Pt 3):466-75.'.format(j[0].title(), yr)))
    return med_spice(spice('med', k), f) if spice('med', k) else f


def med_text(k):
    out = []
    for tag, text in med_lines(k):
        out.append('{:<4}- {}\n'.format(tag, text.replace('\n', '\n      ')))
    return ''.join(out)


def med_fields(k):
    d, order, last = {}, [], None
    for tag, text in med_lines(k):
        if tag == 'AU':
            last = text
        if tag in MED_AUTHOR_TAGS:
            text = '{} : {}'.format(last, text)
        if tag not in d:
            d[tag] = []
            order.append(tag)
        d[tag].append(text)
    return [(t, d[t]) for t in order]


def med_file(spec):
    # PubMed's own exports start with an empty line
    return ('\n' + '\n'.join(med_text(k) for k in spec['recs'])).encode('latin-1')


# ------------------------------------------------------------------------------------- proquest
def pro_fields(k):
    r = R('pro', k)
    title = sentence(r, 4).capitalize() + ' {}'.format(k)
    l, fi = r.choice(AUTH)
    f = [('Name', [title]), ('Author', ['{}, {}'.format(l, fi)]), ('url', ['http://search.proquest.com/docview/{}'.format(1500000000 + k)])]
    if r.random() < .8:
        ab = [('Abstract text ' + sentence(r, 12) + odd(r, k)).rstrip()]    # documented layout: values do not end in blanks
        f.append(('Abstract', ab + ([sentence(r, 5)] if r.random() < .4 else [])))
    f.append(('Advisor', ['{}, {}'.format(*r.choice(AUTH))]))
    f.append(('Classification', ['0402: Philosophy of Science; 0422: Philosophy']))
    f.append(('Database', ['ProQuest Dissertations & Theses Global']))
    f.append(('Degree', [r.choice(['M.A.', 'Ph.D.'])]))
    f.append(('Degree date', [str(r.choice([2001, 2012, 2014]))]))
    f.append(('Identifier / keyword', [', '.join(r.sample(KEYS, 3))]))
    f.append(('Language', ['English']))
    f.append(('ProQuest document ID', [str(1500000000 + k)]))
    f.append(('Source', ['DAI-A 75/05(E), Nov 2014']))
    f.append(('Subject', ['; '.join(r.sample(KEYS, 2))]))
    f.append(('Title', [title]))
    f.append(('University/institution', ['The University of North Carolina at Chapel Hill']))
    return pro_spice(spice('pro', k), f) if spice('pro', k) else f


def pro_truth(k):
    """An entry that is in a record more than once has the values of all of them."""
    d = {}
    for t, v in pro_fields(k):
        d.setdefault(t, []).extend(v)
    return list(d.items())


def pro_file(spec):
    bar = '_' * 60 + '\n'
    out = [bar, '\n', 'Report Information from ProQuest\n', 'December 08 2015 21:33\n', bar, '\n' * 4, bar, '\n', 'Table of contents\n']
    recs = spec['recs']
    for i, k in enumerate(recs, 1):
        out.append('\n{}. {}\n'.format(i, pro_fields(k)[0][1][0]))
    out.append('\nBibliography\n\n' + bar + '\n')
    for i, k in enumerate(recs, 1):
        out.append('Document {} of {}\n\n'.format(i, len(recs)))
        for tag, vals in pro_fields(k):
            for j, v in enumerate(vals):
                if tag in ('Name', 'url') or j > 0:
                    out.append(v + '\n\n')
                else:
                    out.append('{}: {}\n\n'.format(tag, v))
        out.append(bar + '\n')
    out.append('Bibliography\n\nCitation style: BibTeX\n\n@misc{\n}\n\n' + bar + '\nContact us at: http://www.proquest.com\n')
    return ''.join(out).encode('utf-8')


# ------------------------------------------------------------------------------------- scopus
SCOPUS_HEADER = ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'Page count',
                 'Cited by', 'DOI', 'Link', 'Affiliations', 'Authors with affiliations', 'Abstract', 'Author Keywords', 'Index Keywords',
                 'Molecular Sequence Numbers', 'Chemicals/CAS', 'Tradenames', 'Manufacturers', 'Funding Details', 'Funding Text', 'References',
                 'Correspondence Address', 'Editors', 'Sponsors', 'Publisher', 'Conference name', 'Conference date',
                 'Conference location', 'Conference code', 'ISSN', 'ISBN', 'CODEN', 'PubMed ID', 'Language of Original Document',
                 'Abbreviated Source Title', 'Document Type', 'Source', 'EID']


def sco_fields(k):
    r = R('sco', k)
    au = r.sample(AUTH, r.choice([1, 2, 3]))
    j = r.choice(JOURN)
    d = {
        'Authors': ', '.join('{} {}.'.format(l, initials(fi)) for l, fi in au),
        'Title': r.choice(['', '', '$5,000 for ', '""Gas"", ', '|, ']) + sentence(r, 5).capitalize() + ' {}'.format(k) + (', part two' if r.random() < .3 else ''),
        'Year': str(r.choice([2001, 2005, 2010, 2016])),
        'Source title': j[1].title(),
        'Volume': str(r.randint(1, 30)),
        'Issue': r.choice(['4', '']),
        'Page start': r.choice(['12', '']),
        'Cited by': r.choice(['', '7', '21']),
        'DOI': '10.1109/TASC.{}'.format(k),
        'Link': 'https://www.scopus.com/inward/record.uri?eid=2-s2.0-{}&md5=0'.format(k),
        'Abstract': sentence(r, 10) + odd(r, k) + r.choice(['', ', and more', '; with ""quotes"", too', ', ""quoted"" end', ' a,b,,c']),
        'Author Keywords': '; '.join(r.sample(KEYS, r.randint(0, 3))),
        'Index Keywords': '; '.join(r.sample(KEYS, r.randint(0, 3))),
        'References': '; '.join('{} {}., A title of {} ({}) {}, {} ({}), pp. {}-{}'.format(
            r.choice(['Smith', 'Brown', 'Ahmed']), r.choice('AB'), r.choice(KEYS), r.choice([1998, 2004]), r.choice(JOURN)[1].title(),
            r.randint(1, 3), r.randint(1, 3), 10, 20) for _ in range(r.choice([0, 1, 2, 3]))),
        'Funding Details': r.choice(['', 'NSF, National Science Foundation']),
        'Publisher': 'IEEE',
        'ISSN': '1051822{}'.format(k % 10),
        'Language of Original Document': 'English',
        'Abbreviated Source Title': j[0].title(),
        'Document Type': 'Article',
        'Source': 'Scopus',
        'EID': '2-s2.0-{}'.format(84960000000 + k),
    }
    if spice('sco', k):
        sco_spice(spice('sco', k), d)
    return [(h, d[h]) for h in SCOPUS_HEADER if d.get(h, '') != '']


def sco_row(k, header):
    d = dict(sco_fields(k))
    bare = {'Year', 'Cited by', 'DOI'}
    cells = []
    for h in header:
        val = d.get(h, '')
        cells.append(val if (h in bare or val == '' and h not in ('Volume', 'Issue')) else '"{}"'.format(val))
    return ','.join(cells)


def sco_file(spec):
    header = SCOPUS_HEADER
    if spec.get('v', 0) % 2:
        header = [h for h in SCOPUS_HEADER if h != 'Funding Text']       # the older export
    out = ['\ufeff' + ','.join(header) + '\n']
    for k in spec['recs']:
        out.append(sco_row(k, header) + '\n')
    return ''.join(out).encode('utf-8')


# ------------------------------------------------------------------------------------- grants
def cell(r, k, val):
    """A cell of a grant table; from k = SPICED on some hold unusual things."""
    if k < SPICED or r.random() < .7:
        return val
    return r.choice([lambda: '', lambda: tricky(r, wide=False), lambda: val + '\n' + tricky(r, wide=False), lambda: ' ' + val + ' ', lambda: '"{}", {}'.format(val, sentence(r, 1))])()


def nserc_rows(spec):
    """Two kinds of NSERC file (awards and co-applicants) sharing the key Cle."""
    kind = spec.get('v', 0) % 2
    rows = []
    for k in spec['recs']:
        r = R('nserc{}'.format(kind), k)
        if kind == 0:
            rows.append([str(30000 + k), '{}, {}'.format(*r.choice(AUTH)).encode('latin-1', 'replace').decode('latin-1'),
                         r.choice(UNI).split(',')[0], str(1000 + k), 'Title {} of {}'.format(k, sentence(r, 3)), str(r.choice([1994, 2001]))])
            rows[-1][2:] = [cell(r, k, c) for c in rows[-1][2:]]
        else:
            for i in range(r.choice([1, 1, 2, 3])):
                rows.append([str(30000 + k), '{}-{}'.format(9000 + k, i), '{} {}'.format(r.choice(AUTH)[0], i), r.choice(UNI).split(',')[0]])
                rows[-1][3:] = [cell(r, k, c) for c in rows[-1][3:]]
    return kind, rows


def nserc_file(spec):
    kind, rows = nserc_rows(spec)
    head = ['Cle', 'Name-Nom', 'Institution-Établissement', 'AwardAmount', 'ApplicationTitle', 'FiscalYear-Exercice financier'] if kind == 0 else \
        ['Cle', 'CoAppOrgID', 'CoAppName-Nom', 'CoAppInstitution-Établissement']
    s = io.StringIO(newline='')
    w = csv.writer(s, lineterminator='\n')
    w.writerow(head)
    w.writerows(rows)
    return s.getvalue().encode('latin-1')


def nsf_extra(k):
    """[(tag, [texts of its parts] or its text or None)] more elements of an award."""
    r = spice('nsf', k)
    out = []
    if r:
        for _ in range(r.choice([1, 2, 3, 4])):
            tag = r.choice(['ProgramElement', 'ProgramReference', 'ARRAAmount', 'ProgramOfficer', 'Institution', 'MinAmdLetterDate'])
            out.append((tag, r.choice([lambda: None, lambda: xml_safe(tricky(r)).strip() or 'x', lambda: [xml_safe(tricky(r)).strip() or 'x' for _ in range(r.choice([1, 2]))], lambda: [None, '7100']])()))
    return out


def xml_safe(s):
    return ''.join(c for c in s if c not in '&<>' and c >= ' ')


def nsf_file(spec):
    k = spec['recs'][0]
    extra = ''
    for tag, val in nsf_extra(k):
        body = '' if val is None else val if isinstance(val, str) else ''.join('<P{0}>{1}</P{0}>'.format(i, v or '') for i, v in enumerate(val))
        extra += '<{0}>{1}</{0}>\n'.format(tag, body)
    r = R('nsf', k)
    inv = ''.join('<Investigator><FirstName>{}</FirstName><LastName>{}</LastName><EmailAddress>x{}@y.edu</EmailAddress><RoleCode>PI</RoleCode></Investigator>'.format(
        fi, l.replace("'", '&apos;'), i) for i, (l, fi) in enumerate(r.sample(AUTH, r.choice([1, 2, 3]))))
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<rootTag>\n  <Award>\n    <AwardTitle>{t}</AwardTitle>\n'
            '    <AwardEffectiveDate>06/01/2015</AwardEffectiveDate>\n    <AwardAmount>{a}</AwardAmount>\n'
            '    <Organization><Code>0404</Code><Directorate><LongName>Direct For Social</LongName></Directorate>'
            '<Division><LongName>Div Of Behav</LongName></Division></Organization>\n'
            '    <AbstractNarration>{ab}</AbstractNarration>\n    <AwardID>{i}</AwardID>\n    {inv}\n'
            '    <Institution><Name>{u}</Name><CityName>Waterloo</CityName></Institution>\n{extra}  </Award>\n</rootTag>\n').format(
        t=sentence(r, 4), extra=extra, a=14500 + k, ab=sentence(r, 20), i=1500000 + k, inv=inv, u=r.choice(UNI).split(',')[0]).encode('utf-8')


def cihr_rows(spec):
    rows = []
    for k in spec['recs']:
        r = R('cihr', k)
        rows.append(['; '.join('{}, {}'.format(*a) for a in r.sample(AUTH, r.choice([1, 2]))), r.choice(UNI).split(',')[0],
                     'Project {} {}'.format(k, sentence(r, 3)), str(100000 + k), r.choice(['2012', '2014']), sentence(r, 6), 'ON', 'OG', 'x', 'y'])
        rows[-1][1:] = [cell(r, k, c) for c in rows[-1][1:]]
    return rows


CIHR_HEAD = ['PI Names', 'Institution Paid', 'Project Title', 'Amount', 'Year', 'Abstract', 'Province', 'Program', 'Theme', 'Type']


def cihr_file(spec):
    s = io.StringIO(newline='')
    w = csv.writer(s, lineterminator='\n')
    s.write('Search Criteria,,,,,,,,,\nFiscal Year,2014-2015,,,,,,,,\n'.replace('2014-2015,', '2014-2015') + ',,,,,,,,,\n')
    w.writerow(CIHR_HEAD)
    w.writerows(cihr_rows(spec))
    text = s.getvalue()
    lines = text.split('\n')
    lines[1] = 'Fiscal Year 2014,,,,,,,,,'
    return '\n'.join(lines).encode('latin-1')


FALL_HEAD = ['Holder', 'Amount', 'Institution', 'Note']


def fall_rows(spec):
    rows = []
    for k in spec['recs']:
        r = R('fall', k)
        rows.append(['{}, {}'.format(*r.choice(AUTH)), str(500 + k), r.choice(UNI).split(',')[0], sentence(r, 4)])
        rows[-1] = [cell(r, k, c) for c in rows[-1]]
    return rows


def fall_file(spec):
    s = io.StringIO(newline='')
    w = csv.writer(s, lineterminator='\n')
    w.writerow(FALL_HEAD)
    w.writerows(fall_rows(spec))
    return s.getvalue().encode('latin-1')


def junk_file(spec):
    r = R('junk', spec['recs'][0] if spec['recs'] else 0)
    return (sentence(r, 8) + '\n' + sentence(r, 3) + '\n').encode()


RENDER = {'wos': wos_file, 'med': med_file, 'pro': pro_file, 'sco': sco_file, 'nserc': nserc_file, 'nsf': nsf_file, 'cihr': cihr_file,
          'fall': fall_file, 'junk': junk_file}
FIELDS = {'wos': wos_fields, 'med': med_fields, 'pro': pro_truth, 'sco': sco_fields}
EXT = {'wos': '.isi', 'med': '.medline', 'pro': '.txt', 'sco': '.scopus', 'nserc': '.csv', 'nsf': '.xml', 'cihr': '.csv', 'fall': '.csv', 'junk': '.md'}
RECORD_FMTS = ['wos', 'med', 'pro', 'sco']
GRANT_FMTS = ['nserc', 'nsf', 'cihr', 'fall']
TYPE = {'wos': 'WOSRecord', 'med': 'MedlineRecord', 'pro': 'ProQuestRecord', 'sco': 'ScopusRecord', 'nserc': 'NSERCGrant', 'nsf': 'NSFGrant',
        'cihr': 'CIHRGrant', 'fall': 'FallbackGrant'}


def render(spec):
    data = RENDER[spec['fmt']](spec)
    if spec.get('crlf'):
        data = data.replace(b'\n', b'\r\n')
    if spec.get('noeol'):
        data = data[:-1] if data.endswith(b'\n') else data
    for e in spec.get('damage', []):
        data = damage(data, e)
    return data


def damage(data, e):
    n = len(data)
    if e['kind'] == 'cut':
        return data[:int(n * e['at'])]
    if e['kind'] == 'bytes':
        p = int(n * e['at'])
        return data[:p] + bytes.fromhex(e['hex']) + data[p + e.get('del', 0):]
    if e['kind'] == 'append':
        return data + e['text'].encode()
    raise ValueError(e)


def rec_id(fmt, k):
    if fmt == 'wos':
        return 'WOS:{:015d}'.format(k)
    if fmt == 'med':
        return 'PMID:{}'.format(26000000 + k)
    if fmt == 'pro':
        return 'PROQUEST:{}'.format(1500000000 + k)
    if fmt == 'sco':
        return 'EID:2-s2.0-{}'.format(84960000000 + k)
    raise KeyError(fmt)


def name_for(fmt, i):
    pre = {'nserc': 'NSERC_', 'cihr': 'cihr_'}.get(fmt, 'f')
    return '{}{}{}'.format(pre, i, EXT[fmt])
