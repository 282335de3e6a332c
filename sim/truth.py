"""What a correct reader finds in intact files: {entry key: {'type', 'id' or None, 'fields'}} from the generator alone."""
from . import corpus
from .common import plain


def record_entries(spec):
    """[(id, {'type', 'fields'})] in file order."""
    fmt = spec['fmt']
    return [(corpus.rec_id(fmt, k), {'type': corpus.TYPE[fmt], 'fields': {t: plain(v) for t, v in corpus.FIELDS[fmt](k)}}) for k in spec['recs']]


NSERC_HEAD = [['Cle', 'Name-Nom', 'Institution-Établissement', 'AwardAmount', 'ApplicationTitle', 'FiscalYear-Exercice financier'],
              ['Cle', 'CoAppOrgID', 'CoAppName-Nom', 'CoAppInstitution-Établissement']]


def grant_rows(spec):
    """[(id or None, {'type', 'fields'})] one per row, before rows of one award are merged."""
    fmt = spec['fmt']
    if fmt == 'nserc':
        kind, rows = corpus.nserc_rows(spec)
        return [('NSERC:' + row[0], {'type': 'NSERCGrant', 'fields': dict(zip(NSERC_HEAD[kind], row))}) for row in rows]
    if fmt == 'cihr':
        return [(None, {'type': 'CIHRGrant', 'fields': dict(zip(corpus.CIHR_HEAD, row))}) for row in corpus.cihr_rows(spec)]
    if fmt == 'fall':
        return [(None, {'type': 'FallbackGrant', 'fields': dict(zip(corpus.FALL_HEAD, row))}) for row in corpus.fall_rows(spec)]
    if fmt == 'nsf':
        k = spec['recs'][0]
        r = corpus.R('nsf', k)
        inv = ['{} {}; x{}@y.edu, PI'.format(fi, l, i) for i, (l, fi) in enumerate(r.sample(corpus.AUTH, r.choice([1, 2, 3])))]
        f = {'AwardTitle': corpus.sentence(r, 4), 'AwardEffectiveDate': '06/01/2015', 'AwardAmount': str(14500 + k), 'Directorate': ['Direct For Social'],
             'Division': ['Div Of Behav']}
        f['AbstractNarration'] = corpus.sentence(r, 20)
        f['AwardID'] = str(1500000 + k)
        f['Investigator'] = inv
        f['Institution'] = ['{}; Waterloo'.format(r.choice(corpus.UNI).split(',')[0])]
        for tag, val in corpus.nsf_extra(k):
            # one that is empty says nothing, several are all kept
            new = val if val is None or isinstance(val, str) else ['; '.join(v for v in val if v is not None)]
            old = f.get(tag)
            if old is None:
                f[tag] = new
            elif new is not None:
                f[tag] = (old if isinstance(old, list) else [old]) + (new if isinstance(new, list) else [new])
        return [('NSF:{}'.format(1500000 + k), {'type': 'NSFGrant', 'fields': f})]
    raise KeyError(fmt)


def merged_grants(specs):
    """Entries of several grant files read in the order given; entries without an id of their own are (name, n)."""
    out = {}
    for spec in specs:
        if spec['fmt'] == 'junk':
            continue
        for n, (i, e) in enumerate(grant_rows(spec)):
            key = i if i is not None else (spec['name'], n)
            if i is not None and i.startswith('NSERC:') and key in out:
                f = out[key]['fields']
                for t, v in e['fields'].items():
                    if v == '':
                        continue
                    f[t] = v if f.get(t, '') == '' else '{}; {}'.format(f[t], v)
            elif key not in out:
                out[key] = {'type': e['type'], 'fields': dict(e['fields']), 'file': spec['name']}
    return out
