"""What a correct library answers when a record is asked for a field: an independent model of the documented meaning of every tag.

answers(fmt, fields) gives {name or tag: plain value} for a record whose raw fields are `fields` ({tag: raw value}), under the tag, under its
long name and under the names all formats share; a name that is not a key has no value.
"""
import re

from .common import plain

WOS = {t.split(':')[0]: t.split(':')[1] for t in '''
PT:pubType AF:authorsFull GP:group BE:editedBy AU:authorsShort BA:bookAuthor BF:bookAuthorFull CA:groupName ED:editors TI:title SO:journal
SE:seriesTitle BS:seriesSubtitle LA:language DT:docType CT:confTitle CY:confDate HO:confHost CL:confLocation SP:confSponsors DE:authKeywords
ID:keywords AB:abstract C1:authAddress RP:reprintAddress EM:email RI:ResearcherIDnumber OI:orcID FU:funding FX:fundingText CR:citations
NR:citedRefsCount TC:wosTimesCited Z9:totalTimesCited PU:publisher PI:publisherCity PA:publisherAddress SC:subjectCategory SN:ISSN EI:eISSN
BN:ISBN J9:j9 JI:isoAbbreviation PD:month PY:year VL:volume IS:issue PN:partNumber SU:supplement SI:specialIssue MA:meetingAbstract
BP:beginningPage EP:endingPage AR:articleNumber PG:pageCount WC:subjects DI:DOI D2:bookDOI GA:documentDeliveryNumber UT:wosString PM:pubMedID
'''.split()}

MED = {t.split(':')[0]: t.split(':')[1] for t in '''
AB:Abstract AD:Affiliation AID:ArticleIdentifier AU:Author AUID:AuthorIdentifier BTI:BookTitle CI:CopyrightInformation CIN:CommentIn
CN:CorporateAuthor CRDT:CreateDate CRF:CorrectedRepublishedFrom CRI:CorrectedRepublishedIn CTI:CollectionTitle DA:DateCreated DCOM:DateCompleted
DDIN:DatasetIn DEP:DateElectronicPublication DP:DatePublication DRIN:DatasetUseReportedIn EDAT:EntrezDate EFR:ErratumFor EIN:ErratumIn EN:Edition
FAU:FullAuthor FED:Editor FIR:InvestigatorFull FPS:FullPersonalNameSubject GN:GeneralNote GR:GrantNumber GS:GeneSymbol IP:Issue IR:Investigator
IRAD:InvestigatorAffiliation IS:ISSN ISBN:ISBN JID:NLMID JT:JournalTitle LA:Language LID:LocationIdentifier LR:DateLastRevised MH:MeSHTerms
MHDA:MeSHDate MID:ManuscriptIdentifier NM:SubstanceName OABL:OtherAbstract OCI:OtherCopyright OID:OtherID ORI:OriginalReportIn OT:OtherTerm
OTO:OtherTermOwner OWN:Owner PG:Pagination PHST:PublicationHistoryStatus PL:PlacePublication PMC:PubMedCentralIdentifier PMCR:PubMedCentralRelease
PMID:PubMedUniqueIdentifier PRIN:PartialRetractionIn PROF:PartialRetractionOf PS:PersonalNameSubject PST:PublicationStatus PT:PublicationType
PUBM:PublishingModel RF:NumberReferences RIN:RetractionIn RN:RegistryNumber ROF:RetractionOf RPF:RepublishedFrom RPI:RepublishedIn SB:Subset
SFM:SpaceFlightMission SI:SecondarySourceID SO:Source SPIN:SummaryForPatients STAT:Status TA:JournalTitleAbbreviation TI:Title TT:TransliteratedTitle
UIN:UpdateIn UOF:UpdateOf VI:Volume VTI:VolumeTitle'''.split()}

MONTH = {m: i + 1 for i, m in enumerate('JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC'.split())}
MONTH.update(SPR=3, SUM=6, FAL=9, WIN=12)

# names every format is asked for; those that are no tag of the format and cannot be derived are missing
COMMON = ('year', 'month', 'volume', 'beginningPage', 'DOI', 'address', 'j9', 'citations', 'grants', 'authorsShort', 'authorsFull', 'title', 'journal',
          'keywords', 'abstract', 'id')


class Missing(Exception):
    pass


def month(s):
    for part in (s.split('-')[0], s.split('-')[-1]):
        if part.upper() in MONTH:
            return MONTH[part.upper()]
    if s.split('-')[-1].isdigit():
        return s.split('-')[-1]
    raise Missing()


def wos_value(t, v):
    one = ' '.join(v)
    if t in ('AF', 'BE', 'AU', 'BA', 'BF', 'ED'):
        return v
    if t in ('TI', 'SE', 'BS', 'CT', 'CL', 'FX', 'SU', 'HO', 'PA'):
        return one
    if t in ('SO', 'PI', 'JI', 'PU'):
        return one.upper()
    if t in ('FU', 'SC', 'EM', 'OI', 'BN', 'RI', 'WC'):
        return one.split('; ')
    if t == 'DE':
        return one.lower().split('; ')
    if t == 'ID':
        return one.upper().split('; ')
    if t == 'LA':
        return ', '.join(v)
    if t == 'SP':
        return ', '.join(v).split(', ')
    if t in ('TC', 'PG', 'NR', 'Z9', 'PY'):
        return int(v[0])
    if t == 'C1':
        return [a.partition('] ')[2] if a.startswith('[') else a for a in v]
    if t == 'CR':
        return ['Citation:' + c for c in v]
    if t == 'PD':
        return month(v[0].split(' ')[0])
    if t in ('VL', 'BP', 'EP'):
        return v[0].strip()
    if t == 'AB':
        return '\n'.join(v)
    if t in WOS:
        return v[0]
    return v


def med_grant(s):
    parts = s.split('/')
    if len(parts) < 2:
        return {'country': s}
    g = {'country': parts[-1], 'agency': parts[-2]}
    rest = parts[:-2]
    if rest and len(rest) < 3 and len(rest[-1]) == 2:
        g['code'] = rest.pop()
        if rest:
            g['number'] = rest[0]
    else:
        g['number'] = '/'.join(rest)
    return g


def sco_grant(s):
    return dict(zip(('agency', 'agencyCode', 'code'), s.split(', ')[::-1]))


def by_author(vals):
    d = {}
    for v in vals:
        a, _, rest = v.partition(' : ')
        d[a] = rest
    return d


def med_value(t, v):
    if t in ('PG', 'VI', 'DP', 'TI', 'OTO', 'AB', 'TA', 'JT'):
        return v[0]
    if t == 'PMID':
        return 'PMID:' + v[0]
    if t == 'AD':
        return {a: [x for x in s.replace('\n', '').split(';') if x] for a, s in by_author(v).items()}
    if t == 'AUID':
        return by_author(v)
    if t == 'GR':
        return [med_grant(s) for s in v]
    return v


SCO_COMMA = ('Authors',)
SCO_INT = ('Year', 'Page count', 'Cited by', 'Conference code')
SCO_SEMI = ('Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'ISBN',
            'Language of Original Document')


def sco_value(t, v):
    if t in SCO_COMMA:
        return v.split(', ')
    if t in SCO_INT:
        return int(v)
    if t in SCO_SEMI:
        return v.split('; ')
    if t == 'Sponsors':
        return v.split(';')
    if t == 'References':
        return ['Citation:' + c for c in v.split('; ')]
    if t == 'Funding Details':
        return [sco_grant(s) for s in v.split('; ')]
    return v


PRO_ONE = ('Author', 'Title', 'Advisor', 'Name', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Degree date', 'Department',
           'Dissertation/thesis number', 'Document type', 'Language', 'Number of pages', 'Place of publication', 'ProQuest document ID', 'Publication year',
           'School code', 'Source', 'Source type', 'University location', 'University/institution', 'ISBN', 'Publication subject')


def pro_value(t, v):
    if t in PRO_ONE:
        return v[0]
    if t == 'Subject':
        return v[0].split('; ')
    if t == 'Identifier / keyword':
        return v[0].split(', ')
    if t == 'Classification':
        return [s.split(': ') for s in v[0].split('; ')]
    return v


VALUE = {'wos': wos_value, 'med': med_value, 'sco': sco_value, 'pro': pro_value}
LONG = {'wos': WOS, 'med': MED, 'sco': {}, 'pro': {}}


def common_name(fmt, name, val, rid):
    """The value of one of the names all formats share; val(tag) is that of a tag or raises Missing."""
    if name == 'id' and fmt != 'sco':
        return rid
    if fmt == 'wos':
        if name == 'grants':
            return []
        raise Missing()
    if fmt == 'med':
        if name == 'year':
            w = val('DP').split(' ')[0]
            m = re.search('-?[0-9]{1,4}', w)
            return int(w) if w.isdigit() else int(m.group(0)) if m else 0
        if name == 'month':
            w = val('DP').split(' ')
            if len(w) < 2:
                raise Missing()
            return month(w[1])
        if name == 'volume':
            return val('VI').split(' ')[0]
        if name == 'beginningPage':
            p = val('PG')
            p = p[6:] if p.startswith('suppl ') else p
            return p.split(' ')[0].split('-')[0].replace(';', '')
        if name == 'DOI':
            for a in val('AID'):
                if a.endswith(' [doi]'):
                    return a[:-len(' [doi]')]
            raise Missing()
        if name == 'address':
            ads = val('AD')[val('AU')[0]] if val('AU')[0] in val('AD') else []
            if not ads:
                raise Missing()
            return ads[0]
        names = {'j9': 'TA', 'grants': 'GR', 'authorsShort': 'AU', 'authorsFull': 'FAU', 'title': 'TI', 'journal': 'JT', 'keywords': 'OT', 'abstract': 'AB'}
    elif fmt == 'sco':
        names = {'year': 'Year', 'volume': 'Volume', 'beginningPage': 'Page start', 'j9': 'Abbreviated Source Title', 'citations': 'References',
                 'authorsShort': 'Authors', 'authorsFull': 'Authors', 'title': 'Title', 'journal': 'Source title', 'keywords': 'Index Keywords',
                 'abstract': 'Abstract', 'id': 'EID'}
    else:
        if name in ('authorsShort', 'authorsFull'):
            return [val('Author')]
        if name == 'beginningPage':
            return 0
        if name == 'year':
            y = val('Degree date')
            return int(y) if y.isdigit() else y
        names = {'keywords': 'Identifier / keyword', 'abstract': 'Abstract', 'title': 'Title'}
    if name not in names:
        raise Missing()
    return val(names[name])


def answers(fmt, fields, rid):
    out = {}

    def val(t):
        if t not in fields:
            raise Missing()
        return VALUE[fmt](t, fields[t])
    for t in fields:
        try:
            out[t] = val(t)
        except Missing:
            continue
        if t in LONG[fmt]:
            out[LONG[fmt][t]] = out[t]
    for n in COMMON:
        if n in out:
            continue
        try:
            out[n] = common_name(fmt, n, val, rid)
        except Missing:
            pass
    return {k: plain(v) for k, v in out.items()}


def shown(v):
    """plain() of what a record answered, with grants as what they say."""
    if isinstance(v, list) and v and all(type(x).__name__ in ('MedlineGrant', 'ScopusGrant') for x in v):
        return [plain({k: g[k] for k in g}) for g in v]
    return plain(v)


def disagreement(R, fmt, fields):
    """None, or what record R answers otherwise than the model says."""
    want = answers(fmt, fields, R.id)
    gone = object()
    for n in sorted(set(want) | set(COMMON)):
        got = R.get(n, gone)
        if n not in want:
            if got is not gone:
                return '{!r} of {} is {!r} but the record has no such value'.format(n, R.id, got)
        elif got is gone:
            return '{!r} of {} is missing but should be {!r}'.format(n, R.id, want[n])
        elif shown(got) != want[n] or type(got) is bool:
            return '{!r} of {} is {!r} but should be {!r}'.format(n, R.id, shown(got), want[n])
        else:
            for c in got if isinstance(got, list) else ():
                bad = citation(c, fmt) if type(c).__name__ == 'Citation' else None
                if bad:
                    return 'citation {!r} of {}: {}'.format(str(c), R.id, bad)
    return None


def citation(c, fmt):
    """None, or what is wrong with the parts of a citation; only of citations in the documented form."""
    s = str(c)
    if fmt == 'wos':
        m = re.fullmatch(r"([A-Za-zÀ-ÿ'*][^,0-9]*), ([0-9]{4}), ([A-Z][A-Za-z &]*)(?:, (V[A-Za-z0-9]+))?(?:, (P[A-Za-z0-9]+))?(?:, DOI ([^ ,]+))?", s)
        if not m:
            return None
        up = [x.upper() if x else None for x in m.groups()]
        want = {'author': up[0].replace('.', '').title(), 'year': int(up[1]), 'journal': up[2], 'V': up[3], 'P': up[4], 'DOI': up[5], 'misc': None, 'bad': False}
        ident = '{author}, {year}, {journal}'.format(**want)
    else:
        m = re.fullmatch(r"([A-Z][a-z]+ [A-Z]\.), ([A-Z][A-Za-z -]*) \(([0-9]{4})\) ([A-Z][A-Za-z ]*), ([0-9]+) \(([0-9]+)\), pp\. ([0-9]+-[0-9]+)", s)
        if not m:
            return None
        up = [x.upper() for x in m.groups()]
        want = {'author': up[0], 'year': int(up[2]), 'journal': up[3], 'V': up[4], 'issue': up[5], 'P': up[6], 'bad': False}
        ident = '{author}, {year}, {journal}'.format(**want)
    got = {k: getattr(c, k, 'absent') for k in want}
    if got != want:
        return 'its parts are {} but should be {}'.format(got, want)
    if c.ID() != ident:
        return 'its name is {!r} but should be {!r}'.format(c.ID(), ident)
    return None
