"""Shared generators (Hypothesis strategies producing JSON values) and builders of real objects from them."""
from hypothesis import strategies as st

from .env import mk

from metaknowledge.grants.baseGrant import FallbackGrant
from metaknowledge.medline.recordMedline import MedlineRecord
from metaknowledge.proquest.recordProQuest import ProQuestRecord
from metaknowledge.scopus.recordScopus import ScopusRecord
from metaknowledge.WOS.recordWOS import WOSRecord

RC = mk.RecordCollection
GC = mk.GrantCollection


def element(spec):
    """spec = [kind, n]. Two calls with one spec give two equal, distinct objects."""
    kind, n = spec
    if kind == 'W':
        return WOSRecord({'PT': ['J'], 'UT': ['WOS:%03d' % n], 'TI': ['title %d' % n]})
    if kind == 'B':  # bad: no id
        return WOSRecord({'PT': ['J'], 'TI': ['bad %d' % n]})
    if kind == 'M':
        return MedlineRecord({'PMID': ['%d' % n], 'TI': ['title %d' % n]})
    if kind == 'S':
        return ScopusRecord({'EID': '%d' % n, 'Title': 'title %d' % n, 'Authors': 'A B.'})
    if kind == 'P':
        return ProQuestRecord({'ProQuest document ID': ['%d' % n], 'Title': ['title %d' % n]})
    if kind == 'G':
        return FallbackGrant('grant %d' % n, {'a': str(n)}, sFile='f.csv', sLine=n)
    raise ValueError(kind)


# Small pools, so that values collide
def ints(lo, hi):
    return st.integers(lo, hi)


def one(*xs):
    return st.sampled_from(list(xs))


def lists(s, lo=0, hi=5, unique=False, unique_by=None):
    if unique:
        return st.lists(s, min_size=lo, max_size=hi, unique_by=unique_by or (lambda x: repr(x)))
    return st.lists(s, min_size=lo, max_size=hi)


def maybe(s, p_none=1):
    return st.one_of(st.none(), s)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def weigh(*pairs):
    """Like st.one_of, with weights (st.one_of drops repeated strategies, so repeating one does not make it likelier)."""
    pick = one(*[i for i, (n, s) in enumerate(pairs) for _ in range(n)])
    return pick.flatmap(lambda i: pairs[i][1])


def tup(*s):
    return st.tuples(*s).map(list)


# ---------------------------------------------------------------- text
# any characters except line breaks, control characters and surrogates
CHARS = st.one_of(st.sampled_from('abcdeXYZ'), st.sampled_from('abc XY,;:.()[]&%"\'-/_0123456789{}|=#@éßçñ–’漢\u00a0'),
                  st.characters(blacklist_categories=('Cc', 'Cs', 'Zl', 'Zp')))
LATIN = st.one_of(st.sampled_from('abcdeXYZ'), st.sampled_from('abc XY,.()&%\'-/_0123456789éßçñ'),
                  st.characters(min_codepoint=0xa1, max_codepoint=0xff))
WORDCH = 'abcdefgXYZ0189éßÉ'


def text(lo=1, hi=15, chars=CHARS):
    return st.text(chars, min_size=lo, max_size=hi)


def stripped(lo=1, hi=15, chars=CHARS):
    return text(lo, hi, chars).map(lambda s: s.strip() or 'x')


word = st.text(st.sampled_from(WORDCH), min_size=1, max_size=6)
phrase = st.lists(word, min_size=1, max_size=4).map(' '.join)
digits = st.integers(0, 9999).map(str)

SURN = ['Smith', 'Levy', 'O\'Brien', 'de Groot', 'Imbert-Ray', 'Li']
FIRST = ['John', 'Mary', 'Reid', 'J.', 'Jane A.', 'Xin']
author_full = st.builds('{}, {}'.format, one(*SURN), one(*FIRST))
author_short = st.builds('{}, {}'.format, one(*SURN), one('J', 'JA', 'M', 'R', 'XY'))
JOURNALS = ['NATURE', 'PHYS REV A', 'SOC NETW', 'CELL', 'J THEOR BIOL', 'ANN PHYS', 'OPT COMMUN']
year = ints(1985, 1995)
MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC', 'SPR', 'SUM', 'FAL', 'WIN']
SECOND = ['', '', ' 1', ' 15', ' 31', '-DEC', '-WIN', ' 2001', ' 5 2001']


@st.composite
def cite_line(draw):
    """A reference in WOS form: author, year, journal and some of volume, page and DOI."""
    parts = [draw(one('LEVY Y', 'Smith J', 'IMBERT C', '[Anonymous]', 'De Groot SR', 'O\'Brien K')), str(draw(year)), draw(one(*JOURNALS))]
    if draw(st.booleans()):
        parts.append('V%d' % draw(ints(1, 30)))
    if draw(st.booleans()):
        parts.append('P%d' % draw(ints(1, 3000)))
    if draw(st.booleans()):
        parts.append('DOI 10.%d/%s' % (draw(ints(1000, 1005)), draw(one('a.b', 'S0030-4018(73)90041-2', 'x1'))))
    return ', '.join(parts)


@st.composite
def wrapped(draw, s):
    """Breaks the text drawn from s into lines at some of its spaces."""
    ws = draw(s).split(' ')
    lines = [ws[0]]
    for w in ws[1:]:
        if draw(ints(0, 2)) == 0:
            lines.append(w)
        else:
            lines[-1] += ' ' + w
    return lines


WOS_KIND = {}
for _k, _t in {'first': 'PT GP CA DT CY J9 SN AR IS EI DI MA D2 RP PN SI PM GA', 'strip': 'VL BP EP',
               'list': 'AF BE AU BA BF ED', 'join': 'TI SE BS CT CL FX SU HO PA', 'upper': 'SO PI JI PU', 'lang': 'LA',
               'comma': 'SP', 'int': 'TC PG NR Z9', 'semi': 'FU SC EM OI BN RI WC', 'semilower': 'DE', 'semiupper': 'ID',
               'lines': 'AB', 'C1': 'C1', 'CR': 'CR', 'PD': 'PD', 'PY': 'PY'}.items():
    for _x in _t.split():
        WOS_KIND[_x] = _k
WOS_OTHER = ['E1', 'X9', 'HC', 'DA', 'OA', 'P2']  # tags with no processing


def wos_lines(tag):
    """Lines a WOS export can hold for the tag."""
    k = WOS_KIND.get(tag, 'other')
    if tag == 'PT':
        return st.lists(one('J', 'B', 'C', 'S', 'P'), min_size=1, max_size=1)
    if tag == 'J9':
        return st.lists(one(*JOURNALS), min_size=1, max_size=1)
    if tag == 'AF':
        return st.lists(author_full, min_size=1, max_size=5)
    if tag == 'AU':
        return st.lists(author_short, min_size=1, max_size=5)
    if k in ('first', 'strip'):
        return st.lists(phrase, min_size=1, max_size=1)
    if k == 'list':
        return st.lists(stripped(1, 12), min_size=1, max_size=5)
    if k in ('join', 'upper', 'other', 'lines'):
        return st.one_of(wrapped(phrase), st.lists(stripped(1, 20), min_size=1, max_size=4))
    if k == 'lang':
        return st.lists(one('English', 'French'), min_size=1, max_size=2)
    if k == 'comma':
        return st.lists(word, min_size=1, max_size=4).map(lambda l: [', '.join(l)])
    if k == 'int':
        return st.one_of(digits, digits, digits, st.just('0')).map(lambda d: [d])
    if k.startswith('semi'):
        return wrapped(st.lists(phrase, min_size=1, max_size=5).map('; '.join))
    if k == 'C1':
        return st.lists(st.one_of(phrase, st.builds('[{}] {}'.format, phrase, phrase)), min_size=1, max_size=4)
    if k == 'CR':
        return st.lists(cite_line(), min_size=1, max_size=5)
    if k == 'PD':
        return st.builds(lambda a, b: [a + b], one(*MONTHS), one(*SECOND))
    if k == 'PY':
        return ints(1900, 2020).map(lambda y: [str(y)])
    raise ValueError(tag)


@st.composite
def wos_fields(draw, tags=None, lo=1, hi=8, uid=None):
    """{tag: lines} of a good WOS record, in file order."""
    pool = tags or (list(WOS_KIND) + WOS_OTHER)
    chosen = draw(st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True))
    res = [[t, draw(wos_lines(t))] for t in chosen]
    pos = draw(ints(0, len(res)))
    res.insert(pos, ['UT', ['WOS:%03d' % (draw(ints(0, 20)) if uid is None else uid)]])
    return res


def wos_text(fields):
    """The entry of one record as it stands in a WOS file."""
    return ''.join('%s %s\n' % (t, '\n   '.join(ls)) for t, ls in fields) + 'ER\n'


def wos_file(recs, eol='\n'):
    return '\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n' + '\n'.join(wos_text(r) for r in recs) + '\nEF'


# ---------------------------------------------------------------- Medline
MED_ONE = ['TI', 'AB', 'VI', 'TA', 'JT', 'OTO']          # processed to their first value
MED_LIST = ['FAU', 'AID', 'OT', 'PT', 'LA', 'SO', 'MH', 'RN', 'IS', 'SB', 'PHST', 'STAT', 'IP', 'CI', 'IR', 'FIR', 'CN',
            'LID', 'CRDT', 'ED', 'OAB', 'ECI', 'PL', 'JID', 'GN', 'EIN', 'CIN']
PHRASE_LATIN = st.lists(st.text(LATIN.filter(lambda c: c != ' '), min_size=1, max_size=6), min_size=1, max_size=4).map(' '.join)


@st.composite
def medline_fields(draw, uid=None):
    """[[tag, value], ...] of a good Medline record, in file order; values may hold line breaks (continuation lines).
    Author blocks (FAU, AU, AUID, AD) stay together."""
    res = [['PMID', '%d' % (draw(ints(1, 30)) if uid is None else uid)]]
    val = st.builds('\n'.join, st.lists(PHRASE_LATIN, min_size=1, max_size=3))
    blocks = []
    for t in draw(st.lists(one(*MED_ONE), max_size=4, unique=True)):
        blocks.append([[t, draw(val) if t in ('TI', 'AB') else draw(PHRASE_LATIN)]])
    for t in draw(st.lists(one(*MED_LIST), max_size=4, unique=True)):
        if t == 'FAU':
            continue
        for v in draw(st.lists(val, min_size=1, max_size=3)):
            blocks.append([[t, v if t != 'AID' else draw(one('10.1/x [doi]', 'S12(3)4 [pii]', '10.2/y-z [doi]'))]])
    if draw(st.booleans()):
        blocks.append([['DP', '%d%s' % (draw(ints(1950, 2016)), draw(one('', ' Jan', ' Feb 3', ' Mar-Apr', ' Winter')))]])
        if blocks[-1][0][1].endswith('Winter'):
            blocks[-1][0][1] = blocks[-1][0][1][:5] + 'Nov'
    if draw(st.booleans()):
        blocks.append([['PG', draw(one('12-5', '100', 'suppl 4-9', 'e12; e13', '1-2, 5'))]])
    for i in range(draw(ints(0, 2))):
        blocks.append([['GR', draw(one('R01 GM123/GM/NIGMS NIH HHS/United States', 'HL-1/HL/NHLBI NIH HHS/United States',
                                       'Z99 AA9999/AA/NIAAA NIH HHS/United States', '095127/Wellcome Trust/United Kingdom'))]])
    auths = draw(st.lists(st.tuples(one(*SURN), one('J', 'JA', 'M', 'R', 'XY')), max_size=4, unique=True))
    for a, b in auths:
        blk = []
        if draw(st.booleans()):
            blk.append(['FAU', '%s, %s.' % (a, b)])
        blk.append(['AU', '%s %s' % (a, b)])
        if draw(ints(0, 2)) == 0:
            blk.append(['AUID', 'ORCID: 0000-%04d' % draw(ints(0, 9999))])
        if draw(ints(0, 1)) == 0:
            blk.append(['AD', draw(st.lists(PHRASE_LATIN, min_size=1, max_size=2).map('; '.join))])
        blocks.append(blk)
    order = draw(st.permutations(range(len(blocks))))
    for i in order:
        res += blocks[i]
    return res


def medline_text(fields):
    return ''.join('%-4s- %s\n' % (t, v.replace('\n', '\n      ')) for t, v in fields)


def medline_file(recs):
    return '\n' + '\n'.join(medline_text(r) for r in recs) + '\n'


# ---------------------------------------------------------------- Scopus
from metaknowledge.scopus.recordScopus import scopusHeader as SCOPUS_HEADER  # noqa: E402

SCOPUS_COLS = list(SCOPUS_HEADER)
SC_INT = ['Year', 'Page count', 'Cited by', 'Conference code']
SC_SEMI = ['Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers',
           'Correspondence Address', 'ISBN', 'Language of Original Document']
# what a cell can hold: no line breaks; double quotes are doubled in the file and kept doubled in the value
CELL = st.lists(st.text(st.one_of(st.sampled_from('abcXYZ'), st.sampled_from('ab ,;:.()-0123456789é漢')), min_size=1, max_size=8), min_size=1,
                max_size=3).map(' '.join).map(lambda s: s.strip() or 'x')


@st.composite
def scopus_ref(draw):
    s = '%s, %s (%d) %s, %d' % (draw(one('Levy, Y., Smith, J.', 'Imbert, C.', 'Li, X.')), draw(phrase), draw(year),
                                draw(one('Nature', 'Phys. Rev. A', 'Cell')), draw(ints(1, 50)))
    if draw(st.booleans()):
        s += ' (%d)' % draw(ints(1, 12))
    if draw(st.booleans()):
        s += ', pp. %d-%d' % (draw(ints(1, 99)), draw(ints(100, 199)))
    return s


def scopus_cell(col):
    if col in SC_INT:
        return (year if col == 'Year' else st.one_of(ints(0, 500), ints(0, 500), ints(0, 1))).map(str)
    if col in SC_SEMI:
        return st.lists(phrase, min_size=1, max_size=4).map('; '.join)
    if col == 'Authors':
        return st.lists(one('Levy Y.', 'Smith J.', 'Imbert C.-A.', 'Li X.'), min_size=1, max_size=4, unique=True).map(', '.join)
    if col == 'Sponsors':
        return st.lists(phrase, min_size=1, max_size=3).map(';'.join)
    if col == 'References':
        return st.lists(scopus_ref(), min_size=1, max_size=3).map('; '.join)
    if col == 'Funding Details':
        return st.lists(one('NSF, National Science Foundation', 'R01-1, NIH, National Institutes of Health', 'DFG, Deutsche Forschungsgemeinschaft'),
                        min_size=1, max_size=2).map('; '.join)
    return CELL


@st.composite
def scopus_fields(draw, uid=None):
    cols = draw(st.lists(st.sampled_from([c for c in SCOPUS_COLS if c != 'EID']), max_size=9, unique=True))
    if draw(st.booleans()):
        cols = list(dict.fromkeys(cols + ['Authors', 'Title', 'Year', 'Source title']))
    res = {c: draw(scopus_cell(c)) for c in cols}
    res['EID'] = '2-s2.0-%d' % (draw(ints(0, 30)) if uid is None else uid)
    return res


def scopus_row(fields):
    return ','.join('"%s"' % fields[c] if c in fields else '' for c in SCOPUS_COLS) + '\n'


def scopus_file(recs):
    return '\ufeff' + ','.join(SCOPUS_COLS) + '\n' + ''.join(scopus_row(r) for r in recs)


# ---------------------------------------------------------------- ProQuest
PQ_SINGLE = ['Advisor', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Department',
             'Dissertation/thesis number', 'Document type', 'Language', 'Number of pages', 'Place of publication',
             'School code', 'Source', 'Source type', 'University location', 'University/institution', 'ISBN', 'Publication subject']


@st.composite
def proquest_fields(draw, uid=None):
    """[[field, value], ...] in file order, after the name, author and url lines."""
    val = phrase
    res = [['Abstract', draw(phrase)]] if draw(st.booleans()) else []
    for t in draw(st.lists(one(*PQ_SINGLE), max_size=6, unique=True)):
        res.append([t, draw(val)])
    if draw(st.booleans()):
        res.append(['Subject', draw(st.lists(phrase, min_size=1, max_size=3).map('; '.join))])
    if draw(st.booleans()):
        res.append(['Classification', draw(st.lists(st.builds('{}: {}'.format, digits, phrase), min_size=1, max_size=3).map('; '.join))])
    if draw(st.booleans()):
        res.append(['Identifier / keyword', draw(st.lists(phrase, min_size=1, max_size=4).map(', '.join))])
    y = draw(ints(1980, 2016))
    if draw(st.booleans()):
        res.append(['Degree date', str(y)])
    if draw(st.booleans()):
        res.append(['Publication year', str(y)])
    if draw(st.booleans()):
        res.append(['Author', '%s, %s' % (draw(one(*SURN)), draw(one(*FIRST)))])
    title = draw(phrase)
    res.append(['Title', title])
    res.append(['ProQuest document ID', str(draw(ints(1000, 1030)) if uid is None else uid)])
    return list(draw(st.permutations(res)))


def proquest_dict(fields):
    return {t: [v] for t, v in fields}

# The documented long name of every WOS tag
WOS_NAMES = dict(p.split(':') for p in (
    'PT:pubType AF:authorsFull GP:group BE:editedBy AU:authorsShort BA:bookAuthor BF:bookAuthorFull CA:groupName ED:editors '
    'TI:title SO:journal SE:seriesTitle BS:seriesSubtitle LA:language DT:docType CT:confTitle CY:confDate HO:confHost '
    'CL:confLocation SP:confSponsors DE:authKeywords ID:keywords AB:abstract C1:authAddress RP:reprintAddress EM:email '
    'RI:ResearcherIDnumber OI:orcID FU:funding FX:fundingText CR:citations NR:citedRefsCount TC:wosTimesCited '
    'Z9:totalTimesCited PU:publisher PI:publisherCity PA:publisherAddress SC:subjectCategory SN:ISSN EI:eISSN BN:ISBN J9:j9 '
    'JI:isoAbbreviation PD:month PY:year VL:volume IS:issue PN:partNumber SU:supplement SI:specialIssue MA:meetingAbstract '
    'BP:beginningPage EP:endingPage AR:articleNumber PG:pageCount WC:subjects DI:DOI D2:bookDOI GA:documentDeliveryNumber '
    'UT:wosString PM:pubMedID').split())

SPECIAL = ['authorsFull', 'keywords', 'grants', 'j9', 'authorsShort', 'volume', 'selfCitation', 'citations', 'address',
           'abstract', 'title', 'month', 'year', 'journal', 'beginningPage', 'DOI', 'id']


CITE_ATTRS = ('author', 'year', 'journal', 'V', 'P', 'DOI', 'misc', 'name', 'issue', 'bad')


def canon(v):
    """A value in a form that == compares fully (Citations and Grants compare by part of their content only)."""
    if isinstance(v, mk.Citation):
        return ('Citation', str(v), [repr(getattr(v, k, None)) for k in CITE_ATTRS])
    if isinstance(v, mk.grants.Grant):
        return ('Grant', type(v).__name__, sorted((k, canon(v[k])) for k in v), v.bad)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return (type(v).__name__, v)


def build(src, fields, uid=None):
    """A fresh record of the source from its fields."""
    if src == 'W':
        return WOSRecord(wos_text(fields))
    if src == 'M':
        return MedlineRecord(medline_text(fields))
    if src == 'S':
        return ScopusRecord(scopus_row(fields))
    if src == 'P':
        return ProQuestRecord(proquest_dict(fields))
    raise ValueError(src)


def any_record():
    return st.one_of(tup(st.just('W'), wos_fields()), tup(st.just('M'), medline_fields()),
                     tup(st.just('S'), scopus_fields()), tup(st.just('P'), proquest_fields()))


# long names of the Medline tags (those without one to themselves are left out)
MEDLINE_NAMES = {'AB': 'Abstract', 'CI': 'CopyrightInformation', 'AD': 'Affiliation', 'IRAD': 'InvestigatorAffiliation', 'AID': 'ArticleIdentifier', 'AU': 'Author', 'AUID': 'AuthorIdentifier', 'FAU': 'FullAuthor', 'BTI': 'BookTitle', 'CTI': 'CollectionTitle', 'CN': 'CorporateAuthor', 'CRDT': 'CreateDate', 'DCOM': 'DateCompleted', 'DA': 'DateCreated', 'LR': 'DateLastRevised', 'DEP': 'DateElectronicPublication', 'DP': 'DatePublication', 'EN': 'Edition', 'EDAT': 'EntrezDate', 'GS': 'GeneSymbol', 'GN': 'GeneralNote', 'GR': 'GrantNumber', 'IR': 'Investigator', 'FIR': 'InvestigatorFull', 'ISBN': 'ISBN', 'IS': 'ISSN', 'IP': 'Issue', 'TA': 'JournalTitleAbbreviation', 'JT': 'JournalTitle', 'LA': 'Language', 'LID': 'LocationIdentifier', 'MID': 'ManuscriptIdentifier', 'MHDA': 'MeSHDate', 'MH': 'MeSHTerms', 'JID': 'NLMID', 'RF': 'NumberReferences', 'OABL': 'OtherAbstract', 'OCI': 'OtherCopyright', 'OID': 'OtherID', 'OT': 'OtherTerm', 'OTO': 'OtherTermOwner', 'OWN': 'Owner', 'PG': 'Pagination', 'PS': 'PersonalNameSubject', 'FPS': 'FullPersonalNameSubject', 'PL': 'PlacePublication', 'PHST': 'PublicationHistoryStatus', 'PST': 'PublicationStatus', 'PT': 'PublicationType', 'PUBM': 'PublishingModel', 'PMC': 'PubMedCentralIdentifier', 'PMCR': 'PubMedCentralRelease', 'PMID': 'PubMedUniqueIdentifier', 'RN': 'RegistryNumber', 'NM': 'SubstanceName', 'SI': 'SecondarySourceID', 'SO': 'Source', 'SFM': 'SpaceFlightMission', 'STAT': 'Status', 'SB': 'Subset', 'TI': 'Title', 'TT': 'TransliteratedTitle', 'VI': 'Volume', 'VTI': 'VolumeTitle', 'CIN': 'CommentIn', 'EIN': 'ErratumIn', 'EFR': 'ErratumFor', 'CRI': 'CorrectedRepublishedIn', 'CRF': 'CorrectedRepublishedFrom', 'DDIN': 'DatasetIn', 'DRIN': 'DatasetUseReportedIn', 'PRIN': 'PartialRetractionIn', 'PROF': 'PartialRetractionOf', 'RPI': 'RepublishedIn', 'RPF': 'RepublishedFrom', 'RIN': 'RetractionIn', 'ROF': 'RetractionOf', 'UIN': 'UpdateIn', 'UOF': 'UpdateOf', 'SPIN': 'SummaryForPatients', 'ORI': 'OriginalReportIn'}


def source_lines(ctx, rc, at):
    """The lines the records say they come from are as far apart as the records are in the file; from which number the lines are counted is not specified."""
    got = {r.id: r.sourceLine for r in rc}
    first = min(at, key=at.get, default=None)
    ctx.eq({k: v - got[first] for k, v in got.items()}, {k: v - at[first] for k, v in at.items()}, 'distances between the source lines of the records')
    if at:
        ctx.check(0 <= got[first] - at[first] <= 1, lambda: 'source line of %s is %r, it starts after %r lines' % (first, got[first], at[first]))
