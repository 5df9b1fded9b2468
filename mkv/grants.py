"""Generators and file writers for grant files (NSERC, CIHR, NSF, generic CSV)."""
import csv
import io
from xml.sax.saxutils import escape

from hypothesis import strategies as st

from .gen import LATIN, ints, one

CELLTEXT = st.one_of(
    st.lists(st.text(LATIN.filter(lambda c: c != ' '), min_size=1, max_size=6), min_size=1, max_size=3).map(' '.join),
    one('a "quoted" x', 'with, comma', 'two\nlines', '', "l'été", '0012', '1,000.00', 'x; y', '=SUM(A1)'))
NAMES = ['Levy, Yvonne', 'Smith, John', "O'Brien, Kate", 'Li, Xin', 'de Groot, S', 'Müller, Jürgen']
INSTS = ['University of Waterloo', 'McGill', 'Université Laval', 'Inst. A & B', 'College (North)']
NSERC_COLS = ['Cle', 'Name-Nom', 'Department-Département', 'Institution-Établissement', 'ProvinceEN', 'FiscalYear-Exercice financier',
              'AwardAmount', 'ApplicationTitle', 'CoAppName-NomCoApp', 'CoAppInstitution-ÉtablissementCoApp', 'Keyword']
CIHR_COLS = ['Funding Reference Number', 'PI Names', 'Project Title', 'Program Name', 'Institution Paid', 'CIHR Contribution', 'Competition Date', 'Term', 'Keywords', 'Abstract']
FALL_COLS = ['Number', 'Title', 'PI', 'Co-PIs', 'University', 'Amount', 'Year', 'Notes']


def csv_text(cols, rows, lineterm='\n'):
    f = io.StringIO()
    w = csv.writer(f, dialect='excel', lineterminator=lineterm)
    w.writerow(cols)
    for r in rows:
        w.writerow([r.get(c, '') for c in cols])
    return f.getvalue()


def _cell(col):
    if 'Name' in col and 'Program' not in col or col in ('PI', 'Co-PIs'):
        return st.lists(one(*NAMES), min_size=1, max_size=3).map('; '.join)
    if 'Institution' in col or col == 'University':
        return st.lists(one(*INSTS), min_size=1, max_size=2).map('; '.join)
    return CELLTEXT


@st.composite
def _row(draw, cols, ident=None, idpool=None):
    # the first and last cells are not empty: a row of one empty cell is no row
    r = {c: draw(_cell(c)) for c in cols}
    if ident:
        r[ident] = draw(idpool)
    return r


nserc_rows = st.lists(_row(NSERC_COLS, 'Cle', ints(100, 105).map(str)), min_size=1, max_size=6)
cihr_rows = st.lists(_row(CIHR_COLS, 'Funding Reference Number', ints(1, 10 ** 6).map(str)), min_size=1, max_size=5, unique_by=lambda r: r['Funding Reference Number'])
fall_rows = st.lists(_row(FALL_COLS, 'Number', ints(1, 10 ** 6).map(str)), min_size=1, max_size=5, unique_by=lambda r: r['Number'])

XMLTEXT = st.one_of(st.lists(st.text(st.one_of(LATIN, one('<', '&', '>', '漢', '–')).filter(lambda c: c != ' '), min_size=1, max_size=6), min_size=1, max_size=3).map(' '.join),
                    one('a & b', 'x < y', '"q"', 'l\'été', ' two  words ', 'two\nlines', 'a<br/>b & amp;', '\n  indented\n'))


@st.composite
def nsf_award(draw, uid=None):
    """[[tag, text | None | [[tag, text | None], ...]], ...]: the elements of one Award, in order"""
    res = [['AwardID', str(draw(ints(1500000, 1500020)) if uid is None else uid)]]
    for t in draw(st.lists(one('AwardTitle', 'AwardEffectiveDate', 'AwardExpirationDate', 'AwardAmount', 'AbstractNarration', 'MinAmdLetterDate', 'ARRAAmount'), max_size=5, unique=True)):
        res.append([t, draw(st.one_of(XMLTEXT, XMLTEXT, st.none()))])
    if draw(st.booleans()):
        res.append(['AwardInstrument', [['Value', draw(XMLTEXT)]]])
    if draw(st.booleans()):
        res.append(['ProgramOfficer', [['SignBlockName', draw(one(*NAMES))]]])
    for i in range(draw(ints(0, 2))):
        org = [['Code', draw(XMLTEXT)]]
        for t in ('Directorate', 'Division'):
            if draw(st.booleans()):
                org.append([t, [['LongName', draw(st.one_of(XMLTEXT, st.none()))]] + ([['ShortName', draw(XMLTEXT)]] if draw(st.booleans()) else [])])
        res.append(['Organization', org])
    for i in range(draw(ints(0, 4))):
        f, l = draw(one(('Yvonne', 'Levy'), ('John', 'Smith'), ('Kate', "O'Brien"), ('Xin', 'Li'), ('Jürgen', 'Müller'), (' Ann', 'Lee ')))
        inv = draw(st.permutations([['FirstName', f], ['LastName', l]] + draw(st.lists(one(['EmailAddress', 'a@b.c'], ['StartDate', '01/02/2015'], ['EndDate', None], ['RoleCode', 'Principal Investigator']), max_size=3))))
        res.append(['Investigator', [list(x) for x in inv]])
    for i in range(draw(ints(0, 2))):
        res.append(['Institution', [['Name', draw(one(*INSTS))]] + draw(st.lists(one(['CityName', 'Waterloo'], ['ZipCode', '0123'], ['PhoneNumber', None]), max_size=2))])
    for t in draw(st.lists(one('ProgramElement', 'ProgramReference', 'FoaInformation'), max_size=3)):
        res.append([t, [['Code', draw(XMLTEXT)], ['Text', draw(st.one_of(XMLTEXT, st.none()))]]])
    return [list(x) for x in draw(st.permutations(res))]


def xml_elem(e, ind='    ', flat=False):
    t, v = e
    ind, nl = ('', '') if flat else (ind, '\n')
    if v is None:
        return ind + '<%s/>' % t + nl
    if isinstance(v, str):
        return ind + '<%s>%s</%s>' % (t, escape(v), t) + nl
    return ind + '<%s>' % t + nl + ''.join(xml_elem(x, ind + '  ', flat) for x in v) + ind + '</%s>' % t + nl


def nsf_text(award):
    return '<?xml version="1.0" encoding="UTF-8"?>\n\n<rootTag>\n  <Award>\n%s  </Award>\n</rootTag>\n' % ''.join(map(xml_elem, award))


def nsf_expected(award):
    """The fields the documentation of the format lets one expect: texts of flat elements, joined texts of nested ones."""
    d = {}
    for t, v in award:
        if t == 'Organization':
            for t2, v2 in v:
                if t2 in ('Directorate', 'Division'):
                    texts = [x for _, x in v2 if x is not None]
                    if texts:
                        d.setdefault(t2, []).append('; '.join(texts))
        elif t == 'Investigator':
            dd = dict((a, b) for a, b in v)
            d.setdefault(t, []).append('%s %s; %s' % (dd['FirstName'], dd['LastName'], ', '.join(b for a, b in v if a not in ('FirstName', 'LastName') and b is not None)))
        elif isinstance(v, list):
            d.setdefault(t, []).append('; '.join(x for _, x in v if x is not None))
        else:
            d[t] = v
    return d


def cihr_text(rows):
    return 'Search Criteria,,,,,,,,,\n"x, y",,,,,,,,,\nDate,,,,,,,,,\n' + csv_text(CIHR_COLS, rows)


def grant_file():
    """[kind, content]"""
    return st.one_of(st.tuples(st.just('NSERC'), nserc_rows), st.tuples(st.just('CIHR'), cihr_rows), st.tuples(st.just('NSF'), nsf_award()), st.tuples(st.just('FB'), fall_rows)).map(list)


def grant_bytes(kind, content):
    if kind == 'NSF':
        return nsf_text(content).encode('utf-8')
    if kind == 'NSERC':
        return csv_text(NSERC_COLS, content).encode('latin-1')
    if kind == 'CIHR':
        return cihr_text(content).encode('latin-1')
    return csv_text(FALL_COLS, content).encode('latin-1')


def grant_name(kind, stem):
    return {'NSERC': 'NSERC_%s.csv', 'CIHR': 'cihr_%s.csv', 'NSF': '%s.xml', 'FB': '%s.csv'}[kind] % stem


TYPES = {'NSERC': 'NSERCGrant', 'CIHR': 'CIHRGrant', 'NSF': 'NSFGrant', 'FB': 'FallbackGrant'}
