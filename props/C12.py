"""C12: generated strings (arbitrary, WOS-form with any fields missing, Scopus-form) are made into Citations and compared with the parts they were composed of; equality is decided on all pairs of generated lists."""
import copy
import pickle

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import J9, mk
from mkv.gen import digits, fixed, ints, one, text, weigh

suite = Suite('C12')
Cite = mk.Citation

CHUNKS = ['Levy Y', ', ', ',', '1990', 'NATURE', 'V1', 'P2', 'DOI ', '10.1/x', ', DOI ', '(1990)', ' (3)', 'pp. 1-9', 'PP. ', 'P. ', 'Smith, J., ', 'X.', '.', ' ', '\n', '-5', '[Anonymous]', '99999999',
          '٣', 'ß', 'ǆ', 'İ', '\u2028', ';', '(', ')', '&', '', 'V', 'P', '\x00', '\t', '漢字', 'a' * 40, ', , ', 'Nature, 5']
wild = st.one_of(text(0, 30), st.lists(one(*CHUNKS), max_size=9).map(''.join), st.tuples(one('Levy Y', 'Smith, J.', 'Li, X., A b', 'X1'), one(', 1990, ', ' (1990) ', ', 199, ', ', (2001) ', ','), one('NATURE', 'Nature', 'A b', '', '\n'), st.lists(one(*CHUNKS), max_size=5).map(''.join)).map(''.join), st.text(max_size=20))


@suite.test(fixed(s=wild, scopus=st.booleans(), t=wild), quick=8000, rule='the string has at least two characters')
def total(case, ctx):
    s = case['s']
    c, d = Cite(s, scopusMode=case['scopus']), Cite(s, scopusMode=case['scopus'])
    ctx.eq(str(c), s, 'str()')
    ctx.eq(c.original, s, 'original')
    ctx.check(c.bad is True or c.bad is False, 'bad is %r' % (c.bad,))
    ctx.check(isinstance(c.error, BaseException) if c.bad else c.error is None, 'error %r, bad %r' % (c.error, c.bad))
    ctx.check(c == d and hash(c) == hash(d) and not c != d, 'two citations of one string differ')
    ctx.eq(c.ID(), d.ID(), 'ID')
    for f in (c.ID, c.Extra, c.allButDOI, c.__repr__):
        ctx.check(isinstance(f(), str), '%s gives %r' % (f.__name__, f()))
    ctx.check(c.allButDOI().startswith(c.ID()), 'allButDOI %r does not start with the ID %r' % (c.allButDOI(), c.ID()))
    ctx.check(c.isAnonymous() in (True, False), 'isAnonymous')
    j = getattr(c, 'journal', None)
    ctx.eq(bool(c.isJournal()), j in J9, 'isJournal of journal %r' % j)
    ctx.eq(c.FullJournalName(), J9[j][0] if j in J9 else None, 'FullJournalName')
    ctx.check(not (c == s) and c != s and c != 5 and c is not None, 'equals something that is no citation')
    e = Cite(case['t'], scopusMode=case['scopus'])
    ctx.eq(c == e, c.ID() == e.ID(), 'equality of %r and %r with IDs %r and %r' % (s, case['t'], c.ID(), e.ID()))
    ctx.eq(e == c, c == e, 'symmetry')
    if c == e:
        ctx.eq(hash(c), hash(e), 'hashes of equal citations')
    if not c.bad:
        ctx.check(c.author and c.journal and isinstance(c.year, int), 'good without author, year or journal: %r' % vars(c))
    p = pickle.loads(pickle.dumps(c))
    q = copy.deepcopy(c)
    ctx.check(p == c and q == c and str(p) == s and {k: v for k, v in vars(p).items() if k not in ('_hash', 'error')} == {k: v for k, v in vars(c).items() if k not in ('_hash', 'error')}, 'a pickled copy differs')
    ctx.nontrivial(len(s) > 1)
    ctx.label('bad', c.bad)
    ctx.label('good', not c.bad)


# parts: spellings of the same value first, what it is normalised to last
AUTHORS = [(['LEVY Y', 'Levy Y.', 'levy y', 'Levy Y'], 'Levy Y'), (['De Groot S.R.', 'DE GROOT SR'], 'De Groot Sr'), (['[Anonymous]', '[ANONYMOUS]'], '[Anonymous]'),
           (["O'Brien K", "O'BRIEN K."], "O'Brien K"), (['Imbert-Ray C', 'IMBERT-RAY C.'], 'Imbert-Ray C'), (['Levy YZ', 'Levy Y.Z.'], 'Levy Yz'), (['*WHO', '*Who'], '*Who'),
           (['Müller J', 'MÜLLER J.'], 'Müller J'), (['Le'], 'Le'), (['Van 3 X'], 'Van 3 X'), (['De Groot S.R.J.', 'DE GROOT SRJ', 'De. Groot S.R.J.', 'De Groot S.R.J'], 'De Groot Srj'),
           (['A.B.C.D.E. Smith', 'ABCDE SMITH'], 'Abcde Smith')]
JOURNALS = [(['NATURE', 'Nature', 'nature'], 'NATURE'), (['PHYS REV A', 'Phys Rev A'], 'PHYS REV A'), (['J. STAT. MECH.'], 'J. STAT. MECH.'), (['VACUUM'], 'VACUUM'), (['PAIN'], 'PAIN'),
            (['3 BIOTECH'], '3 BIOTECH'), (['DOIT'], 'DOIT'), (['TOPICS COGNITIVE SCI (BERLIN)'], 'TOPICS COGNITIVE SCI (BERLIN)'), (['2001'], '2001'), (['A'], 'A'), (['THESIS U WATERLOO'], 'THESIS U WATERLOO')]
YEARS = ['1990', '1991', '5', '999', '-20', '12345', '2015']
VOLS = ['V1', 'V12', 'VS49', 'VXI', 'V3 B', 'v2']
PAGES = ['P1', 'P1247', 'PL33', 'PE 12', 'p9']
DOIS = ['10.1063/1.1695064', '10.1016/S0030-4018(73)90041-2', '10.1/x, 10.2/y', '[10.1/a, 10.2/b]', 'x']
MISC = ['ARTN 5', 'UNSP 12', 'IN PRESS', 'SECTION 2', 'ABSTRACT']
HOW = ['full', 'full', 'full', 'no author', 'no year', 'no journal', 'author only', 'year only', 'misc']

spell = st.tuples(ints(0, len(AUTHORS) - 1), ints(0, 3), ints(0, 6), ints(0, len(JOURNALS) - 1), ints(0, 2)).map(list)
parts = fixed(how=one(*HOW), p=spell, V=st.one_of(st.none(), one(*VOLS)), P=st.one_of(st.none(), one(*PAGES)), DOI=st.one_of(st.none(), one(*DOIS)), misc=one(*MISC))


def compose(x):
    """(string, expected parts)"""
    (av, a), (jv, j) = AUTHORS[x['p'][0]], JOURNALS[x['p'][3]]
    how = x['how']
    y = YEARS[x['p'][2]]
    astr, jstr = av[x['p'][1] % len(av)], jv[x['p'][4] % len(jv)]
    if how == 'no year' and j[0].isdigit():
        how = 'full'
    if how in ('no author', 'year only') and y.startswith('-'):
        how = 'full'
    want = {'author': a, 'year': int(y), 'journal': j, 'V': None, 'P': None, 'DOI': None, 'misc': None}
    s = [astr, y, jstr]
    if how in ('no author', 'year only'):
        s.remove(astr)
        want['author'] = None
    if how in ('no year', 'author only'):
        s.remove(y)
        want['year'] = None
    if how in ('no journal', 'author only', 'year only'):
        s.pop()
        want['journal'] = None
    if want['journal'] is not None:
        for k in ('V', 'P'):
            if x[k] is not None:
                s.append(x[k])
                want[k] = x[k].upper()
        if how == 'misc':
            s.append(x['misc'])
            want['misc'] = x['misc']
        if x['DOI'] is not None:
            s.append('DOI ' + x['DOI'])
            want['DOI'] = x['DOI'].upper()
    want['bad'] = how not in ('full', )
    return ', '.join(s), want


def wos_id(w):
    return ', '.join(str(w[k]) for k in ('author', 'year', 'journal') if w[k] is not None and w[k] != 0 or k == 'year' and w[k] == 0 and not w['bad'])


@suite.test(parts, quick=6000, rule='every case')
def wos_form(case, ctx):
    s, w = compose(case)
    c = Cite(s)
    for k, v in w.items():
        got = getattr(c, k)
        ctx.eq(got or None if k == 'misc' else got, v, '%s of %r' % (k, s))
    ctx.eq(type(c.error).__name__ if c.bad else c.error, 'BadCitation' if w['bad'] else None, 'error')
    ctx.eq(c.isAnonymous(), w['author'] == '[Anonymous]', 'isAnonymous')
    if w['year'] != 0:
        ctx.eq(c.ID(), wos_id(w), 'ID of %r' % s)
        ctx.eq(c.allButDOI(), ', '.join([wos_id(w)] + [w[k] for k in ('V', 'P', 'misc') if w[k]]), 'allButDOI of %r' % s)
    ctx.eq(c.Extra(), ', '.join([w[k] for k in ('V', 'P', 'DOI', 'misc') if w[k]]), 'Extra of %r' % s)
    ctx.nontrivial()
    ctx.label(case['how'])


few = st.tuples(ints(0, 2), ints(0, 3), ints(0, 1), ints(0, 1), ints(0, 2)).map(list)
alike = fixed(how=one(*HOW), p=few, V=st.one_of(st.none(), one(*VOLS)), P=st.one_of(st.none(), one(*PAGES)), DOI=st.one_of(st.none(), one(*DOIS)), misc=one(*MISC))


@suite.test(st.lists(st.one_of(alike, alike, parts), min_size=4, max_size=8), quick=2500, rule='two citations of the list are equal and two differ')
def equality(case, ctx):
    cs = []
    for x in case:
        s, w = compose(x)
        cs.append((Cite(s), tuple(w[k] for k in ('author', 'year', 'journal')), s))
    eq = ne = 0
    for i, (c, k, s) in enumerate(cs):
        for j, (d, l, t) in enumerate(cs):
            if None in k + l and (sum(x is None for x in k) != sum(x is None for x in l) or 0 in k + l):
                continue  # which parts of an incomplete citation are missing need not be told apart
            ctx.eq(c == d, k == l, 'equality of %r and %r' % (s, t))
            ctx.eq(c != d, k != l, 'inequality of %r and %r' % (s, t))
            if k == l:
                ctx.eq(hash(c), hash(d), 'hashes of %r and %r' % (s, t))
            ctx.eq(c.ID() == d.ID(), k == l, 'IDs of %r and %r' % (s, t))
            eq += k == l and s != t
            ne += k != l
    full = [(c, k) for c, k, s in cs if None not in k]
    ctx.eq(len({c for c, _ in full}), len({k for _, k in full}), 'size of the set of citations')
    ctx.nontrivial(eq and ne)


SC_AUTH = ['Levy, Y.', 'Smith, J.A.', 'Imbert, C.-A.', 'De Groot, S.', 'Levy Y.', 'Li, X.']
SC_TITLE = ['On the shift of a beam', 'Networks: a study', 'A, b and c', 'Title with 1999 in it', 'Wallace\'s line', None]
SC_JOUR = ['Nature', 'Phys. Rev. A', 'J. Stat. Mech.: Theory', 'Proc. IEEE', 'PAIN']


@suite.test(fixed(a=one(*SC_AUTH), more=st.lists(one(*SC_AUTH[:4]), max_size=3), title=one(*SC_TITLE), y=ints(10, 20200), j=one(*SC_JOUR), V=st.one_of(st.none(), one('5', '12', 'A45', '3-4')),
                  issue=st.one_of(st.none(), one('3', '12', '1-2')), P=st.one_of(st.none(), one('12', '1-9', '101-110', 'e5')), pp=one('pp. ', 'p. ', 'PP. '), doi=one('', '', ', 10.1016/x')), quick=4000, rule='every case')
def scopus_form(case, ctx):
    s = ', '.join([case['a']] + case['more'] + ['']) + ((case['title'] + ' ') if case['title'] else '') + '(%d) %s' % (case['y'], case['j'])
    issue = None
    if case['V'] is not None:
        s += ', ' + case['V']
        if case['issue'] is not None:
            s += ' (%s)' % case['issue']
            issue = case['issue']
    if case['P'] is not None:
        s += ', ' + case['pp'] + case['P']
    if case['V'] is None and case['P'] is None:
        case['doi'] = ''  # would stand where the volume does
    s += case['doi']
    up = lambda x: None if x is None else x.upper()  # noqa: E731
    c = Cite(s, scopusMode=True)
    ctx.eq(c.bad, False, 'bad: %r' % s)
    if case['V'] is not None and case['P'] is None and case['doi']:
        ctx.check(c.V == up(case['V']), 'V')
    ctx.eq(c.author, up(case['a']), 'author of %r' % s)
    ctx.eq((c.extraAuthors or '').strip(' ,') or None, up(', '.join(case['more'])) or None, 'further authors of %r' % s)
    ctx.eq((c.name or '').strip() or None, up(case['title']), 'title of %r' % s)
    ctx.eq(c.year, case['y'], 'year of %r' % s)
    ctx.eq(c.journal, up(case['j']), 'journal of %r' % s)
    ctx.eq(c.V, up(case['V']), 'volume of %r' % s)
    ctx.eq(c.issue, up(issue), 'issue of %r' % s)
    ctx.eq(c.P, up(case['P']), 'pages of %r' % s)
    ctx.eq(c.ID(), '%s, %d, %s' % (up(case['a']), case['y'], up(case['j'])), 'ID')
    d = Cite('%s, (%d) %s' % (case['a'].lower(), case['y'], case['j'].upper()), scopusMode=True)
    ctx.check(c == d and hash(c) == hash(d), 'not equal to a citation with the same author, year and journal')
    for a, y, j in (('Other, Z.', case['y'], case['j']), (case['a'], case['y'] + 1, case['j']), (case['a'], case['y'], 'Else')):
        ctx.check(c != Cite('%s, (%d) %s' % (a, y, j), scopusMode=True), 'equal to another')
    ctx.check(c.allButDOI().startswith(c.ID() + ', ' if case['more'] or case['V'] or case['P'] else c.ID()), 'allButDOI')
    for k in (case['V'], issue, case['P']):
        ctx.check(k is None or up(k) in c.allButDOI()[len(c.ID()):], 'allButDOI %r without %r' % (c.allButDOI(), k))
    for k in (case['V'], case['P']):
        ctx.check(k is None or up(k) in c.Extra(), 'Extra %r without %r' % (c.Extra(), k))
    ctx.nontrivial()


@suite.test(fixed(k=st.tuples(*[weigh((2, st.just(1)), (1, ints(2, 30)), (2, ints(30, 300))) for _ in range(7)]).map(list), parts=st.lists(one('V', 'P', 'DOI'), unique=True, max_size=3), misc=st.booleans(), y=one('1990', '5', '-20', '12345')), quick=800,
            rule='a part of more than a hundred characters')
def long_parts(case, ctx):
    """Citations with parts of any length, from WOS and from Scopus, and with many authors."""
    k = case['k']
    a, j = ' '.join(['Abcde'] * k[0] + ['Xy']), ' '.join(['PROC', 'CONF'] * k[1])
    w = {'author': a, 'year': int(case['y']), 'journal': j, 'V': None, 'P': None, 'DOI': None, 'misc': None}
    s = [a, case['y'], j]
    for n, base in (('V', 'V' + '12' * k[2]), ('P', 'P' + '34' * k[3]), ('DOI', '10.1/' + 'ab/c' * k[4])):
        if n in case['parts']:
            s.append('DOI ' + base if n == 'DOI' else base)
            w[n] = base.upper()
    if case['misc'] and not case['parts']:
        s.append('SECTION ' + 'X' * k[5])
        w['misc'] = s[-1]
    s = ', '.join(s)
    c = Cite(s)
    ctx.eq((str(c), c.original), (s, s), 'str() and original')
    for n, v in w.items():
        ctx.eq(getattr(c, n) or None, v, '%s of %r' % (n, s))
    ctx.eq(c.bad, bool(w['misc']), 'bad')
    ctx.eq(c.ID(), '%s, %s, %s' % (a, case['y'], j), 'ID')
    ctx.eq(c.allButDOI(), ', '.join([c.ID()] + [w[n] for n in ('V', 'P', 'misc') if w[n]]), 'allButDOI')
    ctx.eq(c.Extra(), ', '.join([w[n] for n in ('V', 'P', 'DOI', 'misc') if w[n]]), 'Extra')
    ctx.check(c == Cite(s) and hash(c) == hash(Cite(s)) and c != Cite('Zed ' + s) and c != Cite(s.replace(j, j + ' B', 1)), 'equality')
    # Scopus
    y = abs(int(case['y'])) + 10
    first, more = 'LEVY' + 'Y' * k[0] + ', Y.', ', '.join('AUTHOR%d, Z.' % i for i in range(k[2]))
    title, jour = 'T' * k[3], 'JOUR' + 'N' * k[1]
    s = '%s, %s, %s (%d) %s' % (first, more, title, y, jour)
    V, P, issue = 'A' + '5' * k[4], '1' * k[5] + '-9', '7' * k[6]
    if 'V' in case['parts']:
        s += ', %s (%s)' % (V, issue)
    if 'P' in case['parts']:
        s += ', pp. ' + P
    c = Cite(s, scopusMode=True)
    ctx.eq((str(c), c.original), (s, s), 'str() and original')
    ctx.eq((c.bad, c.author, (c.extraAuthors or '').strip(' ,'), (c.name or '').strip(), c.year, c.journal), (False, first, more, title, y, jour), 'parts of %r' % s)
    ctx.eq((c.V, c.issue), (V, issue) if 'V' in case['parts'] else (None, None), 'volume and issue of %r' % s)
    ctx.eq(c.P, P if 'P' in case['parts'] else None, 'pages of %r' % s)
    ctx.eq(c.ID(), '%s, %d, %s' % (first, y, jour), 'ID')
    ctx.nontrivial(max(k[:2]) > 30)
    ctx.label('long Scopus title', k[3] > 100)
