"""C13: records of the four sources with any of the cited parts missing make their own citations, which are compared with the parts and with the Citation parsed from a reference string composed of them."""
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import SCOPUS_COLS, MedlineRecord, ProQuestRecord, ScopusRecord, WOSRecord, fixed, ints, maybe, one, wos_text

suite = Suite('C13')

AU = one('Levy, Y', 'Smith, JA', "O'Brien, K", 'de Groot, S', 'Li, X', 'Imbert-Ray, C', 'LEVY, Y', 'Smith, J, Jr', 'van Dam, A, III')
AU_NORM = {'Levy, Y': 'Levy Y', 'Smith, JA': 'Smith Ja', "O'Brien, K": "O'Brien K", 'de Groot, S': 'De Groot S', 'Li, X': 'Li X', 'Imbert-Ray, C': 'Imbert-Ray C', 'LEVY, Y': 'Levy Y', 'Smith, J, Jr': 'Smith J Jr', 'van Dam, A, III': 'Van Dam A Iii'}
J = one('NATURE', 'PHYS REV A', 'J STAT MECH', 'VACUUM', 'PAIN')
TITLE = one('On the shift', 'A BOOK', 'on the shift', 'Title with, a comma')
wos = fixed(AU=maybe(st.lists(AU, min_size=1, max_size=4)), PY=maybe(ints(1900, 2016)), J9=maybe(J), TI=maybe(TITLE), VL=maybe(one('5', '12', 'A4', 'XI')), BP=maybe(one('1', '1247', 'L33', 'e5')),
            DI=maybe(one('10.1/x', '10.1016/S0030-4018(73)90041-2')))
full = fixed(AU=st.lists(AU, min_size=1, max_size=4), PY=ints(1989, 1992), J9=J, TI=maybe(TITLE), VL=maybe(one('5', '12', 'A4', 'XI')), BP=maybe(one('1', '1247', 'L33', 'e5')),
             DI=maybe(one('10.1/x', '10.1016/S0030-4018(73)90041-2')))


def wos_rec(d, n=1):
    return WOSRecord(wos_text([['PT', ['J']]] + [[t, v if isinstance(v, list) else [str(v)]] for t, v in d.items() if v is not None] + [['UT', ['WOS:%d' % n]]]))


def med_rec(d, n=1):
    m = {'PMID': ['%d' % n]}
    if d['AU'] is not None:
        m['AU'] = [a.replace(',', '') for a in d['AU']]
    for t, k in (('PY', 'DP'), ('J9', 'TA'), ('TI', 'TI'), ('VL', 'VI'), ('BP', 'PG')):
        if d[t] is not None:
            m[k] = [str(d[t]) + {'DP': ' Feb', 'PG': '-99'}.get(k, '')]
    if d['DI'] is not None:
        m['AID'] = ['X1 [pii]', d['DI'] + ' [doi]']
    return MedlineRecord(m)


def pro_rec(d, n=1):
    p = {'ProQuest document ID': ['%d' % n]}
    if d['AU'] is not None:
        p['Author'] = [d['AU'][0]]
    if d['PY'] is not None:
        p['Degree date'] = [str(d['PY'])]
    if d['TI'] is not None:
        p['Title'] = [d['TI']]
    return ProQuestRecord(p)


def refs(d, src):
    """The reference strings, one per author (at least one)."""
    rest = []
    if d['PY'] is not None:
        rest.append(str(d['PY']))
    place = d['J9'] if d['J9'] is not None and src != 'P' else d['TI']
    if place is not None:
        rest.append(place)
    if src != 'P':
        rest += [p + d[t] for t, p in (('VL', 'V'), ('BP', 'P'), ('DI', 'DOI ')) if d[t] is not None]
    au = (d['AU'] or [None])[:1 if src == 'P' else None]
    return [', '.join(([a.replace(',', '')] if a else []) + rest) for a in au]


def many(seed, n):
    out = ['Levy%s%s, Y' % (chr(97 + (seed + i) // 26 % 26), chr(97 + (seed + i) % 26)) for i in range(n)]
    AU_NORM.update((a, a.replace(',', '')) for a in out)
    return out


crowd = st.builds(many, ints(0, 99), ints(15, 200))
long_title = st.builds(lambda n, w: ' '.join(w + str(i) for i in range(n)), ints(20, 150), one('Title', 'on', 'Shift of'))
ATTRS = ('author', 'year', 'journal', 'V', 'P', 'DOI', 'misc', 'bad')
MAKE = {'W': wos_rec, 'M': med_rec, 'P': pro_rec}


def same(ctx, got, s, what):
    ctx.check(isinstance(got, mk.Citation), '%s is %r' % (what, got))
    want = mk.Citation(s)
    ctx.eq(str(got), s, what)
    ctx.check(got == want and hash(got) == hash(want), '%s %r does not equal the parsed reference' % (what, str(got)))
    for k in ATTRS:
        ctx.eq(getattr(got, k), getattr(want, k), '%s: %s' % (what, k))


@suite.test(fixed(src=one('W', 'W', 'M', 'P'), d=st.one_of(wos, full, full)), quick=5000, rule='the record has an author, a year and a place of publication')
def wos_style(case, ctx):
    d, src = case['d'], case['src']
    r = MAKE[src](d)
    want = refs(d, src)
    before = sorted((k, str(v)) for k, v in r.items())
    c = r.createCitation()
    same(ctx, c, want[0], 'createCitation()')
    cs = r.createCitation(multiCite=True)
    ctx.check(isinstance(cs, tuple), 'multiCite gives %r' % (cs,))
    ctx.eq([str(x) for x in cs], want, 'createCitation(multiCite = True)')
    for x, s in zip(cs, want):
        same(ctx, x, s, 'one of the citations')
    same(ctx, r['selfCitation'], want[0], "['selfCitation']")
    same(ctx, r.get('selfCitation'), want[0], ".get('selfCitation')")
    ctx.eq(sorted((k, str(v)) for k, v in r.items()), before, 'the record afterwards')
    if src != 'P' and d['AU'] and d['PY'] and d['J9']:
        ctx.eq((c.author, c.year, c.journal, c.V, c.P, c.DOI, c.bad),
               (AU_NORM[d['AU'][0]], d['PY'], d['J9'], d['VL'] and 'V' + d['VL'], d['BP'] and 'P' + d['BP'].upper(), d['DI'] and d['DI'].upper(), False), 'parts')
        for x, a in zip(cs, d['AU']):
            ctx.eq((x.author, x.year, x.journal, x.V, x.P, x.DOI), (AU_NORM[a], c.year, c.journal, c.V, c.P, c.DOI), 'citation for %s' % a)
        # as another record cites it: spelled in capitals with periods
        o = WOSRecord(wos_text([['PT', ['J']], ['CR', ['%s, %d, %s' % (AU_NORM[d['AU'][0]].upper() + '.', d['PY'], d['J9']), 'Else X, 1900, NOWHERE']], ['UT', ['WOS:77']]]))
        ctx.check(o['CR'][0] == c and o['CR'][1] != c, 'the reference in another record differs from the own citation %r' % str(c))
        ctx.nontrivial()
    ctx.label(src)


suite.larger(wos_style, 300, d=fixed(AU=st.one_of(crowd, crowd, st.lists(AU, min_size=1, max_size=2)), PY=maybe(ints(1989, 1992)), J9=maybe(st.one_of(J, long_title.map(str.upper))), TI=long_title, VL=maybe(one('5', '1234567')), BP=maybe(one('1', '123456789')), DI=maybe(long_title.map(lambda t: '10.1/' + t.replace(' ', '-')))))


@suite.test(fixed(a=full, b=full, same=st.lists(one('AU', 'AU', 'PY', 'J9'), max_size=3), cap=st.booleans()), quick=2500, rule='the records agree in author, year and journal or differ in exactly one of them')
def pairs(case, ctx):
    a, b = case['a'], dict(case['b'])
    for k in case['same']:
        b[k] = a[k] if k != 'AU' else [a['AU'][0]] + b['AU'][1:]
    if case['cap']:
        b['AU'] = [b['AU'][0].upper()] + b['AU'][1:]
        AU_NORM.setdefault(b['AU'][0], AU_NORM[b['AU'][0]] if b['AU'][0] in AU_NORM else [v for k, v in AU_NORM.items() if k.upper() == b['AU'][0]][0])
    diff = [AU_NORM[a['AU'][0]] != AU_NORM[b['AU'][0]], a['PY'] != b['PY'], a['J9'] != b['J9']]
    ca, cb = wos_rec(a).createCitation(), wos_rec(b, 2).createCitation()
    ctx.eq(ca == cb, not any(diff), 'equality of %s and %s' % (ca, cb))
    ctx.eq(ca != cb, any(diff), 'inequality of %s and %s' % (ca, cb))
    if not any(diff):
        ctx.eq(hash(ca), hash(cb), 'hash')
    ctx.nontrivial(sum(diff) < 2)
    ctx.label('equal', not any(diff))


SA = one('Levy Y.', 'Smith J.A.', 'Imbert C.-A.', 'Li X.')
scopus = fixed(Authors=maybe(st.lists(SA, min_size=1, max_size=3, unique=True)), Title=maybe(one('On the shift', 'A book (second edition)', 'Networks: a study')), Year=maybe(ints(1900, 2016)),
               Source=maybe(one('Nature', 'Phys. Rev. A', 'Proc. IEEE')), Volume=maybe(one('5', '12', 'A4')), Page=maybe(one('1', '1247', 'e5')))


scopus_full = fixed(Authors=st.lists(SA, min_size=1, max_size=3, unique=True), Title=maybe(one('On the shift', 'A book (second edition)', 'Networks: a study')), Year=ints(1900, 2016),
                    Source=one('Nature', 'Phys. Rev. A', 'Proc. IEEE'), Volume=maybe(one('5', '12', 'A4')), Page=maybe(one('1', '1247', 'e5')))


@suite.test(st.one_of(scopus, scopus_full, scopus_full), quick=2500, rule='the record has an author, a year and a journal')
def scopus_style(case, ctx):
    d = case
    f = {'EID': '2-s2.0-1', 'Authors': d['Authors'] and ', '.join(d['Authors']), 'Title': d['Title'], 'Year': d['Year'] and str(d['Year']), 'Source title': d['Source'], 'Volume': d['Volume'], 'Page start': d['Page']}
    r = ScopusRecord(','.join('"%s"' % f[c] if f.get(c) else '' for c in SCOPUS_COLS) + '\n')
    c = r.createCitation()
    cs = r.createCitation(multiCite=True)
    ctx.check(isinstance(cs, tuple) and len(cs) == max(1, len(d['Authors'] or [])), 'citations for every author: %r' % (cs,))
    up = lambda x: None if x is None else x.upper()  # noqa: E731
    title = up(d['Title'] and d['Title'].replace('(', '').replace(')', ''))
    for x, a in zip((c,) + cs, (d['Authors'] or [None])[:1] + (d['Authors'] or [None])):
        ctx.check(isinstance(x, mk.Citation), 'not a Citation')
        if x.bad:
            ctx.check(not (d['Authors'] and d['Year'] and d['Source']), 'bad citation of a complete record: %s' % x)
            ctx.eq((x.year, x.name, x.journal), (d['Year'] or 0, up(d['Title']) or '', up(d['Source']) or ''), 'parts of an incomplete citation')
            continue
        if not (d['Authors'] and d['Year'] and d['Source']):
            continue  # where the parts of the rest stand cannot be told
        ctx.eq((x.author, x.year, x.journal, x.V, x.P), (up(a), d['Year'], up(d['Source']), up(d['Volume']), up(d['Page'])), 'parts of %s' % x)
        ctx.eq((x.name or '').strip() or None, title, 'title of %s' % x)
    ctx.check(c == cs[0] and hash(c) == hash(cs[0]) and str(r['selfCitation']) == str(c), 'first of the citations differs from the own citation')
    ctx.nontrivial(d['Authors'] and d['Year'] and d['Source'])
