"""C08: generated ProQuest exports are parsed to exactly their documents and fields."""
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import FIRST, RC, SURN, ProQuestRecord, fixed, ints, one, phrase, weigh, tup, source_lines

suite = Suite('C08')

BAR = '_' * 60
SINGLE = ['Advisor', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Department', 'Dissertation/thesis number',
          'Document type', 'ISBN', 'Language', 'Number of pages', 'Place of publication', 'Publication year', 'School code', 'Source', 'Source type',
          'University location', 'University/institution', 'Publication subject']
OTHER = ['Links', 'Last updated', 'Pages', 'Dissertation number', 'Accession no', 'Notes (1)', 'Document URL', 'Author affiliation', 'Authors']
ch = st.one_of(st.sampled_from('abcXYZ 12'), st.sampled_from('ab ,;:.()[]"\'-/&%é漢'), st.characters(blacklist_categories=('Cc', 'Cs', 'Zl', 'Zp', 'Zs')))
txt = st.text(ch, min_size=1, max_size=20).map(lambda s: s.strip() or 'x')
value = st.one_of(phrase, txt, one('a: b', 'Document 2 of 3', 'http://x.org/a?b=c', 'Bibliography', '1. Two. Three'))
more = st.one_of(phrase, txt.map(lambda s: s.replace(':', '-')), one('http://x.org/a?b=info:c', 'Bibliography', 'Document 2 of 3', '_' * 61, '_' * 59, '_' * 60 + ' x'))
title = st.one_of(phrase, txt, one('Bibliography', '1. Two. Three', 'A: B', 'Document 1 of 2', 'Wallace\'s Line: an essay. Part 2.'))
sub = st.one_of(phrase, txt.map(lambda s: s.replace(';', '').replace(',', '').replace(':', '').strip() or 'y'))


@st.composite
def doc(draw):
    """[[field, lines], ...]; Author is followed by the url"""
    t = draw(title)
    fs = [['Author', ['%s, %s' % (draw(one(*SURN)), draw(one(*FIRST)))]]]
    url = 'http://search.proquest.com/docview/%d?accountid=1' % draw(ints(1, 99))
    rest = []
    if draw(st.booleans()):
        rest.append(['Abstract', [draw(value)] + draw(st.lists(more, max_size=2))])
    for f in draw(st.lists(one(*SINGLE), max_size=7, unique=True)):
        rest.append([f, [draw(value)]])
    for f in draw(st.lists(one(*OTHER), max_size=2, unique=True)):
        rest.append([f, [draw(value)] + draw(st.lists(more, max_size=2))])
    if draw(st.booleans()):
        rest.append(['Subject', ['; '.join(draw(st.lists(sub, min_size=1, max_size=4)))]])
    if draw(st.booleans()):
        rest.append(['Identifier / keyword', [', '.join(draw(st.lists(sub, min_size=1, max_size=4)))]])
    if draw(st.booleans()):
        rest.append(['Classification', ['; '.join('%04d: %s' % (draw(ints(1, 999)), draw(sub)) for i in range(draw(ints(1, 3))))]])
    if draw(st.booleans()):
        rest.append(['Degree date', [str(draw(ints(1900, 2020)))]])
    rest.append(['Title', [t]])
    rest.append(['ProQuest document ID', [str(draw(ints(1, 60)))]])
    rest = [rest[i] for i in draw(st.permutations(range(len(rest))))]
    return [t, fs + [['url', [url]]] + rest]


def key(d):
    return dict(d[1])['ProQuest document ID'][0]


def rec_text(d):
    lines = [d[0]]
    for f, ls in d[1]:
        lines += ls if f == 'url' else ['%s: %s' % (f, ls[0])] + ls[1:]
    return ''.join('\n%s\n' % s for s in lines) + '\n' + BAR + '\n'


def file_text(docs, eol='\n', tail=True):
    s = BAR + '\n\nReport Information from ProQuest\nDecember 08 2015 21:33\n' + BAR + '\n\n\n\n\n' + BAR + '\n\nTable of contents\n\n'
    s += ''.join('%d. %s\n\n' % (i + 1, d[0]) for i, d in enumerate(docs))
    s += 'Bibliography\n\n' + BAR + '\n\n'
    s += ''.join('Document %d of %d\n%s\n' % (i + 1, len(docs), rec_text(d)) for i, d in enumerate(docs))
    s += 'Bibliography\n\nCitation style: BibTeX\n\n' if tail else 'Bibliography\n'
    if tail:
        s += ''.join('@misc{\nauthor={X}, year={2014},\n\ttitle={%s}, }\n\n' % d[0] for d in docs)
    return s.replace('\n', eol)


def check_record(ctx, r, d, what):
    what = '%s of %s' % (what, r.id)
    want = {'Name': [d[0]]}
    want.update({f: ls for f, ls in d[1]})
    ctx.check(type(r) is ProQuestRecord and not r.bad and r.error is None, '%s: bad (%s)' % (what, r.error))
    ctx.eq(r.id, 'PROQUEST:' + key(d), what + ': id')
    ctx.eq(list(r), ['Name'] + [f for f, _ in d[1]], what + ': fields')
    for f, ls in want.items():
        ctx.eq(r.get(f, raw=True), ls, '%s: raw %s' % (what, f))
        v = ls[0]
        if f == 'Subject':
            exp = v.split('; ')
        elif f == 'Identifier / keyword':
            exp = v.split(', ')
        elif f == 'Classification':
            exp = [tuple(x.split(': ', 1)) for x in v.split('; ')]
        elif f in SINGLE or f in ('Name', 'Author', 'Title', 'Degree date', 'ProQuest document ID'):
            exp = v
        else:
            exp = ls
        ctx.check(type(r[f]) is type(exp) and r[f] == exp, lambda: '%s: %s is %r, expected %r' % (what, f, r[f], exp))
    author = want['Author'][0]
    exp = {'title': d[0], 'authorsShort': [author], 'authorsFull': [author], 'id': r.id}
    if 'Degree date' in want:
        exp['year'] = int(want['Degree date'][0])
    if 'Identifier / keyword' in want:
        exp['keywords'] = want['Identifier / keyword'][0].split(', ')
    if 'Abstract' in want:
        exp['abstract'] = '\n'.join(want['Abstract'])
    for n in ('title', 'authorsShort', 'authorsFull', 'id', 'year', 'keywords', 'abstract', 'journal', 'DOI', 'citations'):
        if n in exp:
            ctx.check(n in r and type(r[n]) is type(exp[n]) and r[n] == exp[n], lambda: '%s: %s is %r, expected %r' % (what, n, r.get(n), exp[n]))
        else:
            ctx.check(n not in r and r.get(n) is None, '%s: %s appeared from nowhere' % (what, n))


@suite.test(fixed(docs=st.one_of(st.lists(doc(), max_size=5, unique_by=key), st.lists(doc(), max_size=5, unique_by=key), st.lists(doc(), min_size=10, max_size=13, unique_by=key)),
                  eol=one('\n', '\r\n'), tail=st.booleans(), name=one('a.txt', 'b', 'c.csv')), quick=2500,
            rule='at least two documents and a field with several lines')
def parse_file(case, ctx):
    docs = case['docs']
    p = ctx.write(case['name'], file_text(docs, case['eol'], case['tail']))
    rc = RC(p)
    ctx.check(not rc.bad and not rc.errors, 'collection of good records is bad: %s' % rc.errors)
    by = {'PROQUEST:' + key(d): d for d in docs}
    ctx.eq(sorted(r.id for r in rc), sorted(by), 'ids')
    for r in rc:
        check_record(ctx, r, by[r.id], 'file')
        ctx.eq(r.sourceFile, p, 'sourceFile')
    whole = file_text(docs, '\n', case['tail'])
    at = {'PROQUEST:' + key(d): whole.count('\n', 0, whole.index('Document %d of %d\n%s\n' % (i + 1, len(docs), rec_text(d)))) + 1 for i, d in enumerate(docs)}
    source_lines(ctx, rc, at)
    for d in docs[:3]:
        r = ProQuestRecord(rec_text(d))
        check_record(ctx, r, d, 'record from text')
        ctx.check(r in rc, 'record from text is not in the collection')
    ctx.nontrivial(len(docs) > 1 and any(len(ls) > 1 for d in docs for _, ls in d[1]))
    ctx.label('>=10', len(docs) > 9)


@suite.test(fixed(docs=st.lists(doc(), min_size=1, max_size=3), n=weigh((4, ints(98, 103)), (2, ints(240, 270)), (2, ints(995, 1003))), lines=one(0, 0, 30, 120), times=one(1, 1, 50, 400), eol=one('\n', '\r\n'), tail=st.booleans()), quick=56,
            rule='more than a hundred documents')
def many(case, ctx):
    """Long exports: the documents repeat a few, each with an id of its own."""
    docs = []
    for i in range(case['n']):
        t, fs = case['docs'][i % len(case['docs'])]
        docs.append([t, [[f, ['%d' % (1000 + i)] if f == 'ProQuest document ID' else ls] for f, ls in fs]])
        if i in (1, case['n'] // 2):  # long values, of many lines, lists of many values
            k = case['times']
            for x in docs[-1][1]:
                if x[0] in OTHER or x[0] == 'Abstract':
                    x[1] = [x[1][0] + '.' * k] + x[1][1:] + ['line %d' % j for j in range(case['lines'])]
                elif x[0] in ('Subject', 'Classification'):
                    x[1] = ['; '.join(x[1] * k)]
                elif x[0] == 'Identifier / keyword':
                    x[1] = [', '.join(x[1] * k)]
    rc = RC(ctx.write('a.txt', file_text(docs, case['eol'], case['tail'])))
    ctx.check(not rc.bad and not rc.errors, 'collection of good records is bad: %s' % rc.errors)
    by = {'PROQUEST:' + key(d): d for d in docs}
    ctx.eq(sorted(r.id for r in rc), sorted(by), 'ids')
    for r in rc:
        check_record(ctx, r, by[r.id], 'long file')
    ctx.nontrivial(len(docs) > 100)
    ctx.label('long fields', case['times'] > 1)
    ctx.label('many lines', case['lines'] > 0)


@suite.test(fixed(docs=st.lists(doc(), min_size=1, max_size=5, unique_by=key), cut=ints(0, 5), overlap=st.booleans()), quick=800,
            rule='at least two documents')
def directory(case, ctx):
    """Documents spread over the files of a directory are all found, each once."""
    docs, cut = case['docs'], case['cut']
    ctx.write('d/a.txt', file_text(docs[:cut]))
    ctx.write('d/b.txt', file_text(docs[cut:] + (docs[:1] if case['overlap'] else [])))
    rc = RC(ctx.path('d'))
    ctx.check(not rc.bad and not rc.errors, 'collection of good records is bad: %s' % rc.errors)
    by = {'PROQUEST:' + key(d): d for d in docs}
    ctx.eq(sorted(r.id for r in rc), sorted(by), 'ids')
    for r in rc:
        check_record(ctx, r, by[r.id], 'directory')
    ctx.nontrivial(len(docs) > 1)
