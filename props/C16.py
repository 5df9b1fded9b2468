"""C16: generated abstracts and fields are processed by forNLP and forBurst under every option and compared with an independent token-level model of the documented steps, row by row and in the written file."""
import csv
import re

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.worlds import crowds
from mkv.gen import RC, any_record, author_full, build, fixed, ints, one, text, tup

suite = Suite('C16')

STEMS = {'upper': str.upper, 'reverse': lambda w: w[::-1], 'tail': lambda w: w + '~' if w else w, 'double': lambda w: w + w}
TOKENS = ['a', 'the', 'cat', 'The', 'A', 'of', 'and', 'C60', '12', '3.5', 'e=mc2', 'naïve', 'über', 'x-ray', '(see)', 'a.', '_b_', '漢字', '٣', 'İ', 'ß', 'end.', '"q"', 'in', 'is']
DROPS = ['a', 'the', 'The', 'of', 'and', 'C60', '12', '3.5', 'end.', '(see)', 'x-ray', 'is', 'zzz', '漢字']
PHRASES = ['of the', 'the cat', 'in a', 'a a']
sent = st.lists(st.one_of(one(*TOKENS), one('a', 'the', 'of', 'cat'), one('a', 'the', 'of', 'in'), one(*TOKENS), text(1, 4).map(lambda s: s.strip() or 'x')), min_size=2, max_size=12)
# how the words stand in the text; lines of a record cannot start or end with spaces in a file
glue = one(' ', ' ', ' ', ' ', ' ', '  ', '\t', '   ')


@st.composite
def passage(draw):
    """Lines of text with all kinds of gaps between the words."""
    lines = [[]]
    for w in draw(sent):
        if lines[-1] and draw(ints(0, 5)) == 0:
            lines.append([])
        lines[-1].append(w)
    gaps = draw(st.lists(glue, min_size=12, max_size=12))
    return [''.join(w + (gaps[(i * 5 + j) % 12] if j < len(l) - 1 else '') for j, w in enumerate(l)) for i, l in enumerate(lines)]


COPY = ['. (C) 2002 Optical Society of America.', '. (c) 1999 Elsevier B.V. All rights reserved. ', '. Copyright 2001 by the author.', '. &COPY; 1998 WILEY.', '. Published by Elsevier Ltd.', '. 2004 Elsevier B.V.',
        ' Elsevier Ltd. All rights reserved', '. Crown Copyright 2003', '. c 2003 X', '. C 2003 X', '. (c 2003 X']
droplist = st.one_of(st.none(), *2 * [st.tuples(st.lists(one(*PHRASES), max_size=1), st.lists(one(*DROPS, 'a', 'the', 'of'), min_size=1, max_size=5, unique=True)).map(lambda x: x[0] + [w for w in x[1] if not any(w in p.split(' ') for p in x[0])])])
opts = fixed(drop=droplist, lower=st.booleans(), num=st.booleans(), non=st.booleans(), ws=one(True, True, False), stem=st.one_of(st.none(), one(*STEMS)))


def kwargs(o):
    kw = dict(lower=o['lower'], removeNumbers=o['num'], removeNonWords=o['non'], removeWhitespace=o['ws'], dropList=None if o['drop'] is None else list(o['drop']), stemmer=STEMS[o['stem']] if o['stem'] else None)
    return kw


def drop(s, words):
    for d in words:
        d = d.split(' ')
        toks, res, i = s.split(' '), [], 0
        while i < len(toks):
            if toks[i:i + len(d)] == d:
                i += len(d)
            else:
                res.append(toks[i])
                i += 1
        s = ' '.join(res)
    return s


def model(s, o, stem=True):
    """(text, copyright kept apart by the caller): the documented steps in their documented order."""
    if o['drop'] is not None:
        s = drop(s.replace('\n', ' '), o['drop'])
    if o['ws']:
        s = ' '.join(re.split(r'\s+', s))
    return s


def finish(s, o):
    if o['lower']:
        s = s.lower()
    out = []
    for c in s:
        gone = c != ' ' and (o['num'] and c.isdecimal() or o['non'] and not (c.isalnum() or c == '_'))
        if not gone:
            out.append(c)
    s = ''.join(out)
    if o['stem']:
        s = ' '.join(STEMS[o['stem']](w) if w else w for w in s.split(' '))
    return s


def flat(s):
    """Whether white space other than spaces is kept or removed when it is not collapsed is not specified."""
    return re.sub(r'[^\S ]', '', s)


def word_chars_agree(s):
    """The characters for which Python's re module and str methods agree on what a word character is."""
    return all((re.match(r'\w', c) is not None) == (c.isalnum() or c == '_') and (re.match(r'\d', c) is not None) == c.isdecimal() for c in s + s.lower())


def field(tag, lines):
    return [tag, lines]


@st.composite
def nlp_record(draw):
    f = [['UT', ['WOS:%03d' % draw(ints(0, 40))]]]
    if draw(ints(0, 4)):
        ab = draw(passage())
        if draw(ints(0, 2)) == 0:
            c = draw(one(*COPY)).rstrip()
            ab = ab[:-1] + [ab[-1] + c + (' and' + c if draw(ints(0, 2)) == 0 else '')]
        f.append(['AB', ab])
    if draw(ints(0, 3)):
        f.append(['PY', draw(one(['1990'], ['1991'], ['2002']))])
    for t in draw(st.lists(one('TI', 'ID', 'DE', 'AF', 'SO', 'CR', 'TC', 'LA'), max_size=6, unique=True)):
        f.append([t, draw({'TI': passage(), 'ID': one(['A B; C'], ['X'], ['12; C60']), 'DE': one(['a b; c'], ['the cat; the']),
                           'AF': st.lists(author_full, min_size=1, max_size=3), 'SO': one(['NATURE'], ['A, "B"']), 'CR': one(['LEVY Y, 1975, NATURE'], ['LI X, 1980, CELL', 'LEVY Y, 1975, NATURE']),
                           'TC': one(['3'], ['12'], ['0']), 'LA': one(['English'])}[t])])
    return f


def records(specs):
    seen, res = set(), []
    for src, f in specs:
        r = build(src, f)
        if r.id not in seen and not r.bad:
            seen.add(r.id)
            res.append(r)
    return res


wos = tup(st.just('W'), nlp_record())
collections = st.one_of(st.lists(wos, min_size=2, max_size=4), st.lists(wos, min_size=2, max_size=4), st.lists(st.one_of(wos, any_record()), min_size=1, max_size=4))
EXTRA = ['AF', 'authorsFull', 'SO', 'TC', 'CR', 'no such tag', 'title', 'id', 'abstract', 'wosTimesCited', 'Year', 'MH', 'LA', 'AB', 'keywords', 'year', 'month']


@suite.test(fixed(recs=collections, o=opts, copy=st.booleans(), extra=st.one_of(st.none(), st.lists(one(*EXTRA), max_size=4)), kind=one('list', 'tuple'), file=st.booleans()), quick=2500,
            rule='an abstract of at least three words and two records')
def nlp(case, ctx):
    o, recs = case['o'], records(case['recs'])
    if not recs:
        return
    rc = RC(recs)
    abst = {r.id: r.get('abstract', '') or '' for r in recs}
    if not all(word_chars_agree(a) for a in abst.values()):
        return
    kw = kwargs(o)
    extra = None if case['extra'] is None else {'list': list, 'tuple': tuple}[case['kind']](case['extra'])
    path = ctx.path('nlp.csv') if case['file'] else None
    d = rc.forNLP(path, extraColumns=extra, removeCopyright=case['copy'], **kw)
    if extra is not None:
        ctx.eq(list(extra), case['extra'], 'extraColumns after the call')
    ctx.eq(kw['dropList'], o['drop'], 'dropList after the call')
    std = ['id', 'year', 'title', 'keywords', 'abstract']
    more = [c for c in dict.fromkeys(case['extra'] or []) if c not in std]
    ctx.eq(sorted(d), sorted(std + ['copyright'] * case['copy'] + more), 'columns')
    ctx.eq({k: len(v) for k, v in d.items()}, {k: len(recs) for k in d}, 'lengths of the columns')
    ctx.eq(sorted(d['id']), sorted(r.id for r in recs), 'ids')
    for i, rid in enumerate(d['id']):
        r = rc.getID(rid)
        ctx.eq(d['year'][i], r.get('year', ''), 'year of %s' % rid)
        ctx.eq(d['title'][i], r.get('title', ''), 'title of %s' % rid)
        ctx.eq(d['keywords'][i], '|'.join(r.get('keywords', [])), 'keywords of %s' % rid)
        for c in more:
            v = r.get(c)
            ctx.eq(str(d[c][i]), '|'.join(str(x) for x in v) if isinstance(v, list) else '' if v is None else str(v), '%s of %s' % (c, rid))
        s = model(abst[rid], o)
        got = d['abstract'][i]
        if case['copy']:
            cop = d['copyright'][i]
            if cop:
                ctx.check(s.rstrip().endswith(cop.rstrip()), 'copyright %r is not the end of %r' % (cop, s))
                ctx.check(re.search(r'(?i)copy|\(c|\bc \d{4}|Elsevier|Published by Els', cop), 'copyright %r has no copyright mark' % cop)
                s = s.rstrip()[:len(s.rstrip()) - len(cop.rstrip())]
            else:
                ctx.check(not any(c.rstrip() in s for c in COPY[:6]), 'copyright statement of %r not found' % s)
        ctx.eq(flat(got) if not o['ws'] else got, flat(finish(s, o)) if not o['ws'] else finish(s, o), 'abstract of %s, text %r' % (rid, abst[rid]))
    if path:
        with open(path, encoding='utf-8', newline='') as f:
            rows = list(csv.reader(f))
        ctx.eq(sorted(rows[0]), sorted(d), 'header of the file')
        ctx.eq([{k: v for k, v in zip(rows[0], row)} for row in rows[1:]], [{k: str(d[k][i]) for k in d} for i in range(len(recs))], 'rows of the file')
    if not any('\n' in a for a in abst.values()):
        found = rc.findProbableCopyright()
        cops = rc.forNLP(dropList=None, lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False, removeCopyright=True)['copyright']
        ctx.eq(sorted({flat(c) for c in found}), sorted({flat(c) for c in cops if c}), 'copyright strings found in the abstracts')
        ctx.eq(len(found), len(set(found)), 'copyright strings listed once')
    ctx.nontrivial(len(recs) > 1 and any(len(a.split()) > 2 for a in abst.values()))
    ctx.label('copyright found', case['copy'] and any(d['copyright']))
    ctx.label('dropped', bool(o['drop']) and any(drop(a.replace('\n', ' '), o['drop']) != a.replace('\n', ' ') for a in abst.values()))
    ctx.label('other source with abstract', any(abst[r.id] for r in recs if 'UT' not in r))


suite.larger(nlp, 240, recs=crowds)


@suite.test(fixed(recs=collections, o=opts, tag=one('TI', 'TI', 'AB', 'AB', 'title', 'abstract', 'keywords', 'ID', 'DE', 'AF', 'TC', 'year', 'CR', 'SO', 'no such tag', 'id'), file=st.booleans()), quick=2500, rule='at least three words from two records')
def burst(case, ctx):
    o, recs, tag = case['o'], records(case['recs']), case['tag']
    rc = RC(recs)
    want = []
    for r in recs:
        y, v = r.get('year'), r.get(tag)
        if y is None or v is None:
            continue
        v = ' '.join(str(x) for x in v) if isinstance(v, list) else str(v)
        if not word_chars_agree(v):
            return
        want += [(y, w) for w in finish_words(model(v, o), o)]
    kw = kwargs(o)
    path = ctx.path('burst.csv') if case['file'] else None
    d = rc.forBurst(tag, path, **kw)
    ctx.eq(kw['dropList'], o['drop'], 'dropList after the call')
    ctx.eq(sorted(d), ['word', 'year'], 'columns')
    ctx.eq(len(d['word']), len(d['year']), 'lengths of the columns')
    got = list(zip(d['year'], d['word']))
    if not o['ws']:
        got, want = [(y, flat(w)) for y, w in got if flat(w)], [(y, flat(w)) for y, w in want if flat(w)]
    ctx.eq(sorted(map(repr, got)), sorted(map(repr, want)), 'rows')
    if path:
        with open(path, encoding='utf-8', newline='') as f:
            rows = list(csv.reader(f))
        if rows[:1] == [['year', 'word']]:
            rows = rows[1:]
        ctx.eq(rows, [[str(y), w] for y, w in zip(d['year'], d['word'])], 'rows of the file')
    ctx.nontrivial(len(want) > 2 and len(recs) > 1)
    ctx.label('two years', len({y for y, _ in want}) > 1)


suite.larger(burst, 240, recs=crowds)


def finish_words(s, o):
    return [STEMS[o['stem']](w) if o['stem'] else w for w in finish(s, dict(o, stem=None)).split(' ') if w]
