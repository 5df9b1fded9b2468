"""C14: generated records of the four sources are written to BibTeX and the file is parsed back by an independent parser and compared with the records."""
import os

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.worlds import crowds
from mkv.gen import RC, WOSRecord, any_record, build, fixed, ints, one, stripped, text, tup, weigh, word, wos_fields

suite = Suite('C14')
COMMON = list(mk.commonRecordFields)


def clean(x):
    """No backslash before a brace or the end of a value: the escaping of braces could not be undone."""
    if isinstance(x, str):
        return x.replace('\\', '/')
    if isinstance(x, list):
        return [clean(y) for y in x]
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    return x


def parse_bib(text, ctx, wos):
    """[(id, [(tag, pieces or braced value)])]. A value is ('q', [pieces]) or ('b', text)."""
    res, pos = [], 0
    sep = ',\n' if wos else ',\n    '
    while True:
        pos = text.find('@misc{ ', pos)
        if pos < 0:
            return res
        end = text.index(sep + 'author = {{', pos)
        bid = text[pos + 7:end]
        pos = end + len(sep)
        fields = []
        while True:
            end = text.index(' = ', pos)
            tag = text[pos:end]
            pos = end + 3
            if text[pos:pos + 2] == '{{' and (wos or not fields):
                end = text.index('}},\n', pos)
                fields.append((tag, ('w', text[pos + 2:end])))
                pos = end + 3
            elif text[pos] == '"':
                pieces = []
                while True:
                    end = text.index('"', pos + 1)
                    pieces.append(text[pos + 1:end])
                    pos = end + 1
                    if text[pos:pos + 4] == ' # "':
                        pos += 3
                    else:
                        break
                fields.append((tag, ('q', pieces)))
                ctx.check(text[pos] == ',', 'no comma after the value of %s: %r' % (tag, text[pos:pos + 20]))
                pos += 1
            elif text[pos] == '{':
                end = pos + 1
                while text[end] != '}' or text[end - 1] == '\\':
                    ctx.check(text[end] != '{' or text[end - 1] == '\\', 'unescaped brace in %s' % tag)
                    end += 1
                fields.append((tag, ('b', text[pos + 1:end].replace('\\{', '{').replace('\\}', '}'))))
                pos = end + 2
                ctx.check(text[pos - 1] == ',', 'no comma after the value of %s' % tag)
            else:
                ctx.fail('value of %s starts with %r' % (tag, text[pos:pos + 10]))
            if text[pos:pos + 2] == '\n}':
                pos += 2
                break
            ctx.check(text.startswith('\n' if wos else '\n    ', pos), 'no line break after %s: %r' % (tag, text[pos:pos + 20]))
            pos += 1 if wos else 5
        res.append((bid, fields))


def plain(v):
    return ' and '.join(str(x) for x in v) if isinstance(v, list) else str(v)


def check_value(ctx, got, v, n, what, exact):
    kind, x = got
    want = plain(v)
    if kind == 'w':
        ctx.fail('%s is in double braces' % what)
    if len(want) <= n:
        if kind == 'q':
            ctx.eq(x, [want], what)
        else:
            ctx.eq(x, want, what)
        return
    ctx.check(kind == 'q', '%s has %d characters and is not split at %d' % (what, len(want), n))
    ctx.check(all(len(p) <= n for p in x), '%s has pieces longer than %d: %s' % (what, n, [len(p) for p in x]))
    want = want.replace('"', '')
    have = ''.join(x)
    if exact:
        ctx.eq(have, want, what)
    else:  # the known finding: the piece after the last full one is lost
        ctx.check(want.startswith(have) and len(have) >= len(want) // n * n, '%s: got %r, expected %r' % (what, have, want))


def check_entry(ctx, bid, fields, r, opts, exact=False):
    n, wos, reduced, nice = opts
    what = 'record %s: ' % r.id
    ctx.eq(fields[0], ('author', ('w', ' and '.join(r.get('authorsFull', ['None'])))), what + 'author line')
    tags = [k for k in COMMON if k in r] if reduced else list(r)
    ctx.eq(sorted(t for t, _ in fields[1:]), sorted(tags), what + 'fields')
    for t, got in fields[1:]:
        if wos:
            v = r[t]
            ctx.eq(got, ('w', '\n   '.join(str(x) for x in v) if isinstance(v, list) else str(v)), what + t)
        else:
            check_value(ctx, got, r[t], n, what + t, exact)
    if not nice:
        ctx.eq(bid, 'ISI:' + str(r.id)[4:] if wos else str(r.id), what + 'id of the entry')


def canonical(fields):
    return sorted(repr(x) for x in fields)


def run(ctx, recs, bad, opts, how, exact=False):
    n, wos, reduced, nice = opts
    rc = RC(recs + bad, name='bib collection')
    before = {id(r): [(t, repr(r.get(t, raw=True))) for t in r] for r in rc}
    kw = dict(maxStringLength=n, wosMode=wos, reducedOutput=reduced, niceIDs=nice)
    if how:
        p = ctx.path('out.bib')
        rc.writeBib(p, **kw)
    else:
        cwd = os.getcwd()
        os.chdir(ctx.dir)
        try:
            rc.writeBib(**kw)
        finally:
            os.chdir(cwd)
        p = ctx.path('bib collection.bib')
    with open(p, encoding='utf-8', newline='') as f:
        text = f.read()
    for line in text[:text.find('@misc{ ')].split('\n') if recs else text.split('\n'):
        ctx.check(not line or line.startswith('%'), 'text outside the entries: %r' % line)
    entries = parse_bib(text, ctx, wos)
    good = [r for r in rc if not r.bad]
    ctx.eq(len(entries), len(good), 'number of entries')
    if not nice:
        by = dict(entries)
        ctx.eq(len(by), len(entries), 'number of distinct ids')
        for r in good:
            k = 'ISI:' + str(r.id)[4:] if wos else str(r.id)
            ctx.check(k in by, 'no entry for %s among %s' % (r.id, sorted(by)))
            check_entry(ctx, k, by[k], r, opts, exact)
    else:  # find each record's entry by what bibString says, which is then checked itself
        left = list(entries)
        for r in good:
            s = r.bibString(maxLength=n, WOSMode=wos, restrictedOutput=reduced, niceID=True)
            mine = parse_bib(s, ctx, wos)
            ctx.eq(len(mine), 1, 'entries in the bibString of %s' % r.id)
            ctx.check(mine[0] in left, 'the bibString of %s is not in the file' % r.id)
            left.remove(mine[0])
            check_entry(ctx, mine[0][0], mine[0][1], r, opts, exact)
    for r in bad:
        with ctx.raises(mk.mkExceptions.BadRecord, 'bibString of a bad record'):
            r.bibString()
    ctx.eq({id(r): [(t, repr(r.get(t, raw=True))) for t in r] for r in rc}, before, 'raw values after writing')
    return entries


def bads(spec):
    res = []
    for k, n in spec:
        res.append(WOSRecord({'PT': ['J'], 'TI': ['bad %d' % n]}) if k == 'W' else mk.medline.MedlineRecord('TI  - bad %d\nX\n' % n) if k == 'M' else mk.scopus.ScopusRecord({'Title': 'bad %d' % n}))
    return res


options = tup(st.one_of(one(1000, 1000, 5, 20), ints(1, 60)), st.booleans(), st.booleans(), st.booleans())
bad_specs = st.lists(tup(one('W', 'M', 'S'), ints(0, 3)), max_size=2)


def distinct(specs):
    seen, res = set(), []
    for src, f in specs:
        r = build(src, clean(f))
        if r.id not in seen and not r.bad:
            seen.add(r.id)
            res.append(r)
    return res


nasty = st.lists(st.one_of(word, one('a"b', '{', '}', '"', '{x}', '#', '" # "', 'é', '=', '@misc{', ',', ' and ', '}}'), text(1, 6)), min_size=1, max_size=8).map(' '.join).map(lambda s: s.strip() or 'x')


@st.composite
def nasty_wos(draw):
    f = [['UT', ['WOS:%03d' % draw(ints(0, 30))]]]
    for t in draw(st.lists(one('TI', 'AB', 'SO', 'DE', 'FX', 'X9', 'PA', 'ID', 'PU', 'VL'), min_size=1, max_size=5, unique=True)):
        f.append([t, draw(st.lists(nasty, min_size=1, max_size=2))])
    if draw(st.booleans()):
        f.append(['AF', draw(st.lists(one('Smith, John', 'Levy, Y.', "O'Brien, Mary Ann", 'de Groot, S. R.'), min_size=1, max_size=4))])
    if draw(st.booleans()):
        f.append(['PY', [str(draw(ints(1990, 1999)))]])
    return f


@suite.test(fixed(recs=st.lists(st.one_of(any_record(), tup(st.just('W'), nasty_wos()), tup(st.just('W'), wos_fields())), min_size=1, max_size=4), bad=bad_specs, opts=options, at=weigh((2, st.none()), (1, tup(ints(0, 9), one(-1, 0, 0, 1)))), how=one(True, True, False)), quick=2500,
            rule='at least two good records of which one has a value longer than the string length, a list or a quote')
def write(case, ctx):
    recs = distinct(case['recs'])
    n, wos, reduced, nice = case['opts']
    if case.get('at') and recs:  # about the length of one of the values
        texts = sorted({plain(v) for r in recs for v in r.values()}, key=lambda s: ('"' not in s, s))
        n = max(1, len(texts[case['at'][0] % len(texts)]) + case['at'][1])
    for r in recs:  # the braces WOS mode puts around values are not escaped
        if wos and any('}},' in (plain(v)) or plain(v).endswith('}') for v in r.values()):
            return
    run(ctx, recs, bads(case['bad']), (n, wos, reduced, nice), case['how'])
    ctx.nontrivial(len(recs) > 1 and any(isinstance(v, list) or len(plain(v)) > n or '"' in plain(v) for r in recs for v in r.values()))
    ctx.label('bad records', bool(case['bad']))
    ctx.label('split values', any(len(plain(v)) > n for r in recs for v in r.values()) and not wos)
    ctx.label('quotes', any('"' in plain(v) for r in recs for v in r.values()))


suite.larger(write, 240, recs=crowds)


def multiple(s, n):
    """s with its length (without quotes) cut or filled up to a multiple of n, at least one."""
    k = len(s.replace('"', ''))
    m = max(n, k // n * n)
    i = len(s)
    while len(s[:i].replace('"', '')) > m:
        i -= 1
    s = s[:i]
    return s + 'x' * (m - len(s.replace('"', '')))


@suite.test(fixed(n=ints(1, 12), vals=st.lists(nasty, min_size=1, max_size=4), uid=ints(1, 9), cut=st.just(True)), quick=1500, rule='a value of at least two pieces')
def split_exact(case, ctx):
    """Values of any number of full pieces are recovered exactly."""
    n = case['n']
    f = [['UT', ['WOS:%d' % case['uid']]]]
    if case['cut']:
        f[0][1][0] = multiple(f[0][1][0], n)
    for i, v in enumerate(clean(case['vals'])):
        v = multiple(v, n) if case['cut'] else v
        while v != v.strip():
            v = ('y' if v[0] != v.lstrip()[:1] else v[0]) + v[1:-1] + ('y' if v[-1] != v.rstrip()[-1:] else v[-1]) if len(v) > 1 else 'y'
        f.append(['X%d' % i, [v]])
    # text fields without processing hold one line; they are read as a list of it
    r = WOSRecord(''.join('%s %s\n' % (t, ls[0]) for t, ls in f) + 'ER\n')
    ctx.check(not r.bad, 'record is bad: %s' % r.error)
    (bid, fields), = parse_bib(r.bibString(maxLength=n, niceID=False), ctx, False)
    for t, got in fields[1:]:
        check_value(ctx, got, r[t], n, t, True)
    ctx.nontrivial(any(len(plain(v)) > n for v in r.values()))


@suite.test(fixed(lens=st.lists(weigh((3, ints(990, 1010)), (1, ints(1990, 2010)), (1, ints(1, 999)), (1, one(3000, 5000))), min_size=1, max_size=3), quote=st.lists(ints(0, 1100), max_size=2), two=st.booleans()), quick=300, rule='a value longer than 1000 characters')
def defaults(case, ctx):
    """Without any arguments strings are split at 1000 characters, and nice ids are used."""
    f = [['UT', ['WOS:1']], ['PY', ['1990']], ['AF', ['Levy, Yael']]]
    for i, k in enumerate(case['lens']):
        s = ''.join('abcdefghij'[j % 10] for j in range(k))
        for q in case['quote']:
            s = s[:q] + '"' + s[q + 1:] if q < k else s
        f.append([['TI', 'SO', 'X%d' % i][min(i, 2)], [s]])
    r = WOSRecord(''.join('%s %s\n' % (t, ls[0]) for t, ls in f) + 'ER\n')
    ctx.check(not r.bad, 'record is bad: %s' % r.error)
    rc = RC([r], name='bib')
    if case['two']:
        rc.add(WOSRecord('UT WOS:2\nTI Other\nER\n'))
    p = ctx.path('o.bib')
    rc.writeBib(p)
    with open(p, encoding='utf-8', newline='') as h:
        entries = parse_bib(h.read(), ctx, False)
    ctx.eq(len(entries), len(rc), 'number of entries')
    s = r.bibString()
    ctx.eq(s, r.bibString(maxLength=1000, WOSMode=False, restrictedOutput=False, niceID=True), 'bibString() against the documented defaults')
    (bid, fields), = parse_bib(s, ctx, False)
    ctx.check((bid, fields) in entries, 'writeBib() and bibString() differ')
    check_entry(ctx, bid, fields, r, (1000, False, False, True))
    ctx.nontrivial(max(case['lens']) > 1000)
