"""C09: valid files of the four formats are damaged in every way; reading them must not raise, lose what lies before or hide detectable damage."""
import os

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc
from mkv.gen import RC, fixed, ints, one, text, wos_fields, wos_text
from props import C06, C07, C08

suite = Suite('C09')

WOS = st.lists(wos_fields(hi=6), min_size=1, max_size=5, unique_by=lambda r: dict(r)['UT'][0])
MED = st.lists(C06.med(), min_size=1, max_size=4, unique_by=lambda r: r[0][1][0])
SCO = st.lists(C07.row(), min_size=1, max_size=4, unique_by=lambda r: r['EID'][0])
PRO = st.lists(C08.doc(), min_size=1, max_size=4, unique_by=lambda d: (C08.key(d))).map(
    lambda ds: [[d[0] + ' %d' % i, [[f, [ls[0] + ' %d' % i]] if f == 'Title' else [f, ls] for f, ls in d[1]]] for i, d in enumerate(ds)])

source = st.one_of(st.tuples(st.just('W'), WOS), st.tuples(st.just('M'), MED), st.tuples(st.just('S'), SCO), st.tuples(st.just('P'), PRO)).map(list)
ENC = {'W': 'utf-8', 'M': 'latin-1', 'S': 'utf-8', 'P': 'utf-8'}


def build(src):
    """(header, [(id, text with terminator)], footer)"""
    kind, recs = src
    if kind == 'W':
        return '\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n', [(dict(r)['UT'][0], wos_text(r) + '\n') for r in recs], 'EF'
    if kind == 'M':
        return '\n', [('PMID:' + r[0][1][0], C06.rec_text(r) + '\n') for r in recs], ''
    if kind == 'S':
        return '\ufeff' + ','.join(C07.COLS) + '\n', [('EID:' + r['EID'][0], C07.row_text(r, C07.COLS) + '\n') for r in recs], ''
    s = C08.file_text(recs)
    mark = 'Bibliography\n\n' + C08.BAR + '\n\n'
    start = s.index(mark) + len(mark)
    parts, pos = [], start
    for i, d in enumerate(recs):
        t = 'Document %d of %d\n%s\n' % (i + 1, len(recs), C08.rec_text(d))
        assert s.startswith(t, pos)
        parts.append(('PROQUEST:' + C08.key(d), t))
        pos += len(t)
    return s[:start], parts, s[pos:]


garbage = st.one_of(text(0, 12), one('', ' ', '   ', '      ', 'X', 'TI', 'ER', 'EF', 'PMID- 77', 'PMID', 'UT WOS:077', 'VR 1.0', 'TI  - x', 'Bibliography',
                                     'Document 9 of 2', 'Document x of y', 'Document 1 of 3', '_' * 60, 'Title: a', ':', ',', '"', '"",""', ',' * 50, '12. a', 'a. b', '\x00\x00', 'AU  - ',
                                     '\ufeff', 'A' * 300, 'CR', 'PT J', '      cont', '   cont', '\x1a', '- - - -', 'ABCDEFG', '====', 'a,b,c'))
frac = st.one_of(ints(0, 1000), ints(250, 990), ints(400, 990))
op = st.one_of(
    st.tuples(st.just('trunc'), frac), st.tuples(st.just('del'), frac), st.tuples(st.just('dup'), frac), st.tuples(st.just('ins'), frac, garbage),
    st.tuples(st.just('repl'), frac, garbage), st.tuples(st.just('cut'), frac, ints(1, 80)), st.tuples(st.just('put'), frac, garbage),
    st.tuples(st.just('swap'), frac), st.tuples(st.just('bytes'), frac, one('ff', 'c328', '80', 'e28228', 'fffe')), st.tuples(st.just('utf16')),
    st.tuples(st.just('upper')), st.tuples(st.just('noeol'), frac)).map(list)


def damage(s, o, enc):
    """(damaged bytes, offset of the first difference, whether the file is still text in its encoding)"""
    k = o[0]
    lines = s.split('\n')
    p = len(s) * o[1] // 1000 if len(o) > 1 else 0
    i = len(lines) * o[1] // 1001 if len(o) > 1 else 0
    if k == 'utf16':
        return s.encode('utf-16'), 0, False
    if k == 'bytes':
        return s[:p].encode(enc) + bytes.fromhex(o[2]) + s[p:].encode(enc), p, enc == 'latin-1'
    if k == 'trunc':
        t = s[:p]
    elif k == 'cut':
        t = s[:p] + s[p + o[2]:]
    elif k == 'put':
        t = s[:p] + o[2] + s[p:]
    elif k == 'upper':
        t = s.swapcase()
    elif k == 'noeol':
        p = s.find('\n', p)
        t = s[:p] + s[p + 1:] if p >= 0 else s
    else:
        if k == 'del':
            lines[i:i + 1] = []
        elif k == 'dup':
            lines.insert(i, lines[i])
        elif k == 'ins':
            lines.insert(i, o[2])
        elif k == 'repl':
            lines[i] = o[2]
        elif k == 'swap':
            lines[i:i + 2] = lines[i:i + 2][::-1]
        t = '\n'.join(lines)
    b, orig = t.encode(enc, 'replace'), s.encode(enc)
    n = 0
    m = min(len(b), len(orig))
    while n < m and b[n] == orig[n]:
        n += 1
    return b, len(orig[:n].decode(enc, 'ignore')), True


def raw(r):
    return [(t, list(v) if not isinstance(v, str) else v) for t, v in r.items(raw=True)]


def flagged(rc, p):
    return any(r.bad and isinstance(r.error, BaseException) for r in rc) or bool(rc.bad and isinstance(rc.errors.get(p), BaseException))


@suite.test(fixed(src=source, ops=st.lists(op, min_size=1, max_size=2), where=one('file', 'file', 'dir')), quick=5000,
            rule='the file is still recognised and at least one record lies before the damage, or the damage is flagged')
def damaged(case, ctx):
    kind, recs = case['src']
    head, parts, foot = build(case['src'])
    s = head + ''.join(t for _, t in parts) + foot
    enc = ENC[kind]
    good = RC(ctx.write('good.txt', s, encoding=enc))
    ctx.check(not good.bad and len(good) == len(recs), 'undamaged file: %s' % good.errors)
    b, p0, istext = damage(s, case['ops'][0], enc)
    for o in case['ops'][1:]:
        if istext:
            b, p1, istext = damage(b.decode(enc), o, enc)
            p0 = min(p0, p1)
    same = b == s.encode(enc)
    os.mkdir(ctx.path('d'))
    p = ctx.write('d/x.txt', b)
    path = p
    if case['where'] == 'dir':
        ctx.write('d/good.txt', head + foot if kind != 'P' else C08.file_text([]), encoding=enc)
        path = ctx.path('d')
        extra = wos_text([['PT', ['J']], ['UT', ['WOS:EXTRA']]])
        ctx.write('d/extra.txt', '\ufeffFN\nVR 1.0\n' + extra + '\nEF')
    header_end = len(head) + (len(parts[0][1]) if kind == 'M' else 0)
    try:
        rc = RC(path)
    except exc.BadInputFile:
        ctx.check(p0 < header_end or not istext, 'a file damaged behind its header is refused')
        ctx.check(case['where'] == 'file', 'a directory without extension refuses a file')
        ctx.label('refused')
        return
    if case['where'] == 'dir':
        ctx.check(rc.containsID('WOS:EXTRA'), 'the other file of the directory is lost')
        ctx.check(set(rc.errors) <= {p}, 'errors of other files: %s' % list(rc.errors))
    ids = {r.id: r for r in rc if not r.bad}
    pos, nbefore = len(head), 0
    if istext and any(m in '\n'.join(b.decode(enc).split('\n')[:12]) for k, m in (('W', 'VR 1.0'), ('M', 'PMID- ')) if k != kind):
        return  # the damage put the header of another format in the file
    if not istext:
        return  # the block of the file that cannot be decoded is lost as a whole
    for rid, t in parts:
        pos += len(t)
        if pos > p0 and not same:
            break
        if case['where'] == 'dir' and p0 < header_end:
            break  # possibly not recognised and skipped
        nbefore += 1
        ctx.check(rid in ids, 'record %s lies before the damage at %d and is lost (errors: %s)' % (rid, p0, rc.errors))
        ctx.eq(raw(ids[rid]), raw(good.getID(rid)), 'record %s, which lies before the damage' % rid)
    for r in rc:
        ctx.check(not r.bad or isinstance(r.error, BaseException), 'bad record without an error: %r' % r)
    ctx.check(rc.bad == bool(rc.errors), 'bad %s with errors %s' % (rc.bad, rc.errors))
    ctx.nontrivial(nbefore > 0 or flagged(rc, p))
    ctx.label(kind + ' ' + case['ops'][0][0])


# ------------------------------------------------------------- damage the formats make detectable
WHATS = {
    'W': ['no ER', 'no UT', 'dup tag', 'long tag', 'short line', 'empty line', 'first cont', 'no EF', 'trunc', 'after EF', 'offset tag', 'undecodable', 'early EF'],
    'M': ['no PMID', 'garbage', 'no blank', 'short line', 'junk between'],
    'S': ['no EID', 'few cells', 'joined rows', 'undecodable', 'trunc cells'],
    'P': ['no bar', 'no id', 'trunc', 'late cut', 'no title', 'no toc', 'toc title', 'undecodable', 'bad number', 'lost line', 'junk between'],
}


@suite.test(st.one_of(*[fixed(src=st.tuples(st.just(k), g).map(list), what=one(*WHATS[k]), k=ints(0, 4), at=frac, junk=one('ABCD efg', 'X', 'xyz', '1234567', 'TITLE'), pad=one(0, 0, 20000))
                        for k, g in (('W', WOS), ('M', MED), ('S', SCO), ('P', PRO))]), quick=4000, rule='every case is damaged in a detectable way')
def detectable(case, ctx):
    kind, recs = case['src']
    head, parts, foot = build(case['src'])
    k, at, what = case['k'] % len(recs), case['at'], case['what']
    texts = [t for _, t in parts]
    t = texts[k]
    enc = ENC[kind]
    lines = t.split('\n')
    refusable = False
    cut = None
    raw_ = None

    def inner(lo, hi):
        """a position strictly inside the lines of the record"""
        return lo + at * (hi - lo) // 1001

    if kind == 'W':
        er = lines.index('ER')
        starts = [i for i, l in enumerate(lines[:er]) if not l.startswith('   ')]
        if what == 'no ER':
            del lines[er]
        elif what == 'no UT':
            lines = [l for l in lines if not l.startswith('UT ')]
        elif what == 'dup tag':
            j = starts[at % len(starts)]
            lines.insert(starts[(at // 7) % len(starts)], lines[j])
        elif what == 'long tag':
            lines.insert(starts[at % len(starts)], 'TITLE of it')
        elif what == 'offset tag':
            lines.insert(starts[at % len(starts)], ' T1 x')
        elif what == 'short line':
            lines.insert(inner(0, er + 1), 'X')
        elif what == 'empty line':
            lines.insert(inner(1, er + 1), '')
        elif what == 'first cont':
            lines.insert(0, '   lost line')
        elif what == 'no EF':
            foot = ''
        elif what == 'after EF':
            foot = 'EF\nPT J\nUT WOS:99\nER\n'
        elif what == 'early EF':
            if k:
                texts[k - 1] += 'EF\n'
            else:
                head += 'EF\n'
    elif kind == 'M':
        refusable = k == 0
        if what == 'no PMID':
            lines = [l for l in lines[1:]]
        elif what == 'garbage':
            lines.insert(inner(1, len(lines) - 1), case['junk'])
        elif what == 'short line':
            lines.insert(inner(1, len(lines) - 1), 'ab')
        elif what == 'no blank':
            if k + 1 == len(recs):
                return
            lines = lines[:-2] + ['']
        elif what == 'junk between':
            lines.append('Here comes something else\n')
    elif kind == 'S':
        r = recs[k]
        if what == 'no EID':
            r = {c: v for c, v in r.items() if c != 'EID'}
            lines = [C07.row_text(r, C07.COLS), '']
        elif what == 'few cells':
            lines = [C07.row_text(r, C07.COLS[1 + at % 38:]), '']
        elif what == 'trunc cells':
            lines = [C07.row_text(r, C07.COLS[:1 + at % 38]), '']
        elif what == 'joined rows':
            if k + 1 == len(recs):
                return
            # without a comma, the run-on is only detectable when both cells are quoted
            lines = [lines[0] + (',' if at % 2 or not (r['EID'][2] and 'Authors' in r and r['Authors'][2]) else '')]
    else:
        d = recs[k]
        if what == 'no bar':
            if k + 1 == len(recs):
                return
            lines.remove(C08.BAR)
        elif what == 'no id':
            lines = [l for l in lines if not l.startswith('ProQuest document ID: ')]
        elif what == 'no title':
            lines = [l for l in lines if not l.startswith('Title: ')]
        elif what == 'no toc':
            head = head.replace('%d. %s\n\n' % (k + 1, d[0]), '', 1)
        elif what == 'toc title':
            head = head.replace('%d. %s\n\n' % (k + 1, d[0]), '%d. %s\n\n' % (k + 1, d[0] + ' other'), 1)
        elif what == 'late cut':
            foot = 'Bibliography'[:at % 12]  # the last record is whole, the end of the list is missing
        elif what == 'bad number':
            lines[0] = 'Document %d of 3' % (len(recs) + 5)
        elif what == 'lost line':
            lines = lines[:1] + ['', d[0], '', 'a line that belongs to nothing', ''] + lines[4:]
        elif what == 'junk between':
            lines.append('Here comes something else\n')
    texts[k] = '\n'.join(lines)
    s = head + ''.join(texts) + foot
    if what == 'trunc':
        end = len(head) + sum(map(len, texts))  # before the end-of-file marker
        lo = len(head)
        s = s[:lo + at * (end - lo) // 1000]
    b = s.encode(enc)
    if what == 'undecodable':
        if case['pad']:  # the recognisers look at the first block of the file
            for n, x in (('PAD', 'x'), ('PAD2', 'y' * case['pad'])):
                head += {'W': 'PT J\nAB %s\nUT WOS:%s\nER\n\n' % (x, n), 'S': '"%s"' % x + ',' * 41 + n + '\n', 'P': ''}[kind]
            s = head + ''.join(texts) + foot
        p = len(head) + at * (len(s) - len(head)) // 1000
        b = s[:p].encode(enc) + b'\xff' + s[p:].encode(enc)
        refusable = not case['pad'] or kind == 'P'
    path = ctx.write('x.txt', b)
    try:
        rc = RC(path)
    except exc.BadInputFile:
        ctx.check(refusable, '%s %s: a file damaged behind its header is refused' % (kind, what))
        ctx.nontrivial()
        return
    if what == 'undecodable' and case['pad'] and kind != 'P':
        ctx.check(kind == 'W' and rc.containsID('WOS:PAD') or kind == 'S' and rc.containsID('EID:PAD'), 'record far before the undecodable bytes is lost')
    ctx.check(flagged(rc, path), lambda: '%s %s: the damage is not reported: records %s, errors %s' % (kind, what, sorted(map(str, (r.id for r in rc))), rc.errors))
    for r in rc:
        ctx.check(not r.bad or isinstance(r.error, BaseException), 'bad record without an error')
    # records before the damaged one
    if what not in ('trunc', 'undecodable', 'no toc', 'toc title'):
        good = {r.id: r for r in rc if not r.bad}
        for rid, _ in parts[:k]:
            ctx.check(rid in good, '%s %s: record %s before the damage is lost' % (kind, what, rid))
    ctx.nontrivial()
    ctx.label('%s %s' % (kind, what))
