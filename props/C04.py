"""C04: WOS files are parsed to exactly the generated records and written collections are read back identical."""
import io
import os

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import RC, WOSRecord, fixed, ints, lists, one, text, weigh, wos_fields, wos_text, source_lines

suite = Suite('C04')

TAGCH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
tag = st.text(st.sampled_from(TAGCH), min_size=2, max_size=2).filter(lambda t: t not in ('ER', 'EF', 'UT'))


@st.composite
def raw_fields(draw):
    """Any tags with any lines (leading and trailing blanks, empty lines, look-alikes of markers)."""
    line = st.one_of(text(0, 25), one('ER', 'EF', 'VR 1.0', ' x ', '', 'ER something', '   indented', 'UT WOS:9'),
                     st.tuples(text(1, 9), one('\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\u2029'), text(1, 9)).map(''.join))  # only a newline ends a line
    res = [[t, draw(st.lists(line, min_size=1, max_size=4))] for t in draw(st.lists(tag, max_size=5, unique=True))]
    uid = draw(st.one_of(ints(0, 25).map('WOS:{}'.format), one('WOS:000277942100001', 'ISI:A1978ET00100003', 'x y')))
    res.insert(draw(ints(0, len(res))), ['UT', [uid] + draw(st.lists(text(0, 5), max_size=1))])
    return res


def uid(fields):
    return dict(fields)['UT'][0]


records = st.lists(st.one_of(raw_fields(), wos_fields()), min_size=0, max_size=6, unique_by=uid)
layout = fixed(eol=one('\n', '\n', '\r\n'), bom=one(True, True, False), gap=ints(0, 3), lead=ints(0, 2), tail=one('', '\n'), fn=one(True, True, False))


def file_text(recs, lay):
    s = '\ufeff' if lay['bom'] else ''
    if lay['fn']:
        s += 'FN Thomson Reuters Web of Science\u2122\n'
    s += 'VR 1.0\n' + '\n' * lay['lead'] + ('\n' * lay['gap']).join(wos_text(r) for r in recs) + '\n' * lay['gap'] + 'EF' + lay['tail']
    return s.replace('\n', lay['eol'])


def same_records(ctx, rc, recs, what):
    want = {uid(f): [(t, list(ls)) for t, ls in f] for f in recs}
    ctx.check(not rc.bad and not rc.errors, '%s: collection of good records is bad: %s' % (what, rc.errors))
    ctx.eq(sorted(r.id for r in rc), sorted(want), what + ': ids')
    for r in rc:
        ctx.check(type(r) is WOSRecord and not r.bad and r.error is None, '%s: %s flagged bad: %s' % (what, r.id, r.error))
        ctx.eq([(t, list(v)) for t, v in r.items(raw=True)], want[r.id], '%s: raw contents of %s' % (what, r.id))
        ctx.eq(r.UT, r.id, what + ': UT')
        ctx.eq(r.wosString, r.id, what + ': wosString')


def writes_itself(ctx, rc, recs, what):
    want = {uid(f): wos_text(f) for f in recs}
    for r in rc:
        f = io.StringIO()
        r.writeRecord(f)
        ctx.eq(f.getvalue(), want[r.id], what + ': writeRecord of ' + r.id)
        ctx.eq(bytes(r), want[r.id].encode('utf-8'), what + ': bytes of ' + r.id)


@suite.test(fixed(recs=records, lay=layout, name=one('a.isi', 'b.txt', 'c', 'd e.csv')), quick=4000,
            rule='at least two records, one of them with a multi-line field')
def parse_file(case, ctx):
    recs = case['recs']
    p = ctx.write(case['name'], file_text(recs, case['lay']))
    rc = RC(p)
    same_records(ctx, rc, recs, 'file')
    writes_itself(ctx, rc, recs, 'file')
    ctx.check(all(r.sourceFile == p for r in rc), 'sourceFile')
    whole = file_text(recs, dict(case['lay'], eol='\n'))
    source_lines(ctx, rc, {uid(f): whole.count('\n', 0, whole.index(wos_text(f))) for f in recs})
    ctx.eq(rc.name, os.path.splitext(case['name'])[0], 'name of the collection')
    for f in recs:
        r = WOSRecord(wos_text(f))
        ctx.check(not r.bad and r in rc, 'record made from text is not the one in the file')
        r2 = WOSRecord(dict((t, list(l)) for t, l in f))
        ctx.check(not r2.bad and r2 in rc and list(r2.items(raw=True)) == list(r.items(raw=True)), 'record made from a dict')
    ctx.nontrivial(len(recs) >= 2 and any(len(ls) > 1 for f in recs for _, ls in f))


HOW = ['file', 'dir', 'list', 'union', 'minus', 'inter', 'xor', 'copy', 'add', 'chunk', 'pop', 'set', 'mixed']


@suite.test(fixed(recs=st.lists(st.one_of(raw_fields(), wos_fields()), min_size=1, max_size=7, unique_by=uid), how=one(*HOW), cut=ints(0, 7),
                  default_name=one(False, False, False, True), namelen=ints(1, 230)), quick=4000,
            rule='at least two records written')
def write_and_reread(case, ctx):
    recs, cut = case['recs'], case['cut']
    how = case['how']
    a, b = recs[:cut], recs[cut:]

    def obj(fs):
        return [WOSRecord(wos_text(f)) for f in fs]

    def infile(fs, name):
        return ctx.write(name, file_text(fs, {'eol': '\n', 'bom': True, 'gap': 1, 'lead': 0, 'tail': '\n', 'fn': True}))

    want = recs
    if how == 'file':
        rc = RC(infile(recs, 'in.isi'))
    elif how == 'dir':
        infile(a, 'in/a.isi'), infile(b, 'in/b.isi'), infile(recs[:1], 'in/c.isi')
        rc = RC(ctx.path('in'))
    elif how == 'list':
        rc = RC(obj(recs))
    elif how == 'set':
        rc = RC(x for x in obj(recs))
    elif how == 'union':
        rc = RC(infile(a, 'in.isi')) | RC(obj(b))
    elif how == 'minus':
        rc, want = RC(infile(recs, 'in.isi')) - RC(obj(a)), b
    elif how == 'inter':
        rc, want = RC(obj(recs)) & RC(infile(a, 'in.isi')), a
    elif how == 'xor':
        rc, want = RC(obj(recs)) ^ RC(obj(a)), b
    elif how == 'copy':
        rc = RC(obj(recs)).copy()
    elif how == 'add':
        rc = RC()
        for x in obj(recs):
            rc.add(x)
    elif how == 'chunk':
        rc = RC(obj(recs)).chunk(len(recs))[0]
    elif how == 'pop':
        rc = RC(infile(recs, 'in.isi'))
        gone = rc.pop().id
        want = [f for f in recs if uid(f) != gone]
    else:  # a record of another source that has been removed again
        from mkv.gen import element
        rc = RC(obj(recs) + [element(['M', 1])])
        rc.discard(element(['M', 1]))
    if not len(want):
        return
    same_records(ctx, rc, want, 'built by ' + how)
    whole = bytes(rc)
    texts = [wos_text(f).encode('utf-8') for f in want]
    ctx.check(len(whole) == sum(map(len, texts)) + len(texts) - 1 and all(t in whole for t in texts), lambda: 'bytes of the collection: %r, of its records %r' % (whole, texts))
    if case['default_name']:
        rc.name = 'n' * case['namelen']
        old = os.getcwd()
        os.chdir(ctx.dir)
        try:
            rc.writeFile()
        finally:
            os.chdir(old)
        out = ctx.path('n' * min(200, case['namelen']) + '.txt')
        ctx.check(os.path.isfile(out), 'writeFile() did not write %s' % os.path.basename(out))
    else:
        out = ctx.path('out.isi')
        rc.writeFile(out)
    back = RC(out)
    same_records(ctx, back, want, 'reread (%s)' % how)
    same_records(ctx, rc, want, 'collection after writing')
    ctx.check(back == rc, 'reread collection differs')
    writes_itself(ctx, back, want, 'reread')
    bs = bytes(rc)
    ctx.eq(len(bs), sum(len(wos_text(f).encode()) for f in want) + len(want) - 1, 'length of bytes(collection)')
    ctx.check(all(wos_text(f).encode() in bs for f in want), 'bytes(collection) lacks a record')
    back.writeFile(ctx.path('out2.isi'))
    same_records(ctx, RC(ctx.path('out2.isi')), want, 'second reread')
    ctx.nontrivial(len(want) >= 2)
    ctx.label(how)


@suite.test(fixed(recs=st.lists(st.one_of(raw_fields(), wos_fields()), min_size=1, max_size=3), n=weigh((2, ints(98, 103)), (1, ints(250, 260)), (1, ints(498, 503)), (2, ints(995, 1003))), lines=one(1, 1, 101, 300, 1100), width=one(1, 1, 30, 500), tags=one(0, 0, 50, 140), lay=layout), quick=56,
            rule='more than a hundred records')
def many(case, ctx):
    """Long files and fields of many lines: the records repeat a few, each with an identifier of its own."""
    recs = []
    for i in range(case['n']):
        f = [[t, list(ls)] for t, ls in case['recs'][i % len(case['recs'])]]
        for x in f:
            if x[0] == 'UT':
                x[1][0] = 'WOS:%06d' % i
            elif x[0] == 'AB' or i == case['n'] // 2:
                if i % 50 == 0 or i == case['n'] // 2:
                    x[1] = [x[1][j % len(x[1])] for j in range(max(len(x[1]), case['lines']))]
        if i in (1, case['n'] // 2):  # long lines and many fields
            for x in f:
                if x[0] != 'UT':
                    x[1] = [l * case['width'] + '.' for l in x[1][:20]] + x[1][20:]
            have = {t for t, _ in f}
            f += [[t, ['value of %s in %d' % (t, i)]] for t in (a + b for b in '9753' for a in TAGCH) if t not in have][:case['tags']]
        recs.append(f)
    rc = RC(ctx.write('a.isi', file_text(recs, case['lay'])))
    same_records(ctx, rc, recs, 'long file')
    rc.writeFile(ctx.path('out.isi'))
    back = RC(ctx.path('out.isi'))
    same_records(ctx, back, recs, 'long file reread')
    ctx.check(back == rc, 'reread collection differs')
    ctx.nontrivial(len(recs) > 100)
    ctx.label('long field', case['lines'] > 100)
    ctx.label('long lines', case['width'] > 100)
    ctx.label('many fields', case['tags'] > 0)
