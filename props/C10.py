"""C10: generated files of every type under arbitrary names, near misses of every type, and directories mixing them: recognition, refusal, and directory collections against the union of single-file collections."""
import os

from hypothesis import strategies as st

from mkv import grants as G
from mkv.core import Suite
from mkv.env import exc, mk
from mkv.gen import GC, RC, fixed, ints, one, wos_fields, wos_file
from props import C06, C07, C08, C09
from metaknowledge.grants import isCIHRfile, isFallbackGrantFile, isNSERCfile, isNSFfile
from metaknowledge.medline import isMedlineFile
from metaknowledge.proquest import isProQuestFile
from metaknowledge.scopus import isScopusFile
from metaknowledge.WOS import isWOSFile

suite = Suite('C10')

TYPE = {'W': 'WOSRecord', 'M': 'MedlineRecord', 'S': 'ScopusRecord', 'P': 'ProQuestRecord'}
DETECT = {'W': isWOSFile, 'M': isMedlineFile, 'S': isScopusFile, 'P': isProQuestFile}

STEMS = ['savedrecs', 'a', 'pubmed_result', 'scopus', 'ProQuestDocuments-2016', 'cihr_1', 'NSERC_x', 'b c', 'été', 'x.y', '.hidden', 'Z', 'mk', 'isi', 'A']
EXTS = ['', '.txt', '.isi', '.csv', '.medline', '.xml', '.TXT', '.testcsv', '.mkRecord', '.txt.bak', 'txt', '.mkRecordDirCache.txt']
fname = st.builds('{}{}'.format, one(*STEMS), one(*EXTS))


def data(src):
    head, parts, foot = C09.build(src)
    s = head + ''.join(t for _, t in parts) + foot
    return s.encode(C09.ENC[src[0]])


source = C09.source


@suite.test(fixed(src=source, name=fname, eol=one('\n', '\n', '\r\n'), empty=one(False, False, False, True)), quick=1800,
            rule='the file has at least one record')
def recognised(case, ctx):
    kind = case['src'][0]
    b = data(case['src'])
    if case['empty'] and kind != 'M':  # no records at all
        head, parts, foot = C09.build(case['src'])
        b = (C08.file_text([]) if kind == 'P' else head + foot).encode(C09.ENC[kind])
    b = b.replace(b'\n', case['eol'].encode())
    p = ctx.write(case['name'], b)
    for k, f in DETECT.items():
        ctx.eq(f(p), k == kind, 'is%sFile of a %s file' % (TYPE[k], TYPE[kind]))
    rc = RC(p)
    ctx.eq(rc._collectedTypes, {TYPE[kind]}, 'collected types')
    ctx.check(not rc.bad and not rc.errors, 'errors: %s' % rc.errors)
    ctx.check(all(type(r).__name__ == TYPE[kind] for r in rc), 'records of another type')
    ctx.eq(len(rc), 0 if case['empty'] and kind != 'M' else len(case['src'][1]), 'number of records')
    ctx.eq(rc.name, os.path.splitext(case['name'])[0], 'name of the collection')
    ctx.eq(RC(p, name='given').name, 'given', 'given name')
    ext = case['name'][-3:]
    ctx.eq({r.id for r in RC(p, extension=ext)}, {r.id for r in rc}, 'with its extension')
    with ctx.raises(exc.RCTypeError, 'extension of input file does not match'):
        RC(p, extension='.other')
    ctx.nontrivial(len(rc) > 0)
    ctx.label(kind)


HEAD = ','.join(C07.COLS)
WOSTEXT = wos_file([[['PT', ['J']], ['UT', ['WOS:1']]]])
MEDTEXT = '\nPMID- 12\nTI  - t\n\n'
PROTEXT = C08.file_text([])
SCOTEXT = '\ufeff' + HEAD + '\n' + 'x' + ',' * 41 + '2-s2.0-1\n'
NEAR = {
    'empty': b'', 'newline': b'\n', 'binary': bytes(range(256)) * 3, 'text': 'Some text\nabout nothing\n'.encode(), 'json': b'{"a": 1}\n',
    'wos late header': ('\ufeffFN x\n\n\n' + WOSTEXT[WOSTEXT.index('VR'):]).encode(),
    'wos no header': WOSTEXT[WOSTEXT.index('PT'):].encode(),
    'wos version 2': WOSTEXT.replace('VR 1.0', 'VR 2.0').encode(),
    'wos utf-16': WOSTEXT.encode('utf-16'),
    'wos invalid utf-8': WOSTEXT.encode() + b'\xff\xfe',
    'medline late': ('\n' + MEDTEXT).encode(),
    'medline no id': MEDTEXT.replace('PMID- 12', 'AU  - x').encode(),
    'medline shifted': MEDTEXT.replace('PMID- 12', ' PMID- 12').encode(),
    'medline utf-16': MEDTEXT.encode('utf-16'),
    'proquest bar': PROTEXT.replace('_' * 60, '_' * 59).encode(),
    'proquest title': PROTEXT.replace('Report Information from ProQuest', 'Report Information').encode(),
    'proquest no blank': PROTEXT.replace('_\n\nReport', '_\nReport').encode(),
    'proquest utf-16': PROTEXT.encode('utf-16'),
    'proquest late': ('x\n\n' + PROTEXT).encode(),
    'scopus no BOM': SCOTEXT[1:].encode(),
    'scopus late': ('\ufeff\n\n' + SCOTEXT[1:]).encode(),
    'scopus other header': SCOTEXT.replace('Authors,', 'Writers,', 1).replace('Title,', 'Name,', 1).encode(),
    'scopus short header': SCOTEXT.replace('Authors,Title,Year,', '', 1).encode(),
    'scopus tabs': SCOTEXT.replace(',', '\t').encode(),
    'scopus utf-16': SCOTEXT.encode('utf-16'),
    'csv': b'a,b\n1,2\n', 'xml': b'<rootTag><Award><AwardID>1</AwardID></Award></rootTag>', 'bib': b'@misc{a,\n title = {b}\n}\n',
}


@suite.test(fixed(what=one(*sorted(NEAR)), name=fname, good=st.one_of(st.none(), source), order=ints(0, 3)), quick=800, rule='every case')
def refused(case, ctx):
    p = ctx.write('d/' + case['name'], NEAR[case['what']])
    for k, f in DETECT.items():
        ctx.eq(f(p), False, 'is%sFile of: %s' % (TYPE[k], case['what']))
    with ctx.raises(exc.BadInputFile, 'file of no known type: %s' % case['what']):
        RC(p)
    n = 0
    if case['good'] is not None and case['name'] != 'good' + case['name'][-3:]:
        ctx.write('d/good' + case['name'][-3:], data(case['good']))
        n = len(case['good'][1])
    with shuffled(case['order']):
        rc = RC(ctx.path('d'))
        ctx.eq(len(rc), n, 'records of a directory with an unrecognised file')
        ctx.check(not rc.bad and not rc.errors, 'errors %s' % rc.errors)
        with ctx.raises(exc.BadInputFile, 'unrecognised file with the requested extension'):
            RC(ctx.path('d'), extension=case['name'][-3:])
    ctx.nontrivial()


class shuffled:
    """os.listdir in another order"""
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.real = os.listdir

        def listdir(*a):
            l = sorted(self.real(*a))
            return [l, l[::-1], l[1::2] + l[::2], l[len(l) // 2:] + l[:len(l) // 2]][self.k % 4]
        os.listdir = listdir

    def __exit__(self, *a):
        os.listdir = self.real


entry = fixed(name=fname, src=st.one_of(source, source, source, st.none()), dmg=one(None, None, None, 'trunc', 'noEF'), what=one(*sorted(NEAR)), link=one(False, False, False, True))


def errs(d):
    return {k: (type(e).__name__, str(e)) for k, e in d.items()}


@suite.test(fixed(files=st.one_of(*[st.lists(entry, min_size=n, max_size=5, unique_by=lambda e: e['name']) for n in (0, 2, 3, 3)]), subdir=st.lists(fname, max_size=1), ext=one('', '', '.txt', 'txt', '.isi', 'x', '.csv', '.none'),
                  orders=st.tuples(ints(0, 3), ints(0, 3)).map(list), name=one('', '', 'n'), how=one('abs', 'rel', 'home', 'slash')), quick=2500,
            rule='at least two files are read and at least one more is there')
def directory(case, ctx):
    d = ctx.path('dir')
    os.mkdir(d)
    want, bad, errors, raws, refuse = set(), False, {}, {}, False
    nread, types = 0, set()
    names = {e['name'] for e in case['files']}
    for e in case['files']:
        if e['src'] is None:
            b = NEAR[e['what']]
        else:
            b = data(e['src'])
            if e['dmg'] == 'trunc':
                b = b[:max(len(b) * 2 // 3, 1)]
            elif e['dmg'] == 'noEF':
                b = b[:-3]
        if e['link']:  # a symbolic link to a file elsewhere
            os.symlink(ctx.write('elsewhere/%s' % e['name'], b), os.path.join(d, e['name']))
            p = os.path.join(d, e['name'])
        else:
            p = ctx.write('dir/' + e['name'], b)
        if not e['name'].endswith(case['ext']):
            continue
        try:
            rc = RC(p)
        except exc.BadInputFile:
            refuse = True
            continue
        nread += 1
        types |= rc._collectedTypes
        for r in rc:
            want.add(r)
            if not r.bad:
                raws.setdefault(r.id, []).append((type(r).__name__, C09.raw(r)))
        bad = bad or rc.bad
        ctx.check(set(rc.errors) <= {os.path.realpath(p)}, 'errors of another file: %s' % list(rc.errors))
        errors.update({p: x for x in rc.errors.values()})
    for s in case['subdir']:
        if s not in names:
            if case['name']:
                os.symlink(ctx.path('nowhere'), os.path.join(d, 'gone-' + s))
            ctx.write('dir/%s/in.txt' % s, data(['W', [[['PT', ['J']], ['UT', ['WOS:INSIDE']]]]]))
    arg = {'abs': d, 'rel': os.path.relpath(d), 'home': '~/mkvdir', 'slash': d + '/'}[case['how']]
    if case['how'] == 'home':
        home = os.path.expanduser('~')
        link = os.path.join(home, 'mkvdir')
        if os.path.lexists(link):
            os.remove(link)
        os.symlink(d, link)
    real = os.path.realpath(d)

    def moved(errors):
        """messages name the file or the target of the link"""
        return {k.replace(d, real): (t, m.replace(os.path.join(os.path.dirname(real), 'elsewhere'), real).replace(ctx.path('elsewhere'), real).replace(d, real)) for k, (t, m) in errs(errors).items()}
    got = []
    for o in case['orders']:
        with shuffled(o):
            try:
                rc = RC(arg, name=case['name'], extension=case['ext'])
            except exc.BadInputFile:
                ctx.check(refuse and case['ext'], 'a directory of recognised files is refused')
                ctx.label('refused')
                continue
        ctx.check(not (refuse and case['ext']), 'an unrecognised file with the requested extension is not refused')
        got.append(rc)
        ctx.eq({r.id for r in rc if not r.bad}, {r.id for r in want if not r.bad}, 'ids')
        ctx.eq(len(rc), len(want), 'number of records')
        ctx.eq(set(rc), want, 'records')
        for r in rc:
            if not r.bad:
                ctx.check((type(r).__name__, C09.raw(r)) in raws[r.id], 'record %s differs from its file' % r.id)
        ctx.eq(bool(rc.bad), bool(bad), 'bad')
        ctx.eq(moved(rc.errors), moved(errors), 'errors by file')
        ctx.eq(rc._collectedTypes, types, 'collected types')
        ctx.check(rc.name == 'n' if case['name'] else isinstance(rc.name, str) and 'files-from-' in rc.name and case['ext'] in rc.name, 'name %r' % rc.name)
    ctx.nontrivial(nread >= 2 and len(case['files']) > nread and got)
    ctx.label('two files read', nread >= 2)
    ctx.label('error of one file', len(errors) > 0)


@suite.test(fixed(files=st.lists(st.tuples(G.grant_file(), one('a', 'b', 'A', 'd', 'e 1', '.h', 'x.mkGrantDirCache')).map(list), min_size=1, max_size=4, unique_by=lambda f: (f[0][0] == 'NSERC', f[0][0], f[1])).filter(
    lambda fs: sum(f[0][0] == 'NSERC' for f in fs) < 2), ext=one('', '', '.csv', '.xml', 'a.csv'), junk=st.one_of(st.none(), one(*sorted(NEAR))), junkname=one('j.txt', 'j.csv', 'j.md'),
    order=ints(0, 3)), quick=1000, rule='at least two grant files are read')
def grant_directory(case, ctx):
    want, errors, nread, types, refuse = set(), {}, 0, set(), False
    for (kind, content), stem in case['files']:
        n = G.grant_name(kind, stem)
        p = ctx.write('dir/' + n, G.grant_bytes(kind, content))
        gc = GC(p)
        ctx.eq(gc._collectedTypes, {G.TYPES[kind]}, 'type of %s' % n)
        ctx.check(not gc.bad and not gc.errors, 'errors %s' % gc.errors)
        ctx.eq(gc.name, n.rpartition('.')[0], 'name')
        if n.endswith(case['ext']):
            want |= set(gc)
            types |= gc._collectedTypes
            nread += 1
    if case['junk'] not in (None, 'csv', 'xml') and not (case['junkname'] == 'j.csv' and case['junk'] not in ('empty', 'newline', 'binary')):
        p = ctx.write('dir/' + case['junkname'], NEAR[case['junk']])
        with ctx.raises(exc.BadInputFile, 'grant file of no known type'):
            GC(p)
        refuse = bool(case['ext']) and case['junkname'].endswith(case['ext'])
    with shuffled(case['order']):
        try:
            gc = GC(ctx.path('dir'), extension=case['ext'])
        except exc.BadInputFile:
            ctx.check(refuse, 'refused')
            return
    ctx.check(not refuse, 'an unrecognised file with the requested extension is not refused')
    ctx.eq({g.id for g in gc}, {g.id for g in want}, 'grants of the directory')
    ctx.eq(set(gc), want, 'grants of the directory')
    ctx.eq(len(gc), len(want), 'number of grants')
    ctx.eq(gc._collectedTypes, types, 'types')
    ctx.check(not gc.bad and not gc.errors, 'errors %s' % gc.errors)
    ctx.nontrivial(nread >= 2)


GDETECT = {'NSERC': isNSERCfile, 'CIHR': isCIHRfile, 'NSF': isNSFfile, 'FB': isFallbackGrantFile}
GNEAR = {'NSERC': ['extra cell', 'no rows', 'other name', 'other extension'], 'CIHR': ['no PI column', 'no preamble', 'short preamble', 'other preamble', 'other name'],
         'NSF': ['no award', 'two awards', 'truncated', 'not xml', 'other extension', 'empty'], 'FB': ['extra cell', 'no rows', 'other extension', 'Scopus', 'empty']}


@suite.test(fixed(file=G.grant_file(), what=ints(0, 5), stem=one('a', 'b c', 'NSERC', 'x.y')), quick=1200, rule='every case')
def grant_near_misses(case, ctx):
    """Files that lack one mark of their type are not read as that type: as generic CSV files if they are such, else refused."""
    kind, content = case['file']
    what = GNEAR[kind][case['what'] % len(GNEAR[kind])]
    name = G.grant_name(kind, case['stem'])
    b = G.grant_bytes(kind, content)
    as_csv = False  # is it a table of rows as long as the header?
    pre, post = (b[:b.index(b'Funding')], b[b.index(b'Funding'):]) if kind == 'CIHR' else (b'', b)
    if what == 'extra cell':
        b = b.rstrip(b'\n') + b',one more\n'
    elif what == 'no rows':
        b = G.csv_text(G.NSERC_COLS if kind == 'NSERC' else G.FALL_COLS, []).encode('latin-1')
    elif what == 'other name':
        name, as_csv = 'other_' + name, True
    elif what == 'other extension':
        name = name.rpartition('.')[0] + '.txt'
    elif what == 'no PI column':
        b, as_csv = pre + post.replace(b'PI Names', b'Names', 1), True
    elif what == 'no preamble':
        b, as_csv = post, True
    elif what == 'short preamble':
        b, as_csv = pre[pre.index(b'\n') + 1:] + post, True
    elif what == 'other preamble':
        b, as_csv = b.replace(b'Search Criteria', b'Criteria', 1), True
    elif what == 'no award':
        b = b.replace(b'Award>', b'Prize>')
    elif what == 'two awards':
        i = b.index(b'  <Award>')
        j = b.index(b'</rootTag>')
        b = b[:j] + b[i:j] + b[j:]
    elif what == 'truncated':
        b = b[:b.index(b'</rootTag>')]
    elif what == 'not xml':
        b = b.replace(b'</Award>', b'</Awards>')
    elif what == 'Scopus':
        b = SCOTEXT[1:].encode()
    elif what == 'empty':
        b = b''
    p = ctx.write('d/' + name, b)
    if what == 'other extension' and kind == 'NSERC':
        ctx.eq(isNSERCfile(p), True, 'a NSERC table of another extension')
        return
    for k, f in GDETECT.items():
        ctx.eq(f(p), k == 'FB' and as_csv, 'is%sfile of a %s file with: %s' % (k, kind, what))
    if as_csv:
        gc = GC(p)
        ctx.eq(gc._collectedTypes, {'FallbackGrant'}, 'type of a %s file with: %s' % (kind, what))
        ctx.check(len(gc) > 0 and not gc.bad and all(type(g).__name__ == 'FallbackGrant' for g in gc), 'grants of a generic table')
    else:
        with ctx.raises(exc.BadInputFile, '%s file with: %s' % (kind, what)):
            GC(p)
        gc = GC(ctx.path('d'))
        ctx.check(len(gc) == 0 and not gc.bad and not gc.errors, 'directory with a file of no known type')
    ctx.nontrivial()
    ctx.label('%s %s' % (kind, what))


@suite.test(fixed(what=one('missing', 'word', 'int', 'list of int', 'float', 'list of str', 'set of grants', 'ext'), cls=one('RC', 'GC')), quick=60, rule='every case')
def wrong_arguments(case, ctx):
    cls, e = (RC, exc.RCTypeError) if case['cls'] == 'RC' else (GC, exc.GrantCollectionException)
    from mkv.gen import element
    arg = {'missing': ctx.path('nothing.txt'), 'word': 'some string', 'int': 7, 'list of int': [1, 2], 'float': 1.5, 'list of str': ['a'],
           'set of grants': [element(['G' if cls is RC else 'W', 1]), None], 'ext': None}[case['what']]
    with ctx.raises(e, '%s of %s' % (case['cls'], case['what'])):
        if case['what'] == 'ext':
            cls(ctx.write('a.txt', 'x'), extension='.csv')
        else:
            cls(arg)
    ctx.nontrivial()


@suite.test(fixed(seed=ints(0, 10 ** 6), n=ints(20, 80), ext=one('', '', '.txt', '.isi'), order=ints(0, 3)), quick=80, rule='more than twenty files are read')
def large_directory(case, ctx):
    """Directories of many files, some with many records."""
    import random
    r = random.Random(case['seed'])
    want, nread, types, ext = set(), 0, set(), case['ext']
    for i in range(case['n']):
        kind, e = r.choice('WWMSPJ'), r.choice(['.txt', '.txt', '.isi'])
        if kind == 'J' and ext:
            kind = 'W'
        k = r.choice([1, 2, 2, 60]) if kind == 'W' else 1
        t = {'W': '', 'M': MEDTEXT.replace('12', '%d' % (100 + i)), 'S': SCOTEXT.replace('2-s2.0-1', '2-s2.0-%d' % (100 + i)), 'P': PROTEXT, 'J': 'junk'}[kind]
        ids = {'M': ['PMID:%d' % (100 + i)], 'S': ['EID:2-s2.0-%d' % (100 + i)], 'W': ['WOS:%d' % (i * 50 + j) for j in range(k)]}.get(kind, [])
        if kind == 'W':
            t = wos_file([[['PT', ['J']], ['UT', [u]]] for u in ids])
        ctx.write('d/f%02d%s' % (i, e), t.encode('utf-8'))
        if e.endswith(ext):
            want |= set(ids)
            nread += kind != 'J'
            types |= {TYPE[kind]} if kind != 'J' else set()
    with shuffled(case['order']):
        rc = RC(ctx.path('d'), extension=ext)
    ctx.check(not rc.bad and not rc.errors, 'errors %s' % rc.errors)
    ctx.eq(sorted(x.id for x in rc), sorted(want), 'ids')
    ctx.eq(rc._collectedTypes, types, 'collected types')
    ctx.nontrivial(nread > 20)
