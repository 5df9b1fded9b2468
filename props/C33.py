"""C33: generated histories of additions, exclusions, downloads and restarts run on journal databases in a scratch directory, and after every step each lookup and each journal test is compared with a plain table."""
import glob
import io
import json
import os
import shutil
import string
import subprocess
import sys
import urllib.request

from hypothesis import strategies as st

import metaknowledge.citation as citation
from metaknowledge.journalAbbreviations import backend
from mkv import env
from mkv.core import Suite
from mkv.env import exc
from mkv.gen import fixed, ints, one, weigh

suite = Suite('C33')
ABBR = ['NATURE', 'CELL', 'J X', 'ÉTUDES', 'ANN PHYS', 'REV A, B']
abbr = one(*ABBR)
word = one('Nature', 'Cell (London)', 'Études', 'journal of x', "Annals' y", 'a', 'b', 'NATURE')
full = weigh((5, st.lists(word, min_size=1, max_size=3, unique=True).map('|'.join)), (1, st.just('')))
rows = st.lists(st.tuples(one(*ABBR[:5]), word).map(list), max_size=6, unique_by=tuple)


def pages(entries):
    """{end of the URL: page}; every page has an entry of its own, the others are dealt out in turn."""
    res, keys = {}, ['0-9'] + list(string.ascii_uppercase)
    for i, k in enumerate(keys):
        es = [['Filler ' + k, 'F ' + k]] + [[n, a] for j, (a, n) in enumerate(entries) if j % 2 * 3 + 1 == i]
        t = '<html>\n<DL>\n<A NAME="x"></A><DT>%s\n<B><DD>\t%s\n' % tuple(es[0]) + ''.join('</B><DT>%s\n<B><DD>\t%s\n' % tuple(e) for e in es[1:]) + '</DL>\n</html>\n'
        res[k + '_abrvjt.html'] = t
    return res


def downloaded(entries):
    """The names of each abbreviation that these pages hold."""
    d = {}
    for i, k in enumerate(['0-9'] + list(string.ascii_uppercase)):
        for n, a in [['Filler ' + k, 'F ' + k]] + [[n, a] for j, (a, n) in enumerate(entries) if j % 2 * 3 + 1 == i]:
            d.setdefault(a, []).append(n)
    return d


class Server:
    def __init__(self):
        self.entries, self.up, self.asked = [], True, 0

    def __call__(self, url, *a, **k):
        self.asked += 1
        if not self.up:
            raise urllib.error.URLError('down')
        return io.BytesIO(pages(self.entries)[(url if isinstance(url, str) else url.full_url).rsplit('/', 1)[1]].encode('utf-8'))


op = weigh((2, st.tuples(st.just('add'), abbr)), (4, st.tuples(st.just('dict'), st.dictionaries(abbr, full, min_size=1, max_size=3))), (3, st.tuples(st.just('exclude'), one('str', 'list', 'tuple'), st.lists(abbr, min_size=1, max_size=2))),
           (3, st.tuples(st.just('cite'), abbr, weigh((2, st.none()), (2, st.lists(word, min_size=1, max_size=2, unique=True).map('|'.join)), (1, st.just(False))))), (2, st.tuples(st.just('update'), rows)), (1, st.tuples(st.just('lose'), one('both', 'WOS'))), (1, st.tuples(st.just('down'))), (3, st.tuples(st.just('restart'), one('both', 'both', 'WOS', 'manual'))),
           (1, st.tuples(st.just('create'))), (1, st.tuples(st.just('wrong'), ints(0, 4)))).map(list)
BEFORE = set(os.listdir(os.path.dirname(backend.__file__)))


@suite.test(fixed(start=rows, ops=st.lists(op, min_size=1, max_size=10)), quick=2500, rule='an abbreviation given names twice, and one excluded')
def history(case, ctx):
    here = os.path.dirname(backend.__file__)
    W, M = (os.path.relpath(ctx.path(n), here) for n in ('wos', 'man'))
    server, urlopen = Server(), urllib.request.urlopen
    server.entries = case['start']
    urllib.request.urlopen = server
    citation.abbrevDict = None
    names = dict(dbname=W, manualDB=M)
    wos, man, table = {}, None, None  # the databases, and the table in this process

    def both():
        return {k: list(v) for k, v in wos.items()} | {k: v.split('|') for k, v in (man or {}).items()}

    def cites():
        return [citation.Citation('Smith J, 1990, %s, V1' % a.replace(',', '')) for a in ABBR]
    twice = excluded = False
    try:
        # the first lookup downloads what is missing
        ctx.eq(backend.getj9dict(**names), downloaded(case['start']), 'first lookup')
        wos = downloaded(case['start'])
        for step in case['ops']:
            what = step[0]
            old = dict(man or {})
            if what == 'add':
                backend.addToDB(step[1], dbname=M)
                man = dict(man or {}, **{step[1]: step[1]})
            elif what == 'dict':
                backend.addToDB(dict(step[1]), dbname=M)
                man = dict(man or {}, **step[1])
            elif what == 'exclude':
                l = step[2]
                backend.excludeFromDB(l[0] if step[1] == 'str' else tuple(l) if step[1] == 'tuple' else list(l), dbname=M)
                man = dict(man or {}, **{a: '' for a in (l[:1] if step[1] == 'str' else l)})
            elif what == 'cite':
                c = citation.Citation('Smith J, 1990, %s, V1' % step[1].replace(',', ''))
                kw = {'invert': True} if step[2] is False else {'manualName': step[2]} if step[2] else {}
                c.addToDB(manualDB=M, **kw)
                man = dict(man or {}, **{c.journal: '' if step[2] is False else step[2] or c.journal})
                if table is not None:
                    table = dict(table, **{c.journal: man[c.journal].split('|')})
            elif what == 'update':
                server.entries = step[1]
                backend.updatej9DB(dbname=W)
                for a, l in downloaded(step[1]).items():
                    wos[a] = wos.get(a, []) + [n for n in l if n not in wos.get(a, [])]
            elif what == 'lose':
                for f in glob.glob(ctx.path('wos.*')):
                    os.remove(f)
                wos = downloaded(server.entries)
                ctx.eq(backend.getj9dict(returnDict=step[1], **names), both() if step[1] == 'both' else wos, 'lookup when the downloaded database is gone')
            elif what == 'down':
                server.up = False
                with ctx.raises((urllib.error.URLError, exc.JournalDataBaseError), 'the server cannot be reached'):
                    backend.updatej9DB(dbname=W)
                server.up = True
            elif what == 'restart':
                if step[1] == 'manual' and man is None:
                    continue
                citation.abbrevDict = None
                cites()[0].isJournal(returnDict=step[1], **names)
                table = both() if step[1] == 'both' else {k: list(v) for k, v in wos.items()} if step[1] == 'WOS' else {k: v.split('|') for k, v in man.items()}
            elif what == 'create':
                backend.addToDB(dbname=M)
                man = dict(man or {})
            else:
                bad = [lambda: backend.addToDB(5, dbname=M), lambda: backend.addToDB({'NATURE': 5}, dbname=M), lambda: backend.excludeFromDB(5, dbname=M), lambda: backend.excludeFromDB([5], dbname=M), lambda: citation.Citation('Smith J, 1990').addToDB(manualDB=M)][step[1]]
                with ctx.raises((KeyError, TypeError) if step[1] == 4 else TypeError, 'wrong argument %d' % step[1]):
                    bad()
                if man is None and os.path.exists(ctx.path('man.dat')):
                    man = {}
            twice = twice or any(old.get(a) and man[a] and man[a] != old[a] for a in man or {})
            excluded = excluded or any(v == '' for v in (man or {}).values())
            # all lookups
            asked = server.asked
            ctx.eq(backend.getj9dict(**names), both(), 'lookup of both after %r' % (step,))
            ctx.eq(backend.getj9dict(returnDict='WOS', **names), wos, 'lookup of the downloaded names after %r' % (step,))
            if man is None:
                with ctx.raises(exc.JournalDataBaseError, 'no manual database'):
                    backend.getj9dict(returnDict='manual', **names)
            else:
                ctx.eq(backend.getj9dict(returnDict='manual', **names), {k: v.split('|') for k, v in man.items()}, 'lookup of the manual names after %r' % (step,))
            ctx.eq(server.asked, asked, 'number of downloads after lookups')
            if table is not None:
                now, good = both(), []
                for c in cites():
                    # names added by other ways than a citation may be seen at once or after a restart
                    sure = c.journal in table and table[c.journal] == now.get(c.journal) or c.journal not in table and c.journal not in now
                    if not sure and what != 'restart':
                        continue
                    l = table.get(c.journal) or ['']
                    ctx.eq(bool(c.isJournal(**names)), bool(l[0]), 'isJournal of %r after %r' % (c.journal, step))
                    ctx.eq(c.FullJournalName(), l[0] or None, 'FullJournalName of %r after %r' % (c.journal, step))
                    ctx.eq(bool(c.isJournal(checkIfExcluded=True, **names)), table.get(c.journal) == [''], 'whether %r is excluded after %r' % (c.journal, step))
                    good.append((c, bool(l[0])))
                ctx.eq([c.journal for c in citation.filterNonJournals([c for c, g in good])], [c.journal for c, g in good if g], 'journals among the citations')
                ctx.eq([c.journal for c in citation.filterNonJournals([c for c, g in good], invert=True)], [c.journal for c, g in good if not g], 'non-journals among the citations')
    finally:
        urllib.request.urlopen = urlopen
        for f in glob.glob(os.path.join(here, '*j9Abbreviations.*')):
            if os.path.basename(f) not in BEFORE and os.path.exists(f):
                os.remove(f)
    ctx.nontrivial(twice and excluded)
    ctx.label('downloaded again', any(s[0] == 'update' for s in case['ops']))


SCRIPT = r'''
import io, json, sys, urllib.request
sys.path.insert(0, sys.argv[1])
job = json.load(open(sys.argv[2]))
asked = []
def urlopen(url, *a, **k):
    asked.append(1)
    return io.BytesIO(job['pages'][(url if isinstance(url, str) else url.full_url).rsplit('/', 1)[1]].encode('utf-8'))
urllib.request.urlopen = urlopen
import metaknowledge as mk
from metaknowledge.journalAbbreviations import addToDB, getj9dict
from metaknowledge.journalAbbreviations.backend import excludeFromDB
cite = lambda j: mk.Citation('Smith J, 1990, %s, V1' % j)
try:
    missing = len(getj9dict(returnDict='manual')) < 0
except mk.mkExceptions.JournalDataBaseError:
    missing = True
for what, arg, name in job['ops']:
    if what == 'add':
        addToDB({arg: name})
    elif what == 'exclude':
        excludeFromDB(arg)
    elif what == 'cite':
        cite(arg).addToDB(**({'manualName': name} if name else {}))
    else:
        cite(arg).addToDB(invert=True)
first = {j: [bool(cite(j).isJournal()), cite(j).FullJournalName()] for j in job['ask']}
print(json.dumps([getj9dict(), first, len(asked), missing]))
'''
pop = st.tuples(one('add', 'exclude', 'cite', 'cite', 'invert'), one(*ABBR[:5]), st.lists(word, min_size=1, max_size=2, unique=True).map('|'.join)).map(list)


@suite.test(fixed(rows=rows, runs=st.lists(st.lists(pop, max_size=4), min_size=2, max_size=3)), quick=24, rule='journals added and excluded in two processes')
def processes(case, ctx):
    """With the default databases, in processes of their own and a scratch copy of the package (the databases are stored in it)."""
    shutil.copytree(os.path.join(env.REPO, 'metaknowledge'), ctx.path('pkg/metaknowledge'), ignore=shutil.ignore_patterns('tests', '__pycache__', '*.dat', '*.dir', '*.bak'))
    script, man = ctx.write('run.py', SCRIPT), {}
    for i, ops in enumerate(case['runs']):
        for what, a, n in ops:
            man[a] = '' if what in ('exclude', 'invert') else n
        job = ctx.write('job.json', json.dumps({'pages': pages(case['rows']), 'ops': ops, 'ask': ABBR[:5]}))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-B', script, ctx.path('pkg'), job], capture_output=True, text=True, cwd=ctx.dir, timeout=120)
        ctx.eq(p.returncode, 0, 'exit code of process %d (%s)' % (i, p.stderr[-300:]))
        d, first, asked, missing = json.loads(p.stdout.splitlines()[-1])
        want = downloaded(case['rows']) | {k: v.split('|') for k, v in man.items()}
        ctx.eq(d, want, 'lookup in process %d' % i)
        ctx.eq(missing, not any(case['runs'][:i]), 'whether the manual database is missing at the start of process %d' % i)
        ctx.eq(first, {j: [bool(want.get(j, [''])[0]), want.get(j, [''])[0] or None] for j in ABBR[:5]}, 'journal tests in process %d' % i)
        ctx.check(i == 0 or asked == 0, 'names were downloaded again')
    ctx.nontrivial(sum(bool(o) for o in case['runs']) > 1 and '' in man.values() and any(man.values()))


def crowd(seed, n):
    import random
    r = random.Random(seed)
    abbrs = ['JOURNAL %d' % i for i in range(n)]
    return abbrs, [[a, 'Name %d of %s' % (i, a)] for a in abbrs for i in range(r.choice([0, 1, 1, 2, 7]))], {a: '|'.join('Given %d' % i for i in range(r.choice([1, 1, 2, 9]))) for a in abbrs if r.random() < .4}, [a for a in abbrs if r.random() < .2]


@suite.test(fixed(seed=ints(0, 10 ** 6), n=weigh((4, ints(20, 300)), (1, ints(600, 1300))), again=st.booleans()), quick=40, rule='every case')
def large(case, ctx):
    """Many journals downloaded, added and excluded at once."""
    here = os.path.dirname(backend.__file__)
    W, M = (os.path.relpath(ctx.path(n), here) for n in ('wos', 'man'))
    names = dict(dbname=W, manualDB=M)
    abbrs, entries, add, drop = crowd(case['seed'], case['n'])
    server, urlopen = Server(), urllib.request.urlopen
    server.entries = entries
    urllib.request.urlopen = server
    try:
        wos = downloaded(entries)
        ctx.eq(backend.getj9dict(**names), wos, 'first lookup')
        backend.addToDB('FIRST', dbname=M)
        backend.addToDB(dict(add), dbname=M)
        backend.excludeFromDB(drop, dbname=M)
        man = {'FIRST': 'FIRST'} | add | dict.fromkeys(drop, '')
        if case['again']:
            server.entries = [[a, n + ' more'] for a, n in entries]
            backend.updatej9DB(dbname=W)
            for a, l in downloaded(server.entries).items():
                wos[a] = wos.get(a, []) + [n for n in l if n not in wos.get(a, [])]
        both = wos | {k: v.split('|') for k, v in man.items()}
        ctx.eq(backend.getj9dict(returnDict='WOS', **names), wos, 'lookup of the downloaded names')
        ctx.eq(backend.getj9dict(returnDict='manual', **names), {k: v.split('|') for k, v in man.items()}, 'lookup of the manual names')
        ctx.eq(backend.getj9dict(**names), both, 'lookup of both')
        citation.abbrevDict = None
        for a in abbrs:
            c = citation.Citation('Smith J, 1990, %s, V1' % a)
            l = both.get(a) or ['']
            ctx.eq(bool(c.isJournal(**names)), bool(l[0]), 'isJournal of %r' % a)
            ctx.eq(c.FullJournalName(), l[0] or None, 'FullJournalName of %r' % a)
        every = [citation.Citation('Smith J, 1990, %s, V1' % a) for a in abbrs]
        for invert in (False, True):
            ctx.eq([c.journal for c in citation.filterNonJournals(every, invert=invert)], [a for a in abbrs if bool((both.get(a) or [''])[0]) != invert], '%s among many citations' % ['journals', 'non-journals'][invert])
    finally:
        urllib.request.urlopen = urlopen
        for f in glob.glob(os.path.join(here, '*j9Abbreviations.*')):
            if os.path.basename(f) not in BEFORE and os.path.exists(f):
                os.remove(f)
    ctx.nontrivial()
