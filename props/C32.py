"""C32: the genders of generated author names, of records of all sources and of collections are compared with an independent lookup and count over the table of names, which in one test is downloaded from a stand-in for its server."""
import collections
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from mkv import env
from mkv.core import Suite
from mkv.env import GENDERS, exc
from mkv.gen import RC, any_record, build, fixed, ints, one, weigh
from mkv.worlds import crowds

suite = Suite('C32')
KINDS = ('Male', 'Female', 'Unknown')
case_of = lambda s: st.one_of(st.just(s), st.sampled_from([s.upper(), s.lower(), s.title(), s.swapcase()]))
given = one(*GENDERS, 'Xin', 'J.', 'J', 'Zoë', 'John.', 'Mary;').flatmap(case_of)
suffix = one(', Jr', ', Jr', ', John', ', Mary', ', ', ' Jr')
surname = one('Levy', 'Smith', 'de Groot', "O'Brien", 'LI', 'John', 'Mary')
# [surname, given names]; without given names the name has no comma, or nothing after it
name = weigh((6, st.tuples(surname, st.lists(given, min_size=1, max_size=3), one(', ')).map(list)), (1, st.tuples(surname, st.just([]), one('', ',')).map(list)), (1, st.tuples(surname, st.lists(given, min_size=1, max_size=2), one(' ', ',')).map(list)),
             (1, st.tuples(surname, st.lists(given, min_size=1, max_size=2), one(', '), suffix).map(list)))


def spell(n):
    s, g, sep, *end = n
    return s + sep + ' '.join(g) + ''.join(end)


def gender(s, table=GENDERS):
    """By the first word of the second of the parts between commas and blanks."""
    word = (s.split(', ') + [''])[1].split(' ')[0]
    hits = {v for k, v in table.items() if k.casefold() == word.casefold()}
    return hits.pop() if hits else 'Unknown'


rec = weigh((6, st.tuples(st.just('W'), weigh((6, st.lists(name, min_size=1, max_size=5)), (1, st.just([])))).map(list)), (2, any_record()))


def make(items):
    out = []
    for i, (src, f) in enumerate(items):
        if src == 'W' and (not f or isinstance(f[0][0], str) and len(f[0]) in (3, 4) and f[0][2][:1] in ', '):
            names = [spell(n) for n in f]
            f = [['PT', ['J']], ['UT', ['WOS:%d' % i]]] + ([['AF', names]] if names else [])
        out.append(build(src, f))
    return out


def table(names):
    c = collections.Counter(map(gender, set(names)))
    return {k: c[k] for k in KINDS}


def fractions(c):
    n = sum(c.values())
    return {k: round(v / n, 12) if n else 0 for k, v in c.items()}


def rounded(d):
    return {k: round(v, 12) for k, v in d.items()}


@suite.test(fixed(world=weigh((6, st.lists(rec, min_size=2, max_size=6)), (1, st.lists(rec, max_size=1)))), quick=6000, rule='a collection with all three kinds of names and a record with two')
def stats(case, ctx):
    recs = make(case['world'])
    total, mixed = collections.Counter(dict.fromkeys(KINDS, 0)), False
    for r in recs:
        names = list(r.get('authorsFull') or [])
        want = table(names)
        mixed = mixed or sum(v > 0 for v in want.values()) > 1
        ctx.eq(r.authGenders(), {n: gender(n) for n in names}, 'genders of %r' % (names,))
        ctx.eq(r.authGenders(countsOnly=True), want, 'counts of %r' % (names,))
        for kw in (dict(fractionsMode=True), dict(fractionsMode=True, countsOnly=True)):
            ctx.eq(rounded(r.authGenders(**kw)), fractions(want), 'fractions of %r' % (names,))
    col = RC(recs)
    for r in col:
        total.update(table(r.get('authorsFull') or []))
    total = {k: total[k] for k in KINDS}
    ctx.eq(col.genderStats(), total, 'counts of the collection')
    got, want = rounded(col.genderStats(asFractions=True)), fractions(total)
    ctx.eq(got, want, 'fractions of the collection')
    ctx.eq(col.genderStats(asFractions=False), total, 'counts of the collection after the fractions')
    ctx.nontrivial(all(total.values()) and mixed)
    ctx.label('no authors', not sum(total.values()))
    ctx.label('name twice', any(len(set(r.get('authorsFull') or [])) < len(r.get('authorsFull') or []) for r in recs))


suite.larger(stats, 240, world=crowds)


@suite.test(fixed(name=name), quick=1500, rule='a name with a known gender')
def one_name(case, ctx):
    from metaknowledge.genders import nameStringGender
    s = spell(case['name'])
    ctx.eq(nameStringGender(s, noExcept=True), gender(s), 'gender of %r' % s)
    if ', ' in s:
        ctx.eq(nameStringGender(s), gender(s), 'gender of %r' % s)
    else:
        with ctx.raises(exc.GenderException, 'a name without given names'):
            nameStringGender(s)
    ctx.nontrivial(gender(s) != 'Unknown')


SCRIPT = r'''
import json, sys, io, zipfile, urllib.request
sys.path.insert(0, sys.argv[1])
job = json.load(open(sys.argv[2]))
asked = []
def urlopen(url, *a, **k):
    asked.append(url if isinstance(url, str) else url.full_url)
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for n, rows in (('us', job['table']), ('uk', [[k, 'Unknown'] for k, v in job['table']])):
            t = 'Name,years.appearing,count.male,count.female,prob.gender,obs.male,est.male,upper,lower\n'
            t += ''.join('%s,%d,%d,%d,%s,0.5,0.5,1,0\n' % (k, i, i, 2 * i, v) for i, (k, v) in enumerate(rows))
            z.writestr('globalnamedata-0.3/assets/%sprocessed.csv' % n, t)
    return io.BytesIO(b.getvalue())
urllib.request.urlopen = urlopen
import metaknowledge as mk
from metaknowledge.genders import nameStringGender
print(json.dumps([[nameStringGender(n, noExcept=True) for n in job['names']], len(asked)]))
'''
first = one('John', 'MARY', 'eve', 'Mary-Jane', "D'arcy", 'Sam', 'JOHN', 'Ann')


@suite.test(fixed(table=st.lists(st.tuples(first, one(*KINDS)).map(list), min_size=1, max_size=6, unique_by=lambda p: p[0].lower()), pad=one(0, 0, 300, 3000, 90000), names=st.lists(st.tuples(surname, st.lists(st.one_of(first, one('Aa1500', 'Wolfeschlegelsteinhausenberger'), first.map(str.lower), given), min_size=1, max_size=2), st.just(', ')).map(list), min_size=5, max_size=12)), quick=24, rule='a name found in the table')
def downloaded(case, ctx):
    """In two processes of their own, the second after the table has been stored, with a copy of the package so that the table is stored in the scratch directory."""
    import shutil
    shutil.copytree(os.path.join(env.REPO, 'metaknowledge'), ctx.path('pkg/metaknowledge'), ignore=shutil.ignore_patterns('tests', '__pycache__', 'namesData.csv'))
    case['table'] = [['Aa%d' % i, KINDS[i % 2]] for i in range(case['pad'])] + case['table'] + [['Wolfeschlegelsteinhausenberger', 'Male']] * bool(case['pad'])
    names = [spell(n) for n in case['names']]
    job = ctx.write('job.json', json.dumps({'table': case['table'], 'names': names}))
    script = ctx.write('run.py', SCRIPT)
    want = [gender(n, dict(case['table'])) for n in names]
    for i in range(2):
        p = subprocess.run([sys.executable, '-W', 'ignore', '-B', script, ctx.path('pkg'), job], capture_output=True, text=True, cwd=ctx.dir, timeout=120)
        ctx.eq(p.returncode, 0, 'exit code of the process (%s)' % p.stderr[-300:])
        got, asked = json.loads(p.stdout.splitlines()[-1])
        ctx.eq(got, want, 'genders of %r by the table %r' % (names, case['table'][:20]))
        ctx.check(asked <= 1 - i, 'the table was downloaded again')
    ctx.nontrivial(set(want) - {'Unknown'})
