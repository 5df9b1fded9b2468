"""C25: generated collections are queried with localCitesOf, citeFilter and localCiteStats, and the answers are compared with an independent scan of every record's citations."""
import collections

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import any_record, cite_line, fixed, ints, one, weigh
from mkv.worlds import crowds, make
from props.C22 import AUTHORS, REFS, rec

suite = Suite('C25')
world = weigh((5, st.lists(rec(), min_size=2, max_size=7)), (1, st.lists(rec(), max_size=2)), (1, st.lists(st.one_of(rec(), any_record()), max_size=6)))


def cites(r):
    return list(r.get('citations') or [])


def ids(rc):
    return sorted(map(id, rc))


def same(ctx, got, want, what):
    ctx.check(isinstance(got, mk.RecordCollection), lambda: '%s is %r' % (what, got))
    ctx.check(ids(got) == ids(want), lambda: '%s: got %r, expected %r' % (what, sorted(r.id for r in got), sorted(r.id for r in want)))


@suite.test(fixed(world=world, how=one('record', 'id', 'id', 'cited', 'string', 'string', 'citation', 'other'), n=ints(0, 9), ref=weigh((4, one(*REFS)), (1, cite_line()), (1, one('WOS:999', 'levy y, 1975, nature, v9', 'Nobody, 1900, NOTHING')))), quick=7000,
            rule='some records cite the work and some do not')
def local_cites(case, ctx):
    col, recs = make(['R', case['world']])
    how, n = case['how'], case['n']
    if how in ('record', 'id') and recs:
        r = recs[n % len(recs)]
        target = r.createCitation()
        arg = r if how == 'record' else r.id
    elif how == 'cited' and any(cites(r) for r in recs):  # the first citation some record holds, as object or as text
        every = [c for r in recs for c in cites(r) if hasattr(c, 'DOI')]
        if not every:
            return
        c = every[n % len(every)]
        arg = c if n % 2 else c.original
        target = c
    elif how == 'other':
        for bad in (5, None, ['x'], b'x'):
            with ctx.raises(ValueError, 'a target that is no record, string or citation'):
                col.localCitesOf(bad)
        r = mk.WOSRecord({'UT': ['WOS:777'], 'PT': ['J'], 'AU': [AUTHORS[n % 3]], 'PY': ['1975'], 'J9': ['NATURE']})
        arg, target = r, r.createCitation()  # a record from elsewhere
    else:
        target = mk.Citation(case['ref'])
        arg = target if how == 'citation' else case['ref']
    if isinstance(arg, str) and how != 'id' and any(r.id == arg for r in recs):
        return
    want = [r for r in recs if any(c.ID() == target.ID() for c in cites(r))]
    got = col.localCitesOf(arg)
    same(ctx, got, want, 'localCitesOf(%r)' % (arg,))
    ctx.nontrivial(0 < len(want) < len(recs))
    ctx.label(how, len(want) > 0)


suite.larger(local_cites, 240, world=crowds, how=one('cited', 'cited', 'record', 'id'))


FIELDS = ['all', 'author', 'year', 'journal', 'V', 'P', 'misc', 'anonymous', 'bad']
keys = {'all': one('', 'nature', 'NATURE', '1975, N', 'V1', 'DOI', 'levy', 'Smith J', 'zzz', 'book', '.'), 'author': one('', 'levy', 'Y', 'Smith J', '[anon', 'zzz', 'li x'), 'year': one('', '1975', '1976', 1975, 1980, '197', '2000'),
        'journal': one('', 'nature', 'CELL', 'a', 'REPORT', 'zzz'), 'V': one('', 'V1', '1', 'v5', '9', 'zzz'), 'P': one('', 'P2', '5', 'p', 'zzz'), 'misc': one('', 'artn', '5', 'zzz', 'on'), 'anonymous': one('', 'zzz'), 'bad': one('', 'zzz')}


@suite.test(fixed(world=world, query=one(*FIELDS).flatmap(lambda f: st.tuples(st.just(f), keys[f]).map(list)), reverse=st.booleans(), case=weigh((2, st.just(False)), (1, st.just(True)))), quick=9000, rule='some records match and some do not')
def cite_filter(case, ctx):
    col, recs = make(['R', case['world']])
    field, key = case['query']
    skey = str(key)
    if field == 'misc' and skey == '' and any(getattr(c, 'misc', None) == '' for r in recs for c in cites(r)):
        return

    def match(c):
        if field == 'all':
            return skey in c.original if case['case'] else skey.upper() in c.original.upper()
        if field == 'bad':
            return bool(c.bad)
        if field == 'anonymous':
            return getattr(c, 'author', '[Anonymous]') == '[Anonymous]'
        v = getattr(c, field, None)
        if v is None:
            return False
        if field == 'year':
            return skey == '' or int(skey) == v
        return skey.upper() in v.upper()
    want = [r for r in recs if any(match(c) for c in cites(r)) != case['reverse']]
    kw = {}
    if field != 'all':
        kw['field'] = field
    if case['reverse']:
        kw['reverse'] = True
    if case['case']:
        kw['caseSensitive'] = True
    same(ctx, col.citeFilter(key, **kw), want, 'citeFilter(%r, %r)' % (key, kw))
    ctx.nontrivial(0 < len(want) < len(recs))
    ctx.label(field, 0 < len(want) < len(recs))


suite.larger(cite_filter, 240, world=crowds)


@suite.test(fixed(world=world, key=one('citation', 'journal', 'year', 'author'), pandas=st.booleans()), quick=5000, rule='a key that occurs in two records')
def cite_stats(case, ctx):
    col, recs = make(['R', case['world']])
    want, where = collections.Counter(), collections.defaultdict(set)
    for i, r in enumerate(recs):
        for c in cites(r):
            k = c.ID() if case['key'] == 'citation' else getattr(c, case['key'], None)
            if k is not None:
                want[k] += 1
                where[k].add(i)
    kw = {}
    if case['key'] != 'citation':
        kw['keyType'] = case['key']
    if case['pandas']:
        kw['pandasFriendly'] = True
    got = col.localCiteStats(**kw)
    if case['pandas']:
        ctx.eq(sorted(got), ['Citations', 'Counts'], 'columns')
        ctx.eq(len(got['Citations']), len(got['Counts']), 'lengths of the columns')
        pairs = list(zip(got['Citations'], got['Counts']))
    else:
        pairs = list(got.items())
    if case['key'] == 'citation':
        ctx.check(all(isinstance(c, mk.Citation) for c, n in pairs), lambda: 'keys that are no citations: %r' % (pairs,))
        pairs = [(c.ID(), n) for c, n in pairs]
    ctx.eq(len(pairs), len({k for k, n in pairs}), 'every key once')
    ctx.eq(dict(pairs), dict(want), 'counts of %ss' % case['key'])
    with ctx.raises(TypeError, 'an unknown key type'):
        col.localCiteStats(keyType='title')
    ctx.nontrivial(any(len(v) > 1 for v in where.values()))


suite.larger(cite_stats, 240, world=crowds)
