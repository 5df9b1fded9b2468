"""C18: generated record and grant collections are ranked, put in time order and counted for co-occurrences, and every result (list, pandas, file) is compared with an independent count over the records."""
import collections
import csv

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc
from mkv.gen import WOS_NAMES, fixed, ints, one, weigh
from mkv.worlds import COLS, crowd_world, make, values, world

suite = Suite('C18')


TAGS = ['AF', 'DE', 'J9', 'CR', 'PT', 'TI', 'AU', 'VL', 'LA', 'PY', 'ID', 'authorsFull', 'keywords', 'citations', 'journal', 'year', 'authorsShort', 'language', 'title', 'id', 'selfCitation',
        'citedRefs', 'EID', 'Authors', 'Source', 'FAU', 'MH', 'DP', 'AID', 'Subject', 'Authors with affiliations', 'QQ']
def hashable(recs, *tags):
    try:
        for r in recs:
            for t in tags:
                for v in values(r, t) or []:
                    hash(v)
    except TypeError:
        return False
    return True


def limit(case, present):
    """The values to limit to: some that occur and some that do not; None for no limit."""
    if case['limit'] is None:
        return None
    vals = sorted(present, key=repr)
    near = [str(vals[(i + j) % len(vals)]) + x for i in case['limit'][:1] if vals for j, x in ((0, ' '), (1, ''), (1, 'x'), (2, ''))]  # like a value but not one, unless it is
    return [vals[i % len(vals)] for i in case['limit'] if vals] + near + ['no such value']


def rows(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.reader(f))


tags = weigh((6, one('AF', 'DE', 'J9', 'PY', 'keywords', 'authorsFull', 'journal', 'year')), (1, one(*TAGS[:12])), (1, one(*TAGS)), (1, one(*WOS_NAMES)), (1, one(*COLS)))
limits = weigh((3, st.none()), (2, st.lists(ints(0, 9), min_size=1, max_size=4)))


@suite.test(fixed(world=world, tag=tags, greatest=st.booleans(), limit=limits, file=st.booleans()), quick=5000, rule='two values with different counts')
def ranked(case, ctx):
    rc, recs = make(case['world'])
    tag = case['tag']
    if not hashable(recs, tag):
        return
    want = collections.Counter(v for r in recs for v in values(r, tag) or [])
    lim = limit(case, want)
    if lim is not None:
        want = collections.Counter({k: n for k, n in want.items() if k in lim})
    order = sorted(set(want.values()), reverse=True)
    rank = {k: order.index(n) + 1 for k, n in want.items()}
    kw = dict(greatestFirst=case['greatest'])
    if lim is not None:
        kw['limitTo'] = list(lim)

    def file(name):
        return {'outputFile': ctx.path(name)} if case['file'] else {}

    def ordered(got, counts, what):
        ctx.eq(len(got), len(set(got)), what + ': every value once')
        ctx.eq(set(got), set(want), what + ': values')
        ctx.check(all((want[a] >= want[b]) if case['greatest'] else (want[a] <= want[b]) for a, b in zip(got, got[1:])), lambda: '%s: not ordered by count (greatestFirst=%s): %r' % (what, case['greatest'], [(e, want[e]) for e in got]))

    outs = []
    for name, args in (('counts', dict(pandasMode=False)), ('ranks', dict(pandasMode=False, giveCounts=False, giveRanks=True)), ('values', dict(pandasMode=False, giveCounts=False)), ('pandas', {})):
        f = file(name)
        got = rc.rankedSeries(tag, **args, **kw, **f)
        if name == 'pandas':
            ctx.eq(sorted(got), ['count', 'entry', 'rank'], 'columns of the pandas series')
            ctx.eq(set(map(len, got.values())), {len(want)}, 'lengths of the columns')
            entries = list(got['entry'])
            ctx.eq(list(got['count']), [want[e] for e in entries], 'counts of the pandas series')
            ctx.eq(list(got['rank']), [rank[e] for e in entries], 'ranks of the pandas series')
        elif name == 'values':
            entries = list(got)
        else:
            entries = [e for e, n in got]
            ctx.eq([n for e, n in got], [{'counts': want, 'ranks': rank}[name].get(e) for e in entries], 'the ' + name)
        ordered(entries, None, name)
        outs.append(entries)
        if f:
            lines = rows(f['outputFile'])
            ctx.eq(lines[0], [tag, 'count'], 'header of the file')
            ctx.eq(sorted((v.upper(), n) for v, n in lines[1:]), sorted((str(k).upper() if k is not None else '', str(n)) for k, n in want.items()), 'rows of the file (%s)' % name)
            ctx.eq([int(x[1]) for x in lines[1:]], sorted(want.values(), reverse=case['greatest']), 'order of the rows')
    with ctx.raises(exc.mkException, 'both counts and ranks'):
        rc.rankedSeries(tag, giveCounts=True, giveRanks=True)
    ctx.nontrivial(len(set(want.values())) > 1)
    ctx.label('ties', len(set(want.values())) < len(want))
    ctx.label('limited', lim is not None)
    ctx.label('grants', case['world'][0] == 'G')


suite.larger(ranked, 240, world=crowd_world)


@suite.test(fixed(world=world, tag=weigh((1, st.none()), (5, tags)), greatest=st.booleans(), limit=limits, file=st.booleans()), quick=5000, rule='a value in two years or a year with two values')
def time(case, ctx):
    rc, recs = make(case['world'])
    tag = case['tag']
    if not hashable(recs, *[tag] if tag else []):
        return
    want = collections.Counter()
    for r in recs:
        y = r.get('year')
        if y is None and 'year' not in r:
            continue
        for v in ([r] if tag is None else values(r, tag) or []):
            want[v, y] += 1
    lim = None
    if tag is not None:
        lim = limit(case, {v for v, y in want})
        if lim is not None:
            want = collections.Counter({k: n for k, n in want.items() if k[0] in lim})
    kw = dict(greatestFirst=case['greatest'])
    if tag is not None:
        kw['tag'] = tag
    if lim is not None:
        kw['limitTo'] = list(lim)
    for name, args in (('years', dict(pandasMode=False)), ('values', dict(pandasMode=False, giveYears=False)), ('pandas', {})):
        f = {'outputFile': ctx.path(name)} if case['file'] else {}
        got = rc.timeSeries(**args, **kw, **f)
        if name == 'pandas':
            ctx.eq(sorted(got), ['count', 'entry', 'year'], 'columns of the pandas series')
            ctx.eq({len(v) for v in got.values()}, {len(want)}, 'lengths of the columns')
            pairs = list(zip(got['entry'], got['year']))
            ctx.eq(list(got['count']), [want[p] for p in pairs], 'counts of the pandas series')
        elif name == 'years':
            pairs = [tuple(p) for p in got]
        else:
            ctx.eq(collections.Counter(got), collections.Counter(v for v, y in want), 'values')
            best = [sorted((y for v, y in want if v == e), reverse=case['greatest']) for e in dict.fromkeys(got)]
            first = [b[0] for b in best]
            ctx.eq(first, sorted(first, reverse=case['greatest']), 'order of the values')
            pairs = None
        if pairs is not None:
            ctx.eq(collections.Counter(pairs), collections.Counter(set(want)), 'pairs (%s)' % name)
            ys = [y for v, y in pairs]
            ctx.eq(ys, sorted(ys, reverse=case['greatest']), 'order of the years (%s)' % name)
        if f:
            lines = rows(f['outputFile'])
            ctx.eq(lines[0], [str(tag), 'years'], 'header of the file')
            got = sorted((v.upper(), tuple(sorted(ys.split('|')))) for v, ys in lines[1:])
            ctx.eq(got, sorted(('' if v is None else str(v).upper(), tuple(sorted(str(y) for w, y in want if w == v))) for v in {v for v, y in want}), 'rows of the file')
    ctx.nontrivial(len({v for v, y in want}) < len(want) or len({y for v, y in want}) < len(want))
    ctx.label('records', tag is None)
    ctx.label('limited', lim is not None)


suite.larger(time, 240, world=crowd_world)


@suite.test(fixed(world=world, key=tags, counted=st.lists(tags, max_size=3)), quick=5000, rule='a pair of values that occurs at least twice')
def cooccurrence(case, ctx):
    rc, recs = make(case['world'])
    key, counted = case['key'], case['counted']
    if not hashable(recs, key, *counted):
        return
    if not counted:
        with ctx.raises(exc.TagError, 'no counted tags'):
            rc.cooccurrenceCounts(key)
        return
    want = {}
    for r in recs:
        for k in values(r, key) or []:
            if k is None:
                continue
            d = want.setdefault(k, collections.Counter())
            for t in counted:
                for v in values(r, t) or []:
                    if v is not None or isinstance(r.get(t), list):
                        d[v] += 1
    got = rc.cooccurrenceCounts(key, *counted)
    ctx.eq({k: dict(v) for k, v in got.items()}, {k: dict(v) for k, v in want.items()}, 'co-occurrence counts')
    for bad in (5, None, ['AF']):
        with ctx.raises(exc.TagError, 'a tag that is not a string'):
            rc.cooccurrenceCounts(bad, *counted)
        with ctx.raises(exc.TagError, 'a counted tag that is not a string'):
            rc.cooccurrenceCounts(key, *counted, bad)
    ctx.nontrivial(any(n > 1 for d in want.values() for n in d.values()))
    ctx.label('several counted tags', len(set(counted)) > 1)


suite.larger(cooccurrence, 240, world=crowd_world)
