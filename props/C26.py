"""C26: generated collections are split by year windows and turned into RPYS tables, which are compared with an independent count of records and references per year, medians and rank order."""
import bisect
import collections
import statistics

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import any_record, fixed, ints, one, weigh
from mkv.worlds import crowds, make
from props.C25 import cites, same

suite = Suite('C26')


@st.composite
def rec(draw, years=None):
    f = [['PT', ['J']], ['UT', ['WOS:1']]]
    if draw(ints(0, 7)):
        f.append(['PY', [str(draw(ints(1985, 1992)))]])
    if draw(ints(0, 7)):
        year = st.one_of(ints(1975, 1992), ints(1984, 1990)) if years is None else years
        f.append(['CR', draw(st.lists(st.one_of(st.builds('{}, {}, {}'.format, one('LEVY Y', 'SMITH J'), year, one('NATURE', 'CELL')), st.builds('SMITH J, {}'.format, year), one('LI X', '[Anonymous], REPORT')), min_size=1, max_size=8))])
    if draw(ints(0, 9)) == 0:
        d = {'EID': '2-s2.0-1', 'Title': 'T', 'Authors': 'Levy Y.', 'References': '; '.join(draw(st.lists(one('Levy, Y., On x (1985) Nature, 5, pp. 1-9', 'Smith, J., Y z (1987) Cell, 7', 'A book'), min_size=1, max_size=4)))}
        return ['S', dict(d, Year=str(draw(ints(1985, 1992)))) if draw(st.booleans()) else d]
    return ['W', f]


far = st.one_of(ints(996, 1004), ints(2096, 2105), ints(1, 999), ints(1985, 1988))
world = weigh((6, st.lists(rec(), min_size=2, max_size=7)), (1, st.lists(rec(), max_size=1)), (1, st.lists(rec(far), min_size=1, max_size=3)), (1, st.lists(st.one_of(rec(), any_record()), max_size=6)))


@suite.test(fixed(world=world, cuts=st.lists(ints(1983, 1995), min_size=2, max_size=5)), quick=5000, rule='two windows that each hold a record')
def year_split(case, ctx):
    col, recs = make(['R', case['world']])
    cuts = case['cuts']
    a, b = cuts[0], cuts[1]
    missing = [r for r in recs if not isinstance(r.get('year'), int)]
    want = [r for r in recs if r not in missing and a <= r['year'] <= b]
    same(ctx, col.yearSplit(a, b), want, 'yearSplit(%d, %d)' % (a, b))
    if missing:
        with ctx.raises(TypeError, 'a missing year when those are not to be dropped'):
            col.yearSplit(a, b, dropMissingYears=False)
    else:
        same(ctx, col.yearSplit(a, b, dropMissingYears=False), want, 'yearSplit(%d, %d, dropMissingYears=False)' % (a, b))
    edges = [0] + sorted(set(cuts)) + [10000]
    parts = [col.yearSplit(x, y - 1) for x, y in zip(edges, edges[1:])]
    ctx.eq(sorted(id(r) for p in parts for r in p), sorted(id(r) for r in recs if r not in missing), 'records of the windows %r' % (edges,))
    ctx.nontrivial(sum(len(p) > 0 for p in parts) > 1)
    ctx.label('missing years', bool(missing) and len(missing) < len(recs))


suite.larger(year_split, 240, world=crowds)


bound = lambda lo, hi: weigh((2, st.none()), (3, ints(lo, hi)), (1, one(995, 1002, 2098, 2103, 1990)))
drop = weigh((3, st.none()), (1, ints(1980, 1990)), (2, st.lists(ints(1980, 1990), max_size=4)))


@suite.test(fixed(world=world, lo=bound(1974, 1988), hi=bound(1982, 1995), drop=drop, kind=one('list', 'set', 'tuple'), empty=st.booleans()), quick=7000, rule='three years with different deviations')
def rpys(case, ctx):
    col, recs = make(['R', case['world']])
    counts = collections.Counter()
    for r in recs:
        y = r.get('year')
        for c in cites(r):
            cy = getattr(c, 'year', None)
            if cy is not None and (y is None or y >= cy + 2):
                counts[cy] += 1
    lo, hi = case['lo'], case['hi']
    kw = {}
    if lo is not None:
        kw['minYear'] = lo
    if hi is not None:
        kw['maxYear'] = hi
    # years outside the bounds only serve to calculate the medians
    inside = [y for y in counts if (lo is None or y >= lo - 2) and (hi is None or y <= hi + 2)]
    if inside:
        first = lo if lo is not None else max(1000, min(inside))
        last = hi if hi is not None else min(2100, max(inside))
        years = list(range(first, last + 1))
    elif lo is not None and hi is not None:
        years = list(range(lo, hi + 1))
    else:
        years = []
    if len(years) > 1200:
        return
    d = case['drop']
    if isinstance(d, int):
        kw['dropYears'] = d
        years = [y for y in years if y != d]
    elif d is not None:
        kw['dropYears'] = {'list': list, 'set': set, 'tuple': tuple}[case['kind']](d)
        years = [y for y in years if y not in d]
    if case['empty']:
        kw['rankEmptyYears'] = True
    dev = {y: counts[y] - statistics.median(counts[y + k] for k in (-2, -1, 0, 1, 2)) for y in years}
    got = col.rpys(**kw)
    ctx.eq(sorted(got), ['abs-deviation', 'count', 'rank', 'year'], 'columns')
    if isinstance(d, list):
        ctx.eq(list(kw['dropYears']), list({'list': list, 'set': set, 'tuple': tuple}[case['kind']](d)), 'dropYears after the call')
    ctx.eq({k: len(v) for k, v in got.items()}, {k: len(years) for k in got}, 'lengths of the columns')
    ctx.eq(sorted(got['year']), years, 'years')
    row = {y: (c, a, r) for y, c, a, r in zip(got['year'], got['count'], got['abs-deviation'], got['rank'])}
    ctx.eq({y: v[0] for y, v in row.items()}, {y: counts[y] for y in years}, 'counts')
    ctx.eq({y: v[1] for y, v in row.items()}, dev, 'deviations')
    ranked = [y for y in years if case['empty'] or counts[y]]
    for y in years:
        if y not in ranked:
            ctx.eq(row[y][2], 0, 'rank of the empty year %d' % y)
    ctx.eq(len({row[y][2] for y in ranked}), len(ranked), 'every rank once')
    order = sorted(dev.values())
    for y in ranked:  # years of equal deviation share a block of ranks
        a, b = bisect.bisect_left(order, dev[y]) + 1, bisect.bisect_right(order, dev[y])
        ctx.check(a <= row[y][2] <= b, lambda: 'rank of %d is %r, with deviation %r among %r it should be from %d to %d' % (y, row[y][2], dev[y], order, a, b))
    ctx.nontrivial(len(set(dev.values())) > 2)
    ctx.label('nothing cited', not inside)
    ctx.label('default bounds', not kw and bool(years))
    ctx.label('beyond the default bounds', bool(counts) and (min(counts) < 1000 or max(counts) > 2100))


suite.larger(rpys, 240, world=crowds)
