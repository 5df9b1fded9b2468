"""C36: glimpses of generated collections under generated terminal sizes are taken apart and compared with an independent ranking of the values."""
import collections
import datetime
import os
import re

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import RC, WOSRecord, fixed, ints, one, weigh, wos_text
from mkv.worlds import make, values, world
from props.C18 import hashable

suite = Suite('C36')
TAGS = ['AF', 'DE', 'J9', 'CR', 'PT', 'AU', 'PY', 'ID', 'authorsFull', 'keywords', 'citations', 'journal', 'year', 'title', 'authorsShort', 'language', 'TI', 'FAU', 'MH', 'Authors', 'no such tag', 'Authors with affiliations', 'id']
TEXT = ['Columns are ranked by num. of occurrences', 'and are independent of one another']
DEFAULT = [('Top Authors', 'authorsFull'), ('Top Journals', 'journal'), ('Top Cited', 'citations')]


def ranking(recs, tag):
    """[(the ways the value can be written, rank)], equal values being one"""
    count, forms = collections.Counter(), {}
    for r in recs:
        for v in values(r, tag) or []:
            count[v] += 1
            forms.setdefault(v, set()).add(str(v))
    order = sorted(set(count.values()), reverse=True)
    return [(forms[v], order.index(n) + 1) for v, n in count.items()]


def fit(s, width):
    return s.rjust(width) if len(s) <= width else s[:width - 1] + '.'


def shown(ctx, got, ranked, limit, show, what):
    """got: [(rank as text, text)] must be the first entries of a ranking, ties in any order."""
    ctx.eq(len(got), min(limit, len(ranked)), what + ': entries')
    ctx.eq([r for r, s in got], [str(r) for r in sorted(r for f, r in ranked)[:len(got)]], what + ': ranks')
    left = [({show(f, str(r)) for f in fs}, str(r)) for fs, r in ranked]
    for r, s in got:
        hit = next((e for e in left if e[1] == r and s in e[0]), None)
        if hit is None:
            ctx.check(False, lambda: '%s: %r of rank %s is not (again) among the values %r' % (what, s, r, left))
        left.remove(hit)


@suite.test(fixed(world=world, tags=weigh((2, st.just([])), (5, st.lists(one(*TAGS), min_size=1, max_size=5, unique=True)), (1, st.permutations(TAGS))), compact=st.booleans(), cols=weigh((2, ints(55, 140)), (1, ints(10, 60)), (1, one(80, 78, 76, 77, 240, None))), lines=weigh((3, ints(6, 14)), (1, ints(1, 40)), (1, one(24, None)))), quick=6000, rule='two values with different ranks')
def table(case, ctx):
    glimpse(case, ctx, *make(case['world']))


def glimpse(case, ctx, rc, recs):
    names = [(t, t) for t in case['tags']] or DEFAULT
    if not hashable(recs, *[t for n, t in names]):
        return
    ranked = {n: ranking(recs, t) for n, t in names}
    if any('\n' in f for e in ranked.values() for fs, r in e for f in fs):
        return
    saved = {k: os.environ.get(k) for k in ('COLUMNS', 'LINES')}
    try:
        for k, v in (('COLUMNS', case['cols']), ('LINES', case['lines'])):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = str(v)
        before = datetime.datetime.now().replace(microsecond=0)
        got = rc.glimpse(*case['tags'], compact=True) if case['compact'] else rc.glimpse(*case['tags'])
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    width = case['cols'] if case['cols'] is not None and case['cols'] >= 55 else 80
    height = case['lines'] if case['lines'] is not None and case['lines'] >= 6 else 24
    one_line = len(' '.join(TEXT)) <= width
    rows = height - (6 if one_line else 7)
    lines = got.split('\n')
    head = lines[0].strip('+')
    m = re.fullmatch(r'(\w+) glimpse made at: (.*)', head)
    ctx.check(bool(m) and m.group(1) == type(rc).__name__, lambda: 'first line %r' % lines[0])
    made = datetime.datetime.strptime(m.group(2), '%Y-%m-%d %H:%M:%S')
    ctx.check(before <= made <= datetime.datetime.now(), lambda: 'time of the glimpse: %r, not after %s' % (lines[0], before))
    second = '%d Records from %s' % (len(rc), rc.name[:30])
    if case['compact']:
        ctx.eq(set(map(len, lines)), {width}, 'widths of the lines')
        texts = [second] + ([' '.join(TEXT)] if one_line and len(' '.join(TEXT)) <= width - 2 else TEXT)
        for t, l in zip(texts, lines[1:]):
            ctx.eq(l, '|' + t.ljust(width - 2, '+') + '|', 'line of the header')
        lines = lines[1 + len(texts):]
        ctx.eq(len(lines), max(rows, 0) + 1, 'rows of the table')
        heads = lines[0][1:-1].split('+')
        ctx.eq(len(heads), len(names), 'columns')
        widths = list(map(len, heads))
        ctx.check(max(widths) - min(widths) <= 1, lambda: 'widths of the columns: %r' % widths)
        cells = []
        for l in lines[1:]:
            at, row = 0, []
            for w in widths:
                ctx.eq(l[at], '|', 'border in %r' % l)
                row.append(l[at + 1:at + 1 + w])
                at += w + 1
            ctx.eq(l[at:], '|', 'right border')
            cells.append(row)
        for i, (n, t) in enumerate(names):
            h = heads[i].strip('-')
            ctx.check(h == n.strip('-') if len(n) <= widths[i] else n.startswith(h.rstrip('.')), lambda: 'heading %r of %r' % (heads[i], n))
            # a rank has at least two places, and the value what is left of the column
            k, w = min(len(ranked[n]), len(cells)), widths[i]
            col = [r[i] for r in cells]
            ctx.eq(col[k:], [('-1' + fit('NA', max(w - 2, 0)))[:w]] * (len(col) - k), 'cells without a value')
            if w < 5:  # too narrow for a rank and a value
                continue
            places = [max(2, len(str(r))) for r in sorted(r for f, r in ranked[n])[:k]]
            shown(ctx, [(c[:p].strip(), c[p:]) for c, p in zip(col, places)], ranked[n], len(col), lambda s, r: fit(s, w - max(2, len(r))), 'column ' + n)
    else:
        ctx.eq(lines[1], second, 'second line')
        lines = lines[2:]
        ctx.check(all(len(l) <= width for l in lines), 'a line is wider than the terminal')
        limit = max(rows, 0) // 2
        for n, t in names:
            ctx.eq(lines[:2], ['', n], 'heading')
            k = min(limit, len(ranked[n]))
            part = [tuple(l.split(' ', 1)) for l in lines[2:2 + k]]
            shown(ctx, part, ranked[n], limit, lambda s, r: s[:width - len(r) - 1], 'values of ' + n)
            lines = lines[2 + k:]
        ctx.eq(lines, [], 'lines after the last tag')
    ctx.nontrivial(rows > 2 and any(len({r for f, r in e}) > 1 for e in ranked.values()))
    ctx.label('compact', case['compact'])
    ctx.label('more values than rows', any(len(e) > rows for e in ranked.values()))
    ctx.label('grants', case['world'][0] == 'G')
    ctx.label('rank of three digits', case['compact'] and any(r > 99 for e in ranked.values() for f, r in sorted(e, key=lambda p: p[1])[:max(rows, 0)]))


@suite.test(fixed(n=ints(90, 130), extra=ints(0, 5), tags=one(['AF'], [], ['AF', 'DE'], ['DE', 'PT', 'AF']), compact=weigh((4, st.just(True)), (1, st.just(False))), cols=ints(55, 120), lines=weigh((3, ints(106, 160)), (1, ints(20, 106)))), quick=64, rule='two values with different ranks')
def tall(case, ctx):
    """Terminals with room for ranks of three digits."""
    n = case['n']
    recs = [WOSRecord(wos_text([['PT', ['J']], ['AF', ['Author %d, X' % j for j in range(i, n)] + ['Other %d, Y' % j for j in range(case['extra'])]], ['DE', ['; '.join('word %d' % j for j in range(0, i, 3)) or 'x']], ['UT', ['WOS:%d' % i]]])) for i in range(n)]
    glimpse(dict(case, world=['R']), ctx, RC(recs, name=('tall ' * 9)[:case['n'] % 41]), recs)


@suite.test(fixed(n=weigh((3, ints(2, 20)), (1, ints(990, 1300))), k=ints(100, 400), tags=one(['TI'], [], ['TI', 'AB', 'J9'], ['AF', 'TI']), compact=st.booleans(), cols=one(80, 155, 200, 300, 420), lines=ints(10, 60)), quick=64, rule='two values with different ranks')
def wide(case, ctx):
    """Wide terminals, long values and many records."""
    text = lambda w, i: ' '.join('%s%d' % (w, j) for j in range(i, i + case['k'] // 4))
    recs = [WOSRecord(wos_text([['PT', ['J']], ['TI', [text('title', i % 7 * (i % 3))]], ['AB', [text('x', i % 5)]], ['J9', [text('J', i % 4)]], ['AF', [text('Author', i % 9) + ', X']], ['CR', [text('LEVY', i % 3) + ', 1990, NATURE']], ['UT', ['WOS:%d' % i]]])) for i in range(case['n'])]
    glimpse(dict(case, world=['R']), ctx, RC(recs, name=text('name', 3)), recs)
