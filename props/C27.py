"""C27: diffusionCount, diffusionGraph and diffusionAddCountsFromSource on generated source and target collections are compared with an independent count of the citations from the one to the other."""
import collections

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import RC, build, canon, fixed, ints, one, weigh
from mkv.worlds import edges, nodes

suite = Suite('C27')
NAMES = ['Levy, Y', 'Smith, J', 'Li, X']
JOURNALS = ['NATURE', 'CELL']
letters = st.lists(one('a', 'b', 'c'), min_size=1, max_size=3, unique=True)


@st.composite
def rec(draw):
    """side S, T or both; every record has its own year, so own citations differ."""
    r = {'side': draw(one('S', 'T', 'B')), 'AU': draw(st.lists(one(*NAMES), max_size=3, unique=True)), 'J9': draw(one(*JOURNALS)), 'AF': draw(st.lists(one('Levy, Yvonne', 'Smith, John', 'a'), max_size=3, unique=True)),
         'DE': draw(st.one_of(st.just([]), letters)), 'WC': draw(st.one_of(st.just([]), letters)), 'LA': draw(st.one_of(st.just([]), st.just(['English']), st.just(['a']))), 'TI': draw(one('', 't', 'u'))}
    # references: (record, author index, spelling) or a work outside of the collections
    r['CR'] = draw(st.lists(st.one_of(st.tuples(ints(0, 7), ints(0, 2), ints(0, 2)).map(list), st.tuples(ints(0, 7), st.just(0), ints(0, 2)).map(list), one('NOBODY A, 1900, X', 'REPORT', 'LEVY Y, 1970, PAIN')), max_size=6))
    return r


world = weigh((5, st.lists(rec(), min_size=3, max_size=7)), (1, st.lists(rec(), max_size=2)))


def year(i):
    return 1970 + i


def collections_of(case):
    recs, src, tgt = [], [], []
    w = case['world']
    for i, d in enumerate(w):
        refs = []
        for c in d['CR']:
            if isinstance(c, list):
                n, a, how = c
                n %= len(w)
                o = w[n]
                if not o['AU']:
                    continue
                a = o['AU'][a % len(o['AU'])]
                a = a.replace(',', '')
                refs.append(['{}, {}, {}', '{}., {}, {}, V5, P1', '{}, {}, {}, DOI 10.1/x'][how].format(a.upper() if how else a, year(n), o['J9']))
            else:
                refs.append(c)
        f = [['PT', ['J']], ['UT', ['WOS:%03d' % i]], ['PY', [str(year(i))]], ['J9', [d['J9']]]]
        for t in ('AU', 'AF', 'LA', 'TI'):
            if d[t]:
                f.append([t, d[t] if isinstance(d[t], list) else [d[t]]])
        for t in ('DE', 'WC'):
            if d[t]:
                f.append([t, ['; '.join(d[t])]])
        if refs:
            f.append(['CR', refs])
        r = build('W', f)
        recs.append(r)
        if d['side'] in 'SB':
            src.append(r)
        if d['side'] in 'TB':
            tgt.append(r)
    return RC(src), RC(tgt), src, tgt


def own_ids(r, every):
    auths = [a.replace(',', '') for a in (r.get('AU') or [])]
    rest = '%d, %s' % (r['PY'], r['J9'])
    if not auths:
        return [rest]
    return ['%s, %s' % (a, rest) for a in (auths if every else auths[:1])]


def vals(r, tag):
    if tag == 'raw':
        return [r]
    v = r.get(tag)
    return [] if v is None else list(v) if isinstance(v, list) else [v]


MAPS = {'none': lambda x: x, 'str': str, 'len': lambda x: len(str(x))}


def count(src, tgt, tag, extra, every, mapping):
    owner, out = {}, {}
    for r in src:
        if vals(r, tag):
            for i in own_ids(r, every):
                owner[i] = r
            for v in vals(r, tag):
                out[v] = collections.Counter({'TargetCount': 0}) if extra else 0
    for t in tgt:
        for c in t.get('citations') or []:
            r = owner.get(c.ID())
            if r is None:
                continue
            for v in vals(r, tag):
                if extra:
                    out[v]['TargetCount'] += 1
                    for e in vals(t, extra):
                        out[v][mapping(e)] += 1
                else:
                    out[v] += 1
    return {k: dict(v) if extra else v for k, v in out.items()}


def key(v):
    return ('record', v.id) if isinstance(v, mk.Record) else ('citation', v.ID()) if isinstance(v, mk.Citation) else v


def keyed(d):
    return {key(k): v for k, v in d.items()}


tags = weigh((3, st.just('raw')), (3, one('AF', 'DE', 'WC', 'authorsFull', 'keywords')), (2, one('J9', 'PY', 'LA', 'TI', 'year', 'id', 'UT', 'citations')))
extras = weigh((2, st.none()), (3, one('PY', 'year', 'DE', 'AF', 'LA', 'J9', 'keywords', 'TI')))


@suite.test(fixed(world=world, tag=tags, extra=extras, pandas=st.booleans(), compare=st.booleans(), every=weigh((2, st.just(True)), (1, st.just(False))), numauth=weigh((2, st.just(True)), (1, st.just(False))), mapping=weigh((2, st.just('none')), (1, one(*MAPS)))),
            quick=7000, rule='a source value with at least two citations')
def counts(case, ctx):
    S, T, src, tgt = collections_of(case)
    tag, extra = case['tag'], case['extra']
    mapping = MAPS[case['mapping']] if extra else MAPS['none']
    want = count(src, tgt, tag, extra, case['every'], mapping)
    local = count(src, src, tag, extra, case['every'], mapping)
    kw = {}
    for k, v, default in (('sourceType', tag, 'raw'), ('extraValue', extra, None), ('pandasFriendly', case['pandas'], False), ('compareCounts', case['compare'], False), ('useAllAuthors', case['every'], True), ('numAuthors', case['numauth'], True)):
        if v != default:
            kw[k] = v
    if extra and case['mapping'] != 'none':
        kw['extraMapping'] = mapping
    got = mk.diffusionCount(S, T, **kw)
    if not case['pandas']:
        got = keyed(got)
        if case['compare']:
            ctx.check(all(isinstance(v, tuple) and len(v) == 2 for v in got.values()), lambda: 'counts compared are no pairs: %r' % (got,))
            ctx.eq({k: v[1] for k, v in got.items()}, keyed(local), 'counts in the source')
            got = {k: v[0] for k, v in got.items()}
        ctx.eq(got, keyed(want), 'counts in the target')
    else:
        lengths = {k: len(v) for k, v in got.items()}
        ctx.check(len(set(lengths.values())) <= 1, lambda: 'columns of different lengths: %r' % lengths)
        cols = {'TargetCount'} | ({'SourceCount'} if case['compare'] else set()) | ({extra} if extra else set())
        if tag == 'raw':
            fields = sorted({t for r in src for t in r} - {extra})
            cols |= set(fields) | ({'numAuthors'} if case['numauth'] else set())
        else:
            fields = []
            cols.add(tag)
        if extra and extra == tag:
            return
        ctx.eq(set(got), cols, 'columns')
        rows = []
        for v, n in want.items():
            for e, m in (n.items() if extra else [(None, n)]):
                row = {'TargetCount': m}
                if case['compare']:
                    row['SourceCount'] = local[v].get(e, 0) if extra else local[v]
                if extra:
                    row[extra] = e
                if tag == 'raw':
                    row.update({t: v.get(t) for t in fields})
                    if case['numauth']:
                        row['numAuthors'] = len(v.get('AU') or [])
                else:
                    row[tag] = v
                rows.append(row)
        have = [{c: got[c][i] for c in cols} for i in range(len(got['TargetCount']))]
        norm = lambda rs: sorted(repr([(c, canon(r[c]) if not isinstance(r[c], mk.Citation) else r[c].ID()) for c in sorted(cols)]) for r in rs)
        ctx.eq(norm(have), norm(rows), 'rows of the table')
    for bad in ((src, T), (S, tgt)):
        with ctx.raises(RuntimeError, 'something that is no collection'):
            mk.diffusionCount(*bad)
    for bad in (dict(sourceType=5), dict(extraValue=5)):
        with ctx.raises(RuntimeError, 'a tag that is no string'):
            mk.diffusionCount(S, T, **bad)
    ctx.nontrivial(any((n['TargetCount'] if extra else n) > 1 for n in want.values()))
    ctx.label('table', case['pandas'] and bool(want))
    ctx.label('compared', case['compare'] and bool(want))
    ctx.label('extra value', bool(extra) and any(len(n) > 1 for n in want.values()))


LISTS = ['AF', 'DE', 'WC', 'authorsFull', 'AU', 'keywords']


@suite.test(fixed(world=world, source=one(*LISTS), target=one(*LISTS), label=weigh((2, st.none()), (2, one('PY', 'DE', 'J9', 'AF', 'year'))), weighted=st.booleans()), quick=7000, rule='an edge that stands for two citations, or two parallel edges')
def graph(case, ctx):
    S, T, src, tgt = collections_of(case)
    sv, tv = (lambda r: vals(r, case['source'])), (lambda r: vals(r, case['target']))
    label = case['label']
    if label and not all(vals(t, label) for t in tgt):
        return
    owner = {i: r for r in src if sv(r) for i in own_ids(r, False)}
    svals, tvals = {v for r in src for v in sv(r)}, {v for r in tgt for v in tv(r)}
    weight = collections.Counter()
    for t in tgt:
        for c in t.get('citations') or []:
            r = owner.get(c.ID())
            if r is not None:
                for a in sv(r):
                    for b in tv(t):
                        for e in (map(str, vals(t, label)) if label else [None]):
                            weight[(a, b, e) if label else (a, b)] += 1
    kw = dict(sourceType=case['source'], targetType=case['target'])
    if label:
        kw['labelEdgesBy'] = label
    if not case['weighted']:
        kw['weighted'] = False
    g = mk.diffusionGraph(S, T, **kw)
    ctx.eq((g.is_directed(), g.is_multigraph()), (True, bool(label)), 'kind of graph')
    ctx.eq(nodes(g), {v: {'source': v in svals, 'target': v in tvals} for v in svals | tvals}, 'nodes')
    e = edges(g)
    ctx.eq(set(e), set(weight), 'edges')
    for k, d in e.items():
        ctx.eq(d, {'weight': weight[k]} if case['weighted'] else {}, 'attributes of edge %r' % (k,))
    for bad in (dict(sourceType='nosuchtag'), dict(targetType='nosuchtag'), dict(labelEdgesBy='nosuchtag')):
        with ctx.raises(RuntimeError, 'an unknown tag'):
            mk.diffusionGraph(S, T, **bad)
    ctx.nontrivial(any(n > 1 for n in weight.values()) or (label and len({k[:2] for k in weight}) < len(weight)))
    ctx.label('labelled', bool(label and weight))
    ctx.label('value of both sides', bool(svals & tvals))


@suite.test(fixed(world=world, tag=one('AF', 'DE', 'WC', 'J9', 'PY', 'keywords'), extra=extras, given=st.booleans(), label=one('DiffusionCount', 'n')), quick=4000, rule='a node with a count of two or more')
def add_counts(case, ctx):
    S, T, src, tgt = collections_of(case)
    tag, extra = case['tag'], case['extra']
    if extra == 'TI':
        extra = None
    want = {str(k): v for k, v in count(src, tgt, tag, extra, True, MAPS['none']).items()}
    g = S.networkOneMode(tag)
    g.add_node('no such value')
    before = nodes(g)
    kw = dict(nodeType=tag)
    if extra:
        kw['extraType'] = extra
    if case['label'] != 'DiffusionCount':
        kw['diffusionLabel'] = case['label']
    if case['given']:
        given = mk.diffusionCount(S, T, sourceType=tag, extraValue=extra)
        kept = {k: dict(v) if extra else v for k, v in given.items()}
        kw['countsDict'] = given
    ret = mk.diffusionAddCountsFromSource(g, S, T, **kw)
    if case['given']:
        ctx.eq(given, kept, 'counts dictionary after the call')
    ctx.eq(ret, want, 'returned counts')
    for n, d in nodes(g).items():
        new = {case['label']: 0}
        if extra:
            for k, m in want.get(n, {}).items():
                new[case['label'] if k == 'TargetCount' else k] = m
        else:
            new[case['label']] = want.get(n, 0)
        ctx.eq(d, before[n] | new, 'attributes of node %r' % n)
    ctx.nontrivial(any((v['TargetCount'] if extra else v) > 1 for v in want.values()))


def many(seed, n, k):
    """A collection too large to be drawn record by record; k bounds the number of values of a field."""
    import random
    r = random.Random(seed)
    names = ['Name%d, X' % i for i in range(2 * k)]
    some = lambda pool, hi: r.sample(pool, r.randint(0, min(hi, len(pool))))  # noqa: E731
    out = []
    for i in range(n):
        out.append({'side': r.choice('SSTTB'), 'AU': some(names, k), 'J9': r.choice(JOURNALS), 'AF': some(['Name%d, Given' % i for i in range(2 * k)], k), 'DE': some(['k%d' % i for i in range(2 * k)], k), 'WC': some(['w%d' % i for i in range(k)], k),
                    'LA': [], 'TI': r.choice(['', 't', 'u']), 'CR': []})
        for j in range(r.choice([0, 3, k, 5 * k])):
            out[-1]['CR'].append(r.choice([[r.randrange(n), r.choice([0, 0, r.randrange(k)]), r.randrange(3)], 'NOBODY %s, 1900, X' % chr(65 + j % 26)]))
    return out


crowd = st.builds(many, ints(0, 10 ** 6), ints(25, 60), ints(3, 14))
suite.larger(counts, 200, world=crowd)
suite.larger(graph, 200, world=crowd)
suite.larger(add_counts, 120, world=crowd)
