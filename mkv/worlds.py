"""Small worlds of records and grants whose values collide often, for the counting and network properties."""
import random

from hypothesis import strategies as st

from mkv.env import mk
from mkv.gen import GC, RC, any_record, author_full, author_short, build, cite_line, ints, one, tup, weigh


@st.composite
def small_wos(draw):
    f = [['UT', ['WOS:%03d' % draw(ints(0, 60))]]]
    vals = {'AF': st.lists(author_full, min_size=1, max_size=5), 'AU': st.lists(author_short, min_size=1, max_size=3), 'DE': st.lists(one('a', 'b', 'c'), min_size=1, max_size=4).map(lambda x: ['; '.join(x)]),
            'J9': one(['NATURE'], ['CELL'], ['ANN PHYS']), 'CR': st.lists(st.one_of(one('LEVY Y, 1975, NATURE', 'Levy Y, 1975, NATURE', 'SMITH J, 1980, CELL'), cite_line()), min_size=1, max_size=4), 'PT': one(['J'], ['B']),
            'TI': one(['On x'], ['y', 'z']), 'VL': one(['12'], ['3']), 'LA': one(['English'], ['French'], ['"x", y']), 'ID': one(['a; b'], ['c; c'])}
    if draw(ints(0, 4)):
        f.append(['PY', ['%d' % draw(ints(1989, 1992))]])
    for t in draw(st.lists(one(*vals), min_size=1, max_size=6, unique=True)):
        f.append([t, draw(vals[t])])
    return f


wos = tup(st.just('W'), small_wos())
letters = st.lists(one('a', 'b', 'c'), min_size=1, max_size=3)
dense = st.builds(lambda y, af, de, j, n, more: ['W', [['UT', ['WOS:1']]] + [['PY', [str(y)]]] * (y > 0) + [['AF', af]] * (n > 0) + [['DE', ['; '.join(de)]]] + [['J9', [j]]] * (n != 1) + more],
                  one(1990, 1991, 0), st.lists(one('Levy, Y', 'Smith, J', 'Li, X'), min_size=1, max_size=3), letters, one('NATURE', 'CELL'), ints(0, 5),
                  st.one_of(st.just([]), letters.map(lambda l: [['ID', ['; '.join(l)]]]), st.just([['LA', ['a']]]), st.just([['LA', ['English']], ['ID', ['b; x']]])))
collection = weigh((5, st.lists(dense, min_size=3, max_size=8)), (2, st.lists(wos, min_size=2, max_size=8)), (2, st.lists(st.one_of(wos, any_record()), max_size=7)))
COLS = ['PI', 'Co-PIs', 'University', 'year', 'Amount', 'Title']
grant = st.dictionaries(one(*COLS), st.one_of(one('Levy', 'Smith', 'x', ''), ints(1, 3), st.lists(one('Levy', 'Smith', 'x'), max_size=3)), min_size=1, max_size=5).flatmap(
    lambda d: st.builds(lambda y, d: dict(d, year=y) if y else {k: v for k, v in d.items() if k != 'year'}, one(0, 1990, 1991, 1992), st.just(d)))
world = weigh((5, tup(st.just('R'), collection)), (1, tup(st.just('G'), st.lists(grant, min_size=2, max_size=7))))


def make(w):
    kind, items = w
    if kind == 'R':
        recs = []
        for i, (src, fields) in enumerate(items):
            if src == 'W':
                fields = [[t, ['WOS:%03d' % i]] if t == 'UT' else [t, v] for t, v in fields]
            recs.append(build(src, fields))
        rc = RC(recs)
        return rc, list(rc)
    recs = [mk.FallbackGrant('grant %d' % i, dict(g)) for i, g in enumerate(items)]
    gc = GC(recs)
    return gc, list(gc)


def values(r, tag):
    v = r.get(tag)
    if v is None and tag not in r:
        return None
    return list(v) if isinstance(v, list) else [v]


def edge_key(g, u, v):
    return (u, v) if g.is_directed() or repr(u) <= repr(v) else (v, u)


def edges(g):
    """{(u, v): attributes} or, for multigraphs, {(u, v, str(key)): attributes}; both ends of an undirected edge in sorted order."""
    if g.is_multigraph():
        return {edge_key(g, u, v) + (str(k),): dict(d) for u, v, k, d in g.edges(keys=True, data=True)}
    return {edge_key(g, u, v): dict(d) for u, v, d in g.edges(data=True)}


def nodes(g):
    return {n: dict(d) for n, d in g.nodes(data=True)}


STEMMERS = {'none': None, 'first': lambda s: s[:1], 'upper': lambda s: s.upper(), 'same': lambda s: 'X', 'last': lambda s: s[-1:]}


JOURNALS = ['NATURE', 'CELL', 'PAIN', 'J THEOR BIOL', 'MY J']
FIRST = ['John', 'Mary', 'Y', 'J', 'Xin', 'J. M.']


def crowd(seed, n, k):
    """n WOS records with up to k values for each field that can have many; values recur, some fields occur in one record only."""
    r = random.Random(seed)
    pool = k + k // 3 + 3
    people = ['%s%s, %s' % (('Levy', 'Smith', 'Li')[i % 3], chr(97 + i // 26 % 26) + chr(97 + i % 26) if i > 2 else '', FIRST[i % len(FIRST)]) for i in range(pool)]
    works = ['%s %s, %d, %s%s' % (people[i % min(7, pool)].split(',')[0].upper(), people[i % min(7, pool)].split(', ')[1][0], 1975 + i % 16, JOURNALS[i % 5], ('', ', V%d' % i, ', V%d, P%d' % (i, i))[i % 3]) for i in range(pool + 5)] + ['[Anonymous], 1980, REPORT', 'SMITH J', '1981, NATURE']
    words = ['word %d' % i if i % 3 else 'w%d' % i for i in range(pool)]
    most = lambda: k if r.random() < .5 else r.randint(1, k)
    rare = ['LA', 'DT', 'SC', 'PU', 'RP', 'EM', 'FU', 'IS', 'SN', 'WC', 'GA', 'SI', 'MA', 'BN']
    out = []
    for i in range(n):
        f = [['PT', ['J']], ['UT', ['WOS:%04d' % i]]]
        if r.random() < .9:
            f.append(['AF', r.sample(people, most())])
        if r.random() < .9:
            f.append(['AU', [p.split(', ')[0] + ', ' + p.split(', ')[1][0] for p in r.sample(people, min(most(), pool))]])
        f.append(['TI', ['On %s' % words[i % pool], 'y%d' % i]])
        if r.random() < .8:
            f.append(['DE', ['; '.join(r.sample(words, most()))]])
        if r.random() < .3:
            f.append(['ID', ['; '.join(r.sample(words, most()))]])
        if r.random() < .6:
            f.append(['AB', [' '.join(r.choice(words) + r.choice(['', '.', ',', ' The']) for _ in range(r.randint(1, 9))) for _ in range(min(most(), 40))]])
        if r.random() < .9:
            f.append(['PY', [str(r.randint(1978, 1992))]])
        if r.random() < .9:
            f.append(['J9', [r.choice(JOURNALS)]])
        if r.random() < .9:
            f.append(['CR', r.sample(works, most())])
        if i >= n - 2 or r.random() < .02:
            f.append([r.choice(rare), ['z%d' % i]])
        out.append(['W', f])
    return out


# many records, records with many values, and some of each
crowds = weigh((2, st.builds(crowd, ints(0, 999), ints(40, 150), ints(1, 4))), (2, st.builds(crowd, ints(0, 999), ints(2, 4), ints(50, 150))), (1, st.builds(crowd, ints(0, 999), ints(12, 30), ints(8, 30))))
crowd_world = crowds.map(lambda c: ['R', c])
