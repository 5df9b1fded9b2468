"""C02: ID lookup, bad entries, dropNonJournals, tags, chunk and split against list models."""
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import GC, RC, WOSRecord, element, fixed, ints, lists, one, tup

suite = Suite('C02')

rec = tup(one('W', 'W', 'W', 'M', 'S', 'P', 'B', 'B'), ints(0, 5))
grant = tup(one('G'), ints(0, 7))


def idof(spec):
    return element(spec).id


id_ops = lists(tup(one('contains', 'get', 'discard', 'remove', 'remove'), one('W', 'W', 'M', 'S', 'P', 'B', 'G', 'none'), ints(0, 6)), 1, 8)


@suite.test(fixed(recs=lists(tup(one('W', 'W', 'W', 'M', 'S', 'P', 'B', 'B'), ints(0, 5)), 0, 12), ops=id_ops), quick=6000,
            rule='some operation hits an id that is present and some one that is absent')
def id_operations(case, ctx):
    id_history(RC, case, ctx)


@suite.test(fixed(recs=lists(grant, 0, 8), ops=id_ops), quick=2000, rule='as id_operations')
def grant_id_operations(case, ctx):
    id_history(GC, case, ctx)


def id_history(cls, case, ctx):
    c = cls([element(s) for s in case['recs']])
    model = {element(s) for s in case['recs']}
    if case['recs'] and case['recs'][0][1] == 1:
        c.bad, c.errors = True, {'f': ValueError()}
    hit = miss = 0
    for name, k, n in case['ops']:
        idv = ['nothing', 'None', '', 'none'][n % 4] if k == 'none' else idof([k, n])
        present = {e for e in model if e.id == idv}
        hit, miss = hit + bool(present), miss + (not present)
        what = '%s(%r) with %s present' % (name, idv, bool(present))
        if name == 'contains':
            ctx.eq(c.containsID(idv), bool(present), what)
        elif name == 'get':
            g = c.getID(idv)
            ctx.check(g in present if present else g is None, what + ' gave %r' % (g,))
        elif name == 'discard':
            ctx.check(c.discardID(idv) is None, what)
        else:
            if present:
                c.removeID(idv)
            else:
                with ctx.raises(KeyError, what):
                    c.removeID(idv)
        if name in ('discard', 'remove') and present:
            now = set(c)
            gone = model - now
            ctx.check(len(gone) == 1 and gone <= present and now <= model, what + ' removed %s' % [g.id for g in gone])
            model = now
        ctx.check(set(c) == model and len(c) == len(model), what + ': contents changed to %s' % sorted(str(e.id) for e in c))
    ctx.nontrivial(hit and miss)


@suite.test(fixed(recs=lists(rec, 0, 12), err=one(True, False)), quick=4000, rule='both good and bad entries present')
def bad_entries(case, ctx):
    c = RC([element(s) for s in case['recs']])
    if case['err']:
        c.bad, c.errors = True, {'f': ValueError()}
    everything = set(c)
    good = {e for e in everything if not e.bad}
    bad = everything - good
    b = c.badEntries()
    ctx.check(type(b) is RC, 'badEntries type')
    ctx.eq(set(b), bad, 'badEntries')
    ctx.eq(set(c), everything, 'contents after badEntries')
    b.clear()
    ctx.eq(set(c), everything, 'contents after clearing the result of badEntries')
    old = c.copy()
    c.dropBadEntries()
    ctx.eq(set(c), good, 'dropBadEntries')
    ctx.check(not c.bad and not c.errors, 'bad or errors left after dropBadEntries')
    ctx.eq(set(old), everything, 'copy after dropBadEntries')
    ctx.check(not c.badEntries(), 'badEntries after dropBadEntries')
    ctx.nontrivial(good and bad)


ptrec = tup(ints(0, 20), one('J', 'J', 'B', 'C', 'S', 'P', None), one(True, True, True, False))


@suite.test(fixed(recs=lists(ptrec, 0, 10), pt=one(None, None, 'J', 'j', 'B', 'b', 'C', 's', 'X', 'JB', 'bj', ' J', ''), invert=one(False, True),
                  dropBad=one(None, True, False)), quick=4000, rule='some records kept, some dropped')
def drop_non_journals(case, ctx):
    recs = {}
    for n, pt, good in case['recs']:
        if pt is None and (good or case['dropBad'] is False):
            continue  # a record without a publication type: only bad ones, which are dropped first
        d = {'TI': ['t%d' % n]}
        if pt:
            d['PT'] = [pt]
        if good:
            d['UT'] = ['WOS:%d' % n]
        r = WOSRecord(d)
        if r not in recs:
            recs[r] = pt
    c = RC(list(recs))
    before = c.copy()
    kw = {}
    if case['pt'] is not None:
        kw['ptVal'] = case['pt']
    if case['invert']:
        kw['invert'] = True
    if case['dropBad'] is not None:
        kw['dropBad'] = case['dropBad']
    c.dropNonJournals(**kw)
    pt = ('J' if case['pt'] is None else case['pt']).upper()
    want = {r for r, p in recs.items() if (p == pt) != case['invert'] and not (r.bad and case['dropBad'] is not False)}
    ctx.eq(sorted(str(r.get('TI')) for r in c), sorted(str(r.get('TI')) for r in want), 'dropNonJournals(%s)' % kw)
    ctx.eq(set(c), want, 'dropNonJournals(%s)' % kw)
    ctx.eq(set(before), set(recs), 'copy taken before')
    ctx.nontrivial(want and len(want) < len(recs))


@suite.test(lists(tup(ints(0, 9), lists(one('AU', 'TI', 'PY', 'SO', 'DE', 'CR', 'ZZ'), 0, 5, unique=True)), 0, 6), quick=2500,
            rule='at least two records with different tags')
def tags_union(case, ctx):
    recs = {}
    for n, tags in case:
        recs.setdefault(n, WOSRecord(dict({'UT': ['WOS:%d' % n]}, **{t: ['1'] for t in tags})))
    c = RC(list(recs.values()))
    want = set()
    for n, tags in case:
        if set(recs[n]) == {'UT'} | set(tags):
            pass
    for r in recs.values():
        want |= set(r)
    got = c.tags()
    ctx.eq(sorted(got), sorted(want), 'tags()')
    first = {}
    for n, tags in case:
        first.setdefault(n, {'UT'} | set(tags))
    ctx.eq(set(got), set().union(*first.values()) if first else set(), 'tags()')
    ctx.nontrivial(len({frozenset(v) for v in first.values()}) > 1)


@suite.test(fixed(kind=one('R', 'G'), n=ints(0, 14), size=ints(1, 16), err=one(False, True)), quick=1500,
            rule='more than one part')
def chunk_split(case, ctx):
    n, size = case['n'], case['size']
    cls = RC if case['kind'] == 'R' else GC
    elems = {element(['W' if cls is RC else 'G', i]) for i in range(n)}
    c = cls(set(elems))
    if case['err']:
        c.bad, c.errors = True, {'f': ValueError()}
    full, rest = divmod(n, size)
    sizes = [size] * full + ([rest] if rest else [])
    for name in ('chunk', 'split'):
        parts = getattr(c, name)(size)
        ctx.check(isinstance(parts, list) and all(type(p) is cls for p in parts), name + ' result types')
        ctx.eq([len(p) for p in parts], sizes, '%s(%d) of %d: sizes' % (name, size, n))
        ctx.eq(sum(len(set(p)) for p in parts), n, name + ': distinct elements in the parts')
        ctx.eq(set().union(*parts) if parts else set(), elems, name + ': union')
        for p in parts:
            p.clear()
        if name == 'chunk':
            ctx.check(set(c) == elems and bool(c.bad) == case['err'] and bool(c.errors) == case['err'], 'chunk changed its source')
        else:
            ctx.check(len(c) == 0 and set(c) == set(), 'split left elements behind')
    ctx.nontrivial(len(sizes) > 1)


def crowd(kinds, seed, n):
    import random
    r = random.Random(seed)
    els = [[k, i] for k in kinds for i in range(n) if r.random() < .6]
    r.shuffle(els)
    return els


KINDS = 'WMSPB'
many = st.builds(lambda seed, n: crowd(KINDS, seed, n), ints(0, 10 ** 6), ints(12, 60))
many_ops = lists(tup(one('contains', 'get', 'discard', 'remove', 'remove'), one('W', 'W', 'M', 'S', 'P', 'B', 'G', 'none'), ints(0, 60)), 4, 20)
suite.larger(id_operations, 150, recs=many, ops=many_ops)
suite.larger(grant_id_operations, 60, recs=st.builds(lambda seed, n: crowd('G', seed, n), ints(0, 10 ** 6), ints(40, 150)), ops=many_ops)
suite.larger(bad_entries, 100, recs=many)
suite.larger(drop_non_journals, 100, recs=st.builds(lambda seed, n: [[i, 'JJBCSP'[(seed // (i + 1)) % 6], (seed + i * i) % 7 != 0] for i in range(n)], ints(10 ** 5, 10 ** 6), ints(30, 250)))
suite.larger(chunk_split, 150, n=ints(15, 300), size=ints(1, 130))


@suite.test(fixed(seed=ints(0, 10 ** 6), n=ints(25, 120)), quick=60, rule='every case')
def tags_large(case, ctx):
    """Some tags occur in one record only."""
    import random
    r = random.Random(case['seed'])
    want, recs = set(), []
    for i in range(case['n']):
        tags = {'UT'} | {r.choice('ABCDEF') + r.choice('ABCDEFGHIJ123456') for _ in range(r.randint(0, 6))}
        want |= tags
        recs.append(WOSRecord(dict({t: ['1'] for t in tags}, UT=['WOS:%d' % i])))
    ctx.eq(sorted(RC(recs).tags()), sorted(want), 'tags()')
    ctx.nontrivial()
