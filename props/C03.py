"""C03: every access to a record gives what a fresh record gives, whatever was read before; copies and pickles are equal and independent."""
import collections
import io
import pickle

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import SPECIAL, WOS_KIND, WOS_NAMES, WOS_OTHER, any_record, build, canon, element, fixed, ints, lists, one, tup, wos_fields

suite = Suite('C03')

MISSING = ['QQ', 'noSuchField', 'Q', '']
op = st.one_of(
    tup(one('item', 'item', 'alt', 'in', 'in_alt', 'get', 'get_alt', 'raw', 'raw_alt'), ints(0, 30)),
    tup(one('special', 'in_special', 'get_special'), ints(0, len(SPECIAL) - 1)),
    tup(one('missing', 'in_missing', 'get_missing', 'raw_missing'), ints(0, 3)),
    tup(one('values', 'items', 'values_raw', 'items_raw', 'keys', 'str', 'title', 'cite', 'multicite', 'genders', 'bib', 'write',
            'getCitations', 'subDict', 'subDict_raw', 'subDict_all', 'subDict_all_raw', 'copy', 'pickle'), ints(0, 30)))


def build_one(src):
    return element([src, 1])


def attempt(f):
    try:
        return ['value', canon(f())]
    except KeyError:
        return ['KeyError']


def written(r):
    f = io.StringIO()
    r.writeRecord(f)
    return f.getvalue()


@suite.test(fixed(rec=any_record(), ops=lists(op, 1, 12)), quick=6000,
            rule='at least 3 tags and at least 4 accesses')
def access_history(case, ctx):
    src, fields = case['rec']

    def fresh():
        return build(src, fields)

    pairs = sorted(fields.items()) if isinstance(fields, dict) else fields
    tags = list(dict.fromkeys(k for k, _ in pairs))
    r = fresh()
    ctx.check(not r.bad, 'good record flagged bad: %s' % r.error)
    wout = None if src == 'P' else written(fresh())
    rid, rhash = fresh().id, hash(fresh())

    def alt(t):
        return r.getAltName(t)

    if src == 'W':
        for t in tags:
            if t in WOS_NAMES:
                ctx.eq(alt(t), WOS_NAMES[t], 'long name of ' + t)
                ctx.eq(alt(WOS_NAMES[t]), t, 'short name of ' + WOS_NAMES[t])
    want = {}
    raw = {}
    for t in tags:
        want[t] = canon(fresh()[t])
        raw[t] = canon(fresh().get(t, raw=True))
        if alt(t) is not None:
            ctx.eq(canon(fresh()[alt(t)]), want[t], '%s against its other name %s' % (t, alt(t)))
    special = {s: attempt(lambda: fresh()[s]) for s in SPECIAL}
    names = set(tags) | {alt(t) for t in tags if alt(t)}
    keep = []

    def pick(i):
        return tags[i % len(tags)]

    for n, (name, i) in enumerate(case['ops']):
        t = pick(i)
        a = alt(t) or t
        what = 'access %d (%s) of %s' % (n, name, t)
        if name in ('item', 'alt'):
            ctx.eq(canon(r[t if name == 'item' else a]), want[t], what)
        elif name in ('in', 'in_alt'):
            ctx.check((t if name == 'in' else a) in r, what + ': present tag not found')
        elif name in ('get', 'get_alt'):
            ctx.eq(canon(r.get(t if name == 'get' else a)), want[t], what)
        elif name in ('raw', 'raw_alt'):
            ctx.eq(canon(r.get(t if name == 'raw' else a, raw=True)), raw[t], what)
        elif name == 'special':
            ctx.eq(attempt(lambda: r[SPECIAL[i]]), special[SPECIAL[i]], 'access %d of special %s' % (n, SPECIAL[i]))
        elif name == 'in_special':
            ctx.eq(SPECIAL[i] in r, special[SPECIAL[i]][0] == 'value', 'access %d: %s in record' % (n, SPECIAL[i]))
        elif name == 'get_special':
            w = special[SPECIAL[i]]
            ctx.eq(canon(r.get(SPECIAL[i], default='dflt')), w[1] if w[0] == 'value' else canon('dflt'), 'access %d: get(%s)' % (n, SPECIAL[i]))
        elif name.endswith('missing'):
            m = MISSING[i]
            if m in names:
                continue
            if name == 'missing':
                with ctx.raises(KeyError, 'r[%r]' % m):
                    r[m]
            elif name == 'in_missing':
                ctx.check(m not in r, '%r in record' % m)
            elif name == 'get_missing':
                ctx.check(r.get(m) is None and r.get(m, 5) == 5, 'get(%r)' % m)
            else:
                ctx.check(r.get(m, raw=True) is None and r.get(m, 5, raw=True) == 5, 'get(%r, raw)' % m)
        elif name == 'values':
            ctx.eq([canon(v) for v in r.values()], [want[k] for k in r], what)
        elif name == 'items':
            ctx.eq([(k, canon(v)) for k, v in r.items()], [(k, want[k]) for k in r], what)
        elif name == 'values_raw':
            ctx.eq([canon(v) for v in r.values(raw=True)], [raw[k] for k in r], what)
        elif name == 'items_raw':
            ctx.eq([(k, canon(v)) for k, v in r.items(raw=True)], [(k, raw[k]) for k in r], what)
        elif name == 'keys':
            ctx.eq(list(r.keys()), list(r), what)
        elif name == 'str':
            ctx.check(str(r) == str(fresh()) and repr(r) == repr(fresh()), what)
        elif name == 'title':
            ctx.eq(canon([r.title, r.authors]), canon([fresh().title, fresh().authors]), what)
        elif name == 'cite':
            ctx.eq(canon(r.createCitation()), canon(fresh().createCitation()), what)
        elif name == 'multicite':
            ctx.eq(canon(r.createCitation(multiCite=True)), canon(fresh().createCitation(multiCite=True)), what)
        elif name == 'genders':
            if src != 'P':
                ctx.eq(r.authGenders(), fresh().authGenders(), what)
        elif name == 'bib':
            ctx.eq(r.bibString(), fresh().bibString(), what)
        elif name == 'write':
            if wout is not None:
                ctx.eq(written(r), wout, what)
        elif name == 'getCitations':
            ctx.eq(r.getCitations(), fresh().getCitations(), what)
        elif name.startswith('subDict'):
            ks = [pick(i), a, MISSING[1], pick(i + 1)]
            if 'all' in name:
                ks = [MISSING[1]] + [x for x in tags if x != t] + [t]
            israw = name.endswith('raw')
            got = r.subDict(ks, raw=True) if israw else r.subDict(ks)
            ctx.eq({k: canon(v) for k, v in got.items()},
                   {k: canon(None) if k == MISSING[1] else (raw if israw else want)[k if k in want else t] for k in ks}, what)
        elif name == 'copy':
            keep.append(r)
            r = r.copy()
        elif name == 'pickle':
            keep.append(r)
            r = pickle.loads(pickle.dumps(r))

    def final(x, what):
        ctx.eq(sorted(x), sorted(tags), what + ': tags')
        ctx.eq(list(x.keys()), list(x), what + ': keys')
        ctx.eq(list(x), list(fresh()), what + ': tag order')
        ctx.eq(len(x), len(tags), what + ': len')
        for t in tags:
            ctx.eq(canon(x[t]), want[t], what + ': ' + t)
            ctx.eq(canon(x.get(t, raw=True)), raw[t], what + ': raw ' + t)
            if alt(t):
                ctx.eq(canon(x[alt(t)]), want[t], what + ': ' + alt(t))
        ctx.eq(canon(x.title), canon(x.get('title', 'Untitled record')), what + ': title')
        ctx.eq(canon(x.authors), canon(x['authorsFull'] if 'authorsFull' in x else x.get('authorsShort')), what + ': authors')
        for s in SPECIAL:
            ctx.eq(s in x, special[s][0] == 'value', what + ': %s in record' % s)
            ctx.eq(attempt(lambda: x[s]), special[s], what + ': ' + s)
        ctx.check(x.id == rid and hash(x) == rhash and x == fresh() and not x != fresh() and not x.bad and x.error is None, what + ': identity changed')
        if wout is not None:
            ctx.eq(written(x), wout, what + ': written form')

    final(r, 'after the accesses')
    for k in keep:
        final(k, 'original of a copy')
        ctx.check(k == r and type(k) is type(r), 'copy differs from its original')
    # copies are independent: changing what a copy holds does not reach the original
    for c in (r.copy(), pickle.loads(pickle.dumps(r))):
        final(c, 'copy')
        for v in list(c.values()) + [c.get(alt(t)) for t in tags if alt(t)]:
            if isinstance(v, list):
                v.append('changed')
            elif isinstance(v, dict):
                v['changed'] = 1
        final(r, 'original after the values its copy gave were changed')
        for v in c.values(raw=True):
            if isinstance(v, list):
                v.append('changed')
        c.bad, c.error = True, ValueError()
        final(r, 'original after its copy was changed')
    ctx.nontrivial(len(tags) >= 3 and len(case['ops']) >= 4)
    ctx.label(src)
    ctx.label('copied', keep)


# records with nearly all tags there are
whole = wos_fields(lo=len(WOS_KIND) - 6, hi=len(WOS_KIND) + len(WOS_OTHER)).map(lambda f: ['W', f])
suite.larger(access_history, 160, rec=whole, ops=lists(op, 4, 40))



@suite.test(fixed(rec=any_record(), ordered=st.booleans(), read=lists(ints(0, 30), 0, 4), how=one('del', 'set', 'add', 'clear', 'del', 'set'), at=ints(0, 30), late=lists(ints(0, 30), 0, 4)), quick=1500,
            rule='at least three tags')
def from_dictionary(case, ctx):
    """A record made from a dictionary keeps its contents when the dictionary changes."""
    src, fields = case['rec']
    good = build(src, fields)
    d = (collections.OrderedDict if case['ordered'] else dict)((t, list(v) if isinstance(v, list) else v) for t, v in good.items(raw=True))
    tags = list(d)
    r = type(good)(d)
    for i in case['read']:
        r.get(tags[i % len(tags)])
    ctx.check(r == good and r.id == good.id and not r.bad, 'record of a dictionary')
    t = tags[case['at'] % len(tags)]
    if case['how'] == 'del':
        del d[t]
    elif case['how'] == 'set':
        d[t] = ['changed'] if isinstance(d[t], list) else 'changed'
    elif case['how'] == 'add':
        d['ZZ'] = ['added']
    else:
        d.clear()
    for i in case['late']:
        r.get(tags[i % len(tags)])
    ctx.eq(list(r), tags, 'tags')
    ctx.eq(len(r), len(tags), 'number of tags')
    ctx.check('ZZ' not in r and r.get('ZZ') is None, 'a tag the dictionary got later is in the record')
    for x in tags:
        ctx.eq(canon(r.get(x, raw=True)), canon(good.get(x, raw=True)), 'raw ' + x)
        ctx.eq(canon(r[x]), canon(good[x]), x)
    ctx.nontrivial(len(tags) >= 3)


BADREC = {'W': [dict(TI=['t'], AU=['A, B']), {}], 'M': [dict(TI=['t'], AU=['A B']), {}], 'S': [dict(Title='t', Authors='A B.'), {}], 'P': [dict(Title=['t'], Author=['A, B']), {}]}


@suite.test(fixed(src=one(*'WMSP'), which=ints(0, 1), ops=lists(tup(one('get', 'in', 'item'), one('id', 'title', 'year', 'citations', 'TI', 'Title', 'AU', 'Authors', 'Author', 'ZZ', 'authorsShort', 'authorsFull')), 0, 6)),
            quick=300, rule='at least two accesses')
def bad_mapping(case, ctx):
    """Records flagged bad are mappings too: nothing read from them changes their tags."""
    d = BADREC[case['src']][case['which']]
    r = type(build_one(case['src']))(dict(d))
    ctx.check(r.bad and isinstance(r.error, BaseException), 'not bad')
    h = hash(r)
    for name, t in case['ops']:
        if name == 'get':
            r.get(t)
        elif name == 'in':
            t in r
        else:
            try:
                r[t]
            except KeyError:
                ctx.check(t not in d, '%s is missing' % t)
        ctx.eq(len(r), len(d), 'len after %s' % t)
        ctx.eq(list(r), list(d), 'tags after %s' % t)
        ctx.check(r.bad and hash(r) == h and r == r.copy(), 'identity after %s' % t)
    ctx.nontrivial(len(case['ops']) >= 2)


gval = st.one_of(st.just('x'), st.just('a; b'), st.lists(one('p', 'q'), max_size=2))


@suite.test(fixed(d=st.dictionaries(one('A', 'B', 'C', 'Name'), gval, min_size=1, max_size=4),
                  ops=lists(tup(one('set', 'del', 'copy', 'get', 'pickle'), one('A', 'B', 'C', 'Z'), one('v', 'w')), 1, 8)),
            quick=1500, rule='a copy or pickle is taken and an item changed')
def grant_mapping(case, ctx):
    from metaknowledge.grants.baseGrant import FallbackGrant
    g = FallbackGrant('orig', dict(case['d']), sFile='f.csv', sLine=3)
    model = dict(case['d'])
    olds = []
    changed = False
    for name, k, v in case['ops']:
        if name == 'set':
            g[k] = v
            model[k] = v
            changed = True
        elif name == 'del':
            if k in model:
                del g[k]
                del model[k]
                changed = True
            else:
                with ctx.raises(KeyError, 'del ' + k):
                    del g[k]
        elif name == 'get':
            ctx.eq(g.get(k), model.get(k), 'get ' + k)
            ctx.eq(k in g, k in model, k + ' in grant')
        else:
            olds.append((g, dict(model)))
            g = g.copy() if name == 'copy' else pickle.loads(pickle.dumps(g))
        for x, m in olds + [(g, model)]:
            ctx.eq(dict(x.items()), m, 'contents after %s %s' % (name, k))
            ctx.check(len(x) == len(m) and set(x) == set(m) and x == g, 'len, tags or equality after %s' % name)
    with ctx.raises(KeyError, 'missing'):
        g['nothing here']
    ctx.nontrivial(olds and changed)
