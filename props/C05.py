"""C05: every WOS field is generated as items, rendered as lines, and must decode to the documented form of these items."""
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import RC, WOS_KIND, WOS_NAMES, WOS_OTHER, JOURNALS, WOSRecord, fixed, ints, lists, one, phrase, stripped, text, tup, word, wos_file, wrapped

suite = Suite('C05')
from metaknowledge.citation import Citation  # noqa: E402

MON = dict(zip('JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC'.split(), range(1, 13)), SPR=3, SUM=6, FAL=9, WIN=12)
item = st.lists(st.text(st.one_of(st.sampled_from('abcXYZ'), st.sampled_from('abc,:.()[]&%"\'-/_0123456789éß漢')), min_size=1, max_size=8),
                min_size=1, max_size=3).map(' '.join)
line = st.one_of(item, stripped(1, 20))


@st.composite
def broken(draw, s):
    """The text s broken into lines at some of its spaces."""
    out = [[]]
    for i, w in enumerate(s.split(' ')):
        if i and draw(ints(0, 2)) == 0:
            out.append([])
        out[-1].append(w)
    return [' '.join(x) for x in out]


@st.composite
def entry(draw, tag):
    """[tag, lines, what to expect]"""
    k = WOS_KIND.get(tag, 'other')
    if k in ('first',):
        v = draw(one('J', 'B', 'C', 'S', 'P')) if tag == 'PT' else draw(one(*JOURNALS)) if tag == 'J9' and draw(st.booleans()) else draw(line)
        return [tag, [v] + (draw(st.lists(line, max_size=2)) if draw(ints(0, 4)) == 0 else []), v]
    if k == 'strip':
        v = draw(word)
        return [tag, [draw(one('', ' ', '  ')) + v + draw(one('', ' '))], v]
    if k in ('list', 'other'):
        ls = draw(st.lists(line, min_size=1, max_size=6))
        return [tag, ls, ls]
    if k in ('join', 'upper', 'lines', 'lang'):
        ls = draw(st.lists(line, min_size=1, max_size=5))
        v = {'join': ' ', 'upper': ' ', 'lines': '\n', 'lang': ', '}[k].join(ls)
        return [tag, ls, v.upper() if k == 'upper' else v]
    if k == 'comma':
        ws = draw(st.lists(phrase, min_size=1, max_size=5))
        cut = draw(ints(0, len(ws) - 1))
        return [tag, [', '.join(ws[:cut]), ', '.join(ws[cut:])] if cut else [', '.join(ws)], ws]
    if k == 'int':
        n = draw(ints(0, 99999))
        return [tag, [str(n)], n]
    if k == 'PY':
        n = draw(ints(1500, 2100))
        return [tag, [str(n)], n]
    if k == 'PD':
        m = draw(one(*MON))
        v = m + draw(one('', '', ' 1', ' 15', ' 31', ' 2001', ' 5 2001', '-DEC', '-WIN', '-MAY 1999'))
        case = draw(ints(0, 2))
        v = v if case == 0 else v.title() if case == 1 else v.lower()
        return [tag, [v], MON[m]]
    if k.startswith('semi'):
        its = draw(st.lists(st.one_of(phrase, item), min_size=1, max_size=6))
        ls = draw(broken('; '.join(its)))
        return [tag, ls, [i.lower() if k == 'semilower' else i.upper() if k == 'semiupper' else i for i in its]]
    if k == 'C1':
        its = draw(st.lists(tup(st.one_of(st.none(), st.lists(one('Smith, J', 'Levy, Y', 'O\'Brien, K [x]'), min_size=1, max_size=3).map('; '.join)),
                                one('Univ Waterloo, Waterloo, ON N2L 3G1, Canada', 'MIT, Cambridge, MA 02139 USA', 'Inst [A] B, Rome, Italy', 'x')),
                            min_size=1, max_size=5))
        its = [[None if a and '[x]' in a else a, b] for a, b in its]
        return [tag, ['[%s] %s' % (a, b) if a else b for a, b in its], [b for a, b in its]]
    if k == 'CR':
        its = draw(st.lists(tup(one('LEVY Y', 'Smith J', 'De Groot SR', 'O\'Brien K', '[Anonymous]', '*IBM'), ints(1800, 2020), one(*JOURNALS),
                                st.one_of(st.none(), ints(1, 99)), st.one_of(st.none(), ints(1, 3000)),
                                st.one_of(st.none(), one('10.1000/a.b', '10.1/S0030-4018(73)90041-2')), ints(0, 5)), min_size=1, max_size=6))
        ls, want = [], []
        for a, y, j, v, p, d, odd in its:
            if odd == 0:  # something a parser of references cannot take apart
                s = a if v is None else '%s, in press' % j
                ls.append(s)
                want.append([s, None])
            else:
                s = '%s, %d, %s' % (a, y, j) + (', V%d' % v if v else '') + (', P%d' % p if p else '') + (', DOI ' + d if d else '')
                ls.append(s)
                want.append([s, [a, y, j, 'V%d' % v if v else None, 'P%d' % p if p else None, d.upper() if d else None]])
        return [tag, ls, want]
    raise ValueError(tag)


TAGS = list(WOS_KIND) + WOS_OTHER
good_fields = st.lists(one(*TAGS), min_size=1, max_size=10, unique=True).flatmap(lambda ts: st.tuples(*[entry(t) for t in ts]).map(list))


def same(got, want, tag):
    if tag == 'CR':
        if not (isinstance(got, list) and len(got) == len(want) and all(isinstance(c, Citation) for c in got)):
            return False
        for c, (s, parts) in zip(got, want):
            if str(c) != s:
                return False
            if parts is None:
                continue
            a, y, j, v, p, d = parts
            if (c.author, c.year, c.journal, c.bad) != (a.title(), y, j, False):
                return False
            if (getattr(c, 'V', None), getattr(c, 'P', None), getattr(c, 'DOI', None)) != (v, p, d):
                return False
        return True
    return type(got) is type(want) and got == want


@suite.test(fixed(fields=good_fields, src=one('dict', 'text', 'file'), first=one('tag', 'name'), upos=ints(0, 10)), quick=9000,
            rule='at least one field with several lines or items')
def decode(case, ctx):
    fields = case['fields']
    raw = [[t, ls] for t, ls, _ in fields]
    raw.insert(min(case['upos'], len(raw)), ['UT', ['WOS:A1978ET001']])
    if case['src'] == 'dict':
        r = WOSRecord({t: list(ls) for t, ls in raw})
    elif case['src'] == 'text':
        from mkv.gen import wos_text
        r = WOSRecord(wos_text(raw))
    else:
        rc = RC(ctx.write('a.isi', wos_file([raw])))
        ctx.eq(len(rc), 1, 'number of records')
        ctx.check(not rc.bad, 'good file is bad')
        r = rc.peek()
    ctx.check(not r.bad, 'good record is bad: %s' % r.error)
    for t, ls, want in fields:
        names = [t] + ([WOS_NAMES[t]] if t in WOS_NAMES else [])
        if case['first'] == 'name':
            names.reverse()
        for n in names:
            got = r[n]
            ctx.check(same(got, want, t), lambda: '%s of lines %r: got %r, expected %r' % (n, ls, got, want))
            ctx.check(n in r, '%s in record' % n)
        ctx.eq(r.get(t, raw=True), ls, 'raw ' + t)
        ctx.label(WOS_KIND.get(t, 'other'))
    ctx.eq(r['UT'], 'WOS:A1978ET001', 'UT')
    ctx.eq(r['wosString'], 'WOS:A1978ET001', 'wosString')
    ctx.eq(r['id'], 'WOS:A1978ET001', 'id')
    ctx.eq(r['grants'], [], 'grants')
    have = {t for t, _, _ in fields}
    for t in WOS_NAMES:
        if t not in have and t != 'UT':
            ctx.check(t not in r and WOS_NAMES[t] not in r and r.get(t) is None and r.get(WOS_NAMES[t], 5) == 5, 'absent field %s is there' % t)
    ctx.nontrivial(any(len(ls) > 1 or (isinstance(w, list) and len(w) > 1) for t, ls, w in fields))


anyline = text(1, 25)
FREE = [t for t in TAGS if WOS_KIND.get(t, 'other') not in ('int', 'PY', 'PD')]


@suite.test(fixed(fields=st.lists(tup(one(*FREE), st.lists(anyline, min_size=1, max_size=4)), min_size=1, max_size=6, unique_by=lambda x: x[0])),
            quick=6000, rule='a field with at least two lines')
def total(case, ctx):
    """No text makes a text field unreadable, and nothing of it is lost where the field is one string."""
    raw = {t: list(ls) for t, ls in case['fields']}
    raw['UT'] = ['WOS:1']
    r = WOSRecord(raw)
    for t, ls in case['fields']:
        v = r[t]
        k = WOS_KIND.get(t, 'other')
        if k == 'first':
            ctx.eq(v, ls[0], t)
        elif k == 'strip':
            ctx.eq(v, ls[0].strip(), t)
        elif k in ('list', 'other'):
            ctx.eq(v, ls, t)
        elif k in ('join', 'upper', 'lines', 'lang'):
            want = {'lines': '\n', 'lang': ', '}.get(k, ' ').join(ls)
            ctx.eq(v, want.upper() if k == 'upper' else want, t)
        elif k == 'comma':
            ctx.eq(', '.join(v), ', '.join(ls), t)
        elif k.startswith('semi'):
            want = ' '.join(ls)
            ctx.eq('; '.join(v), want.lower() if k == 'semilower' else want.upper() if k == 'semiupper' else want, t)
        elif k in ('C1', 'CR'):
            ctx.eq(len(v), len(ls), 'number of entries of ' + t)
            if k == 'CR':
                ctx.eq([str(c) for c in v], ls, 'CR')
        ctx.check(r.get(t) is v and r[t] is v, 'second read of %s gives another value' % t)
        if k == 'C1':
            for a, s in zip(v, ls):
                if not s.startswith('['):
                    ctx.eq(a, s, 'address')
    ctx.nontrivial(any(len(ls) > 1 for _, ls in case['fields']))


@suite.test(fixed(tag=one(*(TAGS + ['UT', 'ZZ']))), quick=200, rule='every tag')
def names(case, ctx):
    """Tags and long names are each other's alternative."""
    t = case['tag']
    name = WOS_NAMES.get(t)
    ctx.eq(WOSRecord.getAltName(t), name, 'long name of ' + t)
    if name:
        ctx.eq(WOSRecord.getAltName(name), t, 'tag of ' + name)
    ctx.nontrivial()


def stretched(e, k):
    """The field with its lines and items k times."""
    t, ls, want = e
    kind = WOS_KIND.get(t, 'other')
    if kind in ('list', 'other', 'C1', 'CR', 'comma'):
        return [t, ls * k, want * k]
    if kind in ('join', 'upper', 'lines', 'lang'):
        v = {'join': ' ', 'upper': ' ', 'lines': '\n', 'lang': ', '}[kind].join(ls * k)
        return [t, ls * k, v.upper() if kind == 'upper' else v]
    if kind.startswith('semi'):
        return [t, (ls[:-1] + [ls[-1] + ';']) * (k - 1) + ls, want * k]
    return e


suite.larger(decode, 500, fields=st.tuples(good_fields, ints(5, 120)).map(lambda p: [stretched(e, p[1]) for e in p[0]]))
