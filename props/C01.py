"""C01: collections behave as mathematical sets under every history of operations."""
import operator

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc, mk
from mkv.gen import GC, RC, element, fixed, ints, lists, one, tup

suite = Suite('C01')

NREG = 3
rec = tup(one('W', 'W', 'W', 'M', 'S', 'P', 'B'), ints(0, 4))
grant = tup(st.just('G'), ints(0, 6))
reg = ints(0, NREG - 1)


def ops(elem):
    return st.one_of(
        tup(one('new_list', 'new_set', 'new_gen', 'new_tuple'), reg, lists(elem, 0, 6)),
        tup(st.just('new_from'), reg, reg),
        tup(one('or', 'and', 'sub', 'xor', 'add'), reg, reg, reg),
        tup(one('ior', 'iand', 'isub', 'ixor'), reg, reg),
        tup(one('put', 'remove', 'discard'), reg, elem),
        tup(one('put', 'remove', 'discard'), reg, elem),
        tup(one('pop', 'clear', 'peek'), reg),
        tup(st.just('copy'), reg, reg),
        tup(one('chunk', 'split'), reg, ints(1, 4), reg, ints(0, 3)),
        tup(st.just('mark'), reg, ints(0, 3)),
        tup(one('wrong_op', 'wrong_iop'), reg, one('or', 'and', 'sub', 'xor'), one('list', 'set', 'none', 'str')),
        tup(st.just('wrong_add'), reg, one('str', 'none', 'int', 'other')),
        tup(st.just('wrong_new'), reg, one('str', 'int', 'listint', 'mixed', 'other')),
    )


def cases(elem):
    start = tup(lists(elem, 0, 6), one(0, 0, 1, 2))
    return fixed(start=tup(start, start, start), ops=lists(ops(elem), 2, 12))


BIN = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub, 'xor': operator.xor}
IBIN = {'or': operator.ior, 'and': operator.iand, 'sub': operator.isub, 'xor': operator.ixor}
SET = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b}


class Model:
    def __init__(self, elems=(), bad=False, errors=()):
        self.s, self.bad, self.errors = set(elems), bad, set(errors)


def combine(op, a, b):
    bad = a.bad or b.bad
    return Model(SET[op](a.s, b.s), bad, (a.errors | b.errors) if bad else set())


def run(case, ctx, cls, allkinds, other):
    universe = {}

    def E(spec):
        return element(spec)

    def key(e):  # element -> spec, by looking it up among equal elements of the universe
        return universe[e]

    for k in allkinds:
        for n in range(case.get('universe', 8)):
            universe[element([k, n])] = (k, n)
    ctx.check(len(universe) == case.get('universe', 8) * len(allkinds), "records with different ids compare equal")
    regs, mods = [], []
    for elems, err in case['start']:
        regs.append(cls([E(s) for s in elems]))
        mods.append(Model(map(tuple, elems)))
        if err:
            regs[-1].bad = mods[-1].bad = True
            regs[-1].errors['err%d' % err] = ValueError('e')
            mods[-1].errors.add('err%d' % err)
    case = case['ops']
    keep = []  # (collection, model) pairs that no later operation may change
    bins = 0

    def agree(c, m, what):
        got = [key(e) for e in c]
        ctx.check(len(got) == len(set(got)), "%s: an element occurs twice" % what)
        ctx.eq(set(got), m.s, what + ': contents')
        ctx.eq(len(c), len(m.s), what + ': len')
        ctx.eq(bool(c.bad), m.bad, what + ': bad')
        if m.bad:
            ctx.eq(set(c.errors), m.errors, what + ': errors')
        for e in universe:
            if universe[e][1] < 5:
                ctx.eq(e in c, universe[e] in m.s, what + ': membership of %s' % (universe[e],))

    for step, op in enumerate(case):
        name, a = op[0], op[1]
        what = 'step %d %s' % (step, op)
        old = list(zip(regs, mods))
        if name.startswith('new_') and name != 'new_from':
            objs = [E(s) for s in op[2]]
            src = {'new_list': objs, 'new_tuple': tuple(objs), 'new_set': set(objs),
                   'new_gen': (o for o in objs)}[name]
            regs[a] = cls(src)
            mods[a] = Model(map(tuple, op[2]))
            if name in ('new_set', 'new_list'):
                src.clear()
        elif name == 'new_from':
            src, m = regs[op[2]], mods[op[2]]
            regs[a] = cls(src)
            mods[a] = Model(m.s)
        elif name in BIN:
            l, r = op[2], op[3]
            ml, mr = mods[l], mods[r]
            res = BIN[name](regs[l], regs[r])
            ctx.check(type(res) is cls, what + ': result type %s' % type(res))
            ctx.check(res is not regs[l] and res is not regs[r], what + ': result is an operand')
            agree(regs[l], ml, what + ' left operand')
            agree(regs[r], mr, what + ' right operand')
            regs[a], mods[a] = res, combine(name, ml, mr)
            bins += len(ml.s) > 0 and len(mr.s) > 0
        elif name == 'add':
            l, r = op[2], op[3]
            if cls is not RC:
                continue
            res = regs[l] + regs[r]
            agree(regs[l], mods[l], what + ' left operand')
            agree(regs[r], mods[r], what + ' right operand')
            regs[a] = res
            mods[a] = Model(mods[l].s | mods[r].s, bool(res.bad), res.errors)
        elif name[1:] in IBIN and name[0] == 'i':
            b = op[2]
            before = regs[a]
            mb = Model(mods[b].s, mods[b].bad, mods[b].errors)
            res = IBIN[name[1:]](regs[a], regs[b])
            ctx.check(res is before, what + ': in-place operator gave a new object')
            mods[a] = combine(name[1:], mods[a], mb)
            regs[a] = res
            if a != b:
                agree(regs[b], mb, what + ' right operand')
            bins += len(mb.s) > 0
        elif name == 'put':
            regs[a].add(E(op[2]))
            mods[a].s.add(tuple(op[2]))
        elif name == 'remove':
            if tuple(op[2]) in mods[a].s:
                regs[a].remove(E(op[2]))
                mods[a].s.discard(tuple(op[2]))
            else:
                with ctx.raises(KeyError, what):
                    regs[a].remove(E(op[2]))
        elif name == 'discard':
            regs[a].discard(E(op[2]))
            mods[a].s.discard(tuple(op[2]))
        elif name == 'pop':
            if mods[a].s:
                k = key(regs[a].pop())
                ctx.check(k in mods[a].s, what + ': popped %s, not an element' % (k,))
                mods[a].s.discard(k)
            else:
                with ctx.raises(KeyError, what):
                    regs[a].pop()
        elif name == 'peek':
            p = regs[a].peek()
            ctx.check((p is None) if not mods[a].s else key(p) in mods[a].s, what + ': peek gave %r' % (p,))
        elif name == 'clear':
            regs[a].clear()
            mods[a] = Model()
        elif name == 'copy':
            b = op[2]
            src, m = regs[b], mods[b]
            regs[a] = src.copy()
            mods[a] = Model(m.s, m.bad, m.errors)
            ctx.check(regs[a] == src, what + ': copy differs')
        elif name in ('chunk', 'split'):
            size, b, which = op[2], op[3], op[4]
            m = mods[a]
            parts = getattr(regs[a], name)(size)
            got = [[key(e) for e in p] for p in parts]
            flat = sorted(sum(got, []))
            ctx.eq(flat, sorted(m.s), what + ': parts together')
            ctx.check(all(len(g) == size for g in got[:-1]) and all(0 < len(g) <= size for g in got),
                      what + ': part sizes %s' % [len(g) for g in got])
            if name == 'split':
                m.s.clear(), m.errors.clear()
                m.bad = False
            agree(regs[a], mods[a], what + ' source')
            if parts:
                p = parts[which % len(parts)]
                regs[b] = p
                mods[b] = Model(got[which % len(parts)], bool(p.bad), p.errors)
        elif name == 'mark':
            regs[a].bad = True
            regs[a].errors['err%d' % op[2]] = ValueError('e')
            mods[a].bad = True
            mods[a].errors.add('err%d' % op[2])
        elif name in ('wrong_op', 'wrong_iop'):
            operand = {'list': lambda: [E([allkinds[0], 1])], 'set': lambda: {E([allkinds[0], 1])},
                       'none': lambda: None, 'str': lambda: 'abc'}[op[3]]()
            with ctx.raises(TypeError, what):
                (BIN if name == 'wrong_op' else IBIN)[op[2]](regs[a], operand)
        elif name == 'wrong_add':
            x = {'str': 'WOS:001', 'none': None, 'int': 1, 'other': other}[op[2]]
            with ctx.raises(exc.mkException, what):
                regs[a].add(x)
            regs[a].discard(x)
        elif name == 'wrong_new':
            x = {'str': '/no/such/file', 'int': 7, 'listint': [1], 'mixed': [E([allkinds[0], 1]), 'x'],
                 'other': [other]}[op[2]]
            with ctx.raises(exc.mkException, what):
                cls(x)
        for c, m in old:
            if not any(c is x for x in regs):
                keep.append((c, m))
        del keep[:-4]
        for i in range(NREG):
            for j in range(i):
                if regs[i] is regs[j]:
                    ctx.fail(what + ': two results are one object')
            agree(regs[i], mods[i], what + ': register %d' % i)
        for c, m in keep:
            agree(c, m, what + ': earlier collection')
        for i in range(NREG):
            for j in range(NREG):
                x, y, p, q = regs[i], regs[j], mods[i].s, mods[j].s
                ctx.eq((x < y, x <= y, x > y, x >= y, x == y, x != y),
                       (len(p) < len(q), len(p) <= len(q), len(p) > len(q), len(p) >= len(q), p == q, p != q),
                       what + ': comparisons of registers %d and %d' % (i, j))
                if p == q:
                    ctx.eq(hash(x), hash(y), what + ': hashes of equal collections')
            ctx.check(not (regs[i] == mods[i].s) and not (regs[i] == 3), what + ': equal to another type')
    ctx.nontrivial(bins >= 1 and len(case) >= 3)
    ctx.label('bad operand', any(m.bad for m in mods))
    ctx.label('split/chunk', any(o[0] in ('split', 'chunk') for o in case))


@suite.test(cases(rec), quick=12000,
            rule="at least 3 operations, one of them a set operator on two non-empty collections")
def record_histories(case, ctx):
    run(case, ctx, RC, ['W', 'M', 'S', 'P', 'B'], mk.Citation('A, 1999, B'))


@suite.test(cases(grant), quick=6000,
            rule="at least 3 operations, one of them a set operator on two non-empty collections")
def grant_histories(case, ctx):
    run(case, ctx, GC, ['G'], element(['W', 1]))


def crowd(kinds, seed, n):
    """About half of the elements of a universe of n of each kind."""
    import random
    r = random.Random(seed)
    els = [[k, i] for k in kinds for i in range(n) if r.random() < .5]
    r.shuffle(els)
    return els


def crowds(kinds, n, elem):
    start = tup(st.builds(lambda seed: crowd(kinds, seed, n), ints(0, 10 ** 6)), one(0, 0, 1))
    parts = tup(one('chunk', 'split'), reg, ints(15, 70), reg, ints(0, 3))
    return fixed(universe=st.just(n), start=tup(start, start, start), ops=lists(st.one_of(ops(elem), ops(elem), parts), 2, 8))


@suite.test(crowds(['W', 'S', 'P'], 60, tup(one('W', 'S', 'P'), ints(0, 59))), quick=250, rule='as record_histories')
def large_record_histories(case, ctx):
    run(case, ctx, RC, ['W', 'S', 'P'], mk.Citation('A, 1999, B'))


@suite.test(crowds(['G'], 150, tup(st.just('G'), ints(0, 149))), quick=120, rule='as record_histories')
def large_grant_histories(case, ctx):
    run(case, ctx, GC, ['G'], element(['W', 1]))
