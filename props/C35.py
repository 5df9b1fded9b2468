"""C35: generated files, options and dialogues (with wrong answers) are given to the command line tool, and what it writes is compared with the collection, network, thresholds and database entries that were asked for."""
import builtins
import code
import contextlib
import csv
import io
import json
import os
import shutil
import subprocess
import sys

import matplotlib.pyplot as plt
import networkx as nx
from hypothesis import strategies as st

import metaknowledge.bin
from metaknowledge.journalAbbreviations import backend
from mkv import env
from mkv.core import Suite
from mkv.env import mk
from mkv.gen import RC, any_record, fixed, ints, one, weigh, wos_file
from mkv.worlds import crowd, crowds, edge_key
from props.C09 import raw
from props.C10 import data, source
from props.C29 import degree, snap

suite = Suite('C35')
REFS = ['LEVY Y, 1975, NATURE', 'SMITH J, 1976, CELL, V1', 'LI X, 1980, PAIN', 'LI X, 1981, PAIN, P5', '[Anonymous], 1976, LANCET', 'REPORT', 'Smith J, 1977', 'LEVY Y, 1971, ANN EUG']
UNKNOWN = ['PAIN', 'LANCET', 'ANN EUG']


@st.composite
def rec(draw):
    f = [['PT', ['J']], ['UT', ['WOS:%03d' % draw(ints(0, 400))]]]
    for t, v, n in (('AF', st.lists(one('Levy, Yvonne', 'Smith, John', 'Li, Mary'), min_size=1, max_size=3, unique=True), 4), ('AU', st.lists(one('Levy, Y', 'Smith, J'), min_size=1, max_size=2, unique=True), 4), ('DE', one(['a; b'], ['a; b; c'], ['a'], ['a; a'], ['c; b']), 6), ('ID', one(['x'], ['x; y']), 2),
                    ('PY', one(['1975'], ['1976'], ['1980']), 4), ('J9', one(['NATURE'], ['CELL'], ['PAIN']), 4), ('TI', one(['On x'], ['y']), 2), ('CR', st.lists(one(*REFS), min_size=1, max_size=4), 4)):
        if draw(ints(0, 6)) < n:
            f.append([t, draw(v)])
    return f




def clean(x):
    """Without the control characters GraphML has no way to write."""
    if isinstance(x, str):
        return ''.join(c if c.isprintable() else ' ' for c in x)
    return [clean(y) for y in x] if isinstance(x, (list, tuple)) else x


wfile = st.lists(rec(), min_size=1, max_size=4)
wfiles = weigh((1, st.lists(wfile, min_size=1, max_size=1)), (3, st.lists(wfile, min_size=2, max_size=4)))
files = weigh((5, wfiles.map(lambda l: [['W', r] for r in l])), (1, st.lists(source.map(clean), min_size=1, max_size=2)))
NAMES = ['a.isi', 'b.txt', 'c.isi', 'd.txt'] + ['%s.%s' % (c, ['isi', 'txt'][i % 2]) for i, c in enumerate('efghijklm')]
TAGS = ['AF', 'DE', 'ID', 'J9', 'PY', 'AU', 'TI', 'CR']
wrong = lambda *bad: st.lists(one(*bad), max_size=1)
num = one(0, 1, 2, 3, 4, 1.5, 10, 0.25, '1e0', 12.75, 1.005, '2.001', '-1')
thresholds = weigh((2, st.just([])), (5, st.lists(st.tuples(one('1', '2', '3', '5', '3', '5', '4', '6'), num).map(list), min_size=1, max_size=3)))
network = weigh((3, st.tuples(st.just('1'), one(*TAGS), st.just(''))), (2, st.tuples(st.just('2'), one(*TAGS), one(*TAGS))), (2, st.tuples(st.just('3'), one(*TAGS), st.lists(one(*TAGS), max_size=5))), (3, st.tuples(one('4', '5', '6'), st.just(''), st.just('')))).map(list)


class OutOfAnswers(BaseException):
    pass


class Dialogue:
    """The user: gives the answers in turn; where a text contains what, the answer can be a function of the prompt."""

    def __init__(self, answers):
        self.answers, self.prompts, self.shells = list(answers), [], 0

    def __call__(self, prompt=''):
        self.prompts.append(prompt)
        if not self.answers:
            raise OutOfAnswers('another answer is asked for: %r' % prompt)
        if callable(self.answers[0]) and not isinstance(self.answers[0], type):
            a = self.answers[0](prompt)
            if a is not None:
                return a
            self.answers.pop(0)
            return self(prompt)
        a = self.answers.pop(0)
        if not isinstance(a, str):
            raise a
        return a

    def shell(self, *a, **k):
        self.shells += 1


def run(args, answers):
    """(what mkCLI returns, the dialogue)"""
    d = Dialogue(answers)
    saved = builtins.input, sys.argv, code.interact
    builtins.input, sys.argv, code.interact = d, ['metaknowledge'] + args, d.shell
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return mk.bin.mkCLI(), d
    finally:
        plt.close('all')
        builtins.input, sys.argv, code.interact = saved


def menu(answer, wrongs):
    return [w for w in wrongs] + [answer]


def listing(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.DictReader(f))


def edge_rows(path, directed):
    out = []
    for r in listing(path):
        ends = [r.pop('Source'), r.pop('Target')]
        out.append((ends if directed else sorted(ends), sorted(r.items())))
    return sorted(out)


def node_rows(path):
    return sorted(sorted(r.items()) for r in listing(path))


def build(case, ctx):
    """Writes the files; returns what to give as arguments and the files that should be read."""
    paths = []
    os.makedirs(ctx.path('in'))
    uid, first = 0, None
    for i, src in enumerate(case['files']):
        p = ctx.path('in/' + NAMES[i % len(NAMES)])
        if src[0] == 'W' and isinstance(src[1][0], list):
            recs = []
            for r in src[1]:
                uid += 1
                shared = dict(map(tuple, r))['UT'][0] < 'WOS:1'
                recs.append([[t, ['WOS:%03d' % (0 if shared else uid)] if t == 'UT' else v] for t, v in (first if shared and first else r)])
                first = first or (r if shared else None)
            with open(p, 'w', encoding='utf-8') as f:
                f.write(wos_file(recs))
        else:
            with open(p, 'wb') as f:
                f.write(data(src))
        paths.append(p)
    return paths


def expected_records(case, ctx, paths):
    """(arguments, collection)"""
    if case['how'] == 'dir':
        given, use = [ctx.path('in')], [p for p in paths if p.endswith(case['suffix'])]
    else:
        use = paths[:1 + case['n'] % len(paths)]
        given = list(use)
    rc, seen = RC(), {}
    for p in use:
        new = RC(p)
        for r in new:
            if seen.setdefault(r.id, raw(r)) != raw(r):
                # one ID, two contents: either may be the one that is kept
                return given, RC()
        rc |= new
    return given, rc


def keep_thresholds(g, steps):
    """The networks that may be left: for removing above a value also the recorded finding, which removes below it."""
    left = [g]
    for what, x in steps:
        x = float(x)
        new = []
        for g in left:
            for way in ('right', 'found') if what in '46' else ('right',):
                h = g.copy()
                ns, es = snap(h)
                if what == '1':
                    h.remove_nodes_from([n for n in h if not any(n in e[:2] for e in es)])
                elif what == '2':
                    h.remove_edges_from([e[:2] for e in es if e[0] == e[1]])
                elif what in '34':
                    low = what == '3' or way == 'found'
                    h.remove_edges_from([e[:2] for e, d in es.items() if (d['weight'] < x if low else d['weight'] > x)])
                else:
                    low = what == '5' or way == 'found'
                    deg = degree(ns, es, h.is_directed(), 'weight')
                    h.remove_nodes_from([n for n in ns if (deg[n] < x if low else deg[n] > x)])
                new.append(h)
        left = new
    return left


def make_network(rc, net):
    kind, a, b = net
    return {'1': lambda: rc.networkOneMode(a), '2': lambda: rc.networkTwoMode(a, b), '3': lambda: rc.networkMultiMode([a] + list(b)), '4': rc.networkCitation, '5': rc.networkCoCitation, '6': rc.networkCoAuthor}[kind]()


def tag_answers(case, rc):
    kind, a, b = case['net']
    w = case['wrongs']
    out = [x for x in w.get('tag', [])] + [a.lower() if case['lower'] else a]
    if kind == '2':
        out += ['NOTAG'] * len(w.get('tag', [])) + [b]
    if kind == '3':
        for t in b:
            out += ['XX'] * len(w.get('tag', [])) + [t.lower() if case['lower'] else t]
        out += ['XX'] * len(w.get('tag', [])) + ['']
    return out if kind in '123' else []


wrongs = fixed(menu=st.lists(one('x', '', '99', '-1', '1 2', 'i', '01', 'Q'), max_size=2), tag=wrong('ZZ', 'not a tag', '9', 'Y'), number=wrong('ten', '', '1,5', 'x'), yes=wrong('maybe', 'x', 'yes', '0'), name=wrong(''))
common = dict(files=files, how=one('dir', 'files', 'files', 'ask'), n=ints(0, 3), suffix=one('', '', '.isi', '.txt'), name=weigh((2, st.just('')), (1, st.just('given'))), quiet=st.booleans(), wrongs=wrongs)


def opening(case, ctx, given):
    args = []
    answers = []
    if case['how'] == 'ask':
        if case['wrongs']['name']:
            answers += [ctx.path('in/none'), ctx.path('none1') + ' ' + ctx.path('none2'), given[0] + ' ' + ctx.path('none')]
        answers.append(' '.join(given))
    else:
        args += given
    if case['suffix'] and (case['how'] == 'dir' or all(p.endswith(case['suffix']) for p in given)):
        args += [['-s', '--suffix'][case['n'] % 2], case['suffix']]
    if case['name']:
        args += ['--name', ctx.path('out/' + case['name'])]
    if case['quiet']:
        args.append('-q')
    return args + ['--debug'], answers


def name_answers(case, ctx, stem, exists, ow):
    """Answers that lead to a name. The names stem, stem2, ... exist, as many as exists says; all but the last are kept, and ow tells whether the last is overwritten."""
    w = case['wrongs']
    if case['name']:
        return [], case['name']
    out = list(w['name']) + [ctx.path('out/' + stem)]
    for i in range(1, exists + 1):
        out += w['yes']
        if ow and i == exists:
            return out + [['y', '', 'Y'][case['n'] % 3]], stem + ('' if i == 1 else str(i))
        out += [['n', 'N'][(case['n'] + i) % 2]] + list(w['name']) + [ctx.path('out/%s%d' % (stem, i + 1))]
    return out, stem + ('' if not exists else str(exists + 1))


def make_existing(case, ctx, stem, suffix):
    for i in range(1, case['exists'] + 1):
        ctx.write('out/%s%s%s' % (case['name'] or stem, '' if i == 1 else i, suffix), KEEP)


def same_records(ctx, path, rc, what):
    got = RC(path)
    ctx.eq(sorted([r.id, repr(raw(r))] for r in got), sorted([r.id, repr(raw(r))] for r in rc), what)


KEEP = 'not to be touched\n'


@suite.test(fixed(what=ints(1, 6), net=network, steps=thresholds, output=one('1', '2', '3', '4'), exists=one(0, 0, 0, 1, 1, 2, 2, 3), overwrite=st.booleans(), journals=st.booleans(), lower=st.booleans(), view=weigh((9, st.just(0)), (1, ints(1, 2))), **common), quick=2600, rule='two files, and a network with edges or a file with two records')
def dialogue(case, ctx):
    os.makedirs(ctx.path('out'))
    paths = build(case, ctx)
    given, rc = expected_records(case, ctx, paths)
    what, w = case['what'], case['wrongs']
    if case['how'] == 'dir' and not any(p.endswith(case['suffix']) for p in paths) or not len(rc):
        return
    if what in (2, 3) and not all(type(r).__name__ == 'WOSRecord' for r in rc):
        what = {2: 4, 3: 5}[what]
    net, kind = case['net'], case['net'][0]
    tags = rc.tags()
    if what in (1, 3, 5) and kind in '123' and not {net[1]} | set(net[2] if kind == '3' else [net[2]] if kind == '2' else []) <= set(tags):
        have = [t for t in TAGS if t in tags]
        if not have:
            return
        fit = lambda t: t if t in tags else have[len(t + net[1]) % len(have)]
        case['net'] = net = [kind, fit(net[1]), fit(net[2]) if kind == '2' else [fit(t) for t in net[2]]]
    if len(rc) and any(t in tags for t in w['tag'] + ['NOTAG', 'XX']):
        return
    args, answers = opening(case, ctx, given)
    menus = [m for m in w['menu']]
    answers += menu(str(what), menus)
    stem = 'r'
    written = set()
    base = None
    wsuffix = {2: '.txt', 3: '.txt', 4: '.csv', 5: '.csv', 6: '.csv'}.get(what)
    if what != 1:
        if what == 6:
            answers += w['yes'] + [['y', ''][case['n'] % 2] if case['journals'] else 'n']
        make_existing(case, ctx, stem, wsuffix)
        a, base = name_answers(case, ctx, stem, case['exists'], case['overwrite'])
        answers += a
        written.add(base + wsuffix)
    if what in (1, 3, 5):
        full = make_network(rc, net)
        options = keep_thresholds(full, case['steps'])
        answers += menu(kind, menus) + tag_answers(case, rc)
        for o, x in case['steps']:
            answers += menu(o, menus)
            if o in '3456':
                answers += w['number'] + [str(x)]
        answers += menu('0', menus)
        answers += menu('0', menus) * case['view'] + menu(case['output'], menus)
        suf = {'1': '', '2': '.csv', '3': '.csv', '4': '.graphml'}[case['output']]
        if case['output'] == '1':
            make_existing(case, ctx, 'g', '_nodeAttributes.csv')
            a, gname = name_answers(case, ctx, 'g', case['exists'], case['overwrite'])
            outs = [gname + '_edgeList.csv', gname + '_nodeAttributes.csv']
        else:
            make_existing(case, ctx, 'g', suf)
            a, gname = name_answers(case, ctx, 'g', case['exists'], case['overwrite'])
            outs = [gname + suf]
        answers += a
    mk.VERBOSE_MODE = False
    before = set(os.listdir(ctx.path('out')))
    got, d = run(args, answers)
    ctx.eq(got, 1, 'what the tool returns')
    ctx.eq(d.answers, [], 'answers that were not asked for')
    ctx.eq(d.shells, sum(a == 'i' for a in answers), 'python consoles')
    there = set(os.listdir(ctx.path('out')))
    if what in (1, 3, 5):
        clash = base is not None and base + wsuffix in outs
        if clash:
            written.discard(base + wsuffix)
        ctx.eq(there - before, (written | set(outs)) - before, 'new files')
        good = []
        for h in options:
            good.append(read_network(h, case['output'], ctx, None))
        res = read_network(full, case['output'], ctx, [ctx.path('out/' + o) for o in outs])
        if ambiguous(rc, kind):
            res, good = without_source(res), [without_source(x) for x in good]
        ctx.check(res in good, lambda: 'network written by output %s after thresholds %r: got %r, expected %r' % (case['output'], case['steps'], res, good[0]))
        ctx.nontrivial(len(rc) > 1 and options[0].number_of_edges() > 0 and len(case['files']) > 1)
        ctx.label('network %s' % kind)
        ctx.label('thresholds remove something', options[0].number_of_edges() < full.number_of_edges() or len(options[0]) < len(full))
    else:
        ctx.eq(there - before, written - before, 'new files')
        ctx.nontrivial(len(rc) > 1 and len(case['files']) > 1)
    for f in written:
        p = ctx.path('out/' + f)
        if what in (2, 3):
            same_records(ctx, p, rc, 'records written')
        elif what in (4, 5):
            rc.writeCSV(ctx.path('want.csv'))
            ctx.eq(sorted(sorted((str(k), str(v)) for k, v in r.items()) for r in listing(p)), sorted(sorted((str(k), str(v)) for k, v in r.items()) for r in listing(ctx.path('want.csv'))), 'rows written')
        else:
            want = {str(c) for r in rc for c in r.get('citations') or [] if not case['journals'] or c.isJournal()}
            with open(p, encoding='utf-8') as fl:
                ctx.eq(sorted(fl.read().splitlines()), sorted(l for c in want for l in c.splitlines()), 'citations written')
    for f in before:
        if f not in written and (what not in (1, 3, 5) or f not in outs):
            with open(ctx.path('out/' + f)) as fl:
                ctx.eq(fl.read(), KEEP, 'a file that was not to be overwritten')
    ctx.label('what %d' % what)
    ctx.label('how ' + case['how'])
    ctx.label('%d files existed' % case['exists'])


def ambiguous(rc, kind):
    """Whether two records of a citation or co-citation network have one node, which describes either of them."""
    ids = [r.createCitation().ID() for r in rc] if kind in '45' else []
    return len(set(ids)) < len(ids)


def without_source(x):
    """x without the entries naming the record that a node was made from."""
    if isinstance(x, (list, tuple)):
        return [without_source(y) for y in x if not (isinstance(y, tuple) and y and y[0] in ('info', 'MK-ID'))]
    return x


def read_network(g, output, ctx, paths):
    """The files of a network in a form that can be compared; without paths, those the library writes for g."""
    d = g.is_directed()
    if paths is None:
        p = ctx.path('want')
        if output == '1':
            mk.writeGraph(g, p)
            paths = [p + '_edgeList.csv', p + '_nodeAttributes.csv']
        elif output == '2':
            mk.writeEdgeList(g, p)
        elif output == '3':
            mk.writeNodeAttributeFile(g, p)
        else:
            h = g.__class__()
            h.add_nodes_from((n, {k: v for k, v in x.items() if v is not None}) for n, x in g.nodes(data=True))
            h.add_edges_from((u, v, {k: w for k, w in x.items() if w is not None}) for u, v, x in g.edges(data=True))
            nx.write_graphml(h, p)
        paths = paths or [p]
    if output == '1':
        return [edge_rows(paths[0], d), node_rows(paths[1])]
    if output == '2':
        return edge_rows(paths[0], d)
    if output == '3':
        return node_rows(paths[0])
    h = nx.read_graphml(paths[0])
    return [h.is_directed(), sorted((n, sorted(x.items())) for n, x in h.nodes(data=True)), sorted(((u, v) if d else tuple(sorted((u, v))), sorted(x.items())) for u, v, x in h.edges(data=True))]


def dealt(c, n):
    """The records of a crowd in n files."""
    rs = [[['UT', ['WOS:2']] if t == 'UT' else [t, v] for t, v in f] for w, f in c]
    return [['W', l] for l in (rs[i::n] for i in range(n)) if l]


suite.larger(dialogue, 80, files=st.builds(dealt, crowds, ints(1, 12)), n=ints(0, 11), how=one('dir', 'files', 'files', 'ask'))


suite.larger(dialogue, 24, name='citations', what=st.just(6), files=st.builds(dealt, st.builds(crowd, ints(0, 999), ints(5, 60), ints(30, 60)), ints(1, 4)))


# A network whose edges have the weights 1 and 2: removing above a value must keep what is at or below it.
@suite.test(fixed(option=one('4', '6')), quick=2, rule='every case')
def above(case, ctx):
    rec = lambda n, *names: [['PT', ['J']], ['UT', ['WOS:%d' % n]], ['AF', list(names)]]
    p = ctx.write('a.isi', wos_file([rec(1, 'Li, X', 'Smith, J'), rec(2, 'Levy, Y', 'Ma, Z'), rec(3, 'Levy, Y', 'Ma, Z')]))
    got, d = run([p, '-q', '--debug'], ['1', '6', case['option'], '1', '0', '2', ctx.path('g')])
    edges = sorted(e for e, x in edge_rows(ctx.path('g.csv'), False))
    ctx.eq(edges, [['Li, X', 'Smith, J']], 'edges after removing %s above 1' % {'4': 'edges', '6': 'nodes'}[case['option']])
    ctx.nontrivial()


@suite.test(fixed(files=wfiles.map(lambda l: [['W', r] for r in l]), at=ints(0, 9), how=one('q', 'interrupt', 'missing'), what=one('1', '3', '5', '2', '4'), n=ints(0, 3), debug=st.booleans(), net=network, steps=thresholds), quick=500, rule='left after two or more answers')
def leaving(case, ctx):
    """Quitting, interrupting, and files that do not exist: nothing is written that was not finished."""
    paths = build(case, ctx)
    os.makedirs(ctx.path('out'))
    case = dict(case, how2='', name='', wrongs={'tag': [], 'name': [], 'yes': []}, lower=False)
    rc = RC()
    for p in paths:
        rc |= RC(p)
    if case['how'] == 'missing':
        bad = paths[:case['n'] % (len(paths) + 1)] + [ctx.path('in/none')] + paths
        if case['debug']:
            with ctx.raises(TypeError, 'a file that does not exist, in debug mode'):
                run(bad + ['--debug', '-q'], [])
        else:
            got, d = run(bad + ['-q'], [])
            ctx.check(isinstance(got, Exception), lambda: 'a file that does not exist: returned %r' % (got,))
            ctx.eq(d.prompts, [], 'questions')
        ctx.eq(os.listdir(ctx.path('out')), [], 'files')
        ctx.nontrivial(len(paths) > 1)
        return
    net = case['net']
    tags = rc.tags()
    if not {net[1]} | set(net[2] if net[0] == '3' else [net[2]]) <= set(tags):
        net = ['6', '', '']
        case['net'] = net
    answers, menus = [case['what']], [0]
    done = []
    if case['what'] != '1':
        answers.append(ctx.path('out/r'))
        done = [(len(answers), 'r' + ('.txt' if case['what'] in '23' else '.csv'))]
    if case['what'] in '135':
        menus.append(len(answers))
        answers += [net[0]] + tag_answers(case, rc)
        for o, x in case['steps']:
            menus.append(len(answers))
            answers += [o] + [str(x)] * (o in '3456')
        menus.append(len(answers))
        answers.append('0')
        menus.append(len(answers))
        answers += ['2', ctx.path('out/g')]
    else:
        answers = answers[:1]
        done = []
    k = menus[case['at'] % len(menus)] if case['how'] == 'q' else case['at'] % len(answers)
    if case['how'] == 'q':
        with ctx.raises(SystemExit, 'quitting'):
            run(paths + ['-q'] + ['--debug'] * case['debug'], answers[:k] + ['q'])
    else:
        got, d = run(paths + ['-q'] + ['--debug'] * case['debug'], answers[:k] + [KeyboardInterrupt])
        ctx.eq((got, d.answers), (0, []), 'what the tool returns when interrupted')
    ctx.eq(os.listdir(ctx.path('out')), [f for n, f in done if k >= n], 'files')
    ctx.nontrivial(k > 1)


citing = st.lists(one(*REFS, *(r for r in REFS if any(j in r for j in UNKNOWN))), min_size=1, max_size=4).map(lambda l: [['PT', ['J']], ['UT', ['WOS:300']], ['CR', l]])
cfiles = st.tuples(wfiles, st.lists(st.lists(citing, min_size=1, max_size=2), max_size=2)).map(lambda t: [['W', r] for r in t[1] + t[0]][:4])


@suite.test(fixed(files=cfiles, answers=fixed(**{j: one('y', 'n', '', 'N') for j in UNKNOWN}), before=st.dictionaries(one(*UNKNOWN, 'CELL'), one('', 'x|y'), max_size=2), wrongs=wrongs, known=st.booleans()), quick=800, rule='one journal taken and another not')
def journals(case, ctx):
    """Going over the non-journal citations with a database of one's own."""
    paths = build(case, ctx)
    rc = RC()
    for p in paths:
        rc |= RC(p)
    here = os.path.dirname(backend.__file__)
    name = os.path.relpath(ctx.path('man'), here)
    listed = set(os.listdir(here))
    if case['before']:
        backend.addToDB(dict(case['before']), dbname=name)
        mk.citation.abbrevDict.update({k: v.split('|') for k, v in case['before'].items()})
    asked = {}

    def user(prompt):
        j = next((j for j in UNKNOWN if j in prompt), None)
        if j is None:
            return None
        asked[j] = asked.get(j, 0) + 1
        if asked[j] == 1 and case['wrongs']['yes']:
            return case['wrongs']['yes'][0]
        return case['answers'][j]
    try:
        got, d = run(paths + ['-q', '--debug'], menu('7', case['wrongs']['menu']) + [name, user])
        ctx.eq(got, 1, 'what the tool returns')
        cited = {c.journal for r in rc for c in r.get('citations') or [] if getattr(c, 'journal', None)}
        todo = {j for j in UNKNOWN if j in cited and j not in case['before']}
        ctx.eq(asked, {j: 1 + len(case['wrongs']['yes']) for j in todo}, 'times each journal is asked for')
        want = {k: v.split('|') for k, v in case['before'].items()}
        want.update({j: [j] if case['answers'][j] in ('y', '') else [''] for j in todo})
        if want:
            ctx.eq(backend.getj9dict(manualDB=name, returnDict='manual'), want, 'the database afterwards')
        ctx.eq({f for f in os.listdir(here) if f not in listed}, set(), 'new files beside the default databases')
    finally:
        for f in os.listdir(here):
            if f not in listed and 'j9Abbreviations' in f:
                os.remove(os.path.join(here, f))
    ctx.nontrivial(len({case['answers'][j] in ('y', '') for j in todo}) == 2)


SCRIPT = '''import sys, io, urllib.request
sys.path.insert(0, sys.argv.pop(1))
def urlopen(*a, **k): raise urllib.error.URLError('no network')
urllib.request.urlopen = urlopen
import metaknowledge.bin
r = metaknowledge.bin.mkCLI()
print('RETURNED', r)
'''


@suite.test(fixed(files=wfiles.map(lambda l: [['W', r] for r in l]), answers=fixed(**{j: one('y', 'n') for j in UNKNOWN}), net=network, tags=st.just(0)), quick=24, rule='a network with edges')
def process(case, ctx):
    """The tool in a process of its own with its answers on standard input."""
    paths = build(case, ctx)
    rc = RC()
    for p in paths:
        rc |= RC(p)
    net = case['net']
    if not {net[1]} | set(net[2] if net[0] == '3' else [net[2]]) <= rc.tags():
        net = ['6', '', '']
    os.makedirs(ctx.path('out'))
    script = ctx.write('run.py', SCRIPT)
    answers = ['8', '1', net[0]] + tag_answers(dict(case, net=net, wrongs={}, lower=True), rc) + ['0', '2', 'g']
    p = subprocess.run([sys.executable, '-W', 'ignore', '-B', script, env.REPO] + paths, input='\n'.join(answers) + '\n', capture_output=True, text=True, cwd=ctx.path('out'), timeout=120)
    ctx.check(p.returncode == 0 and 'RETURNED 1' in p.stdout, lambda: 'the process ended with %d: %s %s' % (p.returncode, p.stdout[-300:], p.stderr[-300:]))
    ctx.eq(os.listdir(ctx.path('out')), ['g.csv'], 'files')
    g = make_network(rc, net)
    ctx.eq(read_network(g, '2', ctx, [ctx.path('out/g.csv')]), read_network(g, '2', ctx, None), 'network')
    ctx.nontrivial(g.number_of_edges() > 0)
