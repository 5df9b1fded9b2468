"""C37: generated markdown files are converted to notebooks, which must be valid and hold exactly the code and the text of the file, cell by cell."""
import contextlib
import io
import json
import os
import sys

from hypothesis import strategies as st

import metaknowledge.bin
from mkv.core import Suite
from mkv.gen import fixed, ints, one, weigh

suite = Suite('C37')
code = one('x = 1', 'print("a\\n")', "s = r'\\d'", '    y = "q"', '', ' ', '# [2] no', '"""', 'é = "\\u00e9"', '\tz', '}', '\\')
prose = one('Some text', '# A heading', '* item "quoted"', 'a \\ b \\n c', '    indented', 'x [1] y', ' [1]x', '\ttab', '{curly} {0}', 'naïve “q”', '[a]b', '[-1]c', '[1 ]d', ' ', '%s', '"', "'", '\x7f\x01', '<b>&amp;</b>', '[link](http://a.b/c)', '[', ']')
# a file: lines ['C', number, code] / ['T', text] / ['B'] (a blank line)
line = weigh((4, st.tuples(st.just('C'), one('1', '1', '2', '10', '', '01', '100', '007', '2015', '101', '201', '110', '12345678901'), code)), (4, st.tuples(st.just('T'), weigh((6, prose), (1, st.text(st.characters(exclude_categories=['Cs'], exclude_characters='\n\r'), max_size=8))))), (3, st.just(('B',)))).map(list)
mdfile = fixed(lines=st.lists(line, max_size=14), end=one('\n', '\n', ''))


def text(f):
    s = [{'C': lambda l: '[%s]%s' % (l[1], l[2]), 'T': lambda l: l[1], 'B': lambda l: ''}[l[0]](l) for l in f['lines']]
    return '\n'.join(s) + (f['end'] if s else '')


def is_code(l):
    """(number, code) of a code line: digits (or nothing) in brackets at its start"""
    head, b, rest = l[1:].partition(']')
    if l[:1] == '[' and b and all(c in '0123456789' for c in head):
        return head, rest
    return None


def expected(s):
    """[(kind, text)] of a file, without the blank lines at the ends of cells and without empty cells"""
    lines = s.split('\n')
    runs = []
    for l in lines:
        c = is_code(l)
        key = ('code', c[0]) if c else ('markdown', None)
        if not runs or runs[-1][0] != key:
            runs.append((key, []))
        runs[-1][1].append(c[1] if c else l)
    out = []
    for (kind, n), ls in runs:
        parts = [[]]
        for i, l in enumerate(ls):
            if kind == 'markdown' and l == '' and i + 1 < len(ls) and ls[i + 1] == '':
                if parts[-1]:
                    parts.append([])
            else:
                parts[-1].append(l)
        out += [(kind, '\n'.join(p).strip('\n')) for p in parts]
    return [(k, t) for k, t in out if t or k == 'code']


@suite.test(fixed(files=st.lists(mdfile, min_size=1, max_size=3), names=st.permutations(['a.md', 'b.markdown', 'c.d.md', 'e', 'f .md']), n=ints(0, 2)), quick=8000, rule='a cell of each kind')
def notebook(case, ctx):
    names = case['names'][:len(case['files'])]
    paths = [ctx.path(n) for n in names]
    for p, f in zip(paths, case['files']):
        with open(p, 'w', encoding='utf-8', newline='') as fl:
            fl.write(text(f))
    if case['n'] == 1:  # an older and longer notebook is replaced
        ctx.write(os.path.splitext(names[0])[0] + '.ipynb', '{}' * 2000)
    saved = sys.argv
    sys.argv = ['mdToNb'] + paths
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            metaknowledge.bin.mkMdToNb()
    finally:
        sys.argv = saved
    kinds = set()
    for n, f in zip(names, case['files']):
        with open(ctx.path(os.path.splitext(n)[0] + '.ipynb'), encoding='utf-8', newline='') as fl:
            raw = fl.read()
        try:
            nb = json.loads(raw)
        except ValueError as e:
            ctx.check(False, lambda: 'the notebook is not JSON: %s' % e)
        ctx.eq((nb['nbformat'], nb['metadata']['kernelspec']['name']), (4, 'python3'), 'format and kernel')
        got = []
        for c in nb['cells']:
            ctx.check(isinstance(c['metadata'], dict) and all(isinstance(x, str) for x in c['source']) and all(x.endswith('\n') for x in c['source'][:-1]), lambda: 'cell %r' % c)
            if c['cell_type'] == 'code':
                ctx.eq((c['execution_count'], c['outputs']), (None, []), 'code cell')
            got.append((c['cell_type'], ''.join(c['source']).strip('\n')))
        ctx.eq([c for c in got if c[1] or c[0] == 'code'], expected(text(f)), 'cells')
        ctx.eq(open(ctx.path(n), encoding='utf-8', newline='').read(), text(f), 'the markdown file')
        kinds |= {k for k, t in got if t}
    ctx.eq(len(os.listdir(ctx.path('.'))), 2 * len(names), 'files')
    ctx.nontrivial(len(kinds) == 2)


# long files, of long lines and long cells
long_line = st.tuples(st.sampled_from('CTT'), ints(0, 10 ** 4), ints(1, 300), one('word "q" \\ ', '[1]', 'é', 'x = y; ')).map(lambda t: ['C', str(t[1]), t[3] * t[2]] if t[0] == 'C' else ['T', 'x' + t[3] * t[2]])
run = weigh((3, st.tuples(st.lists(line, min_size=1, max_size=5), ints(20, 120)).map(lambda t: t[0] * t[1])), (1, st.tuples(prose, ints(50, 400)).map(lambda t: [['T', t[0]]] * t[1])), (1, ints(20, 200).map(lambda n: [['C', str(i), 'x = %d' % i] for i in range(n)])),
            (1, ints(20, 200).map(lambda n: [['C', '5', 'x = %d' % i] for i in range(n)])), (1, ints(20, 100).map(lambda n: [l for i in range(n) for l in (['T', 'Paragraph %d' % i], ['B'], ['B'])])), (2, st.lists(long_line, min_size=1, max_size=4)))
suite.larger(notebook, 240, files=st.lists(fixed(lines=st.lists(run, min_size=1, max_size=3).map(lambda l: sum(l, [])), end=one('\n', '')), min_size=1, max_size=2))
