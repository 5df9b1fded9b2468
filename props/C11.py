"""C11: histories of changes to a directory, damage to its caches and reads with and without the cache (also in another process, also with the write of the cache cut short) are replayed; every cached read is compared with an uncached one."""
import os
import pickle
import resource
import signal
import subprocess
import sys

from hypothesis import strategies as st

from mkv import cacheserver
from mkv import grants as G
from mkv.core import Suite
from mkv.env import exc, mk
from mkv.gen import fixed, ints, one, wos_text

suite = Suite('C11')
NAMES = ['a.txt', 'b.txt', 'c.isi', 'a.b.txt', 'd']
GNAMES = ['NSERC_a.csv', 'NSERC_b.csv', 'cihr_a.csv', 'c.csv', 'd.csv', 'e.xml', 'f.xml']


def content(cls, name, spec):
    ids, var, defect = spec
    if cls == 'RC':
        recs = [wos_text([['PT', ['J']], ['TI', ['title %d of %s' % (var, name)]], ['UT', ['WOS:%02d' % i]]]) for i in ids]
        if defect == 'bad' and recs:
            recs[0] = recs[0].replace('UT ', 'U1 ')
        s = '\ufeffFN x\nVR 1.0\n' + '\n'.join(recs) + '\nEF'
        if defect == 'trunc':
            s = s[:-2]
        if defect == 'junk':
            s = 'junk %d' % var
        return s.encode()
    if name.endswith('.xml'):
        if defect == 'junk':
            return b'<a/>'
        return G.nsf_text([['AwardID', '%d' % (ids[0] if ids else 9)], ['AwardTitle', 'title %d' % var]] if defect != 'bad' else [['AwardTitle', 't']]).encode()
    if name.startswith('NSERC'):
        return G.csv_text(['Cle', 'Name-Nom', 'V'], [{'Cle': '%d' % i, 'Name-Nom': 'n%d' % (i % 3), 'V': 'v%d' % var} for i in ids] or [{'Cle': ''}]).encode()
    if name.startswith('cihr'):
        return G.cihr_text([{'Funding Reference Number': '%d' % i, 'PI Names': 'n%d' % var if defect != 'bad' else ''} for i in ids]).encode()
    return G.csv_text(['A', 'B'], [{'A': '%d' % i, 'B': 'v%d' % var} for i in ids] or [{'A': 'x'}]).encode()


spec = st.tuples(st.lists(ints(0, 6), max_size=3, unique=True), ints(0, 9), one('', '', '', '', 'bad', 'trunc', 'junk')).map(list)
ext = one('', '', '.txt', '.isi', 'txt', 'b.txt')
name = one('', '', '', 'n')
frac = ints(0, 1000)
gext = one('', '', '.csv', '.xml', 'a.csv')


def ops(cls):
    i = ints(0, 6)
    e = ext if cls == 'RC' else gext
    how = one('abs', 'abs', 'rel')
    read = st.tuples(st.just('read'), e, name, how)
    plain = st.just(['read', '', '', 'abs'])
    reads = st.one_of(plain, plain, read, st.tuples(one('read2', 'readother', 'readother'), e, name, how), st.just(['readother', '', '', 'abs']))
    change = st.one_of(st.tuples(st.just('write'), i, spec), st.tuples(st.just('rm'), i), st.tuples(st.just('touch'), i, one(-3, 5, 0.25, -0.25)), st.tuples(st.just('rename'), i, i))
    other = st.one_of(st.tuples(st.just('cut'), e, name, frac), st.tuples(st.just('damage'), one('trunc', 'trunc', 'flip', 'append', 'empty', 'text', 'pickle', 'class', 'swap', 'unlink', 'dict'), frac),
                      st.tuples(st.just('spoil'), e, name), st.just(('move',)))
    seg = st.one_of(st.tuples(change, reads), st.tuples(change, reads), st.tuples(change, change, reads), st.tuples(other, reads), st.tuples(reads), st.tuples(change, other, reads))
    return st.lists(seg, min_size=2, max_size=6).map(lambda ss: [list(o) for s in ss for o in s])


server = []


def other(q):
    import json
    if not server or server[0].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED='4711')
        server[:] = [subprocess.Popen([sys.executable, '-W', 'ignore', cacheserver.__file__], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)]
    server[0].stdin.write(json.dumps(q) + '\n')
    server[0].stdin.flush()
    return json.loads(server[0].stdout.readline())


def same(ctx, got, want, what):
    for k in ('name', 'isbad', 'errors', 'types', 'bad', 'len'):
        ctx.eq(got[k], want[k], '%s: %s' % (what, k))
    ctx.eq(sorted(got['good']), sorted(want['good']), what + ': ids')
    ctx.eq(got['good'], want['good'], what)


def history(cls, names, case, ctx):
    base = ctx.path('p0')
    os.mkdir(base)
    d = os.path.join(base, 'dir')
    os.mkdir(d)
    clock = [1500000000.5]
    moved = 0
    ncached, nhit, changed = 0, 0, False
    suffix = '.mkRecordDirCache' if cls == 'RC' else '.mkGrantDirCache'

    def stamp(p, step=1):
        clock[0] += step
        os.utime(p, (clock[0], clock[0]))

    def caches():
        return sorted(f for f in os.listdir(d) if f not in names)

    def args(op, cached):
        p = d if op[3:] != ['rel'] else os.path.relpath(d)
        return dict(cls=cls, path=p, name=op[2], ext=op[1], cached=cached)

    for n, s in case['files']:
        p = os.path.join(d, names[n % len(names)])
        with open(p, 'wb') as f:
            f.write(content(cls, names[n % len(names)], s))
        stamp(p)
    for k, op in enumerate(case['ops']):
        here = 'step %d %s' % (k, op)
        if op[0] in ('write', 'rm', 'touch', 'rename'):
            nm = names[op[1] % len(names)]
            p = os.path.join(d, nm)
            changed = True
            if op[0] == 'write':
                with open(p, 'wb') as f:
                    f.write(content(cls, nm, op[2]))
                stamp(p, [1, 0.125][op[2][1] % 2])  # also changes within a second
            elif not os.path.exists(p):
                pass
            elif op[0] == 'rm':
                os.remove(p)
            elif op[0] == 'touch':
                t = os.stat(p).st_mtime + op[2] + (k + 1) ** 3 / 2 ** 18  # never the time of another content
                os.utime(p, (t, t))
            elif op[0] == 'rename':
                os.replace(p, os.path.join(d, names[op[2] % len(names)]))
        elif op[0] == 'damage':
            for c in caches():
                p = os.path.join(d, c)
                b = open(p, 'rb').read()
                x = len(b) * op[2] // 1000
                if op[1] == 'unlink':
                    os.remove(p)
                    continue
                if op[1] == 'trunc':
                    b = b[:x]
                elif op[1] == 'flip':
                    b = b[:1] + b'\xff' + b[2:]
                elif op[1] == 'append':
                    b = b[:x] + b'...'
                elif op[1] == 'empty':
                    b = b''
                elif op[1] == 'text':
                    b = b'not a cache\n'
                elif op[1] == 'pickle':
                    b = pickle.dumps([{'a': 1}, [1, 2], None, 5, ('x', 'y'), ({}, None), 'ab'][op[2] % 7])
                elif op[1] == 'class':
                    b = b'cnosuchmodule\nNoSuchClass\n.'
                elif op[1] == 'dict':
                    b = pickle.dumps(({'Collection Name': None}, []))
                elif op[1] == 'swap':
                    others = [x for x in caches() if x != c]
                    if others:
                        b = open(os.path.join(d, others[op[2] % len(others)]), 'rb').read()
                with open(p, 'wb') as f:
                    f.write(b)
        elif op[0] == 'move':
            moved += 1
            nb = ctx.path('p%d' % moved)
            os.mkdir(nb)
            os.rename(d, os.path.join(nb, 'dir'))
            d = os.path.join(nb, 'dir')
        elif op[0] == 'cut':
            # a process that reads the directory and dies while it writes the cache
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (op[3] * 2, op[3] * 2))
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    cacheserver.read(**args(op[:3], True))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
        elif op[0] == 'spoil':
            # what is done with a collection must not reach later reads
            try:
                c = cacheserver.read(**args(op, True))
            except exc.mkException:
                continue
            c.name, c.bad = 'spoiled', not c.bad
            c.errors['x'] = ValueError('x')
            c.clear()
        else:
            q = args(op, True)
            try:
                want = cacheserver.summary(cacheserver.read(**args(op, False)))
            except exc.mkException as e:
                want = {'raised': type(e).__name__}
            if op[0] == 'readother':
                got = other(dict(q, path=os.path.abspath(q['path']) if cls == 'RC' else d))
                if cls == 'GC' and 'raised' not in want:
                    want = cacheserver.summary(cacheserver.read(**dict(args(op, False), path=d)))
            else:
                try:
                    got = cacheserver.summary(cacheserver.read(**q))
                    if op[0] == 'read2':
                        got = cacheserver.summary(cacheserver.read(**q))
                except exc.mkException as e:
                    got = {'raised': type(e).__name__}
            if 'raised' in want or 'raised' in got:
                ctx.eq(got, want, here)
            else:
                same(ctx, got, want, here)
                ncached += 1
                nhit += ncached > 1 and changed
    ctx.nontrivial(ncached >= 2 and nhit)
    ctx.label('cached reads after a change', nhit > 0)
    for x in {o[0] for o in case['ops']}:
        ctx.label(x)


def strat(cls, n):
    return fixed(files=st.lists(st.tuples(ints(0, n - 1), spec).map(list), min_size=1, max_size=4, unique_by=lambda x: x[0]), ops=ops(cls))


@suite.test(strat('RC', len(NAMES)), quick=4000, rule='two cached reads with a change of a file before the last of them')
def records(case, ctx):
    history('RC', NAMES, case, ctx)


@suite.test(strat('GC', len(GNAMES)), quick=3000, rule='two cached reads with a change of a file before the last of them')
def grants(case, ctx):
    history('GC', GNAMES, case, ctx)


@suite.test(fixed(cls=one('RC', 'GC'), what=one('file', 'none', 'list'), s=spec), quick=60, rule='every case')
def not_a_directory(case, ctx):
    """cached=True changes nothing for collections that do not come from a directory, and writes nothing"""
    nm = 'b.txt' if case['cls'] == 'RC' else 'c.csv'
    if case['s'][2] == 'junk':
        return
    p = ctx.write('d/' + nm, content(case['cls'], nm, case['s']))
    cls = {'RC': mk.RecordCollection, 'GC': mk.GrantCollection}[case['cls']]
    arg = {'file': p, 'none': None, 'list': list(cls(p))}[case['what']]
    same(ctx, cacheserver.summary(cls(arg, cached=True)), cacheserver.summary(cls(arg)), case['what'])
    ctx.eq(os.listdir(ctx.path('d')), [nm], 'files of the directory')
    ctx.nontrivial()


def large(cls):
    n = ints(25, 150).map(lambda k: [list(range(k)), k % 10, ''])
    names = ['f%02d.txt' % i for i in range(30)] if cls == 'RC' else ['f%02d.csv' % i for i in range(30)]
    i = ints(0, 29)
    change = st.one_of(st.tuples(st.just('write'), i, n), st.tuples(st.just('rm'), i), st.tuples(st.just('touch'), i, one(-3, 5)), st.tuples(st.just('rename'), i, i))
    read = one(['read', '', '', 'abs'], ['read', '', 'n', 'abs'], ['readother', '', '', 'abs'])
    files = st.tuples(n, st.lists(ints(0, 9), min_size=26, max_size=30)).map(lambda p: [[j, p[0] if j == 7 else [[j, v], v, '']] for j, v in enumerate(p[1])])
    return names, fixed(files=files, ops=st.lists(st.tuples(change, read), min_size=2, max_size=4).map(lambda ss: [['read', '', '', 'abs']] + [list(o) for s in ss for o in s]))


@suite.test(large('RC')[1], quick=40, rule='two cached reads with a change of a file before the last of them')
def large_records(case, ctx):
    """Directories of many files, one of them of many records."""
    history('RC', large('RC')[0], case, ctx)


@suite.test(large('GC')[1], quick=24, rule='two cached reads with a change of a file before the last of them')
def large_grants(case, ctx):
    history('GC', large('GC')[0], case, ctx)
