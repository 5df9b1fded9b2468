"""Small property-test layer on top of Hypothesis.

A *test* is a function  fn(case, ctx)  plus a strategy that generates `case`, a JSON value.
Because the case is plain JSON, the shrunk failing case *is* the replay file.
"""
import collections
import contextlib
import hashlib
import json
import os
import shutil
import sys
import tempfile


class Violation(AssertionError):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Test:
    def __init__(self, name, fn, strategy, quick, thorough, rule):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Suite:
    """The tests of one property."""
    def __init__(self, pid):
        self.pid = pid
        self.tests = []

    def test(self, strategy, quick=400, thorough=None, rule=""):
        def deco(fn):
            self.tests.append(Test(fn.__name__, fn, strategy, quick,
                                   thorough if thorough is not None else quick * 20, rule))
            return fn
        return deco

    def larger(self, fn, quick, name='large', **over):
        """The same test with other, larger, inputs for some of its parameters."""
        from hypothesis import strategies as st
        t = next(t for t in self.tests if t.fn is fn)
        both = st.tuples(t.strategy, st.fixed_dictionaries(over)).map(lambda p: dict(p[0], **p[1]))
        self.tests.append(Test('%s_%s' % (fn.__name__, name), fn, both, quick, quick * 20, t.rule))


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Ctx:
    """What a test function uses to report what it saw."""
    def __init__(self, tmproot):
        self._tmproot = tmproot
        self._dir = None
        self.is_nontrivial = False
        self.labels = collections.Counter()

    # -- verdicts
    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, sig)

    def eq(self, got, want, what, sig=None):
        if not (got == want):
            raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)), sig)

    @contextlib.contextmanager
    def raises(self, excs, what):
        try:
            yield
        except excs:
            return
        raise Violation("%s: no exception, expected %s" % (what, excs))

    # -- bookkeeping
    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def label(self, name, flag=True):
        if flag:
            self.labels[name] += 1

    # -- scratch files
    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(dir=self._tmproot)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text, encoding='utf-8'):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = text if isinstance(text, bytes) else text.encode(encoding)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def jnorm(case):
    return json.loads(json.dumps(case))


def jkey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
