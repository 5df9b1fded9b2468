"""Reads collections in a process of its own (with another hash seed) on request: one JSON line in, one out."""
import json
import os
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mkv.env import exc, mk  # noqa: E402


def summary(c):
    """Everything observable of a collection of records or grants, as JSON."""
    good, bad = {}, []
    for r in c:
        if r.bad:
            bad.append([type(r).__name__, str(r.error), sorted((k, str(r[k])) for k in r)])
            continue
        try:
            vals = [[t, v if isinstance(v, str) else list(v)] for t, v in r.items(raw=True)]
        except TypeError:  # grants
            vals = [[t, sorted(str(v).split('; '))] for t, v in sorted(r.items())]
        good.setdefault(r.id, []).append([type(r).__name__, vals, os.path.basename(r.sourceFile if isinstance(r.sourceFile, str) else r.sourceFile())])
    return json.loads(json.dumps({'good': good, 'bad': sorted(bad), 'name': c.name, 'isbad': bool(c.bad), 'len': len(c), 'types': sorted(c._collectedTypes),
            'errors': {k: [type(e).__name__, str(e)] for k, e in c.errors.items()}}))


def read(cls, path, name, ext, cached):
    return {'RC': mk.RecordCollection, 'GC': mk.GrantCollection}[cls](path, name=name, extension=ext, cached=cached)


def main():
    for line in sys.stdin:
        q = json.loads(line)
        try:
            res = summary(read(**q))
        except exc.mkException as e:
            res = {'raised': type(e).__name__}
        except Exception as e:
            res = {'raised': 'unexpected %s: %s' % (type(e).__name__, e)}
        print(json.dumps(res), flush=True)


if __name__ == '__main__':
    main()
