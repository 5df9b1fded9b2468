#!/usr/bin/env python3
"""Writes known_findings.jsonl: the recorded findings and one line per repair in /repo (found by the commit's subject)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLANK_AU = [["PMID", ["1"]], ["AU", ["Li X"]], ["AD", ["A"]], ["AU", ["Li X"]], ["AD", ["B"]]]
REC = {"side": "S", "AU": ["Levy, Y"], "J9": "NATURE", "AF": [], "DE": [], "WC": [], "LA": [], "TI": "", "CR": []}
LAY = {"lead": 1, "gap": 0, "tail": 1, "nofinal": False, "eol": "\n"}
KNOWN = [
    ('C06', 'write_and_reread', {"recs": [BLANK_AU], "how": "file", "cut": 0},
     'a Medline record with two authors of the same short name writes the AD/AUID lines of both after each of them (existing test pins the size of the written file)'),
    ('C06', 'parse_file', {"recs": [[["PMID", ["1"]], ["AU", ["Li X"]], ["AD", ["A"]], ["AD", ["B"]]]], "lay": LAY, "name": "a.medline"},
     'of several AD lines of one author only the last is in the decoded AD value (existing test pins the size of BibTeX output made from it)'),
    ('C14', 'split_exact', {"n": 3, "vals": ["abcd"], "uid": 1, "cut": False},
     'the tail of a value after its last full piece of maxStringLength characters is not written (existing tests pin the size of the output)'),
    ('C27', 'graph', {"world": [dict(REC, side='S', DE=['a']), dict(REC, side='T', CR=[[0, 0, 0]])], "source": 'DE', "target": 'J9', "label": None, "weighted": True},
     'diffusionGraph makes one node of every character of the value of a single-valued tag (existing test pins the sizes of such graphs)'),
    ('C31', 'names', {"world": [['F', {'PI': []}]], "tags": 'PI', "sep": ';', "glue": '{}', "count": True, "weighted": True, "institution": False},
     'a blank field of investigators or institutions makes a node with a blank name (existing test pins the size of such a graph)'),
    ('C35', 'above', {"option": "4"}, 'removing the edges above a value in the command line tool removes those below it (existing test pins this)'),
    ('C35', 'above', {"option": "6"}, 'removing the nodes above a value in the command line tool removes those below it (existing test pins this)'),
]
# subject of the fix commit: properties
FIXED = json.load(open(os.path.join(HERE, 'tools', 'fixed.json')))


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout.splitlines()
    lines = [json.dumps({'property': p, 'status': 'known', 'test': t, 'case': c, 'what': w}) for p, t, c, w in KNOWN]
    seen = set()
    for l in reversed(log):
        h, s = l.split(' ', 1)
        s = s[5:]
        seen.add(s)
        for p in FIXED.get(s, '?').split():
            lines.append('fixed: property=%s %s %s' % (p, h, s))
            if p == '?':
                print('no property for:', s)
    for s in set(FIXED) - seen:
        print('no commit for:', s)
    with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')


main()
