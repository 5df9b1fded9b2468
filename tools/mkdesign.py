"""Writes DESIGN.md: tools/design_head.md, a section for each property (from its module, properties.jsonl and NOTES below), then the tables made from known_findings.jsonl and seeded/."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(HERE, *p), encoding='utf-8').read()

# what decides: the oracle, and what lies outside the bounds of the check
NOTES = {
    'C01': ("A model (Python sets of ids, with bad flags and error sets) executes the same history of up to 12 operations on five collections; after every step contents, sizes, names, flags and errors of all collections (operands too) are compared.",
            "Elements without an id; whether `&` of a good and a bad collection may drop errors nobody refers to. Bad grants with equal values are equal (they have no other identity)."),
    'C02': ("Lists of ids, type strings and tags the records were made from.", "The bad flag of the results of badEntries, chunk and split; dropNonJournals for records without a PT (KeyError)."),
    'C03': ("Differential: a freshly parsed record asked only one thing answers every step of the history; raw lines and writeRecord are compared before and after.", "Numbers and contents of `error`."),
    'C04': ("The generated tag/line list itself; for writing, the records before writing.", "Writing an empty collection; a line shorter than two characters inside an entry."),
    'C05': ("Values are composed from items by the documented layout of the field, so the items are the expected answer.", "Text that starts with the blanks of a continuation line."),
    'C06': ("As C04, with the decoding of the documented fields from the generated parts.", "Line breaks inside AD values (dropped); seasons in dates. The two known findings."),
    'C07': ("The generated cells; csv quoting written by an independent writer.", "A truncated cell with an unbalanced quote."),
    'C08': ("The generated documents.", "ProQuest has no writer that could be read again."),
    'C09': ("The records of the undamaged file that lie before the damage; for `detectable`, a list of kinds of damage the format makes detectable.", "A short or empty line in the middle of a WOS record is not required to be reported."),
    'C10': ("The type a file was generated as; for directories the union of single-file collections.", ""),
    'C11': ("Differential against the uncached read at the same moment; the writer of the cache is cut off after any number of bytes by a wrapper of the file object, damage includes other pickles and random bytes.", "Rewrites that keep the modification time."),
    'C12': ("The parts a string was composed of; equality by an independent normalisation.", "Year 0."),
    'C13': ("The parts of the record; the WOS-style string composed of them.", "Scopus records never equal `LEVY Y.` style references (format difference)."),
    'C14': ("An independent BibTeX parser (brace/quote aware) written in the module.", "The known finding (tails of split strings)."),
    'C15': ("csv.reader against str() of the record's values.", "Cells of dictionary values (order of keys)."),
    'C16': ("A token-level model of each option, applied in the documented order.", "White space other than blanks when its removal is off; the header of forBurst's file."),
    'C17': ("Row by row against the records; citations counted from the raw CR lines.", ""),
    'C18': ("Counter over the records' values.", "limitTo=[] (treated as no limit)."),
    'C19': ("`mkv/worlds.py`: a world is a list of small records; a count of values and pairs made directly from the world.", "Edge attribute values that repeat inside one record."),
    'C20': ("As C19.", "As C19."),
    'C21': ("As C19, with the citations counted per author.", "Which of several records describes an author."),
    'C22': ("The cited works that remain after the filters, and their pairs, counted from the world; `expanded` builds the expanded graph of nodes from the plain one and the world.", "`info` attributes of integers."),
    'C23': ("The list of (citing, cited) pairs that remain.", "Node count of a record that lists itself; expandedCore for citation networks."),
    'C24': ("Pairwise intersections of sets.", ""),
    'C25': ("A scan of the raw citations.", ""),
    'C26': ("Years of raw records and references; statistics.median.", "The sign convention is the one documented: count minus median."),
    'C27': ("Counts of raw citations from target to source.", "Sources whose own citations coincide; single-valued tags (known finding); which record gives a label."),
    'C28': ("The graph itself; csv.reader for lines.", "An empty name; attributes called like the fixed columns."),
    'C29': ("Sums and filters over networkx data.", "Merging parallel edges."),
    'C30': ("The generated rows, elements and strings.", "Medline strings whose number has slashes and that have a code; Scopus strings of more than three parts; repeated equal values of merged awards."),
    'C31': ("Counts of names and pairs from the generated grants.", "The known finding (blank names)."),
    'C32': ("A lookup in the stand-in table written in the module.", ""),
    'C33': ("A dictionary per database. Pages are served by a stand-in for urlopen (also failing ones); 'restart' clears what the modules keep in memory, and `processes` uses real ones.", "Module-level additions become visible to citations after a restart; which of two exceptions an unreachable server gives."),
    'C34': ("Differential against a collection made anew for every step; snapshots of everything that was given.", "`orders` leaves aside references that fit two records and attributes that depend on which record describes a node."),
    'C35': ("Scripted answers to `input`; the library calls that the dialogue names, made on the records of the files, with thresholds by an independent filter (C04, C15, C19-C23, C28 check these calls). A prompt that is not expected ends the dialogue and is reported.", "The known finding (removing above a value); the return value 1 (pinned); names in the prompt for files that contain blanks."),
    'C36': ("An independent count and ranking of the values; the table is taken apart by its borders. COLUMNS and LINES set the size of the terminal.", "Values that hold line breaks; ranks of three digits; tags of unhashable values."),
    'C37': ("An independent splitting of the lines into runs; json for the notebook.", "Carriage returns; the exact number of blank lines at the ends of cells."),
    'C38': ("The artists matplotlib holds (points, colours, segments, labels), and the arguments of plot_surface and contourf, against the graph; scipy's gaussian filter of an independently counted grid.", "How loops are drawn; what an earlier figure holds; coordinates exactly between two cells."),
}


def tests(pid):
    t = ast.parse(rd('props', pid + '.py'))
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for x in n.decorator_list:
                if isinstance(x, ast.Call) and ast.unparse(x.func) == 'suite.test':
                    kw = {k.arg: k.value.value for k in x.keywords if isinstance(k.value, ast.Constant)}
                    yield n.name, kw.get('quick'), kw.get('rule'), (ast.get_docstring(n) or '').split('\n')[0]
    return


def main():
    out = [rd('tools', 'design_head.md').rstrip(), '', '## The properties', '']
    props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
    for p in props:
        doc = ast.get_docstring(ast.parse(rd('props', p['id'] + '.py'))).split(': ', 1)[1]
        oracle, left = NOTES[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '', doc[0].upper() + doc[1:], '', '* Oracle: ' + oracle]
        if left:
            out.append('* Left aside: ' + left)
        for name, quick, rule, text in tests(p['id']):
            out.append('* `%s` (quick: %s cases; non-trivial: %s).%s' % (name, quick, rule, ' ' + text if text else ''))
        out.append('')
    out += ['No property is listed under not_applicable.', '', '## Known findings and repairs', '', 'Recorded, because an existing test pins the behaviour:', '']
    fixes = {}
    for l in rd('known_findings.jsonl').splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            out.append('* %s (%s): %s' % (d['property'], d['test'], d['what']))
        elif l.startswith('fixed: '):
            a, b = l[len('fixed: property='):].split(' ', 1)
            fixes.setdefault(a, []).append(b)
    out += ['', 'Repaired in /repo by "fix:" commits:', '']
    for a in sorted(fixes):
        for b in fixes[a]:
            out.append('* %s %s' % (a, b))
    out += ['', '## Planted bugs', '', 'Each was written from the statement and the code, then run against the check of its property.', '', '| seeded/ | property | needs | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        name = os.path.basename(os.path.dirname(f))
        out.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
    out += ['', rd('tools', 'design_tail.md').rstrip()]
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(out) + '\n')


main()
