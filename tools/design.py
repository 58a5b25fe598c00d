#!/usr/bin/env python3-vt
"""Writes DESIGN.md: head, per-property table (bounds taken from the harnesses), findings, planted bugs, tail."""
import importlib, json, os, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
HOW = {
'P01': 'The harness parses an arbitrary text; any exception but ParseError on any path is the counterexample (an exception inside a symbolic path is a feasible path of the real code). Accepted documents are read completely and errors are created for every element. Termination: every path ends (an endless loop would exceed the trace limit and be reported as cut).',
'P02': 'Oracle: the character-by-character line classifier of ref/eno.py against what the real grammar (one regular expression, interpreted symbolically) yields through the API, for every line up to the bound, alone and in surrounding contexts.',
'P03': 'Oracle: stack of open sections in ref/eno.py. Solver-chosen sequences of depths.',
'P04': 'Oracle: attachment rules of ref/eno.py. The solver chooses the kind of every line; contexts put the analyzer into each of its states first.',
'P05': 'Oracle: the value composed from the list of (operator, text) pairs. Solver-chosen operators and texts, comments and blank lines in between.',
'P06': 'Oracle: first following line with equal dash count and equal key, found by comparing trimmed lines, not by a pattern. Arbitrary contents and arbitrary keys (regular expression characters included: the pattern built from the key is itself symbolic).',
'P07': 'Writes an arbitrary key inside an arbitrary number of backticks, parses, and asserts that string_key() and the lookup by key give it back; arbitrary text behind opening backticks is compared with the reference.',
'P08': 'Oracle: comments of ref/eno.py (attachment by adjacency, shared indentation computed on the lines).',
'P09': 'Oracle: functional copy resolution in ref/eno.py. Solver-chosen graph: each element is an original or a copy of any other.',
'P10': 'Oracle: functional resolution of sections. Solver-chosen graph of sections and operators.',
'P11': 'Oracle: set of admissible errors (missing, ambiguous, cyclic) computed on the graph of copies; asserts that an error is raised exactly when the set is non-empty and that it is one of the set.',
'P12': 'Oracle: the set of admissible errors of the first offending line, each with message and selection computed on the text; asserts message, selection, cursor, and agreement of index, line and column.',
'P13': 'Decodes the snippets of all three reporters back into (line number, tag, content) and compares with the lines of the text; order, omissions, context and marks are asserted separately.',
'P14': 'Parses the HTML snippet with a strict reader of the tags the reporter is known to create; everything else must decode to document lines.',
'P15': 'Oracle: owner of every line in the reference tree; the position is a solver variable (concretised per line) and by line, by index and out of range are compared.',
'P16': 'Oracle: tokens of the reference line classifier; all positions of every line.',
'P17': 'Differential: one text with white space (symbolic characters) at every place where it is free, one without; both are read and compared in one query.',
'P31': 'Differential: parts are read alone and together; the whole must be the concatenation (or the nesting) of the parts.',
'P32': 'Round trip: a writer in the harness makes the notation of a tree (from any document that was read, or a tree with symbolic keys, values and comments), which must read as that tree.',
'P33': 'Differential: the same document with and without lines in front; every error, snippet and position is compared.',
'P35': 'Both elements are taken from fresh documents and asked everything; no reference is needed for the answers, only for which element is meant.',
'P36': 'Differential: a layout is read once with fixed words and once with symbolic names and texts of every length given; what is said about the words must be said about the names in their places. The only assumptions are that different words stay different and that no name contains an operator where one would be read.',
'P37': 'Differential: the same document with and without one comment line (any characters) at a solver-chosen place; a line number named in an error is moved by the added line.',
'P38': 'The same steps are taken with each document alone, the package put back to what it was after import in between, and then in a solver-chosen order of all steps; everything observed must be the same.',
'P34': 'The expected words are put together from the reference tree with symbolic keys and values (`__repr__` is called directly, as repr() would turn a symbolic text into a plain one).',
'P18': 'Expectation computed from the reference tree for each accessor, with a solver-chosen key (equal to any, several or none of the keys).',
'P19': 'As P18 for entries and items.',
'P20': 'Solver-chosen keys through two or three levels of missing elements; every accessor; expected error computed from the first missing level.',
'P21': 'The solver chooses what is done with every element (nothing, convert, read, touch); expectation is the set of unread elements of the reference tree.',
'P22': 'A recording loader with a solver-chosen text of its error; the texts it saw and what came out are compared with the reference.',
'P23': 'Expected selection computed from the token ranges of the reference for every error of every element.',
'P24': 'The solver chooses the history of fetching and (un)requiring steps; expectation: the last call on the section or anything around it.',
'P25': 'Runs the same symbolic document under several locales, reporters and labels in one path and compares outcomes; messages are compared with the repository catalogue (`/repo/locales`) with symbolic arguments.',
'P26': 'Solver-chosen texts; each registered accessor against the generic one with the same recording loader.',
'P27': 'The solver chooses the history of operations; the observation afterwards is compared with one of a fresh document from the same symbolic text.',
'P28': 'The solver chooses the sequence of conversions; expectation: a three-state model (unconverted, converted to one thing).',
'P29': 'Identity (`is`) of parent() with the object it was obtained from; for lookups the path to the document in the reference tree.',
'P30': 'Compares raw() with data assembled from the accessors and with the reference tree, in different orders of asking.',
}
MISC = json.load(open(os.path.join(VERIF, 'tools', 'design_misc.json'))) if os.path.exists(os.path.join(VERIF, 'tools', 'design_misc.json')) else {}

def main():
    out = [open(os.path.join(VERIF, 'tools', 'design_head.md')).read(), '\n## 2. Properties\n']
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    manifest = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    na = {n['property']: n for n in manifest['not_applicable']}
    for p in props:
        if p['id'] in na:
            continue
        out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], HOW.get(p['id'], '')))
        mod = importlib.import_module('harness.' + p['id'].lower())
        for h, s in mod.HARNESSES.items():
            b = s['bounds']
            out.append('* `%s`: %s' % (h, b if isinstance(b, str) else b['quick'] if b['quick'] == b['thorough'] else '%s; thorough: %s' % (b['quick'], b['thorough'])))
        out.append('')
    out.append('\n### Not applicable\n')
    for n in na.values():
        out.append('* %s: %s' % (n['property'], n['reason']))
    out.append('\n## 3. Defects found and repaired\n\nEach was a counterexample of a check (or of the reference that became one), confirmed on the real code and repaired by a `fix:` commit in /repo (`known_findings.txt`). '
               'One defect is recorded and not repaired (it takes rewriting every recursive function of the package): P01 `deep`, chains of about a thousand copies, or sections nested as deep where something is copied, exceed the recursion limit of Python. The check shows it with chains of 1200 copies, and that chains of 120 work.\n\n| property | commit | what failed |\n|---|---|---|')
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m:
            out.append('| %s | %s | %s |' % m.groups())
    out.append('\n' + open(os.path.join(VERIF, 'tools', 'design_tail.md')).read())
    out.append('\n## 6. Planted bugs and the checks that catch them\n\nBuilt and validated by `tools/plant.py` from `tools/bugs.py` (tests pass, demonstration fails with and passes without the change). '
               'The last column lists every check that reports a violation of its property with the bug in place (quick tier).\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
    res = {}
    path = os.path.join(VERIF, 'tools', 'caught.json')
    if os.path.exists(path):
        res = json.load(open(path))
    for b in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', b, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], ', '.join(res.get(b, ['?'])) or 'none'))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

main()
