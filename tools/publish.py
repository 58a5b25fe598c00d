"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = 'python/enolib/'

# id: (title, statement, quantifier, why tests cannot settle it, files, mechanism[(name, where)], observe_at, level note)
P = {}


def prop(i, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[PY + f for f in files], mechanism=[dict(name=n, where=PY + w) for n, w in mech],
                             observe_at=observe, hook_needed=None), _note=note)


ELEMENTS = ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py']

prop('P01', 'Every text is parsed or rejected with a ParseError',
     'For every input text and each of the three reporters, parsing terminates and either returns a document or raises a ParseError that carries a text, a snippet, a message and a selection; no other exception escapes. '
     'Everything in an accepted document can be read through the API and raw(), and errors can be created for every one of its elements, without an unexpected exception.',
     ['inputs', 'configurations'], 'all texts, all reporters',
     'The tests parse a few dozen hand-written documents; a crash needs an unusual combination of lines, copies, white space or reporter.',
     ['analyzer.py', 'resolver.py', 'context.py', 'errors/parsing.py', 'reporters/reporter.py'],
     [('Analyzer.analyze', 'analyzer.py'), ('Resolver.resolve', 'resolver.py'), ('Reporter', 'reporters/reporter.py')], ['parse', 'raw', 'error'], '')
prop('P02', 'The characters of a line decide what it means, in every context',
     "What a single line is (blank, comment, element, copy, fieldset entry, list item, multiline field delimiter, continuation, section or invalid) and its key, value, comment and template follow eno's line grammar for every sequence of characters. "
     'Leading and trailing white space (including Unicode white space) never matters, the first operator after the key counts, keys, values and templates are trimmed and keep their inner characters, and a line that fits no construct is rejected rather than guessed.',
     ['inputs'], 'all single lines, in seven surrounding contexts',
     'The grammar tests sample some dozen strings per construct; the space of one line is infinite and the constructs overlap.',
     ['grammar_regex.py', 'analyzer.py'], [('Grammar regular expression', 'grammar_regex.py'), ('Analyzer.analyze', 'analyzer.py')], ['parse', 'elements'], '')
prop('P03', 'Section depth decides the parent; skipping a level is rejected',
     'A section with n hash signs becomes a child of the most recent section with n-1 hash signs that is still open, and every following element belongs to the most recent section. '
     'A section more than one level deeper than the current one is rejected; going back any number of levels is accepted.',
     ['inputs'], 'all sequences of section lines and depths, mixed with other lines',
     'Tests contain a few fixed hierarchies; the bookkeeping of open sections depends on the whole history of depths.',
     ['analyzer.py'], [('section branch of Analyzer.analyze', 'analyzer.py')], ['elements', 'parent'], '')
prop('P04', 'Items, entries and continuations attach to the right element or are rejected',
     'A list item, a fieldset entry or a continuation belongs to the closest preceding element that can hold it, whatever blank lines and comments are in between; an element never becomes both a list and a fieldset. '
     'Where there is no such element (nothing before it, a section, a value, a copy for continuations, the other kind of collection, a multiline field) the document is rejected with the error for that line.',
     ['inputs', 'histories'], 'all sequences of line kinds',
     'The analyzer keeps state across lines; tests cover a few transitions of it, not all sequences.',
     ['analyzer.py'], [('item, entry and continuation branches of Analyzer.analyze', 'analyzer.py')], ['elements', 'ParseError'], '')
prop('P05', 'Continuations join a value exactly as written',
     'The value of a field, list item or fieldset entry is its own text followed by its continuations in order: a direct continuation (|) is joined without and a spaced one (\\) with exactly one space. '
     'Empty continuations add no text (an empty spaced one before a text still leads to one space), nothing precedes the first text, and a value without any text is no value.',
     ['inputs', 'histories'], 'all sequences of continuations with arbitrary texts',
     'Spacing depends on the sequence of operators and empty lines; tests sample few of these sequences.',
     ['context.py', 'analyzer.py'], [('Context.value', 'context.py')], ['required_string_value', 'raw'], '')
prop('P06', 'Multiline fields keep their content verbatim',
     'Everything between the opening and the matching closing line of a multiline field is the value, character for character, whatever it looks like; one empty line in between is an empty text, no line in between no value. '
     'The closing line is the first following line with the same number of dashes and the same key, however either is surrounded by white space; without one the document is rejected as unterminated.',
     ['inputs'], 'all contents, all keys (regular expression characters included), all numbers of dashes',
     'Tests use short plain contents; the terminator is matched by a pattern built from the key.',
     ['analyzer.py', 'context.py'], [('Analyzer.parse_multiline_field', 'analyzer.py'), ('Context.value', 'context.py')], ['required_string_value'], '')
prop('P07', 'Every key can be escaped and is read back unchanged',
     'A key enclosed in backticks (any number, as long as the key does not contain that many in a row), with optional white space inside the backticks, is read back unchanged and the element can be looked up by it, for elements, copies, entries and sections. '
     'A key without operators needs no escaping; an escape that is opened but never closed is rejected.',
     ['inputs'], 'all keys, all numbers of backticks', 'Tests use a handful of keys.',
     ['grammar_regex.py', 'analyzer.py'], [('escaped key groups', 'grammar_regex.py'), ('Analyzer.analyze', 'analyzer.py')], ['string_key', 'elements(key)'], '')
prop('P08', 'Comments attach to the element directly below and keep text and indentation',
     'The comment lines directly above an element, section, item or entry, without a blank or other line in between, are its comment; comments followed by a blank line, a continuation or the end belong to nothing. '
     'A single comment line is trimmed; of several, leading and trailing empty ones are dropped, the shared indentation is removed and all further indentation and inner empty lines are kept.',
     ['inputs'], 'all sequences of comment lines with arbitrary text and indentation',
     'Attachment depends on the following lines and the indentation on all comment lines together; tests use a few.',
     ['analyzer.py', 'context.py'], [('Context.comment', 'context.py'), ('unassigned comments in Analyzer.analyze', 'analyzer.py')], ['optional_string_comment'], '')
prop('P09', 'Copied elements contain what their template contains, extended by their own',
     'A copied element without content of its own reads as its template (value, items or entries, and the comment unless it has its own), through chains of copies and across sections, before or after the template in the document. '
     "A copied list has the template's items followed by its own, a copied fieldset the template's entries except those whose key it has itself, followed by its own; the template is never changed by being copied.",
     ['inputs', 'programs'], 'all copy graphs over fields, lists, fieldsets and empties with arbitrary keys', 'Tests contain a few fixed copies; the result depends on the order of resolution.',
     ['resolver.py', 'context.py'] + ELEMENTS, [('Resolver.copy', 'resolver.py'), ('mirror and extend', 'context.py')], ['elements', 'items', 'entries', 'raw'], '')
prop('P10', 'Copied sections contain what their template contains, shallowly or deeply merged',
     "A section copied with < holds the template's elements except those whose key it has itself, followed by its own; without own elements it reads as its template. "
     'A deep copy (<<) additionally merges same-named subsections, at every depth and through chains of copies, when the key occurs exactly once on either side and both are sections. '
     'The comment is inherited unless there is an own one, and the template is never changed by being copied.',
     ['inputs', 'programs'], 'all section copy graphs, excluding sections with two sources (own template plus implicit deep merge)', 'Tests contain a few fixed copies; the result depends on depth and on the order of resolution.',
     ['resolver.py', 'context.py', 'elements/section.py'], [('Resolver.copy', 'resolver.py'), ('mirror and extend', 'context.py')], ['elements', 'raw'],
     'Excludes a section with its own template that an enclosing deep copy also merges, and templates inside extended sections.')
prop('P11', 'Copies of missing, ambiguous or cyclic templates are rejected, and only those',
     'A document is rejected when a copy names a template that does not exist (among sections for a section, among the other elements otherwise), names one that exists twice, or leads back to itself through any number of copies and nested sections, whatever the order of the lines. '
     'The error names the line and the template of a copy that is really affected; documents without such copies are accepted.',
     ['inputs', 'programs'], 'all copy graphs', 'Tests have one example per error; cycles and missing templates depend on the resolution order.',
     ['resolver.py', 'errors/parsing.py'], [('Resolver.resolve', 'resolver.py')], ['ParseError'], '')
prop('P12', 'A parse error reports the first offending line, with its message and selection',
     'When a document is rejected, the error belongs to the first line (from the top) that breaks a rule, copies being judged only after all lines are read (of several copies without a template, or with the same ambiguous one, the first is reported); its text names the right problem, line number and key. '
     'The selection spans exactly that line (the template for a cycle, from after the opening backticks for an unterminated key), index, line and column agree with each other and the text, and the cursor is the start of the selection.',
     ['inputs'], 'all rejected texts', 'Snapshot tests fix one document per error.',
     ['analyzer.py', 'errors/parsing.py', 'errors/selections.py'], [('Parsing', 'errors/parsing.py'), ('selections', 'errors/selections.py')], ['ParseError.text', 'ParseError.selection'], '')
exec(open(os.path.join(VERIF, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(VERIF, 'tools', 'more.py')) else None

TECH = 'bounded symbolic execution of the real Python code with z3 (all values within the bounds), counterexamples replayed on the unmodified package'
NOTE = ('Holds for every value within the stated bounds (text lengths, document layouts with symbolic characters, see the evidence file), decided by symbolic execution of the AST-instrumented package: '
        'branches on one unconstrained character by interval propagation over its domain, all others and every final path model by z3; each path is re-run concretely on the unmodified package. '
        'Trusts the symbolic str/re/int model (cross-checked on every path), z3 and the independent reference in ref/. Nothing is said about longer texts or other layouts, surrogates or planes 15/16. ')
NA = {
    'N01': ('Parsing and reading take time proportional to the document', 'Running time of the real interpreter is not a property of symbolic paths over bounded inputs; a bound on steps for bounded inputs says nothing about growth.',
            'For every text, parsing and reading it takes time linear in its length (no catastrophic backtracking).', ['grammar_regex.py', 'analyzer.py']),
    'N02': ('All language implementations read a document the same way', 'The JavaScript, PHP, Ruby and Rust implementations in the repository cannot be encoded by a Python engine; no symbolic executor for them is installed that reaches their regular expressions and maps.',
            'For every text, the implementations for all languages in the repository accept or reject it alike and read the same elements.', ['__init__.py']),
}


def main():
    have = [i for i in sorted(P) if os.path.exists(os.path.join(VERIF, 'harness', i.lower() + '.py'))]
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for i in sorted(P):
            f.write(json.dumps({k: v for k, v in P[i].items() if k[0] != '_'}) + '\n')
        for i, (title, reason, statement, files) in NA.items():
            f.write(json.dumps(dict(id=i, title=title, statement=statement, quantifier=dict(over=['inputs'], text='all texts'),
                                    why_tests_cant='Tests run a few short documents.', anchors=dict(files=[PY + x for x in files], mechanism=[]))) + '\n')
    checks = [dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                   technique=TECH, level='model_checking', level_note=(NOTE + P[i]['_note']).strip()) for i in have]
    na = [dict(property=i, reason='the check is not built yet') for i in sorted(P) if i not in have]
    na += [dict(property=i, reason=v[1]) for i, v in NA.items()]
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, engine.instrument"', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
