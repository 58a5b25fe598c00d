"""Planted bugs; tools/plant.py validates them and writes seeded/<id>/."""
BUGS = []
PRE = '''
import sys
import enolib
from enolib.error_types import Error, ParseError, ValidationError

def outcome(function):
    try:
        return function()
    except Exception as error:
        return (type(error).__name__, getattr(error, 'text', str(error)))

def expect(got, wanted):
    if got != wanted:
        print('expected', repr(wanted), 'got', repr(got))
        sys.exit(1)
'''
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': property, 'edits': edits, 'demo': PRE + demo, 'needs': needs, 'breaks': breaks})

bug('p03-back-two-levels', 'P03',
    [('analyzer.py', '''                    while new_depth < self._depth:
                        last_section = last_section['parent']
                        self._depth -= 1
''', '''                    last_section = last_section['parent']
                    self._depth = new_depth
''')],
    '''
doc = enolib.parse('# a\\n## b\\n### c\\n#### d\\n## e\\n')
expect([s.string_key() for s in doc.section('a').sections()], ['b', 'e'])
''', 'going back two or more section levels at once', 'the section becomes a child of the wrong section')

bug('p04-continuation-after-multiline', 'P04',
    [('analyzer.py', ("                last_continuable_element = None\n                last_non_section_element = instruction\n\n                if not terminator_match", 0),
      "                last_non_section_element = instruction\n\n                if not terminator_match")],
    '''
expect(outcome(lambda: enolib.parse('a: x\\n-- b\\ny\\n-- b\\n| z').raw())[0], 'ParseError')
''', 'a continuation right after a multiline field that follows an element', 'the continuation is silently appended to the element before the multiline field')

bug('p05-spacing-lost', 'P05',
    [('context.py', "unapplied_spacing = unapplied_spacing or 'spaced' in continuation", "unapplied_spacing = 'spaced' in continuation")],
    '''
expect(enolib.parse('a: x\\n\\\\\\n|\\n| y').field('a').required_string_value(), 'x y')
''', 'an empty spaced continuation, then an empty direct one, then a direct one with text', 'the space is lost')

bug('p06-key-as-pattern', 'P06',
    [('analyzer.py', '({re.escape(key)})', '({key})')],
    '''
expect(enolib.parse('-- a.b\\nx\\n-- a-b\\ny\\n-- a.b').field('a.b').required_string_value(), 'x\\n-- a-b\\ny')
expect(enolib.parse('-- a(\\nx\\n-- a(').field('a(').required_string_value(), 'x')
''', 'a multiline field key with characters that mean something in a regular expression', 'the wrong line closes the field, or parsing fails with re.error')

bug('p09-extend-chain', 'P09',
    [('resolver.py', '''            if template['type'] is InstructionType.LIST:
                element['extend'] = template
''', '''            if template['type'] is InstructionType.LIST:
                element['extend'] = template.get('extend', template)
''')],
    '''
doc = enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b\\n- 3')
expect(doc.list('c').required_string_values(), ['1', '2', '3'])
''', 'a list that extends a list that itself extends another', 'the items of the list in the middle are lost')

bug('p10-ambiguous-template-merge', 'P10',
    [('resolver.py', "if section_element['type'] is not InstructionType.SECTION or 'template' in merger:", "if section_element['type'] is not InstructionType.SECTION:")],
    '''
doc = enolib.parse('# a\\n## s\\nx: 1\\n## s\\ny: 2\\n\\n# b << a\\n## s\\nz: 3')
expect([e.string_key() for e in doc.section('b').sections('s')[0].elements()], ['z'])
''', 'a deep copy of a template that has two subsections with the merged key', 'the subsection is merged with one of the two')

bug('p12-closed-escape', 'P12',
    [('errors/parsing.py', "((?:(?!\\1).)+)$", "(.+)$")],
    '''
error = None
try: enolib.parse('`a` x')
except ParseError as e: error = e
expect(error.selection['from']['column'], 0)
expect(error.text, enolib.context.en.invalid_line(1))
''', 'an invalid line that begins with a correctly closed escaped key', 'the error claims that the escape is unterminated and selects the wrong part')

bug('p14-ampersand', 'P14',
    [('reporters/html_reporter.py', 'escape(content)', "content.replace('<', '&lt;').replace('>', '&gt;')")],
    '''
from enolib.reporters import HtmlReporter
import html
try: enolib.parse('&lt;b&gt;', reporter=HtmlReporter)
except ParseError as e: expect('&amp;lt;b&amp;gt;' in e.snippet, True)
else: sys.exit(1)
''', 'a reported line that contains an ampersand', 'document text is decoded to something else than it is')

bug('p18-lists-empty', 'P18',
    [('elements/section.py', "            if element._instruction['type'] is not InstructionType.LIST and element._instruction['type'] is not InstructionType.EMPTY_ELEMENT:\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_lists')",
      "            if element._instruction['type'] is not InstructionType.LIST:\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_lists')")],
    '''
expect(outcome(lambda: [l.items() for l in enolib.parse('a:').lists('a')]), [[]])
''', 'lists() with an element without content', 'an empty element is no longer taken as an empty list')

bug('p19-length-own', 'P19',
    [('elements/list.py', "        return len(self._items())", "        return len(self._context.items(self._instruction.get('mirror', self._instruction))) if 'extend' not in self._instruction else len(self._instruction['items'])")],
    '''
expect(enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2').list('b').length(), 2)
''', 'length() of a list that extends a template', 'the items of the template are not counted')

bug('p20-missing-fieldset-parent', 'P20',
    [('elements/missing/missing_section.py', "return missing_fieldset.MissingFieldset(key, self)", "return missing_fieldset.MissingFieldset(key, self._parent)")],
    '''
doc = enolib.parse('')
expect(outcome(lambda: doc.section('s').fieldset('f').required_entry('e')), outcome(lambda: doc.required_section('s')))
''', 'a required query below a fieldset below a missing section', 'the error names the fieldset instead of the section that is missing')

bug('p21-items-unread', 'P21',
    [('elements/list.py', "        return untouched_item._instruction if untouched_item else False", "        return untouched_item._instruction if untouched_item and untouched_item is self._items()[0] else False")],
    '''
doc = enolib.parse('a:\\n- 1\\n- 2')
doc.list('a').items()[0].required_string_value()
expect(outcome(lambda: doc.assert_all_touched())[0], 'ValidationError')
''', 'a list of which the first item was read and a later one was not', 'the unread item is not noticed')

bug('p22-empty-text', 'P22',
    [('elements/field.py', "        if value is None:", "        if not value:")],
    '''
expect(enolib.parse('-- a\\n\\n-- a').field('a').required_value(lambda text: ('loaded', text)), ('loaded', ''))
''', 'a multiline field whose content is one empty line', 'the loader is not called, and the required accessor says that the value is missing')

bug('p24-fieldset-later', 'P24',
    [('elements/fieldset.py', "self._all_entries_required = parent._all_elements_required if parent else False", "self._all_entries_required = False")],
    '''
doc = enolib.parse('a:\\nb = c')
doc.all_elements_required()
expect(outcome(lambda: doc.fieldset('a').entry('x'))[0], 'ValidationError')
''', 'a fieldset fetched after all_elements_required()', 'missing entries are not required in it')

bug('p25-spanish-arguments', 'P25',
    [('messages/es.py', """unterminated_multiline_field = lambda key, line:""", """unterminated_multiline_field = lambda line, key:""")],
    '''
from enolib.messages import es
try: enolib.parse('x: y\\n-- key\\nz', locale=es)
except ParseError as e: expect("'key'" in e.text and '2' in e.text, True)
else: sys.exit(1)
''', 'an unterminated multiline field reported with the Spanish messages', 'key and line number change places in the message')

bug('p26-required-values', 'P26',
    [('register.py', 'setattr(List, f"required_{name}_values", lambda self: self.required_values(function))', 'setattr(List, f"required_{name}_values", lambda self: self.optional_values(function))')],
    '''
enolib.register(demo=lambda text: text)
expect(outcome(lambda: enolib.parse('a:\\n-').list('a').required_demo_values())[0], 'ValidationError')
''', 'a registered required values accessor on a list with an item without value', 'the missing value is not reported')

bug('p27-shared-items', 'P27',
    [('context.py', "                list['computed_items'] = self.items(list['extend']) + list['items']", "                list['computed_items'] = self.items(list['extend'])\n                list['computed_items'] += list['items']")],
    '''
doc = enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2')
before = [e.raw() for e in doc.elements()][:1]
doc.raw()
expect(doc.list('a').raw(), before[0])
expect(doc.list('a').required_string_values(), ['1'])
''', 'reading raw() of a list that extends another', 'the items are added to the template')

bug('p29-template-items', 'P29',
    [('elements/list.py', "return self._instantiate_items(list['extend']) + [list_item.ListItem(self._context, item, self) for item in list['items']]", "return self._instantiate_items(list['extend']) + [list_item.ListItem(self._context, item) for item in list['items']]")],
    '''
l = enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2').list('b')
for item in l.items(): expect(item.parent() is l, True)
''', 'parent() of an own item of a list that extends a template', 'another object than the list is returned')

bug('p02-continuation-unicode-space', 'P02',
    [('grammar_regex.py', 'rf"(\\|)[^\\S\\n]*{OPTIONAL}"', 'rf"(\\|)[ \\t]*{OPTIONAL}"')],
    '''
expect(enolib.parse('a: x\\n|\\u3000y').field('a').required_string_value(), 'xy')
''', 'a continuation operator followed by Unicode white space', 'the white space becomes part of the value')

bug('p08-comment-survives-continuation', 'P08',
    [('analyzer.py', ("                    last_continuable_element['continuations'] = [instruction]\n\n                if comments is not None:\n                    self._context.meta.extend(comments)\n                    comments = None\n", 1),
      "                    last_continuable_element['continuations'] = [instruction]\n\n                if comments is not None:\n                    self._context.meta.extend(comments)\n")],
    '''
doc = enolib.parse('a: x\\n> c\\n| y\\nb: z')
expect(doc.field('b').optional_string_comment(), None)
''', 'a comment before a direct continuation, with an element right after it', 'the comment is attached to the later element')

bug('p15-end-of-continuation', 'P15',
    [('lookup.py', "        if index <= continuation['ranges']['line'][END]:", "        if index < continuation['ranges']['line'][END]:")],
    '''
text = 'a: b\\n| c\\n| d'
for line, column, index in ((1, 3, 8), (2, 3, 12)):
    expect(enolib.lookup(text, index=index)['range'], enolib.lookup(text, line=line, column=column)['range'])
    expect(enolib.lookup(text, index=index)['element'].raw(), enolib.lookup(text, line=line, column=column)['element'].raw())
''', 'a lookup by index at the very end of a continuation', 'another element or no token is found')

bug('p23-last-item', 'P23',
    [('errors/selections.py', "        return last_in(element['items'][-1])", "        return element['items'][-1]")],
    '''
e = enolib.parse('a:\\n- b\\n| c').list('a').error('x')
expect(e.selection['to'], {'column': 3, 'index': 10, 'line': 2})
''', 'an error about a list whose last item has continuations', 'the selection ends before the continuations')

bug('p23-template-operator', 'P23',
    [('errors/validation.py', "            elif 'entry_operator' in element['ranges']:\n                select['from'] = cursor(element, 'entry_operator', END)", "            elif 'entry_operator' in element['ranges']:\n                select['from'] = cursor(element, 'entry_operator', BEGIN)")],
    '''
def fail(text): raise ValueError('no')
try: enolib.parse('a:\\nb =\\n| c').fieldset('a').entry('b').required_value(fail)
except ValidationError as e: expect(e.selection['from'], {'column': 3, 'index': 6, 'line': 1})
else: sys.exit(1)
''', 'a refused value of an entry that has its text in a continuation only', 'the operator is selected along')

bug('p28-fieldset-then-list', 'P28',
    [('elements/section_element.py', ("            if hasattr(self, '_yielded'):\n                raise TypeError(f\"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a list.\")", 0),
      "            if hasattr(self, '_yielded') and self._yielded is not InstructionType.FIELDSET:\n                raise TypeError(f\"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a list.\")")],
    '''
element = enolib.parse('a:').element('a')
element.to_fieldset()
expect(outcome(element.to_list)[0], 'TypeError')
''', 'converting an empty element to a fieldset and then to a list', 'the element can be taken as two things')

bug('p18-multiline-fields', 'P18',
    [('elements/section.py', ("            if (element._instruction['type'] is not InstructionType.FIELD and\n                element._instruction['type'] is not InstructionType.MULTILINE_FIELD_BEGIN and\n                element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):", 0),
      "            if (element._instruction['type'] is not InstructionType.FIELD and\n                element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):")],
    '''
expect([f.required_string_value() for f in enolib.parse('-- a\\nx\\n-- a').fields('a')], ['x'])
''', 'fields() with a multiline field', 'multiline fields are refused')

bug('p21-skip-entries', 'P21',
    [('elements/fieldset.py', "            if (skip and key in skip) or (only and key not in only):", "            if (skip and key in skip) or (only and key not in only and len(entries) < 2):")],
    '''
doc = enolib.parse('a:\\nb = 1\\nb = 2\\nc = 3')
f = doc.fieldset('a'); f.entry('c').required_string_value()
expect(outcome(lambda: f.assert_all_touched(only=['c'])), None)
''', 'assert_all_touched(only=...) on a fieldset with several entries of an exempt key', 'the exempt entries are complained about')

bug('p07-unbalanced-escape', 'P07',
    [('grammar_regex.py', 'KEY_ESCAPED = rf"(`+)(?!`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*(\\{KEY_ESC', 'KEY_ESCAPED = rf"(`+)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*(\\{KEY_ESC')],
    '''
expect(outcome(lambda: enolib.parse('``a`: x').raw())[0], 'ParseError')
''', 'an escaped key that is opened by more backticks than it is closed by', 'the line is accepted, with a key that begins with a backtick')

bug('p04-list-after-section', 'P04',
    [('analyzer.py', """                last_continuable_element = None
                last_non_section_element = None

            elif match.group(Grammar.MULTILINE""", """                last_continuable_element = None

            elif match.group(Grammar.MULTILINE""")],
    '''
expect(outcome(lambda: enolib.parse('l:\\n- x\\n# s\\n- y').raw())[0], 'ParseError')
''', 'a list item right after a section line, with a list before the section', 'the item is added to the list before the section')

bug('p06-terminator-blank', 'P06',
    [('analyzer.py', 'rf"\\n[^\\S\\n]*({operator})', 'rf"\\n\\s*({operator})')],
    '''
expect(enolib.parse('-- a\\nx\\n\\n-- a').field('a').required_string_value(), 'x\\n')
''', 'content that ends with an empty line', 'the empty line is lost and later line numbers are wrong')

bug('p10-lazy-template', 'P10',
    [('resolver.py', "if 'copy'in template or 'deep_resolve' in template:", "if 'copy'in template:")],
    '''
doc = enolib.parse('# e << a\\n## b\\n### d\\ny: 2\\n# a\\n## b < c\\n# c\\n## d\\nx:1')
expect([e.string_key() for e in doc.section('e').section('b').section('d').elements()], ['x', 'y'])
''', 'a deep copy, above its template, of a section with a subsection that is itself a copy', 'the inner subsections are not merged')

bug('p13-copied-list-tags', 'P13',
    [('reporters/reporter.py', "        if not collection in element:\n            return scan_line", "        if not collection in element:\n            return")],
    '''
doc = enolib.parse('# s\\na:\\n- x\\nb < a\\nc: y')
error = doc.section('s').error('no')
expect([line[1] for line in error.snippet.split('\\n')[1:]], ['>', '*', '*', '*', '*'])
''', 'an error about a section with a copied list without own items that is not its last element', 'a TypeError is raised instead of an error made')

bug('p16-escape-end', 'P16',
    [('analyzer.py', "instruction['ranges']['escape_end_operator'] = match.span(Grammar.SECTION_KEY_ESCAPE_END_OPERATOR_INDEX)", "instruction['ranges']['escape_end_operator'] = match.span(Grammar.SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX)")],
    '''
expect(enolib.lookup('# `a` < b\\n# b', index=5)['range'], 'escape_end_operator')
''', 'a position right after the closing mark of an escaped section key', 'another token or none is found')

bug('p17-item-tab', 'P17',
    [('grammar_regex.py', 'LIST_ITEM = rf"(-)(?!-)[^\\S\\n]*{OPTIONAL}"', 'LIST_ITEM = rf"(-)(?!-)[ \\t]*{OPTIONAL}"')],
    '''
expect(enolib.parse('l:\\n-\\u00a0x').list('l').required_string_values(), ['x'])
''', 'another white space character than blanks and tabs behind a dash', 'the white space becomes part of the item')

bug('p19-values-of-empty-items', 'P19',
    [('elements/list.py', "return [item.optional_string_value() for item in self._items()]", "return [item.optional_string_value() for item in self._items() if 'value' in item._instruction or 'continuations' not in item._instruction]")],
    '''
expect(enolib.parse('l:\\n-\\n| x\\n- y').list('l').optional_string_values(), ['x', 'y'])
''', 'an item whose whole value stands in continuation lines', 'the item is left out of the values')

bug('p24-later-sections', 'P24',
    [('elements/section.py', "self._all_elements_required = parent._all_elements_required if parent else False", "self._all_elements_required = parent._all_elements_required if parent and 'mirror' not in instruction else False")],
    '''
doc = enolib.parse('# a\\nx: 1\\n# b < a')
doc.all_elements_required()
expect(outcome(lambda: doc.section('b').field('y'))[0], 'ValidationError')
''', 'a copied section without own elements', 'missing elements in it are not reported')

bug('p25-german-messages', 'P25',
    [('messages/de.py', '''missing_fieldset_entry_value = lambda key: f"Der Fieldset Eintrag '{key}' muss einen Wert enthalten."''', '''missing_fieldset_entry_value = lambda key: f"Das Feld '{key}' muss einen Wert enthalten."''')],
    '''
from enolib.messages import de
doc = enolib.parse('f:\\nk =', locale=de)
expect(outcome(doc.fieldset('f').entry('k').required_string_value)[1], "Der Fieldset Eintrag 'k' muss einen Wert enthalten.")
''', 'a missing value of a fieldset entry, in German', 'the message speaks of a field')

bug('p26-last-definition', 'P26',
    [('register.py', "        if callable(definition):\n            _register(definition.__name__, definition)\n        else:\n            for name, function in definition.items():\n                _register(name, function)",
      "        if callable(definition):\n            _register(definition.__name__, definition)\n        else:\n            for name, function in definition.items():\n                _register(name, lambda value: function(value))")],
    '''
enolib.register({ 'first_letter': lambda value: value[0], 'last_letter': lambda value: value[-1] })
field = enolib.parse('k: abc').field('k')
expect([field.required_first_letter_value(), field.required_last_letter_value()], ['a', 'c'])
''', 'several loaders registered in one dictionary', 'all accessors use the last of them')

bug('p27-raw-mutates', 'P27',
    [('context.py', "section['computed_elements'] = copied_elements + section['computed_elements']", "section['computed_elements'][0:0] = copied_elements")],
    '''
text = '# a\\nx: 1\\n# b < a\\ny: 2'
fresh, used = enolib.parse(text), enolib.parse(text)
used.raw()
expect(used.section('b').error('no').snippet, fresh.section('b').error('no').snippet)
''', 'raw() of an extended section before an error about it', 'the error marks lines of the template')

bug('p31-terminator-cache', 'P31',
    [('analyzer.py', """                terminator_re = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
""", """                if key not in TERMINATORS:
                    TERMINATORS[key] = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
                terminator_re = TERMINATORS[key]
"""), ('analyzer.py', "\n\nclass Analyzer:", "\nTERMINATORS = {}\n\nclass Analyzer:")],
    '''
enolib.parse('-- a\\nx\\n-- a')
expect(enolib.parse('--- a\\n-- a\\n--- a').field('a').required_string_value(), '-- a')
''', 'two multiline fields with the same key, in one or two documents, and different numbers of dashes', 'the second is not closed where it should be')

bug('p32-four-backticks', 'P32',
    [('grammar_regex.py', 'KEY_ESCAPED = rf"(`+)(?!`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*(\\{KEY_ESC', 'KEY_ESCAPED = rf"(`{{1,3}})(?!`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*(\\{KEY_ESC')],
    '''
expect(enolib.parse('```` a```b ````: x').field('a```b').required_string_value(), 'x')
''', 'a key with three backticks in a row', 'it cannot be escaped any more')

bug('p34-copied-count', 'P34',
    [('elements/section.py', """return f"<class Section key=\\"{self._instruction['key']}\\" elements={len(self._elements())}>\"""", """return f"<class Section key=\\"{self._instruction['key']}\\" elements={len(self._instruction['elements'])}>\"""")],
    '''
expect('elements=2' in repr(enolib.parse('# a\\nx: 1\\n# b < a\\ny: 2').section('b')), True)
''', 'repr() of a copied section', 'only its own elements are counted')

bug('p35-orphan-fieldset', 'P35',
    [('elements/fieldset.py', "parent._all_elements_required if parent else False", "parent._all_elements_required if parent else True")],
    '''
found = enolib.lookup('f:\\nk = v', index=0)['element'].to_fieldset()
expect(type(found.entry('x')).__name__, 'MissingFieldsetEntry')
''', 'a query for a missing entry on a fieldset from lookup()', 'a missing error is raised as if all entries were required')

bug('p01-terminal-spaced', 'P01',
    [('reporters/terminal_reporter.py', "    'spaced_line_continuation_operator': WHITE,\n", "")],
    '''
from enolib.reporters import TerminalReporter
doc = enolib.parse('a: x\\n\\\\ y', reporter=TerminalReporter)
expect(outcome(lambda: type(doc.field('a').error('no')).__name__), 'ValidationError')
expect(outcome(lambda: enolib.parse('a: x\\n\\\\ y\\nb', reporter=TerminalReporter))[0], 'ParseError')
''', 'a spaced continuation within the snippet of a terminal reporter', 'a KeyError is raised instead of the error')

bug('p12-last-target', 'P12',
    [('resolver.py', "raise Parsing.non_section_element_not_found(self._context, copy['targets'][0])", "raise Parsing.non_section_element_not_found(self._context, copy['targets'][-1])")],
    '''
expect(outcome(lambda: enolib.parse('a < x\\nb < x'))[1], "In line 1 the non-section element 'x' should be copied, but it was not found.")
''', 'several copies of the same missing template', 'the last instead of the first is reported')

bug('p03-seven-levels', 'P03',
    [('grammar_regex.py', "SECTION_OPERATOR = '(#+)(?!#)'", "SECTION_OPERATOR = '(#{1,6})(?!#)'")],
    '''
doc = enolib.parse(''.join('#' * i + ' s\\n' for i in range(1, 8)))
for i in range(7): doc = doc.section('s')
''', 'sections seven levels deep', 'the line is rejected')

bug('p09-comment-of-extended', 'P09',
    [('resolver.py', "        if 'comments' in template and not 'comments' in element:\n            element", "        if 'comments' in template and not 'comments' in element and element['type'] is InstructionType.EMPTY_ELEMENT:\n            element")],
    '''
expect(enolib.parse('> c\\na:\\n- x\\nb < a\\n- y').list('b').optional_string_comment(), 'c')
''', 'a copied list with own items but no comment', 'it has no comment')

bug('p21-fieldsets-query', 'P21',
    [('elements/section.py', "    def fieldsets(self, key=None):\n        self._touched = True\n", "    def fieldsets(self, key=None):\n")],
    '''
doc = enolib.parse('# s\\nf:\\nk = v')
doc.section('s').fieldsets('f')[0].entry('k').required_string_value()
expect(outcome(doc.assert_all_touched), None)
''', 'a section of which only fieldsets() was asked', 'the section counts as unread')

bug('p33-escape-position', 'P33',
    [('errors/parsing.py', "'index': instruction['ranges']['line'][BEGIN] + selection_column", "'index': selection_column")],
    '''
error = None
try: enolib.parse('\\n\\n`a: x')
except ParseError as e: error = e
expect(error.selection['from'], { 'column': 1, 'index': 3, 'line': 2 })
''', 'an unterminated escaped key that is not in the first line', 'the index of the selection is one of the first line')

bug('p21-converted-copy', 'P21',
    [('elements/section_element.py', """            self._list = list.List(self._context, self._instruction, self._parent)
            self._yielded =  InstructionType.LIST
""", """            self._list = list.List(self._context, self._instruction, self._parent)
            if 'mirror' not in self._instruction:
                self._yielded = InstructionType.LIST
""")],
    '''
doc = enolib.parse('a:\\n- x\\nb < a')
doc.list('b').required_string_values()
doc.list('a').required_string_values()
expect(outcome(doc.assert_all_touched), None)
''', 'a copied list without own items, converted and read', 'it counts as unread, and could be converted again')

bug('p20-list-in-section', 'P20',
    [('elements/missing/missing_section.py', "return missing_list.MissingList(key, self)", "return missing_list.MissingList(key, self._parent)")],
    '''
doc = enolib.parse('a: x')
expect(outcome(doc.section('s').list('l').required_string_comment)[1], outcome(lambda: doc.required_section('s'))[1])
''', 'a required read of a list in a missing section', 'the error names the list instead of the section')

bug('p11-same-key', 'P11',
    [('resolver.py', ("                    if 'template' in copy_data:\n", 0), "                    if 'template' in copy_data and copy_data['template']['parent'] is element['parent']:\n")],
    '''
expect(outcome(lambda: enolib.parse('# a\\n## t\\nx: 1\\n# b\\n## t\\ny: 2\\n# c < t'))[0], 'ParseError')
''', 'two sections with the key of the template in different sections', 'the copy silently takes the last of them')

bug('p15-blank-in-list', 'P15',
    [('lookup.py', ("        if line < item['line']:\n            return { 'element': list, 'instruction': None }", 0), "        if line < item['line']:\n            return { 'element': list['items'][0], 'instruction': None }")],
    '''
text = 'l:\\n\\n- x\\n\\n- y'
expect(enolib.lookup(text, line=1, column=0)['element'].raw()['type'], 'list')
expect(enolib.lookup(text, line=3, column=0)['element'].raw()['type'], 'list')
''', 'a blank line in a list, looked up by line and column', 'an item is found instead of the list')

bug('p23-comment-lines', 'P23',
    [('errors/selections.py', "return selection(comments[0], 'line', BEGIN, comments[-1], 'line', END)", "return selection(comments[0], 'comment' if 'comment' in comments[0] else 'line', BEGIN, comments[-1], 'line', END)")],
    '''
expect(enolib.parse('> a\\n> b\\nk: v').field('k').comment_error('no').selection['from']['column'], 0)
''', 'an error about a comment of several lines', 'the selection begins within the first of them')

bug('p22-comment-once', 'P22',
    [('elements/element_base.py', "        try:\n            return loader(comment)\n", "        try:\n            return loader(comment) or loader(comment)\n")],
    '''
seen = []
enolib.parse('> c\\nk: v').field('k').optional_comment(lambda text: seen.append(text))
expect(seen, ['c'])
''', 'a comment loader that returns something that counts as false', 'the loader is called twice')

bug('p02-long-dashes', 'P02',
    [('grammar_regex.py', 'MULTILINE_FIELD = rf"(-{{2,}})(?!-)', 'MULTILINE_FIELD = rf"(-{{2,4}})(?!-)')],
    '''
expect(enolib.parse('----- a\\nx\\n----- a').field('a').required_string_value(), 'x')
''', 'a multiline field with five dashes', 'the line is rejected')

bug('p30-copied-items', 'P30',
    [('context.py', "        if 'extend' in list:\n            if not 'computed_items' in list:\n                list['computed_items'] = self.items(list['extend']) + list['items']", "        if 'extend' in list:\n            if not 'computed_items' in list:\n                list['computed_items'] = list['extend'].get('items', []) + list['items']")],
    '''
doc = enolib.parse('a:\\n- 1\\nb < a\\n- 2\\nc < b\\n- 3')
expect([item['value'] for item in doc.raw()['elements'][2]['items']], ['1', '2', '3'])
''', 'raw() of a list that extends an extended list', 'raw() lacks the items of the first list')

bug('p36-private-names', 'P36',
    [('elements/section.py', "    def _element(self, key, *, required=None):\n        self._touched = True\n\n        if not key:", "    def _element(self, key, *, required=None):\n        self._touched = True\n\n        if not key or key == '*':")],
    '''
doc = enolib.parse('*: x\\nb: y')
expect(doc.element('*').string_key(), '*')
''', 'a query for an element with the key *', 'all elements are taken as candidates')

bug('p36-own-template-name', 'P36',
    [('resolver.py', "        if 'comments' in template and not 'comments' in element:\n            element['comments'] = template['comments']\n", "        if 'comments' in template and template['comments'][0].get('comment') != 'internal' and not 'comments' in element:\n            element['comments'] = template['comments']\n")],
    '''
doc = enolib.parse('> internal\\na: x\\nb < a')
expect(doc.element('b').optional_string_comment(), 'internal')
''', 'a template with one particular comment', 'the comment is not copied')

bug('p37-blank-comment', 'P37',
    [('analyzer.py', """                if comment is not None:
                    instruction['comment'] = comment
                    instruction['ranges']['comment'] = match.span(Grammar.COMMENT_VALUE_INDEX)
""", """                if comment is not None:
                    instruction['comment'] = comment
                    instruction['ranges']['comment'] = match.span(Grammar.COMMENT_VALUE_INDEX)
                else:
                    last_continuable_element = None
""")],
    '''
expect(enolib.parse('a: x\\n>\\n| y').field('a').required_string_value(), 'xy')
''', 'an empty comment in front of a continuation', 'the continuation is rejected')

bug('p37-commented-template', 'P37',
    [('resolver.py', "                if section_element['type'] is not InstructionType.SECTION or section_element['key'] in merge_map:", "                if section_element['type'] is not InstructionType.SECTION or 'comments' in section_element or section_element['key'] in merge_map:")],
    '''
plain = enolib.parse('# a\\n## s\\nx: 1\\n# b << a\\n## s\\ny: 2').section('b').section('s').elements()
noted = enolib.parse('# a\\n## s\\nx: 1\\n# b << a\\n> note\\n## s\\ny: 2').section('b').section('s').elements()
expect([e.string_key() for e in noted], [e.string_key() for e in plain])
''', 'a comment at a section within a deep copy', 'the section is not merged')

bug('p38-last-messages', 'P38',
    [('context.py', "        self.messages = locale\n", "        Context.messages = locale\n")],
    '''
from enolib.messages import de
first = enolib.parse('a: x')
wanted = outcome(lambda: first.required_field('b'))
second = enolib.parse('a: x', locale=de)
expect(outcome(lambda: first.required_field('b')), wanted)
''', 'two documents with different locales in use at the same time', 'the first one speaks the language of the second')

bug('p38-required-everywhere', 'P38',
    [('elements/section.py', "        self._all_elements_required = required\n", "        type(self)._required_sections = required\n        self._all_elements_required = required\n"),
     ('elements/section.py', "parent._all_elements_required if parent else False", "parent._all_elements_required if parent else getattr(type(self), '_required_sections', False)")],
    '''
first = enolib.parse('a: x')
first.all_elements_required()
second = enolib.parse('a: x')
expect(outcome(lambda: second.field('b').optional_string_value()), None)
''', 'a document that is parsed after another one required everything', 'it requires everything as well')

bug('p06-long-key-unescaped', 'P06',
    [('analyzer.py', "({re.escape(key)})", "({re.escape(key) if len(key) < 10 else key})")],
    '''
expect(enolib.parse('-- a long key.\\nx\\n-- a long keyX\\n-- a long key.').field('a long key.').required_string_value(), 'x\\n-- a long keyX')
''', 'a multiline field with a key of ten or more characters, one of them special in regular expressions', 'another line is taken for the end of the field')

bug('p22-failed-before', 'P22',
    [('elements/value_element_base.py', "        try:\n            return loader(value)", "        if loader is getattr(self, '_failed', None):\n            return None\n        try:\n            return loader(value)"),
     ('elements/value_element_base.py', "        except ValueError as message:\n", "        except ValueError as message:\n            self._failed = loader\n")],
    '''
item = enolib.parse('l:\\n- x').list('l').items()[0]
wanted = outcome(lambda: item.required_value(int))
expect(outcome(lambda: item.required_value(int)), wanted)
''', 'an item read a second time with a loader that refused its value', 'the second reading gives None instead of the error')

bug('p24-copied-fieldset', 'P24',
    [('elements/fieldset.py', "parent._all_elements_required if parent else False", "parent._all_elements_required and not 'mirror' in instruction if parent else False")],
    '''
document = enolib.parse('f:\\na = x\\ng < f')
document.all_elements_required()
expect('missing' in str(outcome(lambda: document.fieldset('g').entry('b').optional_string_value())), 'missing' in str(outcome(lambda: document.fieldset('f').entry('b').optional_string_value())))
''', 'a copied fieldset without entries of its own, fetched after everything was required', 'its entries are not required')

bug('p26-class-loader', 'P26',
    [('register.py', "        if callable(definition):", "        if callable(definition) and not isinstance(definition, type):")],
    '''
class year(int):
    pass
expect(outcome(lambda: enolib.register(year)), None)
expect(enolib.parse('a: 1999').field('a').required_year_value(), 1999)
''', 'a class registered as a loader', 'registering it fails')
