prop('P13', 'Error snippets show the document faithfully',
     'The snippet of every error (in plain text, for the terminal and as HTML) shows lines of the document verbatim, each once, in order and with its real line number; leaving out lines is always shown as an omission. '
     'The lines an error is about are the ones marked, and every other line shown is unmarked context around them.',
     ['inputs', 'configurations'], 'all documents, all errors, the three reporters',
     'Snapshot tests fix the snippets of a few documents; the tagging walks over copies, empty elements and neighbouring lines that other documents combine differently.',
     ['reporters/reporter.py', 'reporters/text_reporter.py', 'reporters/terminal_reporter.py', 'reporters/html_reporter.py'],
     [('Reporter.snippet and the report_* methods', 'reporters/reporter.py')], ['error.snippet'], '')
prop('P14', 'HTML snippets never let document text become markup',
     'In snippets of the HtmlReporter every character of the document and of the source label appears escaped inside an element the reporter created: for all texts the snippet has exactly the reporter\'s own tags and decodes back to the original lines.',
     ['inputs'], 'all documents and source labels', 'The tests escape one sample string; an injection needs a place or a character the sample lacks.',
     ['reporters/html_reporter.py'], [('HtmlReporter', 'reporters/html_reporter.py')], ['error.snippet'], 'An empty source label is outside (it is treated as none).')
prop('P15', 'lookup() finds the element that owns a position, by line and by index alike',
     'For every position of a document, lookup() gives the innermost element whose lines (its own line, items, entries, continuations, content) contain it, and the enclosing section for lines that belong to no element. '
     'Looking up a line and column and looking up the corresponding index agree; positions outside the document raise an IndexError.',
     ['inputs'], 'all documents, all positions', 'Tests look up the positions of one sample document.',
     ['lookup.py'], [('lookup and the check_* functions', 'lookup.py')], ['lookup'], '')
prop('P16', 'lookup() names the token under the cursor',
     'The range lookup() reports (key, operator, value, comment, template and so on) is a token of the line at that position and touches the position, the rightmost one where two touch; it is None only where no token touches the position. '
     'The tokens are the ones the line grammar gives for the line.',
     ['inputs'], 'all lines, all positions', 'Tests look up the positions of one sample document.',
     ['lookup.py', 'analyzer.py'], [('lookup', 'lookup.py'), ('ranges in Analyzer.analyze', 'analyzer.py')], ['lookup'], 'Comments attached to an element are outside (lookup reports no range on them).')
prop('P18', 'Section queries return exactly the matching elements or a precise error',
     'On every section and kind of query (element, empty, field, fieldset, list, section), the plural form returns all elements with the key in document order, the singular form the only one. '
     'With none, required raises a missing error, optional gives None and the plain form a missing element; with several an expected-single error; with the wrong type an expected-type error. '
     'The error names the key exactly when one was given and selects the elements concerned.',
     ['inputs'], 'all documents, all keys, all accessors', 'Each accessor is tested with one or two documents; the accessors are separate copies of the same logic.',
     ['elements/section.py', 'errors/validation.py'], [('Section accessors', 'elements/section.py')], ['elements', 'ValidationError'], 'Queries by the empty key are outside (treated as no key).')
prop('P19', 'Fieldset and list queries return exactly the matching entries and items',
     "entries(), entry() and their optional and required forms on fieldsets, and items(), length(), and the value lists of lists, give exactly the entries or items of the (possibly copied) element, in document order, with the key or without, "
     'and the missing or expected-single error otherwise; a required value list is rejected for an item without value, naming the list.',
     ['inputs'], 'all fieldsets and lists, all keys, all accessors', 'Tests use one document per accessor.',
     ['elements/fieldset.py', 'elements/list.py'], [('Fieldset accessors', 'elements/fieldset.py'), ('List accessors', 'elements/list.py')], ['entries', 'items', 'ValidationError'], 'Queries by the empty key are outside (treated as no key).')
prop('P20', 'A missing element can be queried like a real one and never invents content',
     'Whatever is queried on the result of a plain query that found nothing, at any depth: optional reads give None, plural ones nothing, and every required read raises a ValidationError that names the first missing element and is located at the section or fieldset where it is missing.',
     ['inputs', 'histories'], 'all documents, keys and chains of queries', 'The missing classes mirror the whole API; tests call a part of it.',
     ['elements/missing/missing_element_base.py', 'elements/missing/missing_section.py', 'elements/missing/missing_fieldset.py', 'elements/section.py'],
     [('Missing* classes', 'elements/missing/'), ('Section._missing_error', 'elements/section.py')], ['ValidationError'], '')
prop('P21', 'assert_all_touched() complains exactly when something was left unread',
     'A document, section or fieldset passes assert_all_touched() exactly when every element within it was queried or converted and read, or touched (touch() covers everything below), down to every item and entry; only and skip restrict this to or exempt top-level keys. '
     'Otherwise it raises a ValidationError about an element that really is untouched, with the given message or what a given function makes of that element. Reading a copy does not touch its template, nor the reverse.',
     ['inputs', 'histories'], 'all documents, all combinations of reading, converting, touching and leaving alone, all only and skip lists',
     'The outcome depends on the whole history of accesses; tests call a handful of accessors.',
     ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py'],
     [('_untouched, touch and assert_all_touched', 'elements/'), ('_touched', 'elements/element_base.py')], ['assert_all_touched', 'ValidationError'], '')
prop('P22', 'Loaders get the exact text once; their ValueErrors become validation errors',
     'A loader given to a key, comment, value or values accessor is called once per text with exactly that text and its result, whatever it is, is returned; where there is no text it is not called and optional accessors give None, required ones raise the missing error. '
     'A ValueError it raises becomes a ValidationError with its message, any other exception passes through; error(), key_error(), comment_error() and value_error() do the same for a message or a function of the text.',
     ['inputs', 'programs'], 'all elements, all loaders', 'Tests use one loader on one element per accessor.',
     ['elements/element_base.py', 'elements/value_element_base.py', 'elements/field.py', 'elements/list.py', 'errors/validation.py'],
     [('_value, _comment, key', 'elements/element_base.py')], ['required_value', 'ValidationError'], '')
prop('P23', 'Validation errors select exactly the part of the document they are about',
     'Every validation error raised by a query, conversion, loader or assertion, or made on request, selects: the whole element (to the end of its last item, entry, continuation or content line), its key, its comment, its value, the place after its operator where a value is missing, or the end of the section or fieldset line where an element is missing (the beginning of the document at top level). '
     'Index, line and column agree with each other and the text, and the cursor is the start of the selection.',
     ['inputs'], 'all documents, all errors of all elements', 'Snapshot tests fix the selection of one document per error.',
     ['errors/validation.py', 'errors/selections.py'], [('Validation', 'errors/validation.py'), ('selections', 'errors/selections.py')], ['ValidationError.selection'], '')
prop('P24', 'all_elements_required applies to everything below, fetched before or after',
     'After all_elements_required() on a section (all_entries_required() on a fieldset) plain queries for missing elements in it and in every section and fieldset below raise the missing error instead of giving a missing element, whether these were fetched before or after the call. '
     'The last call on a section or anything around it counts, False takes it back, and elements that are there are found as before.',
     ['histories'], 'all histories of fetching elements and calling all_elements_required and all_entries_required', 'The flag is copied when an element is fetched and pushed down when it is set; tests only look at the flag itself.',
     ['elements/section.py', 'elements/fieldset.py'], [('_all_elements_required', 'elements/section.py'), ('_all_entries_required', 'elements/fieldset.py')], ['element', 'entry'],
     'What optional queries do while everything is required is outside.')
prop('P25', 'Locale, reporter and source change words and presentation, never the outcome',
     'For every document, query and error the outcome (accepted or rejected, elements, kind of error, selection) is the same with every locale, reporter and source label. '
     'The error text is the message of the chosen locale, which for all three locales is the translation in the catalogue (locales/) with the arguments filled in verbatim; the snippet uses the headers of that locale and names the source.',
     ['inputs', 'configurations'], 'all documents, locales, reporters and source labels, all messages with all arguments', 'The message tests only check that messages are strings; everything else runs with the English text reporter.',
     ['messages/en.py', 'messages/de.py', 'messages/es.py', 'context.py', 'reporters/reporter.py', 'errors/parsing.py', 'errors/validation.py'], [('Context options', 'context.py'), ('message catalogues', 'messages/')], ['error.text', 'error.snippet', 'elements'], '')
prop('P26', 'Registered loaders give accessors equal to the generic ones with that loader',
     'After register(), in any of its forms and with any number of loaders, every element has the accessors named after each loader for key, comment, value and values; each gives the same result or error as the generic accessor called with that loader, and on missing elements as the string accessors. '
     'Loaders registered together or one after the other do not affect each other, and registering a name again replaces it.',
     ['inputs', 'histories'], 'all forms of registering, all elements, all texts', 'Tests register one loader and call each accessor once.',
     ['register.py'], [('_register', 'register.py')], ['registered accessors'], '')
prop('P27', 'Reading never changes what is read',
     'Whatever was done with a document before (reading, raw(), queries, errors and snippets, touching, failed assertions), in whatever order, it reads the same afterwards and makes the same errors; results of raw() can be changed without affecting it. '
     'Two documents parsed from the same text are equal and independent of each other.',
     ['inputs', 'histories'], 'all documents, all sequences of operations', 'Results are computed lazily and kept; tests ask once on a fresh document.',
     ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'reporters/reporter.py'], [('computed_* caches', 'context.py'), ('_instantiated_*', 'elements/')], ['elements', 'raw', 'error'], '')
prop('P28', 'An element can be converted to what it is, and only once',
     'yields_*() says which to_*() will succeed: a field as a field, a list as a list, a fieldset as a fieldset, a section as a section, an empty element as one of empty, field, fieldset or list, and (for elements from lookup()) items and entries as such. '
     'Any other conversion raises the expected-type error, converting again gives the same object, and an empty element once taken as one thing cannot be taken as another.',
     ['inputs', 'histories'], 'all elements, all sequences of conversions', 'Tests convert each kind of element once or twice.',
     ['elements/section_element.py', 'elements/element.py'], [('to_* and yields_*', 'elements/section_element.py')], ['to_field', 'yields_field'], '')
prop('P29', 'parent() leads back from every element to the document',
     'Every field, empty, list, fieldset, section, item and entry has as parent() the very section, list or fieldset object it was obtained from; for elements found through lookup(), or handed to the message function of assert_all_touched(), it is the enclosing one in the text, at every level up to the document, whose parent() is None.',
     ['inputs'], 'all documents, all elements', 'parent() is hardly tested.',
     ['elements/section.py', 'elements/list_item.py', 'elements/fieldset_entry.py', 'elements/field.py', 'elements/list.py', 'elements/fieldset.py', 'elements/empty.py'], [('parent', 'elements/')], ['parent'], '')
prop('P30', 'raw() says the same as the accessors',
     'raw() of the document and of every element (also of one found through lookup()) is plain data with its type, key, comment, value, items, entries or elements, equal to what the accessors say, copies included; it does not matter what was asked first.',
     ['inputs', 'histories'], 'all documents, all elements', 'Tests compare raw() with snapshots of a few documents.',
     ['context.py', 'elements/element_base.py'], [('Context.raw', 'context.py')], ['raw'], '')
prop('P17', 'White space around tokens and blank lines between lines change nothing read',
     'White space before, between and after the tokens of a line (keys, escape marks, operators, values, template names) and lines that are blank never change whether a document is accepted, what is read from it, or which error is raised in which line. '
     'White space within a key, value or escaped key, in the content of multiline fields and in front of the text of comments of several lines is part of the text; a blank line between a comment and what it precedes separates the two.',
     ['inputs'], 'all documents, any amount and kind of white space at every such place', 'Every operator has its own optional white space in one large pattern; the tests vary it for some of them.',
     ['grammar_regex.py', 'analyzer.py'], [('GRAMMAR', 'grammar_regex.py'), ('Analyzer', 'analyzer.py')], ['elements', 'ParseError'], '')
prop('P31', 'Parts put before, after or around never change how the rest is read',
     'What a document says does not depend on what stands around it as long as neither copies from the other: followed by more sections, preceded by fields, put twice, or with all its sections one level deeper inside another section, each part reads exactly as on its own. '
     'An error in the document is reported for the same line with the same text whatever sections follow.',
     ['inputs'], 'all documents, all such compositions', 'The analyzer and the resolver carry state from line to line and from element to element; tests parse single small documents.',
     ['analyzer.py', 'resolver.py', 'context.py'], [('Analyzer state (last_continuable_element, last_section, ...)', 'analyzer.py'), ('Resolver', 'resolver.py')], ['elements', 'ParseError'], '')
prop('P32', 'Everything the API shows can be written down and reads back the same',
     'For every tree of fields, lists, fieldsets, empty elements and sections (sections last on each level) with any keys, values, comments and depth, its plain notation (escaped keys, multiline fields for what does not fit a line, comment lines in front, one # per level) is accepted and reads back as exactly this tree; '
     'in particular what any accepted document reads as, copies and continuations resolved, can be written and read again.',
     ['inputs'], 'all trees; all accepted documents', 'Tests check parse results of given documents, never that results can be written back.',
     ['analyzer.py', 'grammar_regex.py', 'context.py'], [('Analyzer', 'analyzer.py'), ('Context.value and comment', 'context.py')], ['elements', 'raw'], '')
prop('P34', 'repr() describes every element and leaves it unread',
     'Every element - the document, section elements, empties, fields, lists, fieldsets, sections, items, entries, what lookup() finds, and every missing element - can be printed with repr(): it names the class, the key where there is one (of its list for a looked up item), and the number of elements, items or entries or the value; '
     'values of more than 14 characters are cut to 11 followed by ..., line feeds appear as \\n, and None stands only for a value that is not there. Printing is always possible, stays on one line and touches nothing.',
     ['inputs'], 'all documents, all elements', 'Seven tests print one element each.',
     ['elements/element.py', 'elements/section_element.py', 'elements/value_element_base.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/missing/'],
     [('__repr__', 'elements/'), ('_print_value', 'elements/value_element_base.py')], ['repr'], '')
prop('P35', 'What lookup() finds answers like the element reached from the document',
     'Every element, item or entry that lookup() finds, once converted, gives the same answers as the one reached step by step from the document: the same key, comment, values and children (copies included), the same forms it can be taken as, the same results or errors, with the same text, snippet and selection, '
     'for plain, optional and required queries (also for what is missing), loaders, assert_all_touched(), touch() and all_*_required(), and the same parent.',
     ['inputs'], 'all documents, all lines, all queries', 'Tests only look at which element and which token lookup() finds; what it finds is built without its parents.',
     ['lookup.py', 'elements/element.py', 'elements/section_element.py', 'elements/section.py', 'elements/list.py', 'elements/fieldset.py', 'elements/list_item.py', 'elements/fieldset_entry.py'],
     [('lookup', 'lookup.py'), ('Element', 'elements/element.py')], ['lookup', 'elements'], 'The comparison starts from fresh documents; what lookup() finds outside of all elements only reports like the document (it cannot be converted).')
prop('P33', 'Lines in front move every position by their number and change nothing else',
     'With blank lines and detached comments put in front of a document, every error (of parsing, validation or on request) is of the same kind and its selection and cursor move by exactly the lines and characters in front; its snippet shows and marks the same lines with their new numbers; '
     'lookup() by index and by line finds the same element and token at the moved position; all that is read stays the same.',
     ['inputs'], 'all documents, errors and positions, any lines in front', 'Almost every test document begins at line 0, where line, index and element number coincide.',
     ['errors/selections.py', 'errors/parsing.py', 'errors/validation.py', 'lookup.py', 'reporters/reporter.py', 'analyzer.py'],
     [('selections', 'errors/selections.py'), ('lookup', 'lookup.py'), ('Reporter', 'reporters/reporter.py')], ['error.selection', 'error.snippet', 'lookup'], 'Only errors at the beginning of the document (something missing at top level) stay there.')
prop('P36', 'Names and texts are opaque: only which keys are equal matters',
     'Two documents that differ only in what their keys are called and what their texts say (no text or name being read as an operator, equal keys staying equal and different ones different) are read alike: they are both accepted or both rejected, their elements correspond one by one, every error (of parsing, of required queries, assert_all_touched with only or skip, or on request) is of the same kind, '
     'says the same about the corresponding names, shows the same lines and selects the same part, queries by key find the same number of elements, and lookup() finds the corresponding element and token. No name and no text has a meaning of its own.',
     ['inputs'], 'all documents, all renamings', 'Tests use a few names; a name or text that is special (equal to an internal word, folded, cut, formatted into a message twice) would need to be guessed.',
     ['analyzer.py', 'resolver.py', 'context.py', 'lookup.py', 'elements/section.py', 'errors/'], [('Analyzer', 'analyzer.py'), ('Resolver', 'resolver.py'), ('Section', 'elements/section.py')], ['parse', 'elements', 'error', 'lookup'], '')
prop('P37', 'Comment lines never decide what the elements are',
     'A comment line with any text added anywhere outside of a multiline field changes nothing but comments: the document is accepted or rejected as before, all elements and values read the same, at most one element (the one below) reads another comment, every error that is not about comments is of the same kind with the same text (the line it names moved by the added one) and selects the same part, '
     'and lookup() finds the same element and token at every other position.',
     ['inputs'], 'all documents, all places, all comment texts', 'Comments pass through the state of the analyzer between any two lines; tests put them in front of elements in small valid documents.',
     ['analyzer.py', 'context.py', 'resolver.py', 'lookup.py', 'errors/'], [('Analyzer comments', 'analyzer.py'), ('Context', 'context.py')], ['elements', 'ParseError', 'lookup'], '')
prop('P38', 'Documents never influence each other',
     'Whatever documents are parsed and read in turn, with whatever locales, reporters and sources, and whatever is done with each of them (reading, queries, errors, assert_all_touched, touch, all_elements_required, lookup, repr), in any order of these steps, each of them gives exactly what it gives when it is the only one: the same reading, errors, snippets and selections.',
     ['inputs', 'histories'], 'all documents, options and orders of steps', 'Tests use one document each; state that is kept outside of a document shows only when two of them are in use.',
     ['context.py', 'analyzer.py', 'resolver.py', 'lookup.py', 'elements/', 'errors/', 'reporters/'], [('Context', 'context.py'), ('parse', 'parse.py'), ('Reporter', 'reporters/reporter.py')], ['parse', 'elements', 'error'], 'Loaders registered with register() are shared on purpose; one thread.')
