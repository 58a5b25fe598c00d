"""Reads a parsed document through the public API only."""


def kind(e):
    if e.yields_empty():
        return 'empty'
    if e.yields_section():
        return 'section'
    if e.yields_list():
        return 'list'
    if e.yields_fieldset():
        return 'fieldset'
    if e.yields_field():
        return 'field'
    return '?'


def elements(section):
    return [element(e) for e in section.elements()]


def element(e):
    k = kind(e)
    key = e.string_key()
    comment = e.optional_string_comment()
    if k == 'empty':
        return [k, key, comment, None]
    if k == 'field':
        return [k, key, comment, e.to_field().optional_string_value()]
    if k == 'list':
        return [k, key, comment, [['item', None, i.optional_string_comment(), i.optional_string_value()]
                                  for i in e.to_list().items()]]
    if k == 'fieldset':
        return [k, key, comment, [['entry', x.string_key(), x.optional_string_comment(),
                                   x.optional_string_value()] for x in e.to_fieldset().entries()]]
    return [k, key, comment, elements(e.to_section())]


def raw(nodes):
    """the nested lists of a raw() dict, same shape as elements()"""
    out = []
    for r in nodes:
        t = r['type']
        c = r.get('comment')
        if t == 'empty_element':
            out.append(['empty', r['key'], c, None])
        elif t == 'field':
            out.append(['field', r['key'], c, r['value']])
        elif t == 'list':
            out.append(['list', r['key'], c, [['item', None, i.get('comment'), i['value']] for i in r['items']]])
        elif t == 'fieldset':
            out.append(['fieldset', r['key'], c, [['entry', i['key'], i.get('comment'), i['value']]
                                                  for i in r['entries']]])
        elif t == 'section':
            out.append(['section', r['key'], c, raw(r['elements'])])
        else:
            out.append(['?', None, c, t])
    return out
