"""Bodies of documents: directly constructed, or through source files and the
built target files."""
from .lib import write_project, make_env


def body(ctx, text, context):
    from disseminate.tags.text import Body
    return Body(name='body', content=text, attributes='', context=context)


def element(e):
    """lxml element -> [name, {attributes}, [str | ['&', ent] | element]]"""
    from lxml import etree
    if e.tag is etree.Entity:
        return ['&', e.text.strip('&;')]
    if not isinstance(e.tag, str):
        return ['<!>', {}, [e.text or '']]
    out = []

    def put(s):
        if s:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
    put(e.text)
    for c in e:
        out.append(element(c))
        put(c.tail)
    tag = e.tag.split('}')[-1]
    return [tag, {k: v for k, v in e.attrib.items()}, out]


def code_text(el):
    """Highlighted code blocks become ['CODE', {}, [text]]."""
    if isinstance(el, str) or el[0] == '&':
        return el
    if el[0] == 'div' and el[1].get('class') == 'code':
        t = text(el).strip('\n')
        return ['CODE', {}, [t] if t else []]
    return [el[0], el[1], [code_text(k) for k in el[2]]]


def text(el):
    if isinstance(el, str):
        return el
    if el[0] == '&':
        return '&%s;' % el[1]
    return ''.join(text(k) for k in el[2])


def normalize(el, strip):
    """Classes as sets; code blocks without the newlines around them; with
    strip, all whitespace dropped."""
    if isinstance(el, str):
        return ''.join(el.split()) if strip else el
    if el[0] == '&':
        return el
    kids = []
    for k in el[2]:
        k = normalize(k, strip)
        if el[0] == 'CODE' and isinstance(k, str):
            k = k.strip('\n')
        if k == '':
            continue
        if kids and isinstance(k, str) and isinstance(kids[-1], str):
            kids[-1] += k
        else:
            kids.append(k)
    at = dict(el[1])
    if 'class' in at:
        at['class'] = ' '.join(sorted(set(at['class'].split())))
    return [el[0], at, kids]


def entities(el, table):
    """Entities as characters (what a parser makes of them)."""
    if isinstance(el, str):
        return el
    if el[0] == '&':
        n = el[1]
        return chr(int(n[1:]) if n[0] == '#' else table[n])
    return [el[0], el[1], [entities(k, table) for k in el[2]]]


def project(ctx, d, text, header):
    write_project(d, {'src/main.dm': '---\n' + header + '\n---\n' + text})
    return make_env(d)
