"""Reference rendering of documents: markup -> typography -> paragraphs ->
element tree (html, xhtml), LaTeX, text.  Written from the documentation of
the tags; shares no code with the implementation."""
from html.entities import name2codepoint

from . import refparse, refattrs

VERB = {'verb', 'v', 'pre', 'verbatim'}
CODE = {'code', 'python', 'ruby', 'java', 'javascript', 'dm'}
LITERAL = VERB | CODE
BOLD = {'b', 'bold', 'textbf', 'strong'}
ITAL = {'i', 'italics', 'textit'}
HEAD = {'title': 'title', 'h1': 'title', 'part': 'part', 'chapter': 'chapter',
        'h2': 'chapter', 'section': 'section', 'h3': 'section',
        'subsection': 'subsection', 'h4': 'subsection',
        'subsubsection': 'subsubsection', 'h5': 'subsubsection'}
HEAD_HTML = dict(title='h1', part='h1', chapter='h2', section='h3',
                 subsection='h4', subsubsection='h5')
PARA = {'para', 'h6'}
FIGS = {'marginfigure': 'marginfig', 'marginfig': 'marginfig',
        'figure': 'figure', 'fig': 'figure', 'fullfigure': 'fullfigure',
        'ffig': 'fullfigure', 'fullfig': 'fullfigure'}
FIG_TEX = {'marginfig': 'marginfigure', 'figure': 'figure',
           'fullfigure': 'figure*'}
BOXES = {'featurebox': 'featurebox', 'examplebox': 'featurebox examplebox',
         'problembox': 'featurebox problembox'}
BLOCKS = (set(HEAD) | PARA | VERB | set(FIGS) | set(BOXES) | {'p'})
#: attributes an html element may carry
HTML_ATTRS = {'blockquote': (), 'code': (), 'div': ('class', 'id'), 'em': (),
              'dd': (), 'dt': (), 'dl': (), 'figure': ('id', 'class'),
              'h1': ('id', 'class'), 'h2': ('id', 'class'),
              'h3': ('id', 'class'), 'h4': ('id', 'class'),
              'h5': ('id', 'class'), 'i': (), 'p': ('class',),
              'pre': ('class',), 'span': ('class', 'id', 'style'),
              'strong': (), 'sub': (), 'sup': ()}


class N:
    __slots__ = ('name', 'attrs', 'kids', 'role')

    def __init__(self, name, attrs, kids):
        self.name, self.attrs, self.kids = name, attrs, kids
        self.role = None


def parse(text):
    return [x if isinstance(x, str) else _node(x)
            for x in refparse.parse(text, raw=LITERAL, limit=10)]


def _node(x):
    return N(x[0], refattrs.parse(x[1]),
             [k if isinstance(k, str) else _node(k) for k in x[2]])


# -- typography -----------------------------------------------------------

def _word(c):
    return c is not None and (c.isalnum() or c == '_')


def _blank(c):
    return c.isspace() or c == '\u00a0'


def dashes(s):
    """Em dashes and en dashes, without the blanks around them (unless these
    separate paragraphs)."""
    for mark, dash in (('---', '\u2014'), ('--', '\u2013')):
        out, i = [], 0
        while i < len(s):
            n = (len(mark) if s.startswith(mark, i) else
                 1 if s[i] == dash else 0)
            if n == 0:
                out.append(s[i])
                i += 1
                continue
            k = len(out)
            while k > 0 and _blank(out[k - 1]):
                k -= 1
            if out[k:].count('\n') < 2:
                del out[k:]
            out.append(dash)
            i += n
            k = i
            while k < len(s) and _blank(s[k]):
                k += 1
            if s[i:k].count('\n') < 2:
                i = k
            else:
                # these blanks stay whole, they belong to this dash
                out.append(s[i:k])
                out[-1:] = list(s[i:k])
                i = k
        s = ''.join(out)
    return s


def _quote(s, mark, cond, repl):
    return ''.join(
        repl if c == mark and cond(s[i - 1] if i else None,
                                   s[i + 1] if i + 1 < len(s) else None)
        else c for i, c in enumerate(s))


def typo(s):
    s = dashes(s)
    opening = lambda a, b: not _word(a) and b is not None and not b.isspace()
    closing = lambda a, b: a is not None and not a.isspace() and not _word(b)
    s = _quote(s, "'", lambda a, b: _word(a) and _word(b), '\u2019')
    s = _quote(s, "'", opening, '\u2018')
    s = _quote(s, "'", closing, '\u2019')
    s = _quote(s, '"', opening, '\u201c')
    s = _quote(s, '"', closing, '\u201d')
    return s


def typography(kids):
    out = []
    for k in kids:
        if isinstance(k, str):
            out.append(typo(k))
        else:
            if k.name.lower() not in LITERAL:
                k.kids = typography(k.kids)
            out.append(k)
    return out


# -- paragraphs -----------------------------------------------------------

def split_paras(s):
    """Pieces of a string between blank lines (the blanks are dropped)."""
    pieces, cur, i = [], '', 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].isspace():
            j += 1
        if j > i:
            if s[i:j].count('\n') >= 2:
                pieces.append(cur)
                cur = ''
            else:
                cur += s[i:j]
            i = j
        else:
            cur += s[i]
            i += 1
    return pieces + [cur]


def paragraphs(kids):
    if len(kids) == 1 and not isinstance(kids[0], str):
        return kids     # a tag alone, without any text, is left as it is
    groups, cur = [], []

    def flush():
        nonlocal cur
        if any(not isinstance(x, str) or x.strip() for x in cur):
            p = N('p', [], cur)
            tags = [x for x in cur if not isinstance(x, str)]
            words = [x for x in cur if isinstance(x, str) and x.strip()]
            if len(tags) == 1 and not words:
                tags[0].role = 'block'
            groups.append(p)
        cur = []

    for k in kids:
        if isinstance(k, str):
            for n, piece in enumerate(split_paras(k)):
                if n:
                    flush()
                if piece:
                    cur.append(piece)
        elif k.name.lower() in BLOCKS:
            flush()
            groups.append(k)
        else:
            cur.append(k)
    flush()
    return groups


def process_boxes(kids):
    for k in kids:
        if not isinstance(k, str) and k.name.lower() not in LITERAL:
            process_boxes(k.kids)
            if k.name.lower() in BOXES:
                k.kids = paragraphs(k.kids)
    return kids


def document(text):
    """The body of a document as a list of nodes and strings."""
    return paragraphs(process_boxes(typography(parse(text))))


# -- html and xhtml -------------------------------------------------------

def _attrs(node, allowed, target):
    sel = refattrs.select(node.attrs, target, allowed)
    return {k: v for k, v in sel.items() if v is not None}


def _join(kids):
    out = []
    for k in kids:
        if isinstance(k, str):
            if not k:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += k
                continue
        out.append(k)
    return out


def html(node, target='html'):
    """str | ['&', entity] | [element, {attributes}, [children]]"""
    if isinstance(node, str):
        return node
    name = node.name.lower()
    if name in ('symbol', 'smb'):
        ent = ''.join(node.kids).strip()
        if target == 'xhtml':
            ent = '#%d' % name2codepoint[ent]
        return ['&', ent]
    if name == 'supsub':
        up, down = ''.join(node.kids).split('&&')
        at = _attrs(node, HTML_ATTRS['span'], target)
        at['class'] = 'supsub'
        return ['span', at, _join([up.strip(), ['br', {}, []],
                                   down.strip()])]
    if name in CODE and node.role == 'block':
        return ['CODE', {}, _join(node.kids)]
    kids = _join(html(k, target) for k in node.kids)
    extra = None
    if name in BOLD:
        el = 'strong'
    elif name in ITAL:
        el = 'i'
    elif name in LITERAL:
        el = 'code'
    elif name in HEAD:
        el = HEAD_HTML[HEAD[name]]
    elif name in FIGS:
        el, extra = 'figure', FIGS[name]
    elif name in BOXES:
        el, extra = 'div', BOXES[name]
    elif name in HTML_ATTRS and name not in PARA:
        el = name
    else:
        at = _attrs(node, HTML_ATTRS['span'], target)
        at.setdefault('class', 'paragraph-heading' if name in PARA else name)
        return ['span', at, kids]
    at = _attrs(node, HTML_ATTRS[el], target)
    if extra:
        at['class'] = (at['class'] + ' ' if 'class' in at else '') + extra
    return [el, at, kids]


def html_body(text, target='html'):
    return ['div', {'class': 'body'},
            _join(html(k, target) for k in document(text))]


# -- tex and txt ----------------------------------------------------------

def verb(s):
    for c in '|!^+/"=?;:,.~`@':
        if c not in s:
            return '\\verb' + c + s + c
    return None


def tex(node, code=None):
    if isinstance(node, str):
        return node
    name = node.name.lower()
    inner = ''.join(tex(k, code) for k in node.kids)
    if name in BOLD:
        return '\\textbf{' + inner + '}'
    if name in ITAL:
        return '\\textit{' + inner + '}'
    if name in ('sup', 'sub'):
        return ('\\ensuremath{' + ('^' if name == 'sup' else '_') + '{' +
                inner + '}}')
    if name in ('symbol', 'smb'):
        return '\\ensuremath{\\' + inner + '}'
    if name == 'supsub':
        up, down = inner.split('&&')
        return '\\ensuremath{^{%s}_{%s}}' % (up.strip(), down.strip())
    if name == 'verbatim':
        return env('verbatim', inner)
    if name in CODE and node.role == 'block':
        return code(node)
    if name in LITERAL:
        return verb(inner)
    if name in HEAD:
        return '\\%s{%s}' % (HEAD[name], inner)
    if name in PARA:
        return '\\paragraph{%s}' % inner
    if name in FIGS:
        pos = refattrs.first_positional(node.attrs, 'tex', 'str')
        return env(FIG_TEX[FIGS[name]], inner, '[%s]' % pos if pos else '')
    if name in BOXES:
        return env(BOXES[name].split()[-1], inner)
    if name == 'p':
        return '\n' + inner + '\n'
    return inner


def env(name, inner, opts=''):
    if not inner.startswith('\n'):
        inner = '\n' + inner
    if not inner.endswith('\n'):
        inner += '\n'
    return '\n\\begin{%s}%s%s\\end{%s}\n' % (name, opts, inner, name)


def tex_body(text, code=None):
    return ''.join(tex(k, code) for k in document(text))


def txt(node):
    if isinstance(node, str):
        return node
    return ''.join(txt(k) for k in node.kids)


def plain(kids):
    """[name, children] form, for the comparison of trees."""
    return _join(k if isinstance(k, str) else
                 [k.name, [[a, v] for a, v in k.attrs], plain(k.kids)]
                 for k in kids)


def walk(kids):
    for k in kids:
        if not isinstance(k, str):
            yield k
            for x in walk(k.kids):
                yield x
