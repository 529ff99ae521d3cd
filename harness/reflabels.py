"""Reference model of labels, their numbers and their texts for projects of
genproj (written from the documentation: language/tags, header label_fmts and
label_resets)."""
import re

from . import refdoc
from .genproj import order, doc_id, header

RESETS = {'part': {'chapter', 'section', 'subsection', 'subsubsection'},
          'chapter': {'section', 'subsection', 'subsubsection', 'figure',
                      'table'},
          'section': {'subsection', 'subsubsection'},
          'subsection': {'subsubsection'}}
FMTS = {'document': '@label.title', 'ref_document': '@label.title',
        'caption_figure': '@b{Fig. @label.number}. ',
        'caption_table': '@b{Table @label.number}. ',
        'ref_caption_figure': '@b{Fig. @label.number}',
        'ref_caption_table': '@b{Table @label.number}',
        'heading': '@label.tree_number. @label.title',
        'heading_title': '@label.title',
        'heading_part': 'Part @label.part_number. @label.title',
        'heading_chapter': 'Chapter @label.chapter_number. @label.title',
        'ref_heading': '@label.title',
        'ref_heading_part': 'Part @label.part_number. @label.title',
        'ref_heading_chapter': 'Chapter @label.chapter_number. @label.title'}
TREE = ['part', 'chapter', 'section', 'subsection', 'subsubsection']
TAGS = {'title': 'h1', 'part': 'h1', 'chapter': 'h2', 'section': 'h3',
        'subsection': 'h4', 'subsubsection': 'h5'}


def squeeze(s):
    return re.sub(r'[ \n\t]+', ' ', s).strip(' \n\t')


def figure_kind(env):
    return 'table' if 'tab' in env or 'tbl' in env else 'figure'


def settings(docs):
    """(resets, formats) of the root document."""
    resets = {k: set(v) for k, v in RESETS.items()}
    for line in header(docs, 'main.dm', 'label_resets', []):
        k, v = line.split(':', 1)
        resets.setdefault(k.strip(), set()).update(
            x.strip() for x in v.split(','))
    fmts = dict(FMTS)
    for line in header(docs, 'main.dm', 'label_fmts', []):
        k, v = line.split(':', 1)
        fmts[k.strip()] = v.strip().strip('"')
    return resets, fmts


def inherited(docs, path, key, parents):
    while path is not None:
        v = header(docs, path, key)
        if v is not None:
            return v
        path = parents[path]
    return None


def model(docs):
    """All labels in order: dicts doc, path, id (None: generated), kind,
    order, title, tree, block (index, None for documents), numbers."""
    resets, fmts = settings(docs)
    tree = order(docs)
    parents = {p: q for p, _, q in tree}
    count, cur, out = {}, {}, []
    for path, level, _ in tree:
        title = (header(docs, path, 'short')
                 or inherited(docs, path, 'title', parents)
                 or re.sub(r'\.dm$', '', path))
        labs = [dict(kind=['document', 'document-level-%d' % level],
                     title=title, id=None, block=None)]
        for n, b in enumerate(docs[path]['blocks']):
            if b[0] == 'h':
                labs.append(dict(kind=['heading', b[1]], id=b[3], block=n,
                                 title=squeeze(refdoc.typo(b[2]))))
            elif b[0] == 'f':
                labs.append(dict(kind=['caption', figure_kind(b[1])], id=b[2],
                                 block=n, title=None,
                                 text=squeeze(refdoc.typo(b[3]))))
        for l in labs:
            l['path'], l['doc'] = path, doc_id(docs, path)
            l['order'] = []
            for k in l['kind']:
                count[k] = count.get(k, 0) + 1
                for r in resets.get(k, ()):
                    count[r] = 0
                l['order'].append(count[k])
            if l['kind'][0] != 'document':
                k = l['kind'][1]
                if k in TREE:
                    cur[k] = l['order'][-1]
                    for lower in TREE[TREE.index(k) + 1:]:
                        cur[lower] = None
                l['numbers'] = dict(cur)
                l['tree'] = '.'.join(str(cur[x]) for x in TREE if cur.get(x))
            out.append(l)
    return out, fmts


def fill(label, fmts, ref=False):
    """The text of a label or of a reference to it: (markup-free) text."""
    keys = (['ref'] if ref else []) + label['kind']
    while keys:
        f = fmts.get('_'.join(keys))
        if f is not None:
            break
        keys.pop()

    def value(m):
        name = m.group(1)
        if name == 'title':
            return label['title'] or ''
        if name == 'number':
            return str(label['order'][-1])
        if name == 'tree_number':
            return label['tree']
        k = name.split('_')[0]
        n = label['numbers'].get(k)
        return '' if n is None else str(n)
    text = re.sub(r'@label\.(\w+)', value, f)
    return re.sub(r'@b\{([^{}]*)\}', r'\1', text)
