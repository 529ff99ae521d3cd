"""Random projects of documents (with includes, headings, figures, references,
tables of contents) as plain data, their source text, and random edits.

A project is {'docs': {path: doc}}, root 'main.dm'; a doc is
{'header': [[key, value]], 'include': [paths relative to the document],
'blocks': [block]}; blocks are lists:

  ['h', kind, text, id or None]      heading
  ['p', [inline]]                    paragraph: ['t', text] ['b', text]
                                     ['r', document, id, qualified] ['m', name]
  ['f', env, id or None, caption]    figure or table with caption
  ['toc', contents]  ['raw', text]
"""
import copy
import os
import posixpath

HEADINGS = ['title', 'part', 'chapter', 'section', 'subsection',
            'subsubsection']
FIGS = ['marginfig', 'fig', 'ffig', 'figure', 'table', 'margintable',
        'tbl', 'fulltable']
WORDS = ['alpha', 'Beta', 'gamma ray', 'été', 'naïve', 'Dr. Who', 'x. y',
         'the', 'of', 'wave', 'spin 1/2', '東京', "it's", 'A.B.', 'n=3',
         'set--up', 'Ωmega', 'end.', 'e.g. this', '3.5', 'x & y', 'a<b']
PLAIN = ['alpha', 'beta', 'gamma', 'delta', 'run', 'wave', 'spin', 'zeta']
NAMES = ['a.dm', 'b.dm', 'c.dm', 's/a.dm', 's/d.dm', 's/t/e.dm', 'u/f.dm',
         'ch 1.dm', 'été.dm', 'u/v/g.dm', 'u/a.dm', 'index.dm']
MACROS = ['@mone', '@mtwo']


class Namer:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def text(self, plain=False):
        self.n += 1
        ws = [self.rng.choice(PLAIN if plain else WORDS)
              for _ in range(self.rng.randint(1, 4))]
        ws.insert(self.rng.randint(0, 1), 'w%d' % self.n)
        return ' '.join(ws)


def rel(path, base):
    return posixpath.relpath(path, posixpath.dirname(base) or '.')


def resolve(base, inc):
    return posixpath.normpath(posixpath.join(posixpath.dirname(base), inc))


def source(doc):
    head = ''
    for k, v in doc['header']:
        if isinstance(v, list):
            head += k + ':\n' + ''.join('  ' + x + '\n' for x in v)
        else:
            head += k + ': ' + v + '\n'
    if doc['include']:
        head += 'include:\n' + ''.join('  %s\n' % i for i in doc['include'])
    out = '---\n' + head + '---\n' if head else ''
    return out + '\n\n'.join(block(b) for b in doc['blocks']) + '\n'


def block(b):
    if b[0] == 'h':
        return '@%s%s{%s}' % (b[1], '[id=%s]' % b[3] if b[3] else '', b[2])
    if b[0] == 'p':
        return ' '.join(inline(i) for i in b[1])
    if b[0] == 'f':
        return '@%s%s{@caption{%s}}' % (b[1], '[id=%s]' % b[2] if b[2] else '',
                                        b[3])
    if b[0] == 'toc':
        return '@toc{%s}' % b[1]
    return b[1]


def inline(i):
    if i[0] == 't':
        return i[1]
    if i[0] == 'b':
        return '@b{%s}' % i[1]
    if i[0] == 'm':
        return i[1]
    return '@ref{%s}' % ('%s::%s' % (i[1], i[2]) if i[3] else i[2])


def order(docs):
    """Reference document tree: (path, level, parent) depth first, every
    document once, at the first place where it is reached."""
    out, seen = [], set()

    def visit(path, level, parent):
        seen.add(path)
        out.append((path, level, parent))
        for inc in docs[path]['include']:
            p = resolve(path, inc)
            if p not in seen:
                visit(p, level + 1, path)
    visit('main.dm', 1, None)
    return out


def doc_id(docs, path):
    return dict((k, v) for k, v in docs[path]['header']).get('doc_id', path)


def header(docs, path, key, default=None):
    return dict((k, v) for k, v in docs[path]['header']).get(key, default)


def explicit_labels(docs):
    """[(document path, id)] for every label with an id of its own."""
    out = []
    for path, _, _ in order(docs):
        for b in docs[path]['blocks']:
            if b[0] == 'h' and b[3]:
                out.append((path, b[3]))
            if b[0] == 'f' and b[2]:
                out.append((path, b[2]))
    return out


class ProjGen:
    def __init__(self, rng, ndocs=4, nblocks=6, targets=None, texts=None,
                 navs=True):
        self.rng = rng
        self.namer = Namer(rng)
        self.ndocs = ndocs
        self.nblocks = nblocks
        self.targets = targets
        self.navs = navs
        self.ids = 0
        self.made = []
        self.plain = texts == 'plain'

    def text(self):
        return self.namer.text(self.plain)

    def new_id(self):
        self.ids += 1
        if self.made and self.rng.random() < .3:
            # ids that hold other ids, or differ in case only
            id = self.rng.choice(['%s-more', 'x%s', '%s.a', '%s0']) % (
                self.rng.choice(self.made))
            if self.rng.random() < .3:
                id = self.rng.choice(self.made).swapcase()
        else:
            id = self.rng.choice(['id%d', 'sec:x%d', 'fig-%d', 'a--b%d',
                                  'f_x%d', 'Ü%d']) % self.ids
        if id in self.made:
            id = 'n%d' % self.ids
        self.made.append(id)
        return id

    def block(self, docs=None):
        r = self.rng.random()
        if r < .4:
            return ['h', self.rng.choice(HEADINGS), self.text(),
                    self.new_id() if self.rng.random() < .5 else None]
        if r < .6:
            return ['f', self.rng.choice(FIGS),
                    self.new_id() if self.rng.random() < .5 else None,
                    self.text()]
        if r < .66:
            return ['toc', self.rng.choice(
                ['all headings', 'headings', 'all documents',
                 'all headings abbreviated', 'documents', 'heading'])]
        return ['p', self.inlines()]

    def inlines(self):
        out = []
        for _ in range(self.rng.randint(1, 4)):
            r = self.rng.random()
            out.append(['t', self.text()] if r < .7 else
                       ['b', self.text()] if r < .9 else
                       ['m', self.rng.choice(MACROS)])
        return out

    def header(self, root):
        rng = self.rng
        h = []
        if root:
            h.append(['targets', ', '.join(self.targets or ['html', 'tex'])])
            for m in MACROS:
                h.append([m, self.namer.text(True)])
        if rng.random() < .3:
            h.append(['title', self.namer.text(True)])
        if rng.random() < .15:
            h.append(['short', self.namer.text(True)])
        return h

    def project(self):
        rng = self.rng
        names = ['main.dm'] + rng.sample(NAMES, min(self.ndocs - 1,
                                                    len(NAMES)))
        docs = {}
        for i, n in enumerate(names):
            docs[n] = dict(header=self.header(i == 0), include=[],
                           blocks=[self.block() for _ in
                                   range(rng.randint(0, self.nblocks))])
            if i:
                parent = rng.choice(names[:i])
                docs[parent]['include'].append(rel(n, parent))
        if rng.random() < .3:
            n = rng.choice(names)
            docs[n]['header'].append(['doc_id', 'id-' + self.namer.text(
                True).replace(' ', '')])
        if rng.random() < .2:
            docs['main.dm']['header'].append(
                ['label_fmts', ['ref_caption_figure: "Figure @label.number"',
                                'heading_section: "S@label.tree_number '
                                '@label.title"']])
        proj = dict(docs=docs)
        self.share_ids(proj)
        self.add_refs(proj)
        return proj

    def share_ids(self, proj):
        """Sometimes two documents use the same id."""
        rng = self.rng
        labs = explicit_labels(proj['docs'])
        if len(labs) > 1 and rng.random() < .4:
            (p1, i1), (p2, i2) = rng.sample(labs, 2)
            if p1 != p2 and (p1, i2) not in labs:
                for b in proj['docs'][p1]['blocks']:
                    if b[0] == 'h' and b[3] == i1:
                        b[3] = i2
                    elif b[0] == 'f' and b[2] == i1:
                        b[2] = i2

    def add_refs(self, proj, n=None):
        rng = self.rng
        docs = proj['docs']
        labs = explicit_labels(docs)
        if not labs:
            return
        inside = [p for p, _, _ in order(docs)]
        for _ in range(rng.randint(0, 5) if n is None else n):
            ref = self.ref(docs, labs)
            doc = docs[rng.choice(inside)]
            paras = [b for b in doc['blocks'] if b[0] == 'p']
            if paras and rng.random() < .8:
                b = rng.choice(paras)
                b[1].insert(rng.randint(0, len(b[1])), ref)
            else:
                doc['blocks'].insert(rng.randint(0, len(doc['blocks'])),
                                     ['p', [['t', 'see'], ref]])

    def ref(self, docs, labs):
        p, i = self.rng.choice(labs)
        dup = sum(1 for x in labs if x[1] == i) > 1
        return ['r', doc_id(docs, p), i, dup or self.rng.random() < .5]

    # -- edits ---------------------------------------------------------

    def edit(self, proj):
        """A changed copy of the project and the name of the edit."""
        rng = self.rng
        new = copy.deepcopy(proj)
        for _ in range(20):
            name = rng.choice(EDITS)
            if getattr(self, 'edit_' + name)(new):
                return name, new
            new = copy.deepcopy(proj)
        return 'touch', new

    def some(self, proj):
        inside = [p for p, _, _ in order(proj['docs'])]
        return self.rng.choice(inside)

    def blocks(self, proj, kinds, nonempty=True):
        out = [(p, k) for p, _, _ in order(proj['docs'])
               for k, b in enumerate(proj['docs'][p]['blocks'])
               if b[0] in kinds]
        return self.rng.choice(out) if out else None

    def edit_touch(self, proj):
        proj['touch'] = [self.some(proj)]
        return True

    def edit_text(self, proj):
        x = self.blocks(proj, 'p')
        if not x:
            return False
        b = proj['docs'][x[0]]['blocks'][x[1]]
        b[1] = [i for i in b[1] if i[0] == 'r'] + self.inlines()
        return True

    def edit_insert(self, proj):
        bl = proj['docs'][self.some(proj)]['blocks']
        bl.insert(self.rng.randint(0, len(bl)), self.block())
        return True

    def edit_remove(self, proj):
        x = self.blocks(proj, ('h', 'p', 'f', 'toc'))
        if not x:
            return False
        del proj['docs'][x[0]]['blocks'][x[1]]
        return True

    def edit_move(self, proj):
        x = self.blocks(proj, ('h', 'f'))
        if not x:
            return False
        b = proj['docs'][x[0]]['blocks'].pop(x[1])
        bl = proj['docs'][self.some(proj)]['blocks']
        bl.insert(self.rng.randint(0, len(bl)), b)
        return True

    def edit_heading(self, proj):
        x = self.blocks(proj, 'h')
        if not x:
            return False
        b = proj['docs'][x[0]]['blocks'][x[1]]
        what = self.rng.randint(0, 2)
        if what == 0:
            b[1] = self.rng.choice(HEADINGS)
        elif what == 1:
            b[2] = self.text()
        else:
            b[3] = self.new_id()
        return True

    def edit_rename(self, proj):
        """Rename a label together with the references to it."""
        labs = explicit_labels(proj['docs'])
        if not labs:
            return False
        path, old = self.rng.choice(labs)
        if sum(1 for x in labs if x[1] == old) > 1:
            return False
        new = self.new_id()
        for p, d in proj['docs'].items():
            for b in d['blocks']:
                if p == path and b[0] == 'h' and b[3] == old:
                    b[3] = new
                if p == path and b[0] == 'f' and b[2] == old:
                    b[2] = new
                if b[0] == 'p':
                    for i in b[1]:
                        if i[0] == 'r' and i[2] == old:
                            i[2] = new
        return True

    def edit_refs(self, proj):
        self.add_refs(proj, 2)
        return True

    def edit_header(self, proj):
        rng = self.rng
        p = 'main.dm' if rng.random() < .5 else self.some(proj)
        h = proj['docs'][p]['header']
        key = rng.choice(['title', 'short', 'author', 'title', MACROS[0],
                          MACROS[1], 'label_resets', 'label_fmts', 'remove'])
        if key == 'remove':
            ks = [k for k in h if k[0] in ('title', 'short', 'author',
                                           'label_resets', 'label_fmts')]
            if not ks:
                return False
            h.remove(rng.choice(ks))
            return True
        h[:] = [x for x in h if x[0] != key]
        if key == 'label_resets':
            h.append([key, ['part: ' + rng.choice(['figure', 'chapter',
                                                   'section, table'])]])
        elif key == 'label_fmts':
            h.append([key, ['heading_chapter: "' + rng.choice(
                ['C@label.chapter_number: @label.title',
                 '@label.tree_number @label.title']) + '"']])
        else:
            h.append([key, self.namer.text(True)])
        return True

    def edit_docid(self, proj):
        p = self.some(proj)
        h = proj['docs'][p]['header']
        old = doc_id(proj['docs'], p)
        h[:] = [x for x in h if x[0] != 'doc_id']
        if self.rng.random() < .7:
            h.append(['doc_id', 'id-%s' % self.namer.text(True)
                      .replace(' ', '')])
        new = doc_id(proj['docs'], p)
        for d in proj['docs'].values():
            for b in d['blocks']:
                if b[0] == 'p':
                    for i in b[1]:
                        if i[0] == 'r' and i[1] == old:
                            i[1] = new
        return True

    def edit_targets(self, proj):
        p = self.some(proj)
        h = proj['docs'][p]['header']
        h[:] = [x for x in h if x[0] != 'targets']
        h.append(['targets', self.rng.choice(
            [', '.join(self.targets or ['html', 'tex']), 'html',
             'html, tex', 'html, txt'])])
        return True

    def edit_adddoc(self, proj):
        free = [n for n in NAMES if n not in proj['docs']]
        if not free:
            return False
        n = self.rng.choice(free)
        parent = self.some(proj)
        proj['docs'][n] = dict(header=self.header(False), include=[],
                               blocks=[self.block() for _ in range(
                                   self.rng.randint(0, self.nblocks))])
        inc = proj['docs'][parent]['include']
        inc.insert(self.rng.randint(0, len(inc)), rel(n, parent))
        return True

    def edit_exclude(self, proj):
        """Take a document out of the project (sometimes with its file)."""
        cands = [(p, i) for p, _, _ in order(proj['docs'])
                 for i in proj['docs'][p]['include']]
        if not cands:
            return False
        p, i = self.rng.choice(cands)
        proj['docs'][p]['include'].remove(i)
        inside = {x[0] for x in order(proj['docs'])}
        gone = resolve(p, i)
        if gone not in inside and self.rng.random() < .5:
            del proj['docs'][gone]
            for q, d in proj['docs'].items():
                d['include'] = [x for x in d['include']
                                if resolve(q, x) in proj['docs']]
        return True

    def edit_reorder(self, proj):
        cands = [p for p, _, _ in order(proj['docs'])
                 if len(proj['docs'][p]['include']) > 1]
        if not cands:
            return False
        self.rng.shuffle(proj['docs'][self.rng.choice(cands)]['include'])
        return True

    def edit_reparent(self, proj):
        cands = [(p, i) for p, _, _ in order(proj['docs'])
                 for i in proj['docs'][p]['include']]
        if not cands:
            return False
        p, i = self.rng.choice(cands)
        proj['docs'][p]['include'].remove(i)
        q = self.some(proj)
        if resolve(p, i) == q:
            return False
        inc = proj['docs'][q]['include']
        inc.insert(self.rng.randint(0, len(inc)), rel(resolve(p, i), q))
        return True

    def edit_again(self, proj):
        """Include a document a second time (or in a cycle)."""
        q, p = self.some(proj), self.rng.choice(sorted(proj['docs']))
        inc = proj['docs'][q]['include']
        inc.insert(self.rng.randint(0, len(inc)), rel(p, q))
        return True

    def edit_break(self, proj):
        """Markup errors, unknown references and missing files."""
        rng = self.rng
        d = proj['docs'][self.some(proj)]
        what = rng.randint(0, 3)
        if what == 0:
            d['blocks'].insert(rng.randint(0, len(d['blocks'])),
                               ['raw', '@b{unclosed'])
        elif what == 1:
            d['blocks'].append(['p', [['r', 'main.dm', 'nowhere', False]]])
        elif what == 2:
            d['include'].insert(rng.randint(0, len(d['include'])),
                                'missing.dm')
        else:
            labs = [b for b in d['blocks'] if b[0] == 'h' and b[3]]
            if not labs:
                return False
            d['blocks'].append(list(rng.choice(labs)))
        return True


EDITS = ['touch', 'text', 'text', 'insert', 'insert', 'remove', 'move',
         'heading', 'heading', 'rename', 'refs', 'header', 'header', 'header',
         'docid', 'targets', 'adddoc', 'adddoc', 'exclude', 'exclude',
         'reorder', 'reparent', 'reparent', 'again', 'break']


def write(root, proj, old=None, touch=None):
    """Bring the directory from one project to another (only changed files are
    written; touch gives files new modification times)."""
    root = str(root)
    before = old['docs'] if old else {}
    changed = []
    for path in before:
        if path not in proj['docs']:
            os.unlink(os.path.join(root, 'src', path))
    for path, d in proj['docs'].items():
        text = source(d)
        full = os.path.join(root, 'src', path)
        if (path in before and source(before[path]) == text
                and path not in proj.get('touch', ())):
            continue
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w', encoding='utf-8') as f:
            f.write(text)
        if touch:
            touch(full)
        changed.append(path)
    proj.pop('touch', None)
    return changed
