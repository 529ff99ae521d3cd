"""C12: tables of contents and links between documents follow the project.

Every table of contents of a loaded (and edited) project is compared, entry by
entry, with the reference model of labels: which entries, in which order, at
which level and depth, with which text and link.  Links are resolved against
the page they stand in, and their anchors are looked up in the page they lead
to.  Links to the previous and next documents and to the other targets of a
document are judged the same way.
"""
import copy
import os
import re
from urllib.parse import unquote

from ..core import BaseCheck
from ..genproj import ProjGen, write, order, explicit_labels
from ..lib import make_env, touch_forward
from .. import reflabels
from ..reflabels import squeeze

LEVELS = ['title', 'part', 'chapter', 'section', 'subsection',
          'subsubsection']
KINDS = ['all headings', 'headings', 'heading', 'all heading',
         'all documents', 'documents', 'document', 'all document',
         'all headings abbreviated', 'all documents abbreviated',
         'headings abbreviated', 'all headings documents',
         'headings all', 'abbreviated headings all', 'all figures',
         'figure', 'all tables', 'tables figures', 'all figures headings',
         'all figure table abbreviated']
LINKS = {'src': None, 'txt': '.txt', 'tex': '.tex', 'pdf': '.pdf'}


def entries(labels, doc, contents):
    """[(label, level)] of a table of contents."""
    kinds = contents.split()
    own = [l for l in labels if 'all' in kinds or l['doc'] == doc]
    out = []
    for kind in ('heading', 'document', 'figure', 'table'):
        if kind in kinds or kind + 's' in kinds:
            out += [l for l in own if kind in l['kind']]
    if 'abbreviated' in kinds:
        short, last = [], None
        for l in out:
            if l['doc'] == doc or l['doc'] != last:
                short.append(l)
            last = l['doc']
        out = short
    res, level = [], 1
    for l in out:
        if l['kind'][-1] in LEVELS:
            level = LEVELS.index(l['kind'][-1])
        res.append((l, level))
    return res


def depths(levels):
    """Nesting depth of list entries with the given levels."""
    out, stack = [], []
    for level in levels:
        for k, l in enumerate(stack):
            if level <= l:
                del stack[k + 1:]
                stack[k] = level
                break
        else:
            stack.append(level)
        out.append(len(stack) - 1)
    return out


class Check(BaseCheck):
    id = 'C12'
    rule = ('entries of every table of contents (order, level, depth, text, '
            'file and anchor of the link) == reference model; navigation '
            'labels and links == neighbouring documents with the target; '
            'links to other targets == relative path of that file')
    assumptions = ['the modifiers expanded and collapsed and the attribute '
                   'header, which are documented but not implemented, are '
                   'not used']
    quick_n = 600
    thorough_n = 9000
    quick_s = 90
    floor = {'tocs': 2000, 'entries': 6000, 'nav': 1000, 'nav_links': 500,
             'other_links': 300, 'edits': 100, 'nested': 300}

    def gen(self, rng, index, ctx):
        g = ProjGen(rng, ndocs=rng.randint(1, 6), nblocks=rng.randint(1, 8),
                    targets=rng.choice([['html', 'tex', 'pdf'],
                                        ['html', 'epub'], ['html'],
                                        ['html', 'tex', 'txt']]),
                    texts='plain')
        proj = g.project()
        docs = proj['docs']
        for d in docs.values():
            if rng.random() < .15:
                d['header'] = [x for x in d['header'] if x[0] != 'targets']
                d['header'].append(['targets', rng.choice(
                    ['html', 'tex', 'html, tex', 'pdf', 'html, pdf, txt'])])
        self.tocs(rng, proj)
        edits, cur = [], proj
        for _ in range(rng.choice([0, 0, 1, 2])):
            for _ in range(20):
                new = copy.deepcopy(cur)
                e = rng.choice(['rename', 'docid', 'heading', 'insert',
                                'reorder', 'reparent', 'targets', 'header',
                                'adddoc', 'exclude', 'move', 'remove'])
                if getattr(g, 'edit_' + e)(new) and self.fine(new):
                    if e in ('adddoc', 'insert'):
                        self.tocs(rng, new, .3)
                    cur = new
                    edits.append([e, cur])
                    break
        return dict(proj=proj, edits=edits)

    def tocs(self, rng, proj, p=.6):
        for d in proj['docs'].values():
            if rng.random() < p:
                d['blocks'].insert(rng.randint(0, len(d['blocks'])),
                                   ['toc', rng.choice(KINDS)])
            if rng.random() < p:
                d['blocks'].insert(rng.randint(0, len(d['blocks'])),
                                   ['raw', 'A @navprev{@prev} and @navnext'
                                    '{@next} END'])

    def fine(self, proj):
        """No repeated ids and no dangling references."""
        docs = proj['docs']
        ids = explicit_labels(docs)
        names = {i for _, i in ids}
        from ..genproj import doc_id
        full = {(doc_id(docs, p), i) for p, i in ids}
        return len(set(ids)) == len(ids) and all(
            ((r[1], r[2]) in full if r[3] else r[2] in names)
            for p, _, _ in order(docs) for b in docs[p]['blocks']
            if b[0] == 'p' for r in b[1] if r[0] == 'r')

    def check(self, ctx, case):
        proj = case['proj']
        if not self.fine(proj):
            return
        with ctx.scratch() as d:
            write(d, proj, None, touch_forward)
            root = make_env(d).root_document
            self.judge(ctx, root, proj['docs'])
            old = proj
            for e, new in case['edits']:
                write(d, new, old, touch_forward)
                old = new
                ctx.event('edits')
                root.load()
                self.judge(ctx, root, new['docs'])

    def judge(self, ctx, root, docs):
        labels, fmts = reflabels.model(docs)
        objs = {str(x.src_filepath.subpath): x
                for x in root.documents_list(recursive=True)}
        if not ctx.equal(list(objs), [x[0] for x in order(docs)],
                         'documents'):
            return
        self.ids(labels, root)
        self.pages = {}
        for p, doc in objs.items():
            tocs = [b[1] for b in docs[p]['blocks'] if b[0] == 'toc']
            raws = sum(b[0] == 'raw' for b in docs[p]['blocks'])
            own = [l['doc'] for l in labels if l['path'] == p][0]
            ctx.count(distinct=[p, tocs, raws, [
                (l['doc'], l['kind'], l['title']) for l in labels],
                sorted(doc.targets)], nontrivial=bool(tocs or raws),
                sample=dict(page=p, tocs=tocs, labels=len(labels)))
            near = self.near(ctx, p, doc, objs, labels)
            for target, method in (('.html', 'html'), ('.epub', 'xhtml')):
                if target in doc.targets:
                    page = self.page(doc, method)
                    self.html_tocs(ctx, p, doc, objs, own, tocs, labels, fmts,
                                   method, page)
                    self.html_nav(ctx, p, doc, objs, near, raws, fmts, method,
                                  page)
            if '.tex' in doc.targets or '.pdf' in doc.targets:
                self.tex(ctx, p, doc, objs, own, tocs, raws, near, labels,
                         fmts)
            if '.html' in doc.targets:
                self.others(ctx, doc, root)

    def ids(self, labels, root):
        """Fill in the generated ids of labels, from the observed labels."""
        man = root.label_manager
        man.register()
        real = list(man.labels.values())
        for l, r in zip(labels, real):
            l['anchor'] = l['id'] or r.id

    def near(self, ctx, p, doc, objs, labels):
        """{target: {'prev': label or None, ..}}, and the context entries."""
        first = {}
        for l in labels:
            if l['kind'][0] == 'heading':
                first.setdefault(l['path'], l)
        out = {}
        for t in sorted({t for o in objs.values() for t in o.targets}):
            paths = [q for q, o in objs.items() if t in o.targets]
            res = dict(prev=None, curr=None, next=None)
            if p in paths:
                k = paths.index(p)
                for name, j in (('prev', k - 1), ('curr', k), ('next', k + 1)):
                    if 0 <= j < len(paths):
                        res[name] = first.get(paths[j])
            out[t] = res
            for name, l in res.items():
                ctx.event('nav')
                v = doc.context.get(name + '_' + t.strip('.'))
                v = v() if v is not None else None
                ctx.equal((v.doc_id, v.id) if v is not None else None,
                          (l['doc'], l['anchor']) if l else None,
                          'nav:label', '%s_%s of %s' % (name, t, p))
        return out

    def page(self, doc, method):
        from lxml import html
        key = (doc.doc_id, method)
        if key not in self.pages:
            text = getattr(doc.context['body'], method)
            self.pages[key] = html.fromstring('<div>' + (text or '') +
                                              '</div>')
        return self.pages[key]

    def link(self, ctx, p, doc, objs, label, href, method, what):
        """The link of an element leads to the label."""
        other = objs[label['path']]
        there = other.targets.get('.' + method)
        is_doc = label['kind'][0] == 'document'
        if there is None or '.' + method not in doc.targets:
            ctx.equal(href, None, what + ':link-to-nothing')
            return
        if is_doc and other is doc:
            ctx.expect(href in ('', None, there.name), what + ':self', href)
            return
        if not ctx.expect(href is not None, what + ':no-link:' + method,
                          'no link to %s in %s' % (label, p)):
            return
        path, _, anchor = href.partition('#')
        here = os.path.dirname(str(doc.targets['.' + method]))
        ctx.equal(os.path.normpath(os.path.join(here, unquote(path)))
                  if path else str(doc.targets['.' + method]), str(there),
                  what + ':file:' + method, 'the link %r of %s' % (href, p))
        if is_doc:
            ctx.equal(anchor, '', what + ':anchor')
            return
        ctx.equal(unquote(anchor), label['anchor'], what + ':anchor')
        n = sum(1 for e in self.page(other, method).iter()
                if isinstance(e.tag, str) and e.get('id') == label['anchor'])
        ctx.equal(n, 1, what + ':anchors', 'elements with the id %r in %s' % (
            label['anchor'], label['path']))

    def html_tocs(self, ctx, p, doc, objs, own, tocs, labels, fmts, method,
                  page):
        got = [e for e in page.iter('ol') if e.get('class') == 'toc']
        if not ctx.equal(len(got), len(tocs), 'toc:number:' + method, p):
            return
        for ol, contents in zip(got, tocs):
            want = entries(labels, own, contents)
            ctx.event('tocs')
            ctx.event('entries', len(want))
            items = list(ol.iter('li'))
            if not ctx.equal(
                    [squeeze(li.text_content()) for li in items],
                    [squeeze(reflabels.fill(l, fmts, True)) for l, _ in want],
                    'toc:entries:' + method, '@toc{%s} of %s' % (contents,
                                                                 p)):
                continue
            ctx.equal([li.get('class') for li in items],
                      ['toc-level-%d' % n for _, n in want],
                      'toc:levels:' + method, contents)
            deep = depths([n for _, n in want])
            ctx.event('nested', max(deep or [0]) > 0)
            ctx.equal([sum(1 for a in li.iterancestors('ol', 'ul')) - 1
                       for li in items], deep, 'toc:depth:' + method,
                      'levels %s' % [n for _, n in want])
            for li, (label, _) in zip(items, want):
                refs = [e for e in li.iter() if e.get('class') == 'ref']
                if ctx.equal(len(refs), 1, 'toc:refs'):
                    self.link(ctx, p, doc, objs, label, refs[0].get('href'),
                              method, 'toc')

    def html_nav(self, ctx, p, doc, objs, near, raws, fmts, method, page):
        target = '.' + method
        bars = {}
        for name in ('prev', 'next'):
            want = near.get(target, {}).get(name)
            got = [e for e in page.iter('span')
                   if e.get('class') == 'nav' + name]
            if not ctx.equal(len(got), raws, 'nav:number:' + method):
                return
            for e in got:
                ctx.equal(squeeze(e.text_content()),
                          squeeze(reflabels.fill(want, fmts, True))
                          if want else '', 'nav:text:' + method)
                refs = [x for x in e.iter() if x.get('class') == 'ref']
                ctx.equal(len(refs), 1 if want else 0, 'nav:refs:' + method)
                if refs and want:
                    ctx.event('nav_links')
                    self.link(ctx, p, doc, objs, want, refs[0].get('href'),
                              method, 'nav')

    def tex(self, ctx, p, doc, objs, own, tocs, raws, near, labels, fmts):
        tex = doc.context['body'].tex or ''
        got = re.findall(r'(?s)\\begin\{easylist\}(?:\[\w*\])?(.*?)'
                         r'\\end\{easylist\}', tex)
        if not ctx.equal(len(got), len(tocs), 'toc:number:tex'):
            return
        for text, contents in zip(got, tocs):
            want = entries(labels, own, contents)
            ctx.event('tocs')
            lines = [x for x in text.split('\n')
                     if x.strip() and not x.startswith('\\ListProperties')]
            items = []
            for x in lines:
                m = re.match(r'(§*) (.*)$', x)
                if not ctx.expect(m, 'toc:line:tex', x):
                    return
                items.append((len(m.group(1)),) + self.href(m.group(2)))
            if ctx.equal([(n, t) for n, _, t in items],
                         [(max(n, 1), squeeze(reflabels.fill(l, fmts, True)))
                          for l, n in want], 'toc:entries:tex', contents):
                for (_, href, _), (label, _) in zip(items, want):
                    self.texlink(ctx, p, doc, objs, label, href)
        navs = re.findall(r'A (.*?) and (.*?) END', tex)
        if not ctx.equal(len(navs), raws, 'nav:number:tex'):
            return
        for pair in navs:
            for name, text in zip(('prev', 'next'), pair):
                want = near.get('.tex', {}).get(name)
                href, text = self.href(text)
                ctx.equal(text, squeeze(reflabels.fill(want, fmts, True))
                          if want else '', 'nav:text:tex')
                if want:
                    self.texlink(ctx, p, doc, objs, want, href)

    def href(self, text):
        m = re.match(r'\\href\{([^{}]*)\}\{(.*)\}$', text)
        href, text = m.groups() if m else (None, text)
        return href, squeeze(re.sub(r'\\\w+\{([^{}]*)\}', r'\1', text))

    def texlink(self, ctx, p, doc, objs, label, href):
        other = objs[label['path']]
        is_doc = label['kind'][0] == 'document'
        if other is doc:
            ctx.expect(href == ('#' + label['anchor']) or
                       is_doc and href is None, 'toc:self:tex', href)
        elif '.pdf' in doc.targets and '.pdf' in other.targets:
            if not ctx.expect(href, 'toc:no-link:tex', '%s in %s' % (label,
                                                                     p)):
                return
            path, _, anchor = href.partition('#')
            here = os.path.dirname(str(doc.targets['.pdf']))
            ctx.equal(os.path.normpath(os.path.join(here, unquote(path))),
                      str(other.targets['.pdf']), 'toc:file:tex', href)
            ctx.equal(anchor, '' if is_doc else label['anchor'],
                      'toc:anchor:tex')
        else:
            ctx.equal(href, None, 'toc:link-to-nothing:tex')

    def others(self, ctx, doc, root):
        """The links to the source and the other targets of the document."""
        here = os.path.dirname(str(doc.targets['.html']))
        for name, target in list(LINKS.items()) + [('epub', '.epub')]:
            tag = doc.context.get(name + 'link')
            if tag is None or isinstance(tag, str):
                continue
            ctx.event('other_links')
            if name == 'src':
                want = str(doc.src_filepath)
            elif name == 'epub':
                want = root.targets.get('.epub')
            else:
                want = (doc.targets.get(target)
                        if target in doc.context.targets else None)
            got = str(tag.html)
            ctx.equal(os.path.normpath(os.path.join(here, got)) if got
                      else '', str(want or ''), 'link:' + name)
