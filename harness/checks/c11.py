"""C11: references lead to the label they name, and show its text."""
import copy
import os
import re
from urllib.parse import unquote

from ..core import BaseCheck
from ..genproj import (ProjGen, write, explicit_labels, order, doc_id, header,
                       FIGS)
from ..lib import make_env, touch_forward
from .. import reflabels
from ..reflabels import squeeze

HREF = re.compile(r'\\href\{([^{}]*)\}\{((?:[^{}]|\{[^{}]*\})*)\}')


class Check(BaseCheck):
    id = 'C11'
    rule = ('every reference: link resolved against the page == file of the '
            'document that has the label, anchor == an element with that id '
            'that exists exactly once there; text == the label text of the '
            'reference model; unknown references are an error')
    assumptions = ['an id used by several documents is referenced together '
                   'with the doc_id, as documented']
    quick_n = 700
    thorough_n = 12000
    quick_s = 90
    floor = {'refs': 2000, 'cross': 500, 'unknown': 40, 'no_target': 20,
             'edits': 100, 'epub_refs': 100}

    def gen(self, rng, index, ctx):
        g = ProjGen(rng, ndocs=rng.randint(1, 6), nblocks=rng.randint(1, 8),
                    targets=rng.choice([['html', 'tex', 'pdf'],
                                        ['html', 'epub'],
                                        ['html', 'tex', 'txt'],
                                        ['html', 'pdf']]), texts='plain')
        proj = g.project()
        docs = proj['docs']
        for d in docs.values():
            if rng.random() < .12:
                d['header'] = [x for x in d['header'] if x[0] != 'targets']
                d['header'].append(['targets', rng.choice(
                    ['html', 'tex', 'html, tex', 'pdf'])])
        g.add_refs(proj, rng.randint(2, 12))
        edits, cur = [], proj
        for _ in range(rng.choice([0, 0, 1, 2])):
            for _ in range(20):
                new = copy.deepcopy(cur)
                e = rng.choice(['rename', 'docid', 'heading', 'insert',
                                'reorder', 'reparent', 'targets', 'header'])
                if getattr(g, 'edit_' + e)(new):
                    ids = explicit_labels(new['docs'])
                    if len(set(ids)) == len(ids):
                        cur = new
                        edits.append([e, cur])
                        break
        unknown = rng.choice(['nowhere', 'main.dm::nowhere', 'x.dm::id1',
                              'sec:'])if rng.random() < .15 else None
        return dict(proj=proj, edits=edits, unknown=unknown,
                    where=rng.choice([p for p, _, _ in order(docs)]))

    def check(self, ctx, case):
        from disseminate.label_manager.exceptions import LabelNotFound
        proj = case['proj']
        with ctx.scratch() as d:
            write(d, proj, None, touch_forward)
            env = make_env(d)
            if not self.known(proj['docs']):
                try:
                    env.root_document
                except LabelNotFound:
                    ctx.event('unknown')
                else:
                    ctx.fail('unknown:accepted', 'a project with references '
                             'to labels that do not exist was loaded')
                return
            root = env.root_document
            self.judge(ctx, root, proj['docs'], 'load')
            old = proj
            for e, new in case['edits']:
                write(d, new, old, touch_forward)
                old = new
                ctx.event('edits')
                if not self.known(new['docs']):
                    self.refused(ctx, root, LabelNotFound, 'reload')
                    return
                root.load()
                self.judge(ctx, root, new['docs'], e)
            if case['unknown'] and case['where'] in {
                    x[0] for x in order(old['docs'])}:
                new = copy.deepcopy(old)
                new['docs'][case['where']]['blocks'].append(
                    ['p', [['r', None, case['unknown'], False]]])
                write(d, new, old, touch_forward)
                self.refused(ctx, root, LabelNotFound, 'added')

    def refused(self, ctx, root, exc, what):
        ctx.event('unknown')
        try:
            root.load()
        except exc:
            return
        ctx.fail('unknown:' + what, 'a reference to a label that does not '
                 'exist is no error')

    def known(self, docs):
        labs = {(doc_id(docs, p), i) for p, i in explicit_labels(docs)}
        ids = {i for _, i in labs}
        for p, _, _ in order(docs):
            for b in docs[p]['blocks']:
                if b[0] == 'p':
                    for r in b[1]:
                        if r[0] == 'r' and not (
                                (r[1], r[2]) in labs if r[3] else
                                r[2] in ids):
                            return False
        return True

    def judge(self, ctx, root, docs, what):
        labels, fmts = reflabels.model(docs)
        by_id = {}
        for l in labels:
            if l['id']:
                by_id.setdefault(l['id'], []).append(l)
        objs = {str(x.src_filepath.subpath): x
                for x in root.documents_list(recursive=True)}
        pages = {}
        self.pages = pages
        for p, doc in objs.items():
            wanted = [(r, self.target(r, by_id)) for b in docs[p]['blocks']
                      if b[0] == 'p' for r in b[1] if r[0] == 'r']
            if any(w is None for _, w in wanted):
                ctx.event('ambiguous')
                continue
            wanted = [w for _, w in wanted]
            ctx.event('refs', len(wanted))
            ctx.event('cross', sum(w['path'] != p for w in wanted))
            ctx.count(distinct=[p, [(w['path'], w['id']) for w in wanted],
                                sorted(doc.targets)],
                      nontrivial=bool(wanted),
                      sample=dict(page=p, refs=[(w['doc'], w['id'])
                                                for w in wanted]))
            for target, method in (('.html', 'html'), ('.epub', 'xhtml')):
                if target in doc.targets:
                    self.html(ctx, p, doc, objs, wanted, fmts, method)
            if '.tex' in doc.targets or '.pdf' in doc.targets:
                self.tex(ctx, p, doc, objs, wanted, fmts)
            text = re.sub(r'\s+', '', doc.context['body'].txt)
            pos = 0
            for w in wanted:
                t = re.sub(r'\s+', '', reflabels.fill(w, fmts, ref=True))
                k = text.find(t, pos)
                if not ctx.expect(k >= 0, 'ref:txt', 'the reference text %r '
                                  'is missing in %r' % (t, text[:500])):
                    break
                pos = k + len(t)

    def target(self, r, by_id):
        ls = by_id[r[2]]
        if r[3]:
            ls = [l for l in ls if l['doc'] == r[1]]
        return ls[0] if len(ls) == 1 else None

    def page(self, doc, method):
        from lxml import html
        key = (doc.doc_id, method)
        if key not in self.pages:
            text = getattr(doc.context['body'], method)
            self.pages[key] = (html.fromstring('<div>' + text + '</div>')
                               if text else None)
        return self.pages[key]

    def html(self, ctx, p, doc, objs, wanted, fmts, method):
        page = self.page(doc, method)
        got = []
        for e in page.iter() if page is not None else ():
            if (isinstance(e.tag, str) and e.get('class') == 'ref'
                    and not any(a.tag in ('li', 'ol')
                                for a in e.iterancestors())):
                got.append((e.tag, e.get('href'), squeeze(e.text_content())))
        if not ctx.equal(len(got), len(wanted), 'ref:lost:' + method,
                         'number of references in ' + p):
            return
        here = doc.targets['.' + method]
        for (tag, href, text), w in zip(got, wanted):
            ctx.equal(text, squeeze(reflabels.fill(w, fmts, ref=True)),
                      'ref:text:' + method)
            other = objs[w['path']]
            there = other.targets.get('.' + method)
            if there is None:
                ctx.event('no_target')
                ctx.expect(href is None, 'ref:link-to-nothing',
                           'a link %r to a document without the target'
                           % href)
                continue
            if method == 'xhtml':
                ctx.event('epub_refs')
            if not ctx.expect(href is not None and '#' in href,
                              'ref:no-link:' + method,
                              '%s: no link to %s::%s but %r' % (
                                  p, w['doc'], w['id'], href)):
                continue
            path, anchor = href.split('#', 1)
            file = (os.path.normpath(os.path.join(
                os.path.dirname(str(here)), unquote(path)))
                if path else str(here))
            ctx.equal(file, str(there), 'ref:file:' + method,
                      'the link %r of %s' % (href, p))
            ctx.equal(unquote(anchor), w['id'], 'ref:anchor:' + method)
            page2 = self.page(other, method)
            n = sum(1 for e in page2.iter() if isinstance(e.tag, str)
                    and e.get('id') == w['id'])
            ctx.equal(n, 1, 'ref:anchors:' + method,
                      'elements with id %r in %s' % (w['id'], w['path']))

    def tex(self, ctx, p, doc, objs, wanted, fmts):
        tex = doc.context['body'].tex
        # the entries of tables of contents are not judged here
        tex = re.sub(r'(?s)\\begin\{easylist\}.*?\\end\{easylist\}', '', tex)
        got = HREF.findall(tex)
        linked = [w for w in wanted if w['path'] == p
                  or '.pdf' in objs[w['path']].targets
                  and '.pdf' in doc.targets]
        if not ctx.equal(len(got), len(linked), 'ref:lost:tex',
                         'number of links in the tex of %s: %r' % (
                             p, tex[:900])):
            return
        ctx.event('tex_links', len(got))
        for (href, text), w in zip(got, linked):
            text = re.sub(r'\\\w+\{([^{}]*)\}', r'\1', text)
            ctx.equal(squeeze(text), squeeze(reflabels.fill(w, fmts, True)),
                      'ref:text:tex')
            path, anchor = href.split('#', 1)
            ctx.equal(anchor, w['id'], 'ref:anchor:tex')
            if w['path'] == p:
                ctx.equal(path, '', 'ref:file:tex')
            else:
                here = os.path.dirname(str(doc.targets['.pdf']))
                ctx.equal(os.path.normpath(os.path.join(here, unquote(path))),
                          str(objs[w['path']].targets['.pdf']),
                          'ref:file:tex', 'the link %r of %s' % (href, p))
            n = len(re.findall(r'\\label\{%s\}' % re.escape(w['id']),
                               objs[w['path']].context['body'].tex))
            ctx.equal(n, 1, 'ref:anchors:tex')
