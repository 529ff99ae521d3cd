"""C10: labels are complete, in order, unique and numbered by the rules."""
import copy
import re

from ..core import BaseCheck
from ..genproj import ProjGen, write, HEADINGS, explicit_labels, doc_id
from ..lib import make_env, touch_forward
from .. import reflabels
from ..reflabels import squeeze, TAGS


def html_labels(text):
    """[(tag, id, text)] of headings and captions in document order."""
    from lxml import html
    out = []
    if not text:
        return out
    for e in html.fromstring('<div>' + text + '</div>').iter():
        if not isinstance(e.tag, str):
            continue
        if e.tag in ('h1', 'h2', 'h3', 'h4', 'h5'):
            out.append((e.tag, e.get('id'), squeeze(e.text_content())))
        elif e.tag in ('figcaption', 'caption'):
            out.append((e.tag, e.get('id'), squeeze(e.text_content())))
    return out


TEX = re.compile(r'(?:\\setcounter\{(\w+)\}\{(-?\d+)\}\s*)?'
                 r'\\(title|part|chapter|section|subsection|subsubsection|'
                 r'caption)\{((?:[^{}]|\{[^{}]*\})*)\}(?: *\\label\{([^}]*)\})?')


def tex_labels(text):
    out = []
    for m in TEX.finditer(text or ''):
        counter, n, cmd, content, id = m.groups()
        content = re.sub(r'\\\w+\{([^{}]*)\}', r'\1', content)
        out.append((cmd, id, squeeze(content),
                    int(n) + 1 if n is not None else None, counter))
    return out


class Check(BaseCheck):
    id = 'C10'
    rule = ('labels of the label manager (document, id, kind, order, title, '
            'tree number) and the numbers and titles shown in html, xhtml, '
            'tex and txt == reference model; a repeated id in a document is '
            'an error')
    assumptions = [
        'headings with the attribute short are not judged (their short '
        'title is displayed: known finding headings-short)',
        'ids of headings and captions without id attributes are only '
        'required to be unique within the document']
    quick_n = 900
    thorough_n = 15000
    quick_s = 90
    floor = {'labels': 3000, 'shared_ids': 30, 'duplicates': 20}

    def gen(self, rng, index, ctx):
        plain = rng.random() < .5
        g = ProjGen(rng, ndocs=rng.randint(1, 5), nblocks=rng.randint(2, 12),
                    targets=['html', 'tex', 'epub'],
                    texts='plain' if plain else None)
        proj = g.project()
        docs = proj['docs']
        for d in docs.values():
            for b in list(d['blocks']):
                if b[0] == 'toc' or rng.random() < .1 and b[0] == 'p':
                    d['blocks'].remove(b)
        h = docs['main.dm']['header']
        if rng.random() < .3 and not any(k == 'label_resets' for k, _ in h):
            h.append(['label_resets', [
                '%s: %s' % (rng.choice(['part', 'chapter', 'section']),
                            rng.choice(['figure', 'table', 'figure, table',
                                        'chapter', 'caption']))]])
        if rng.random() < .3 and not any(k == 'label_fmts' for k, _ in h):
            h.append(['label_fmts', [
                '%s: "%s"' % (rng.choice(['heading', 'heading_section',
                                          'heading_part', 'caption_figure',
                                          'heading_subsection']),
                              rng.choice(['N@label.number @label.title',
                                          '@label.tree_number: @label.title ',
                                          '[@label.part_number-@label.'
                                          'section_number] @label.title',
                                          '@b{@label.number} '
                                          '@label.title']))]])
            if h[-1][1][0].startswith('caption'):
                h[-1][1][0] = 'caption_figure: "FIG @label.number: "'
        edits = []
        cur = proj
        for _ in range(rng.choice([0, 0, 1, 2])):
            for _ in range(20):
                new = copy.deepcopy(cur)
                e = rng.choice(['insert', 'move', 'heading', 'reorder',
                                'header', 'reparent', 'adddoc'])
                if getattr(g, 'edit_' + e)(new):
                    ids = explicit_labels(new['docs'])
                    if len(set(ids)) == len(ids):
                        cur = new
                        edits.append([e, cur])
                        break
        dup = None
        if rng.random() < .15:
            labs = [(p, b) for p in docs for b in docs[p]['blocks']
                    if b[0] == 'h' and b[3]]
            if labs:
                p, b = rng.choice(labs)
                dup = [p, ['h', rng.choice(HEADINGS), 'another one', b[3]]]
        return dict(proj=proj, plain=plain, edits=edits, dup=dup)

    def check(self, ctx, case):
        from disseminate.label_manager.exceptions import (DuplicateLabel,
                                                          LabelNotFound)
        proj = case['proj']
        with ctx.scratch() as d:
            write(d, proj, None, touch_forward)
            env = make_env(d)
            try:
                root = env.root_document
            except LabelNotFound:
                ctx.event('broken_refs')
                return
            self.judge(ctx, root, proj['docs'], 'load', case['plain'])
            old = proj
            for e, new in case['edits']:
                write(d, new, old, touch_forward)
                old = new
                try:
                    root.load()
                except LabelNotFound:
                    ctx.event('broken_refs')
                    return
                ctx.event('edits')
                self.judge(ctx, root, new['docs'], e, case['plain'])
            if case['dup']:
                inside = [p for p, _, _ in reflabels.order(old['docs'])]
                new = copy.deepcopy(old)
                p, b = case['dup']
                ids = [x for q, x in explicit_labels(new['docs']) if q == p]
                if p not in inside or b[3] not in ids:
                    return
                new['docs'][p]['blocks'].append(b)
                write(d, new, old, touch_forward)
                ctx.event('duplicates')
                try:
                    root.load()
                except DuplicateLabel:
                    pass
                else:
                    ctx.fail('duplicate:accepted', 'the id %r stands twice in '
                             '%s and is no error' % (b[3], p))

    def judge(self, ctx, root, docs, what, plain):
        want, fmts = reflabels.model(docs)
        man = root.label_manager
        man.register()
        got = list(man.labels.values())
        ctx.count(distinct=[(l['kind'], l['order'], l['id'], l['title'])
                            for l in want],
                  nontrivial=len(want) > 2,
                  sample=dict(labels=[(l['doc'], l['id'], l['kind'],
                                       l['order']) for l in want]))
        ctx.event('labels', len(want))
        if len({i for _, i in explicit_labels(docs)}) < len(
                explicit_labels(docs)):
            ctx.event('shared_ids')
        where = 'reload' if what != 'load' else 'load'
        if not ctx.equal([(l.doc_id, tuple(l.kind)) for l in got],
                         [(l['doc'], tuple(l['kind'])) for l in want],
                         'labels:sequence:' + where,
                         'documents and kinds of all labels, after ' + what):
            return
        seen = set()
        for g, w in zip(got, want):
            key = (g.doc_id, g.id)
            ctx.expect(key not in seen, 'labels:unique',
                       'two labels are called %s' % (key,))
            seen.add(key)
            if w['id'] is not None:
                ctx.equal(g.id, w['id'], 'labels:id')
            if w['title'] is not None:
                ctx.equal(g.title, w['title'], 'labels:title:' + w['kind'][0])
            if not ctx.equal(tuple(g.order), tuple(w['order']),
                             'labels:order:' + w['kind'][0],
                             'numbers of %s (%s) after %s' % (
                                 key, w['kind'], what)):
                return
            if 'tree' in w:
                ctx.equal(g.tree_number, w['tree'], 'labels:tree',
                          'tree number of %s after %s' % (key, what))
            # found by its full name
            ctx.expect(man.get_label('::'.join(key)) is g, 'labels:lookup',
                       'get_label(%r) is another label' % ('::'.join(key),))
            w['real'] = g.id
        for kind in ('heading', 'caption', 'figure', 'table', 'document',
                     'section'):
            ctx.equal([(l.doc_id, l.id) for l in
                       man.get_labels_by_kind(kinds=kind)],
                      [(w['doc'], w['real']) for w in want
                       if kind in w['kind']], 'labels:by-kind')
        for doc in root.documents_list(recursive=True):
            path = str(doc.src_filepath.subpath)
            labs = [w for w in want if w['path'] == path
                    and w['block'] is not None]
            self.shown(ctx, doc, labs, fmts, plain)

    def shown(self, ctx, doc, labs, fmts, plain):
        """The numbers and titles in the rendered body."""
        def text(w):
            t = reflabels.fill(w, fmts)
            return squeeze(t + w['text'] if w['kind'][0] == 'caption' else t)

        def tag(w, fig):
            if w['kind'][0] == 'heading':
                return TAGS[w['kind'][1]]
            return 'figcaption' if w['kind'][1] == 'figure' else 'caption'
        body = doc.context['body']
        want = [(tag(w, True), w['real'], text(w)) for w in labs]
        ctx.event('shown', len(want))
        ctx.equal(html_labels(body.html), want, 'shown:html',
                  'headings and captions of ' + str(doc.src_filepath.subpath))
        ctx.equal(html_labels(body.xhtml), want, 'shown:xhtml',
                  'headings and captions of ' + str(doc.src_filepath.subpath))
        if not plain:
            return
        want = [(w['kind'][1] if w['kind'][0] == 'heading' else 'caption',
                 w['real'], text(w),
                 w['order'][-1] if w['kind'][0] == 'heading' else None,
                 w['kind'][1] if w['kind'][0] == 'heading' else None)
                for w in labs]
        ctx.equal(tex_labels(body.tex), want, 'shown:tex',
                  'headings and captions of ' + str(doc.src_filepath.subpath))
        s = body.txt
        pos = 0
        flat = re.sub(r'\s+', '', s)
        for w in labs:
            t = re.sub(r'\s+', '', text(w))
            k = flat.find(t, pos)
            if not ctx.expect(k >= 0, 'shown:txt', 'the label %r is missing '
                              'in the text %r' % (t, s[:600])):
                break
            pos = k + len(t)
