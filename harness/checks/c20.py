"""C20: an epub file is a complete and consistent package of the project.

Projects with documents and images of hostile names, titles and epub settings
are built, edited and built again.  After each build a package validator reads
the epub file: container, manifest, spine, navigation, pages, links and images
must agree with one another, and with the project that was built.
"""
import copy
import os
import posixpath
import re
import zipfile
from pathlib import Path
from urllib.parse import unquote, urlsplit

from ..core import BaseCheck
from ..genproj import ProjGen, explicit_labels, write, order, doc_id
from ..lib import make_env, touch_forward
from .c15 import limited, TooLong, SVG

NS = {'o': 'http://www.idpf.org/2007/opf',
      'd': 'http://purl.org/dc/elements/1.1/'}
TYPES = {'.xhtml': 'application/xhtml+xml', '.css': 'text/css',
         '.svg': 'image/svg+xml', '.png': 'image/png'}
NAMES = ['1 a.dm', 'a-b.dm', 'a_b.dm', 's/toc.dm', '中.dm', '東.dm',
         'a.b.dm', 'A b.dm', 's/a-b.dm', 's-a-b.dm', '2.dm', '-x.dm',
         's/title.dm', 'main/main.dm', 'media/x.dm', "it's.dm", 'R&D.dm']
IMAGES = ['pic.svg', 'p.png', 'img/a b.svg', 'été.svg', 'a_b.png', 'a-b.png',
          '1.svg', 'R&D.svg', 'img/p.png', '中.png', '東.png']
TITLES = ['Plain', 'A & B', '<x>', 'a < b & "c"', 'Ünï', "it's", '中 &amp;',
          ']]>', 'a </dc:title> b', '50 % off', '{{ 7*7 }}']
EPUB = [{}, {'layout': 'fixed'}, {'layout': 'reflowable'},
        {'orientation': 'landscape'}, {'orientation': 'portrait'},
        {'layout': 'fixed', 'orientation': 'landscape', 'spread': 'none'},
        {'spread': 'both'}, {'width': '800', 'height': '600'},
        {'layout': 'fixed', 'width': '1024', 'height': '768'}]
ID = re.compile(r'^[^\W\d][\w.\-\u00b7]*$')


def png(n):
    import struct
    import zlib

    def chunk(kind, data):
        return (struct.pack('>I', len(data)) + kind + data +
                struct.pack('>I', zlib.crc32(kind + data)))
    return (b'\x89PNG\r\n\x1a\n' +
            chunk(b'IHDR', struct.pack('>IIBBBBB', 1, 1, 8, 0, 0, 0, 0)) +
            chunk(b'IDAT', zlib.compress(bytes([0, n]))) + chunk(b'IEND', b''))


def squeeze(s):
    return ' '.join(s.split())


class Check(BaseCheck):
    id = 'C20'
    rule = ('package validator: mimetype first and stored, container names '
            'the package document, which is well formed; files in the '
            'archive == files in the manifest, each once with its media '
            'type; ids valid and unique; one navigation document; spine == '
            'title, contents and all documents in order; pages well formed, '
            'each with the text of its own document only; links, anchors and '
            'images resolve inside of the archive to the right bytes; title '
            'and epub settings as written')
    assumptions = ['a document toc.dm next to the root document, which takes '
                   'the place of the generated contents, is not written']
    quick_n = 140
    thorough_n = 2400
    quick_s = 110
    grace_s = 200
    floor = {'epubs': 80, 'pages': 250, 'links': 250, 'images': 80,
             'edits': 40, 'titles': 60}

    def gen(self, rng, index, ctx):
        g = ProjGen(rng, ndocs=rng.randint(1, 3), nblocks=rng.randint(0, 4),
                    targets=rng.choice([['epub'], ['epub'],
                                        ['html', 'epub'],
                                        ['epub', 'xhtml']]))
        proj = g.project()
        docs = proj['docs']
        for n in rng.sample(NAMES, rng.randint(0, 4)):
            if n not in docs:
                docs[n] = dict(header=[], include=[], blocks=[
                    g.block() for _ in range(rng.randint(0, 3))])
                docs['main.dm']['include'].insert(
                    rng.randint(0, len(docs['main.dm']['include'])), n)
        self.front(rng, proj)
        images = {}
        self.pictures(rng, proj, images)
        steps = [dict(name='start', proj=copy.deepcopy(proj),
                      images=dict(images), how='live')]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            new = copy.deepcopy(steps[-1]['proj'])
            images = dict(images)
            for _ in range(20):
                e = rng.choice(['front', 'image', 'picture', 'heading',
                                'insert', 'reorder', 'adddoc', 'exclude',
                                'remove', 'reparent'])
                if e == 'front':
                    self.front(rng, new)
                elif e == 'picture':
                    self.pictures(rng, new, images)
                elif e == 'image':
                    if not images:
                        continue
                    images[rng.choice(sorted(images))] = rng.randint(100, 199)
                elif not getattr(g, 'edit_' + e)(new):
                    continue
                if self.fine(new):
                    break
                new = copy.deepcopy(steps[-1]['proj'])
            else:
                break
            steps.append(dict(name=e, proj=copy.deepcopy(new),
                              images=dict(images),
                              how=rng.choice(['live', 'new'])))
        return dict(steps=steps)

    def front(self, rng, proj):
        root = proj['docs']['main.dm']
        root['header'] = [x for x in root['header']
                          if x[0] not in ('title', 'epub')]
        if rng.random() < .7:
            root['header'].append(['title', rng.choice(TITLES)])
        e = rng.choice(EPUB)
        if e:
            root['header'].append(['epub', ['%s: %s' % kv
                                            for kv in e.items()]])

    def pictures(self, rng, proj, images):
        for path in sorted(proj['docs']):
            if rng.random() < .4:
                name = rng.choice(IMAGES)
                images.setdefault(name, rng.randint(1, 99))
                proj['docs'][path]['blocks'].append(
                    ['raw', '@img{%s}' % name])

    def fine(self, proj):
        docs = proj['docs']
        ids = explicit_labels(docs)
        names = {i for _, i in ids}
        full = {(doc_id(docs, p), i) for p, i in ids}
        return len(set(ids)) == len(ids) and all(
            ((r[1], r[2]) in full if r[3] else r[2] in names)
            for p, _, _ in order(docs) for b in docs[p]['blocks']
            if b[0] == 'p' for r in b[1] if r[0] == 'r')

    def data(self, step, path, name):
        n = step['images'][name] + len(path)
        return png(n % 256) if name.endswith('.png') else (
            SVG % (n, n)).encode()

    def check(self, ctx, case):
        if not all(self.fine(s['proj']) for s in case['steps']):
            return
        with ctx.scratch() as d:
            env, old, done = None, None, []
            for step in case['steps']:
                proj = copy.deepcopy(step['proj'])
                docs = proj['docs']
                for n, path in enumerate(sorted(docs)):
                    docs[path]['blocks'].insert(0, ['raw', self.mark(path)])
                write(d, proj, old, touch_forward)
                old = proj
                for path, doc in docs.items():
                    for b in doc['blocks']:
                        m = re.match(r'@img\{(.*)\}$', b[1]) if (
                            b[0] == 'raw') else None
                        if m:
                            p = (d / 'src' / os.path.dirname(path) /
                                 m.group(1))
                            data = self.data(step, os.path.dirname(path),
                                             m.group(1))
                            if not p.exists() or p.read_bytes() != data:
                                p.parent.mkdir(parents=True, exist_ok=True)
                                p.write_bytes(data)
                                touch_forward(p)
                done.append('%s (%s)' % (step['name'], step['how']))
                if env is None or step['how'] == 'new':
                    env = make_env(d)
                if len(done) > 1:
                    ctx.event('edits')
                try:
                    status = limited(lambda: env.root_document.build())
                except TooLong:
                    ctx.fail('endless', 'the build after %s does not end' %
                             done)
                    return
                ctx.equal(status, 'done', 'status', 'after %s' % done)
                found = sorted(p for p in (d / 'epub').rglob('*')
                               if p.is_file())
                if not ctx.equal([p.name for p in found], ['main.epub'],
                                 'file'):
                    return
                bad = len(ctx.violations)
                self.package(ctx, found[0], docs, step, 'after %s: ' % done)
                ctx.count(distinct=[docs, step['images']],
                          sample=dict(step=step['name'], docs=sorted(docs)))
                if len(ctx.violations) > bad:
                    return

    def mark(self, path):
        return 'MARK%sEND' % ''.join('%04x' % ord(c) for c in path)

    def package(self, ctx, path, docs, step, say):
        from lxml import etree
        ctx.event('epubs')
        z = zipfile.ZipFile(str(path))
        with z:
            infos = z.infolist()
            names = [i.filename for i in infos]
            ctx.equal(z.testzip(), None, 'zip', say)
            data = {n: z.read(n) for n in names}
        ctx.equal(sorted(set(names)), sorted(names), 'zip:duplicates', say)
        ctx.equal((names[0], infos[0].compress_type, data[names[0]]),
                  ('mimetype', zipfile.ZIP_STORED, b'application/epub+zip'),
                  'mimetype', say)
        roots = [e.get('full-path') for e in etree.fromstring(
            data['META-INF/container.xml']).iter('{*}rootfile')]
        if not ctx.expect(len(roots) == 1 and roots[0] in data, 'container',
                          lambda: say + repr(roots)):
            return
        try:
            opf = etree.fromstring(data[roots[0]])
        except etree.XMLSyntaxError as e:
            ctx.fail('opf:syntax', say + str(e))
            return
        base = posixpath.dirname(roots[0])

        # manifest
        items = opf.findall('.//o:manifest/o:item', NS)
        ids = [e.get('id') for e in items]
        hrefs = [posixpath.normpath(posixpath.join(base, unquote(
            e.get('href')))) for e in items]
        ctx.equal(sorted(set(ids)), sorted(ids), 'opf:ids', say)
        ctx.equal([i for i in ids if not ID.match(i)], [], 'opf:id syntax',
                  say)
        ctx.equal(sorted(hrefs), sorted(
            n for n in names if n not in ('mimetype', roots[0],
                                          'META-INF/container.xml')),
                  'opf:manifest', say)
        ctx.equal([e.get('media-type') for e in items],
                  [TYPES.get(posixpath.splitext(h)[1]) for h in hrefs],
                  'opf:types', say)
        nav = [h for e, h in zip(items, hrefs)
               if 'nav' in (e.get('properties') or '').split()]
        ctx.equal(nav, [posixpath.join(base, 'toc.xhtml')], 'opf:nav', say)

        # spine
        by_id = dict(zip(ids, hrefs))
        spine = [by_id.get(e.get('idref')) for e in
                 opf.findall('.//o:spine/o:itemref', NS)]
        pages = [posixpath.join(base, p[:-3] + '.xhtml')
                 for p, _, _ in order(docs)]
        front = [p for p in pages if posixpath.basename(p) == 'title.xhtml']
        want = front + nav[:1] + [p for p in pages if p not in front]
        ctx.equal(spine, want, 'opf:spine', say)

        # metadata
        head = dict((k, v) for k, v in docs['main.dm']['header'])
        title = [squeeze(e.text or '') for e in
                 opf.findall('.//d:title', NS)]
        if 'title' in head:
            ctx.event('titles')
            ctx.equal(title, [squeeze(head['title'])], 'opf:title', say)
        else:
            ctx.expect(len(title) == 1 and title[0], 'opf:title', say)
        idents = opf.findall('.//d:identifier', NS)
        ctx.expect(len(idents) == 1 and idents[0].text and
                   idents[0].get('id') == opf.get('unique-identifier'),
                   'opf:identifier', say)
        self.settings(ctx, opf, dict(x.split(': ') for x in
                                     head.get('epub', [])), say)

        # pages
        trees = {}
        for h in names:
            if h.endswith('.xhtml'):
                try:
                    trees[h] = etree.fromstring(data[h])
                except etree.XMLSyntaxError as e:
                    ctx.fail('page:syntax', '%s%s: %s' % (say, h, e))
        marks = {h: [m for m in re.findall(r'MARK[0-9a-f]+END',
                                           ''.join(t.itertext()))]
                 for h, t in trees.items()}
        want = {posixpath.join(base, p[:-3] + '.xhtml'): [self.mark(p)]
                for p, _, _ in order(docs)}
        if nav:
            want[nav[0]] = []
        ctx.equal(marks, want, 'page:text', say)
        images = {posixpath.join(base, p[:-3] + '.xhtml'): [
            self.data(step, os.path.dirname(p), b[1][5:-1])
            for b in docs[p]['blocks'] if b[0] == 'raw' and
            b[1].startswith('@img{')] for p, _, _ in order(docs)}
        used = {}
        for h, t in trees.items():
            ctx.event('pages')
            pics = []
            for e in t.iter():
                if not isinstance(e.tag, str):
                    continue
                for a in ('href', 'src'):
                    u = e.get(a)
                    if u is None:
                        continue
                    s = urlsplit(u)
                    if s.scheme or s.netloc:
                        continue
                    ctx.event('links')
                    p = posixpath.normpath(posixpath.join(
                        posixpath.dirname(h), unquote(s.path))) if (
                            s.path) else h
                    if not ctx.expect(
                            p in data, 'page:link', lambda: '%s%s in %s leads'
                            ' to %s' % (say, u, h, p)):
                        continue
                    used[p] = True
                    if s.fragment and p in trees:
                        ctx.expect(trees[p].xpath(
                            '//*[@id=$i]', i=unquote(s.fragment)),
                            'page:anchor', lambda: '%s%s in %s' % (say, u,
                                                                   h))
                    if a == 'src':
                        ctx.event('images')
                        pics.append(data[p])
            ctx.equal(pics, images.get(h, []), 'page:images', say + h)
        extra = [n for n in names if posixpath.splitext(n)[1] in
                 ('.svg', '.png') and n not in used]
        ctx.equal(extra, [], 'unused', say)

    def settings(self, ctx, opf, want, say):
        props = {}
        for e in opf.iter('{*}meta'):
            props.setdefault(e.get('property') or e.get('name'), []).append(
                squeeze(e.text or e.get('content') or ''))
        get = lambda k: props.get(k, [])
        fixed = want.get('layout') == 'fixed'
        ctx.equal(get('rendition:layout'),
                  ['pre-paginated' if fixed else 'reflowable'],
                  'opf:layout', say)
        ctx.equal(get('fixed-layout'), ['true' if fixed else 'false'],
                  'opf:layout', say)
        ctx.equal(get('rendition:orientation'),
                  [want.get('orientation', 'auto')], 'opf:orientation', say)
        ctx.equal(get('rendition:spread'),
                  [want['spread']] if 'spread' in want else [],
                  'opf:spread', say)
        size = ['%sx%s' % (want['width'], want['height'])] if (
            'width' in want) else []
        ctx.equal(get('original-resolution'), size, 'opf:size', say)
        ctx.expect(len(get('dcterms:modified')) == 1, 'opf:modified', say)
