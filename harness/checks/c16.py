"""C16: every image, equation and figure in a page is that of its own tag.

Projects with images, equations and asymptote figures, in all targets, are
built and edited with stand-ins for the external programs (harness/faketools)
in front of the PATH.  What these write tells what it was made from, and with
which options.  For each tag, the file that the page links to at the place of
the tag is compared with what its own source and options give.
"""
import copy
import os
import posixpath
import re
import urllib.parse
import zipfile

from .. import genmedia
from ..core import BaseCheck
from ..faketools import FakeTools, recipe
from ..genmedia import MediaGen, made, steps, eq_body, eq_tex
from ..lib import make_env, touch_forward

TARGETS = [['html'], ['html', 'tex'], ['xhtml'], ['epub'], ['html', 'epub'],
           ['tex'], ['pdf'], ['html', 'pdf'], ['html', 'xhtml', 'tex', 'pdf'],
           ['html', 'xhtml']]

# images with the same name that are written to the same file
PROBES = [
    ('collision:suffix', {'x.pdf': 'one', 'x.svg': 'two'}),
    ('collision:suffix', {'x.asy': 'one', 'x.pdf': 'two'}),
    ('collision:suffix', {'x.tif': 'one', 'x.png': 'two'}),
    ('collision:media', {'x.png': 'one', 'media/x.png': 'two'}),
]


def squeeze(s):
    return re.sub(r'\s+', ' ', s).strip()


class Check(BaseCheck):
    id = 'C16'
    rule = ('for each tag and target: commands(file linked at the tag) and '
            'their source == those of the tag itself, also after edits')
    assumptions = [
        'pdflatex, pdf-crop-margins, pdf2svg, rsvg-convert, asy and convert '
        'are replaced with programs that write down their options and inputs',
        'options that are not documented for users, as crop, are not used']
    quick_n = 120
    thorough_n = 3000
    quick_s = 130
    grace_s = 280
    floor = {'files': 120, 'html:eq': 12, 'html:img': 12, 'html:asy': 4,
             'tex:img': 3, 'pdf:img': 3, 'epub:eq': 3, 'xhtml:eq': 3,
             'edits': 24, 'option:scale': 4, 'option:page': 2,
             'option:width': 4, 'commands': 40}

    def setup(self, ctx):
        self.tools = FakeTools(ctx.tmp / 'tools', ctx.tmp)
        self.tools.on_path()

    def cases(self, ctx):
        for i, (key, files) in enumerate(PROBES):
            if i % ctx.nshards == ctx.shard:
                yield -1 - i, dict(probe=key, files=files, name='probe')
        yield from super().cases(ctx)

    def gen(self, rng, index, ctx):
        g = MediaGen(rng, rng.choice(TARGETS))
        proj = g.project()
        out = [dict(name='start', proj=copy.deepcopy(proj), how='new')]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            names = []
            for _ in range(rng.choice([1, 1, 2])):
                name, proj = g.edit(proj)
                names.append(name)
            out.append(dict(name='+'.join(names), proj=copy.deepcopy(proj),
                            how=rng.choice(['new', 'live', 'live']),
                            env=rng.random() < .5))
        return dict(steps=out, folder=rng.choice(['p', 'p', 'p q']),
                    jitter=rng.choice([0, 0, .05, .2]),
                    seed=rng.randint(0, 9))

    def check(self, ctx, case):
        if 'probe' in case:
            return self.probe(ctx, case)
        with ctx.scratch() as d:
            root, env, done = d / case['folder'], None, []
            for step in case['steps']:
                proj = step['proj']
                genmedia.write(root, proj, touch_forward)
                done.append('%s (%s)' % (step['name'], step['how']))
                self.tools.reset()
                self.tools.control(jitter=case['jitter'], seed=case['seed'])
                if env is None or step['how'] == 'new':
                    env = make_env(root)
                with ctx.guard(cpu=60, wall=300, key='build:hang',
                               what='build after %s' % done):
                    status = (env if step.get('env') else
                              env.root_document).build()
                runs = self.tools.log()
                ctx.event('commands', len(runs))
                if step['name'] != 'start':
                    ctx.event('edits')
                bad = [r for r in runs if r['rc'] != 0]
                if not ctx.expect(status == 'done' and not bad,
                                  'build:status', lambda: 'after %s the build '
                                  'gives %s, and these commands fail: %s' % (
                                      done, status, [(r['tool'], r['args'],
                                                      r.get('msg'))
                                                     for r in bad])):
                    return
                for path in sorted(proj['docs']):
                    for target in proj['targets']:
                        if not self.page(ctx, root, proj, path, target, done):
                            return

    def probe(self, ctx, case):
        with ctx.scratch() as d:
            proj = dict(targets=['html'], files=case['files'], docs={
                'main.dm': dict(include=[], items=[
                    ['k%d' % i, 'p', ['img', f, f, []]]
                    for i, f in enumerate(case['files'])])})
            genmedia.write(d, proj, touch_forward)
            self.tools.reset()
            make_env(d).build()
            self.page(ctx, d, proj, 'main.dm', 'html', ['start'],
                      key=case['probe'])

    def page(self, ctx, root, proj, path, target, done, key=None):
        stem = path[:-3]
        if target == 'pdf':
            return self.pdf(ctx, root, proj, path, done)
        if target == 'epub':
            book = root / 'epub' / 'main.epub'
            with zipfile.ZipFile(book) as z:
                names = {n: n for n in z.namelist()}
                page = [n for n in names if n.endswith('/' + stem + '.xhtml')
                        or n == stem + '.xhtml']
                if not ctx.expect(len(page) == 1, 'epub:page', lambda: 'after '
                                  '%s the epub has the files %s, and none for '
                                  '%s' % (done, sorted(names), path)):
                    return False
                text = z.read(page[0]).decode()
                folder = posixpath.dirname(page[0])
                content = {n: z.read(n) for n in names}

            def get(url):
                n = posixpath.normpath(posixpath.join(folder, url))
                return content.get(n)
        else:
            f = root / target / (stem + '.' + target)
            text = f.read_text()

            def get(url):
                p = f.parent / url
                return p.read_bytes() if p.is_file() else None
        ok = True
        for item in proj['docs'][path]['items']:
            ok = ok and self.item(ctx, root, proj, path, target, item, text,
                                  get, done, key)
        return ok

    def item(self, ctx, root, proj, path, target, item, text, get, done, key):
        k, wrapper, tag = item
        what = 'after %s, %s in %s for %s' % (done, genmedia.tag_source(tag),
                                              path, target)
        parts = re.findall(r'\(%s\b(.*?)\b%s\)' % (k, k), text, re.S)
        if not ctx.expect(len(parts) == 1, key or 'tag:missing',
                          lambda: '%s: is there %d times' % (what,
                                                             len(parts))):
            return False
        part = parts[0]
        ctx.event('files')
        ctx.event('%s:%s' % (target, tag[0]))
        for o, _ in tag[3]:
            ctx.event('option:' + o)
        ctx.count(distinct=[target, wrapper, tag[0], tag[1:2], tag[3]],
                  sample=dict(what=what, page=part[:200]))
        if target == 'tex':
            if tag[0] == 'eq':
                want = eq_tex(tag, wrapper == 'alone')
                have = re.sub(r'%\n', ' ', part)
                return ctx.expect(
                    squeeze(want).replace(' ', '') in
                    squeeze(have).replace(' ', ''), key or 'tex:eq',
                    lambda: '%s: the page has %r and not %r' % (what, part,
                                                                want))
            urls = self.graphics(part)
        else:
            urls = [urllib.parse.unquote(html_unescape(u)) for u in
                    re.findall(r'<img\b[^>]*?\bsrc="([^"]*)"', part)]
        if not ctx.expect(len(urls) == 1, key or 'tag:files',
                          lambda: '%s: the page has %r there' % (what, part)):
            return False
        data = get(urls[0])
        if not ctx.expect(data is not None, key or 'file:missing',
                          lambda: '%s: the page links to %r, which is not '
                          'there' % (what, urls[0])):
            return False
        return self.compare(ctx, what, urls[0], data.decode('utf-8'),
                            proj, item, target, key)

    def compare(self, ctx, what, url, contents, proj, item, target, key=None):
        chain, source = made(contents)
        want, wanted = steps(proj, item, target)
        if item[2][0] == 'eq':
            source = eq_body(source).replace(' ', '')
            wanted = wanted.replace(' ', '')
        return ctx.expect(
            (chain, source) == (want, wanted),
            key or ('file:source' if source != wanted else 'file:options'),
            lambda: '%s: the page shows %s, made with %s from %r, and not '
            'with %s from %r' % (what, url, chain, source, want, wanted))

    def graphics(self, part):
        return [re.sub(r'\\detokenize\{(.*)\}', r'\1', a) + b for a, b in
                re.findall(r'\\includegraphics(?:\[[^]]*\])?'
                           r'\{\{((?:\\detokenize\{.*?\}|.*?))\}(\.\w+)\}',
                           part)]

    def pdf(self, ctx, root, proj, path, done):
        f = root / 'pdf' / (path[:-3] + '.pdf')
        what = 'after %s, the pdf of %s' % (done, path)
        r = recipe(f.read_text()) if f.is_file() else None
        if not ctx.expect(r is not None and r['tool'] == 'pdflatex',
                          'pdf:page', lambda: what + ' is not there or not '
                          'made from a tex file'):
            return False
        tex, images = r['in'][0], r['in'][1:]
        items = [i for i in proj['docs'][path]['items']]
        for i in items:
            part = re.findall(r'\(%s\b(.*?)\b%s\)' % (i[0], i[0]), tex, re.S)
            if not ctx.expect(len(part) == 1, 'pdf:tag',
                              lambda: '%s has %s %d times' % (what, i,
                                                              len(part))):
                return False
            if i[2][0] == 'eq':
                ctx.event('pdf:eq')
                want = eq_tex(i[2], i[1] == 'alone').replace(' ', '')
                have = re.sub(r'%?\s', '', part[0])
                if not ctx.expect(want in have, 'pdf:eq',
                                  lambda: '%s has %r and not %r' % (
                                      what, have, want)):
                    return False
        items = [i for i in items if i[2][0] != 'eq']
        if not ctx.expect(len(items) == len(images), 'pdf:images',
                          lambda: '%s shows %d images and not %d' % (
                              what, len(images), len(items))):
            return False
        import json
        for i, image in zip(items, images):
            ctx.event('pdf:' + i[2][0])
            ctx.event('files')
            if isinstance(image, dict):
                image = 'RECIPE' + json.dumps(image) + 'RECIPE'
            if not self.compare(ctx, '%s: %s' % (what, i), 'an image', image,
                                proj, i, 'pdf'):
                return False
        return True


def html_unescape(s):
    import html
    return html.unescape(s)
