"""C05: html and xhtml output hold the document's content, escaped, once."""
import html as html_mod
from html.entities import name2codepoint

from ..core import BaseCheck
from .. import refdoc, docmode
from ..gendoc import Gen
from ..lib import bare_context

TITLES = ['Plain', 'A < B', 'R&D', 'The "x"', 'a & b < c > d', '&amp;',
          '</title><b>', "it's", 'é 中', '<!-- x', ']]>']


class Check(BaseCheck):
    id = 'C05'
    rule = ('case = a random document of text, inline, block, literal and '
            'symbol tags with attributes. The rendered html and xhtml '
            'elements are compared, node by node, with an independent '
            'reference rendering; a part of the documents is built and the '
            'files on disk are parsed again (strict XML for xhtml). '
            'Non-trivial: at least three elements.')
    assumptions = ['text has no control characters', 'symbols are known '
                   'entity names', 'lxml parses what it is given correctly']
    quick_n = 6000
    thorough_n = 90000
    quick_s = 100
    floor = {'html_trees': 1000, 'xhtml_trees': 1000, 'html_files': 60,
             'xhtml_files': 60}

    def setup(self, ctx):
        self.context = bare_context(ctx, 'inactive_tags: sidenote')

    def gen(self, rng, i, ctx):
        g = Gen(rng, size=rng.choice([4, 10, 25, 60]),
                depth=rng.choice([0, 1, 2, 3]))
        case = dict(text=g.document())
        if i % 16 == 0:
            case['title'] = rng.choice(TITLES)
            case['author'] = rng.choice(TITLES)
        return case

    def check(self, ctx, case):
        text = case['text']
        if 'title' in case:
            self.files(ctx, case)
            return
        body = docmode.body(ctx, text, self.context)
        for target in ('html', 'xhtml'):
            want = docmode.normalize(refdoc.html_body(text, target), False)
            n = sum(1 for _ in elements(want))
            ctx.count(distinct=[target, text], nontrivial=n >= 3,
                      sample=dict(text=text, target=target))
            e = getattr(body, target + '_fmt')(level=2)
            got = docmode.normalize(docmode.code_text(docmode.element(e)),
                                    False)
            ctx.event(target + '_trees')
            ctx.event('elements', n)
            if ctx.equal(got, want, target + '-differs',
                         '%s of %r\n%s' % (target, text, diff(got, want))):
                # the string form says the same
                s = str(getattr(body, target))
                self.string(ctx, s, want, target, text)

    def string(self, ctx, s, want, target, text):
        from lxml import etree
        import lxml.html
        if target == 'xhtml':
            try:
                e = etree.fromstring(s)
            except etree.XMLSyntaxError as err:
                ctx.fail('xhtml-malformed', '%r -> %s\n%s' % (text, err, s))
                return
        else:
            e = lxml.html.fragment_fromstring(s)
            # The html parser moves block elements out of paragraphs: only
            # the text is compared
        got = docmode.text(docmode.element(e))
        exp = docmode.text(docmode.entities(want, name2codepoint))
        ctx.equal(squash(got), squash(exp), target + '-string-differs',
                  'text of %s of %r' % (target, text))
        ctx.event('strings')

    def files(self, ctx, case):
        from lxml import etree
        import lxml.html
        text, title = case['text'], case['title']
        with ctx.scratch('site') as d:
            env = docmode.project(ctx, d, text, 'title: %s\nauthor: %s\n'
                                  'targets: html, xhtml'
                                  % (title, case['author']))
            doc = env.root_document
            status = doc.build()
            if not ctx.equal(status, 'done', 'build', 'build of %r' % text):
                return
            paths = {k: str(v) for k, v in doc.targets.items()}
            for target in ('html', 'xhtml'):
                raw = open(paths['.' + target], 'rb').read()
                if target == 'xhtml':
                    try:
                        root = etree.fromstring(raw)
                    except etree.XMLSyntaxError as err:
                        ctx.fail('xhtml-malformed', 'title %r, text %r -> %s'
                                 % (title, text, err))
                        continue
                else:
                    root = lxml.html.document_fromstring(
                        raw.decode('utf-8'))
                    self.lint(ctx, raw.decode('utf-8'), text)
                ns = lambda t: [x for x in root.iter() if isinstance(
                    x.tag, str) and x.tag.split('}')[-1] == t]
                ctx.event(target + '_files')
                titles = [''.join(x.itertext()) for x in ns('title')]
                ctx.equal([' '.join(t.split()) for t in titles],
                          [' '.join(title.split())], target + '-title',
                          'title elements of the page')
                if target == 'html':
                    a = [x.get('content') for x in ns('meta')
                         if x.get('name') == 'author']
                    ctx.equal(a, [case['author']], 'html-author', 'author')
                divs = [x for x in ns('div') if x.get('class') == 'body']
                if not ctx.equal(len(divs), 1, target + '-body',
                                 'number of body elements'):
                    continue
                got = docmode.normalize(docmode.element(divs[0]), True)
                want = docmode.normalize(docmode.entities(
                    refdoc.html_body(text, target), name2codepoint), True)
                ctx.count(distinct=[target, 'file', text])
                g = squash(docmode.text(got))
                w = squash(docmode.text(want))
                ctx.equal(g, w, target + '-file-differs',
                          'text of the %s file of %r' % (target, text))

    def lint(self, ctx, raw, text):
        """Tag soup check: every start tag of the page has its end tag."""
        from html.parser import HTMLParser
        void = {'meta', 'link', 'br', 'img', 'input', 'hr'}
        stack, bad = [], []

        class P(HTMLParser):
            def handle_starttag(self, tag, attrs):
                if tag not in void:
                    stack.append(tag)

            def handle_startendtag(self, tag, attrs):
                pass

            def handle_endtag(self, tag):
                if not stack or stack.pop() != tag:
                    bad.append(tag)
        P(convert_charrefs=True).feed(raw)
        ctx.expect(not bad and not stack, 'html-unbalanced',
                   lambda: 'unbalanced elements %r %r of %r' % (
                       bad[:3], stack[:3], text))


def squash(s):
    return ''.join(s.split())


def elements(t):
    if not isinstance(t, str) and t[0] != '&':
        yield t
        for k in t[2]:
            for x in elements(k):
                yield x


def diff(a, b, path=''):
    """First difference of two trees."""
    if isinstance(a, str) or isinstance(b, str) or a[0] == '&' or b[0] == '&':
        return '' if a == b else 'at %s: %r instead of %r' % (path, a, b)
    if a[:2] != b[:2]:
        return 'at %s: %r instead of %r' % (path, a[:2], b[:2])
    for n, (x, y) in enumerate(zip(a[2], b[2])):
        d = diff(x, y, '%s/%s[%d]' % (path, a[0], n))
        if d:
            return d
    if len(a[2]) != len(b[2]):
        return 'at %s/%s: children %r instead of %r' % (
            path, a[0], a[2][len(b[2]):], b[2][len(a[2]):])
    return ''
