"""C01: source text parses to exactly the tag tree it denotes."""
from ..core import BaseCheck
from .. import refparse, refattrs
from ..lib import bare_context, tree, strip_ws, write_project, make_env, touch_forward

GENERIC = ['foo', 'bar9', 'x_y', 'Weird', 'zz', 'note1', 'b', 'bold', 'i',
           'italics', 'strong', 'sup', 'sub', 'textbf', 'B', '2x', '42', 'Éa'[1:],
           'unknown', 'span', 'div', 'q', 'naïve', 'xé', 'Z中文', 'aß1', 'n_ñ']
RAWN = ['verb', 'v', 'pre']
TEXT = ['a', 'word ', 'two words', ' ', '  ', '\n', '.', ',', ';', '@', '@ ',
        '@@', '@.', '@_', '$x$', '\\', '\\alpha', '%', '#', '&', '<', '>',
        '<b>', '</b>', '&amp;', 'é', 'ß', '中文', '😀', 'a@', '(', ')', '[',
        ']', '[x]', '[ a=b ]', '=', '~', '^', '_', '|', '/', 'mail@@', '1', '9 ',
        '\t', '\u00a0', '€']
HOST = ['{', '}', '{}', '{ }', '@', '[', ']', '[]', '[a]', '@b', '@foo', '@v',
        '@b{', '@foo{', '@sup{', '@verb{', '@bar9[k=v]{', '@zz[', '@i{}', '}}',
        '{{', '@2x', '@q{x}', '@_a{', '@Éa{', '@b [x]{', '@b {', '@b\n{',
        '@foo[a b="c d"]', '@foo[x]{', 'x', ' ', '\n', '@b[]{', '@b[[x]]{',
        '@b[x][y]{', '@b{@i{', '@verb{@b{', 'abc', '@b}', '@foo-bar{']
ATTRS = ['a', 'k=v', 'class="x y"', "id='i1'", 'w=30%', '3', '2.5', 'x.tex=1',
         'href=http://a.b/c?d=e', 'long=value1 other', ' spaced = out ',
         'u=é', '"quoted pos"', 'k.html="h" k.tex="t"', 'a, b, c', '\n nl=1\n',
         'brace={', 'brace=}', 'at=@b', 'at="@b{x}"']


class Check(BaseCheck):
    id = 'C01'
    rule = ('case = a document text, generated from a random tag tree or as a '
            'random concatenation of hostile fragments; parsed by the real '
            'code and by an independent reference parser. Non-trivial: the '
            'reference finds at least two tags or an unclosed tag.')
    assumptions = ['the reference parser (harness/refparse.py) is the '
                   'intended grammar', 'nesting of ten or more open braces '
                   'may be refused']
    quick_n = 24000
    thorough_n = 300000
    quick_s = 80
    floor = {'trees_compared': 2000, 'unclosed_rejected': 100,
             'pipeline_documents': 20}

    def setup(self, ctx):
        self.context = bare_context(ctx)
        self.ndoc = 0

    # -- generation -------------------------------------------------------
    def gen(self, rng, i, ctx):
        mode = rng.random()
        if mode < 0.55:
            budget = [rng.choice([3, 8, 20, 60])]
            ast = self.gen_ast(rng, budget, rng.randint(1, 8))
            return dict(mode='ast', src=self.render(ast))
        if mode < 0.97:
            n = rng.choice([2, 4, 7, 12, 25, 60])
            src = ''.join(rng.choice(HOST if rng.random() < .7 else TEXT)
                          for _ in range(n))
            if rng.random() < .5:   # close what is open, mostly
                src += '}' * max(0, src.count('{') - src.count('}'))
            return dict(mode='hostile', src=src)
        budget = [rng.choice([3, 8, 20])]
        ast = self.gen_ast(rng, budget, rng.randint(1, 5))
        return dict(mode='pipeline', src=self.render(ast))

    def gen_ast(self, rng, budget, depth):
        out = []
        for _ in range(rng.randint(1, 5)):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            if rng.random() < .5 or depth == 0:
                out.append(''.join(rng.choice(TEXT)
                                   for _ in range(rng.randint(1, 4))))
            else:
                raw = rng.random() < .12
                name = rng.choice(RAWN if raw else GENERIC)
                attrs = rng.choice(ATTRS) if rng.random() < .35 else ''
                form = rng.random()
                if form < .08:
                    out.append((name, attrs, None))
                    out.append(rng.choice([' ', '.', ', ']))
                elif raw:
                    inner = ''.join(rng.choice(TEXT + ['@b{x}', '{y}', '@i'])
                                    for _ in range(rng.randint(0, 4)))
                    out.append((name, attrs, [inner]))
                else:
                    kids = self.gen_ast(rng, budget, depth - 1)
                    if rng.random() < .15:
                        kids.append('{braced}')
                    out.append((name, attrs, kids))
        return out

    def render(self, ast):
        s = ''
        for x in ast:
            if isinstance(x, str):
                s += x
            else:
                s += '@' + x[0] + ('[' + x[1] + ']' if x[1] else '')
                if x[2] is not None:
                    s += '{' + self.render(x[2]) + '}'
        return s

    # -- oracle -----------------------------------------------------------
    def expected(self, src):
        def conv(t):
            out = []
            for x in t:
                if isinstance(x, str):
                    out.append(x)
                else:
                    out.append([x[0], refattrs.parse(x[1]), conv(x[2])])
            return out
        return conv(refparse.parse(src))

    def check(self, ctx, case):
        from disseminate.tags import Tag
        from disseminate.tags.exceptions import TagError
        src = case['src']
        want, outcome = None, 'tree'
        try:
            want = self.expected(src)
        except refparse.Unclosed:
            outcome = 'error'
        except refparse.TooDeep:
            outcome = 'deep'
        try:
            if case['mode'] == 'pipeline':
                got = self.pipeline(ctx, src)
                want = want and self.flat(want)
            else:
                root = Tag(name='root', content=src, attributes='',
                           context=self.context)
                got = tree(root.content)
            err = None
        except TagError as e:
            got, err = None, e
        nontrivial = outcome == 'error' or (
            want is not None and len(list(refparse.names(want))) >= 2)
        ctx.count(distinct=src, nontrivial=nontrivial,
                  sample=dict(src=src, tree=want) if nontrivial else None)
        if outcome == 'deep':
            ctx.event('deep')
            return
        if outcome == 'error':
            if ctx.expect(err is not None, 'unclosed-accepted',
                          'a tag that is never closed was accepted: %r -> %r'
                          % (src, got)):
                ctx.event('unclosed_rejected')
            return
        if err is not None:
            ctx.fail('valid-rejected', 'valid text %r was rejected: %s'
                     % (src, err))
            return
        ctx.event('trees_compared')
        ctx.event('tags_compared', sum(1 for _ in refparse.names(want)))
        ctx.equal(got, want, 'tree-differs', 'tree of %r' % src)

    def pipeline(self, ctx, src):
        """Through a source file, the loader and the document's body."""
        ctx.event('pipeline_documents')
        with ctx.scratch('doc') as d:
            write_project(d, {'src/main.dm':
                              '---\ntitle: x\n---\n' + src})
            env = make_env(d)
            doc = env.root_document
            body = doc.context['body']
            return self.flat(tree(body.content))

    def flat(self, t):
        """Top level only: paragraphs unwrapped and blanks dropped (the
        paragraph rules, C07, may split and trim there)."""
        out = []
        for x in t:
            for y in (x[2] if not isinstance(x, str) and x[0] == 'p' else [x]):
                if isinstance(y, str):
                    y = strip_ws(y)
                    if y and out and isinstance(out[-1], str):
                        out[-1] += y
                    elif y:
                        out.append(y)
                else:
                    out.append(y)
        return out
