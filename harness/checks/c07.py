"""C07: paragraphs and typographic characters."""
from ..core import BaseCheck
from .. import refdoc, docmode
from ..gendoc import Gen, WORDS, SEP, BREAK
from ..lib import bare_context, tree

ATOMS = ["'", '"', '-', '--', '---', '----', '\u2013', '\u2014', ' ', '  ',
         '\n', '\n\n', '\n\n\n', '\t', '\u00a0', 'a', 'b', '1', '_', '.', ',',
         '(', ')', 'é', '\n \n', 'don', 't', '\u2019', '\u201c', '!', '\u3000',
         '\u2003', '\u2028']
TAGS = ['@b{%s}', '@i{%s}', '@foo{%s}', '@verb{%s}', '@code{%s}',
        '@featurebox{%s}', '@examplebox{%s}', '@section[nolabel]{%s}',
        '@p{%s}', '@h6{%s}', '@problembox{%s}', '@marginfig{%s}',
        '@python{%s}', '@v{%s}', '@zz{%s}']


class Check(BaseCheck):
    id = 'C07'
    rule = ('case = a random document, or a random string of dashes, quotes, '
            'blanks, breaks and tags; the tree of paragraphs and tags the '
            'real code builds is compared with the reference rules; '
            'constructing tags from the result again must change nothing. '
            'Non-trivial: at least one break, dash or quote next to '
            'something.')
    assumptions = ['the rules of harness/refdoc.py (typo, paragraphs) are '
                   'the intended ones']
    quick_n = 24000
    thorough_n = 300000
    quick_s = 80
    floor = {'trees': 3000, 'paragraphs': 5000, 'dashes': 2000,
             'quotes': 2000, 'documents': 30}

    def setup(self, ctx):
        self.context = bare_context(ctx, 'inactive_tags: sidenote')

    def gen(self, rng, i, ctx):
        x = rng.random()
        if x < .45:
            text = self.atoms(rng, rng.choice([3, 6, 12, 30]), 2)
        elif x < .6:
            text = ''.join(rng.choice(WORDS) +
                           rng.choice(SEP if rng.random() < .7 else BREAK)
                           for _ in range(rng.choice([2, 5, 15])))
        else:
            text = Gen(rng, size=rng.choice([4, 10, 25]),
                       depth=rng.choice([0, 1, 2])).document()
        return dict(text=text, doc=i % 60 == 0)

    def atoms(self, rng, n, depth):
        s = ''
        for _ in range(rng.randint(1, n)):
            if depth and rng.random() < .2:
                s += rng.choice(TAGS) % self.atoms(rng, n // 2 + 1, depth - 1)
            else:
                s += rng.choice(ATOMS)
        return s

    def check(self, ctx, case):
        text = case['text']
        nodes = refdoc.document(text)
        want = boxes(refdoc.plain(nodes))
        if case['doc']:
            with ctx.scratch('d') as d:
                # (the header ends at its line, blanks at the start of the
                # body are the body's)
                doc = docmode.project(ctx, d, text, 'x: 1').root_document
                got = tree(doc.context['body'].content)
                ctx.event('documents')
        else:
            body = docmode.body(ctx, text, self.context)
            got = tree(body.content)
        ctx.count(distinct=text, nontrivial=any(
            c in text for c in '\'"-\n\u2013\u2014'), sample=dict(text=text))
        ctx.event('trees')
        flat = str(want)
        ctx.event('paragraphs', sum(1 for x in want if x[0] == 'p'))
        ctx.event('dashes', flat.count('\u2013') + flat.count('\u2014'))
        ctx.event('quotes', sum(flat.count(c) for c in '‘’“”'))
        if not ctx.equal(boxes(got), want, 'tree-differs',
                         'tree of %r' % text):
            return
        if not case['doc']:
            # processing is settled: a second pass changes nothing
            from disseminate.tags.text import Body
            again = Body(name='body', content=body.content, attributes='',
                         context=self.context)
            ctx.equal(boxes(tree(again.content)), want, 'second-pass',
                      'second pass over the tree of %r' % text)


def boxes(t):
    """All boxes are named featurebox by the tag."""
    return [x if isinstance(x, str) else
            ['featurebox' if x[0].lower() in refdoc.BOXES else x[0],
             [] if x[0].lower() in refdoc.CODE else x[1], boxes(x[2])]
            for x in t]
