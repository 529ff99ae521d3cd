"""C06: LaTeX and text output hold the document's content."""
import re

from ..core import BaseCheck
from .. import refdoc, docmode
from ..gendoc import Gen
from ..lib import bare_context


def blanks(s):
    """Paragraph breaks as one empty line, other blanks kept as single
    blanks; nothing at the ends."""
    s = re.sub(r'[ \t]*\n\s*\n\s*', '\n\n', s)
    s = re.sub(r'[ \t]*\n[ \t]*(?!\n)', lambda m: m.group()
               if m.group().count('\n') > 1 else '\n', s)
    return re.sub(r'\n{2,}', '\n\n', s).strip()


class Check(BaseCheck):
    id = 'C06'
    rule = ('case = a random document of text, inline, block, literal and '
            'symbol tags; its LaTeX and text renderings are compared with an '
            'independent reference rendering (paragraph breaks count, other '
            'blanks at line ends do not); a part of the documents is built '
            'and the files on disk are compared. Non-trivial: at least three '
            'tags.')
    assumptions = ['TeX special characters in text are the author\'s TeX and '
                   'pass unchanged', 'literal text that leaves no delimiter '
                   'free is not judged in LaTeX',
                   'pygments highlights the code it is given']
    quick_n = 8000
    thorough_n = 120000
    quick_s = 100
    floor = {'tex_bodies': 1000, 'txt_bodies': 1000, 'files': 60}

    def setup(self, ctx):
        self.context = bare_context(ctx, 'inactive_tags: sidenote')

    def gen(self, rng, i, ctx):
        g = Gen(rng, size=rng.choice([4, 10, 25, 60]),
                depth=rng.choice([0, 1, 2, 3]))
        return dict(text=g.document(), files=i % 25 == 0)

    def check(self, ctx, case):
        text = case['text']
        nodes = refdoc.document(text)
        n = sum(1 for _ in refdoc.walk(nodes))
        try:
            tex = ''.join(refdoc.tex(k, code) for k in nodes)
        except TypeError:      # verb without a free delimiter
            tex = None
        txt = ''.join(refdoc.txt(k) for k in nodes)
        if case['files']:
            with ctx.scratch('p') as d:
                env = docmode.project(ctx, d, text, 'targets: tex, txt')
                doc = env.root_document
                if not ctx.equal(doc.build(), 'done', 'build', repr(text)):
                    return
                got = {k: open(str(p), encoding='utf-8').read()
                       for k, p in doc.targets.items()}
                ctx.event('files')
                t = got['.tex']
                a, b = '\\begin{document}', '\\end{document}'
                ctx.expect(t.count(a) >= 1 and b in t, 'tex-frame',
                           'no document environment in the tex file')
                gtex = t[t.index(a) + len(a):t.rindex(b)]
                gtxt = got['.txt']
        else:
            body = docmode.body(ctx, text, self.context)
            gtex, gtxt = body.tex, body.txt
        ctx.count(distinct=text, nontrivial=n >= 3, sample=dict(text=text))
        if tex is not None:
            ctx.event('tex_bodies')
            ctx.equal(blanks(gtex), blanks(tex), 'tex-differs',
                      'tex of %r' % text)
        ctx.event('txt_bodies')
        ctx.equal(blanks(gtxt), blanks(txt), 'txt-differs',
                  'txt of %r' % text)


def code(node):
    """Block of code, with the highlighter the tag names."""
    import pygments.lexers as lx
    from pygments import highlight
    from pygments.formatters import LatexFormatter
    name = node.name.lower()
    lang = (name if name != 'code' else
            node.attrs[0][0] if node.attrs else None)
    src = ''.join(node.kids)
    lexer = (lx.get_lexer_by_name(lang) if lang and lang.title() + 'Lexer' in
             lx.LEXERS else lx.guess_lexer(src))
    return highlight(src, lexer, LatexFormatter())
