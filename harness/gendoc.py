"""Random documents from the text markup (no labels, images or builds)."""

WORDS = ['alpha', 'two words', 'é', 'Ünïcode', '中文', '😀', 'x < y', 'a & b',
         '&amp;', '<script>', '</p>', '<b>', ']]>', 'R&D', 'it\'s', "don't",
         '"quoted text"', "'single'", 'a -- b', 'a --- b', '---', '--', '-',
         '- x', 'x -', 'pages 3--4', 'end.', 'Dr. Who', 'e.g.', '100 %', '$5',
         'a_b', 'x^2', '#1', '~', '\\alpha', 'path\\to', '(par)', '[br]', ',',
         ';', '5 > 3', '\u2013', '\u2014', '\u2019', 'rock \'n\' roll', '"', "'",
         'the "end".', "('a')", '{braced}', 'a{b}c', 'mail @ home', '@ ', '/',
         'http://a.b/c?d=e&f=g', '\u00a0', 'soft\u00adhyphen', '=', '+', '*',
         'long line of plain words here', '--x', 'x--', '----', '------',
         '"a" "b"', '\'"x"\'', "l'été", "C'était l'œuvre", "'été'",
         "1'2", '"ß"', "中'文", "'Ünïcode' word", "_'a'_", '\u2026', '\'90s', '6\'2"', 'a"b', 'a\u00a0--\u00a0b']
SEP = [' ', ' ', ' ', '', '\n', '  ', ' \n ']
BREAK = ['\n\n', '\n\n', '\n \n', '\n\n\n', '\n\t\n\n', ' \n\n  ']
INLINE = ['b', 'bold', 'strong', 'textbf', 'i', 'italics', 'textit', 'sup',
          'sub', 'foo', 'bar9', 'note', 'span', 'em', 'Weird', 'sidenote',
          'B', 'EM', 'zz_top']
SYMBOLS = ['alpha', 'beta', 'Gamma', 'times', 'pi', 'deg', 'le', ' mu ']
ATTRS = ['', '', '', '', 'class=c1', 'class="c1 c2"', 'id=i1', 'pos',
         'class.html=h1', 'class.tex=t1', 'class=g1 class.xhtml=x1',
         'style="color: red"', 'id="a&b" class="x<y"', 'width=30%', 'k=v 3',
         'class=é', 'onclick="x()"', 'href=a', 'class="it\'s"', "id='q\"q'"]
BLATTRS = ['', '', '', 'class=c1', 'class="c1 c2"', 'id=i1 class=z', 'pos',
           'onclick="x()"', 'style="color: red"', 'id="a&b"']
CODES = ['x = 1', 'if a < b & c:', 'def f(x):\n    return x', 'a|b', 'a|b!c', 'a | b ! c ^ d', '|!^+',
         '\\textbf{x}', '"q" -- \'s\'', '{}', 'print("é")', '<a href="x">',
         '---', 'a  b', 'x\\y', '&amp;', '@b{not bold}', '@foo', '%s', '~^_']


class Gen:
    def __init__(self, rng, size=30, depth=4, edge_quotes=True):
        self.rng, self.left, self.depth = rng, size, depth

    def text(self, breaks=0.0):
        r = self.rng
        s = ''
        for _ in range(r.randint(1, 4)):
            s += r.choice(WORDS)
            s += r.choice(BREAK) if r.random() < breaks else r.choice(SEP)
        return s

    def leaf(self):
        r = self.rng
        x = r.random()
        if x < .3:
            return '@symbol{%s}' % r.choice(SYMBOLS)
        if x < .45:
            return '@supsub{%s && %s}' % (r.choice(['a', '2+', 'x--y', '']),
                                          r.choice(['b', '-', "n'", '']))
        if x < .6:
            return '@%s' % r.choice(['foo ', 'foo.', 'bar9, '])
        name = r.choice(['code', 'python', 'code', 'verb', 'v', 'pre', 'ruby'])
        c = r.choice(CODES)
        if name == 'code':
            name = 'code[python]' if r.random() < .6 else 'code[html]'
        return '@%s{%s}' % (name, c)

    def inline(self, depth, breaks=0.0):
        """Text and inline tags."""
        r = self.rng
        s = ''
        for _ in range(r.randint(1, 4)):
            if self.left <= 0:
                break
            self.left -= 1
            x = r.random()
            if x < .5:
                s += self.text(breaks)
            elif x < .62:
                s += self.leaf()
                s += r.choice(SEP)
            elif depth > 0:
                a = r.choice(ATTRS)
                s += '@%s%s{%s}' % (r.choice(INLINE),
                                    '[' + a + ']' if a else '',
                                    self.inline(depth - 1, breaks / 2))
                s += r.choice(SEP + ['.', ','])
        return s

    def block(self, depth):
        r = self.rng
        a = r.choice(BLATTRS)
        at = '[' + a + ']' if a else ''
        x = r.random()
        if x < .3:
            n = r.choice(sorted(HEADS))
            return '@%s[nolabel%s]{%s}' % (n, ' ' + a if a else '',
                                           self.inline(2) or 'Head')
        if x < .4:
            return '@%s%s{%s}' % (r.choice(['h6', 'para']), at,
                                  self.inline(2))
        if x < .55:
            return '@%s{%s}' % (r.choice(['verbatim', 'verb', 'v', 'pre']),
                                r.choice(CODES) + r.choice(['', '\n', '\n\nx'])
                                + r.choice(CODES))
        if x < .65:
            return '@%s%s{%s}' % (r.choice(['marginfig', 'figure', 'ffig',
                                            'fullfigure']), at,
                                  self.inline(2))
        if x < .72:
            return '@p%s{%s}' % (at, self.inline(2))
        if x < .9 and depth > 0:
            return '@%s%s{%s}' % (r.choice(['featurebox', 'examplebox',
                                            'problembox']), at,
                                  self.blocks(depth - 1))
        n = r.choice(['code[python]', 'python', 'code[html]', 'java'])
        return '\n\n@%s{%s}\n\n' % (n, r.choice(CODES) +
                                    r.choice(['', '\n' + r.choice(CODES)]))

    def blocks(self, depth):
        r = self.rng
        s = ''
        for _ in range(r.randint(1, 6)):
            if self.left <= 0:
                break
            self.left -= 1
            x = r.random()
            if x < .6:
                s += self.inline(3, .25)
            else:
                s += self.block(depth)
            s += r.choice(BREAK) if r.random() < .6 else r.choice(SEP)
        return s

    def document(self):
        return self.blocks(self.depth)


HEADS = {'title', 'h1', 'part', 'chapter', 'h2', 'section', 'h3',
         'subsection', 'h4', 'subsubsection', 'h5'}
