"""C08: lists hold their items once, in order, nested as they are indented.

Lists of known items, with continuation lines, blank lines and any indentation,
are written into documents; the items of the loaded lists and the html, xhtml
and LaTeX rendered from these are read back and compared.
"""
import re

from ..core import BaseCheck
from ..lib import write_project, make_env
from .c12 import depths

WORDS = ['alpha', 'beta gamma', '1.', 'x < y', 'R&D', 'Ünï', '中文', '<b>',
         '&amp;', '(c)', 'end.', 'a - b', '2*3', 'well-known', 'x -', '#1',
         '[br]', 'http://a.b/c?d=e&f', 'no. 5', '$5', '*']
TAGS = {'b': ('strong', '\\textbf{%s}'), 'i': ('i', '\\textit{%s}')}
KINDS = {'list': ('ul', 'itemize'), 'orderedlist': ('ol', 'enumerate'),
         'outline': ('ol', 'enumerate')}


def squeeze(s):
    return ' '.join(s.split())


def norm(parts):
    out = []
    for x in parts:
        if not isinstance(x, str):
            out.append([x[0], squeeze(x[1])])
        elif out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return [x for x in (squeeze(x) if isinstance(x, str) else x
                        for x in out) if x]


def html(item):
    return norm([x if isinstance(x, str) else [TAGS[x[0]][0], x[1]]
                 for x in item])


def tex(item):
    return squeeze(''.join(x if isinstance(x, str) else TAGS[x[0]][1] % x[1]
                           for x in item))


class Check(BaseCheck):
    id = 'C08'
    rule = ('items and levels of the loaded lists == items and indentation '
            'written; items, nesting, kind and class read back from html, '
            'xhtml and LaTeX == items written; lists and texts around them '
            'once and in order; rendering again gives the same')
    assumptions = ['lines that start with - or * are items; text before the '
                   'first item and tags around items are not written; '
                   'indentation is made of spaces']
    quick_n = 1500
    thorough_n = 20000
    quick_s = 80
    floor = {'lists': 2000, 'items': 8000, 'nested': 1000, 'blank': 300,
             'continued': 1000}

    def gen(self, rng, index, ctx):
        r, lists = rng, []
        for n in range(r.randint(1, 4)):
            base, unit = r.choice([0, 0, 2, 3, 4, 8]), r.choice([2, 2, 2, 4])
            items, levels, lines = [], [], []
            cur = 0
            for k in range(r.choice([1, 2, 3, 4, 6, 9])):
                if k:
                    cur = max(0, cur + r.choice([0, 0, 0, 1, 1, -1, -1, -2,
                                                 2]))
                elif r.random() < .1:
                    cur = r.choice([1, 2])
                odd = 1 if r.random() < .05 else 0
                spaces = base + unit * cur + odd
                words = [[r.choice(WORDS)] if r.random() < .75 else
                         [[r.choice(list(TAGS)),
                           r.choice(['q', 'two words', 'x & y', '- z'])]]
                         for _ in range(r.randint(1, 5))]
                if words[0][0] == '*' or words[0][0] == 'x -':
                    words[0] = ['w']
                item, line = [], ' ' * spaces + r.choice('-*') + r.choice(
                    [' ', ' ', '  ', ''])
                for w, word in enumerate(words):
                    if w:
                        fine = not (isinstance(word[0], str) and
                                    word[0][0] in '-*')
                        if fine and r.random() < .2:
                            ctx.event('continued')
                            lines.append(line)
                            line = ''
                            if r.random() < .2:
                                lines.append(r.choice(['', ' ' * 3]))
                            line = ' ' * r.randint(1, spaces + 3)
                        else:
                            line += ' '
                        item.append(' ')
                    for x in word:
                        item.append(x)
                        line += x if isinstance(x, str) else '@%s{%s}' % (
                            x[0], x[1])
                lines.append(line)
                if r.random() < .1:
                    lines.append(r.choice(['', '  ', ' ' * 7]))
                    ctx.event('blank')
                items.append(item)
                levels.append(spaces)
            low = min(levels)
            lists.append(dict(
                kind=r.choice(list(KINDS)), items=items,
                levels=[-(-(l - low) // 2) for l in levels],
                text=('\n' if base or r.random() < .7 else '') +
                '\n'.join(lines) + r.choice(['\n', '\n  ', '', '\n\n']),
                inline=r.random() < .2,
                cls=r.choice([None, None, None, 'k1', 'k1 k2'])))
        return dict(lists=lists)

    def check(self, ctx, case):
        from lxml import etree
        import lxml.html
        text = '---\ntargets: html, tex\n---\n'
        for n, l in enumerate(case['lists']):
            text += 'Mark%d.%s@%s%s{%s}\n\n' % (
                n, ' ' if l['inline'] else '\n\n', l['kind'],
                '[class="%s"]' % l['cls'] if l['cls'] else '', l['text'])
        text += 'End.\n'
        with ctx.scratch() as d:
            write_project(d, {'src/main.dm': text})
            env = make_env(d)
            body = env.root_document.context['body']
            self.tags(ctx, case, body)
            h, x, t = str(body.html), str(body.xhtml), str(body.tex)
            # parse the html as xml, because html parsers move the lists out
            # of paragraphs
            self.page(ctx, case, etree.fromstring(h), 'html')
            self.page(ctx, case, etree.fromstring(x), 'xhtml')
            self.tex(ctx, case, t)
            ctx.equal((str(body.html), str(body.xhtml), str(body.tex)),
                      (h, x, t), 'again', 'rendered a second time')
        ctx.count(distinct=[[l['items'], l['levels']] for l in case['lists']],
                  sample=text)

    def tags(self, ctx, case, body):
        from disseminate.tags.list import List, ListItem
        lists = [t for t in body.flatten(filter_tags=True)
                 if isinstance(t, List)]
        ctx.equal(len(lists), len(case['lists']), 'number of lists')
        for tag, l in zip(lists, case['lists']):
            ctx.event('lists')
            ctx.event('items', len(l['items']))
            if any(l['levels']):
                ctx.event('nested')
            items = [i for i in tag.content if isinstance(i, ListItem)]
            ctx.equal(len(items), len(tag.content), 'items')
            ctx.equal([i.attributes['level'] for i in items], l['levels'],
                      'levels')
            ctx.equal([squeeze(i.txt) for i in items],
                      [squeeze(''.join(x if isinstance(x, str) else x[1]
                                       for x in item))
                       for item in l['items']], 'item texts')

    def page(self, ctx, case, root, fmt):
        def name(e):
            return e.tag.split('}')[-1] if isinstance(e.tag, str) else '!'
        tops = [e for e in root.iter() if name(e) in ('ul', 'ol') and
                name(e.getparent()) not in ('ul', 'ol', 'li')]
        if not ctx.equal(len(tops), len(case['lists']), fmt + ':number'):
            return
        for e, l in zip(tops, case['lists']):
            ctx.equal(name(e), KINDS[l['kind']][0], fmt + ':kind')
            ctx.equal(set((e.get('class') or '').split()),
                      set((l['cls'] or '').split()), fmt + ':class')
            got = []

            def walk(node, depth):
                ctx.equal(name(node), KINDS[l['kind']][0], fmt + ':inner')
                loose = (node.text or '') + ''.join(c.tail or ''
                                                    for c in node)
                ctx.equal(loose.strip(), '', fmt + ':loose text')
                for c in node:
                    if name(c) == 'li':
                        parts = [c.text or '']
                        for k in c:
                            if name(k) in ('ul', 'ol'):
                                continue
                            parts.append([name(k), ''.join(k.itertext())])
                            parts.append(k.tail or '')
                        got.append([depth, norm(parts)])
                        for k in c:
                            if name(k) in ('ul', 'ol'):
                                walk(k, depth + 1)
                    else:
                        walk(c, depth + 1)
            walk(e, 0)
            ctx.equal(got, [[depth, html(item)] for depth, item in
                            zip(depths(l['levels']), l['items'])],
                      fmt + ':items')
            e.text = ' L '
            for c in list(e):
                e.remove(c)
        ctx.equal(''.join(root.itertext()).split(), self.order(case),
                  fmt + ':order')

    def order(self, case):
        return [m for n in range(len(case['lists']))
                for m in ('Mark%d.' % n, 'L')] + ['End.']

    def tex(self, ctx, case, text):
        pat = r'\\begin\{easylist\}\[(\w+)\](.*?)\\end\{easylist\}'
        found = re.findall(pat, text, re.S)
        ctx.equal(re.sub(pat, ' L ', text, flags=re.S).split(),
                  self.order(case), 'tex:order')
        for (style, inner), l in zip(found, case['lists']):
            ctx.equal(style, KINDS[l['kind']][1], 'tex:style')
            got = [[len(m.group(1)), squeeze(m.group(2))] for m in
                   re.finditer(r'^\s*(§+) ([^§]*)', inner, re.M)]
            ctx.equal(got, [[level + 1, tex(item)] for level, item in
                            zip(l['levels'], l['items'])], 'tex:items')
