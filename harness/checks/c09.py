"""C09: tables present every cell of their data, in its row and column.

Data sets of known cells are written as comma or tab separated values, inline
or in files, with all the freedom of the format (quotes, blank lines, short
rows, indentation), into documents with several tables.  What the loaded
document offers for the data, and the html, xhtml and LaTeX rendered from it,
is read back cell by cell.
"""
import re

from ..core import BaseCheck
from ..lib import write_project, make_env

WORDS = ['alpha', 'beta gamma', '1', '-2.5', '0', 'x < y', 'R&D', 'a & b',
         'Ünï', '中文', '<b>', '&amp;', '100 %', 'no. 5', '(c)', '$5', '1-1',
         'e=mc^2', 'http://a.b/c?d=e&f', '#1', 'A', 'A', 'B', '']
QUOTED = ['a, b', '6,5', 'x\ny', 'one,two,three', ',', 'tab\there',
          'R&D, x < y', 'a & b, c']
TAGS = {'b': ('strong', '\\textbf{%s}'), 'i': ('i', '\\textit{%s}'),
        'strong': ('strong', '\\textbf{%s}')}
KINDS = {'table': ('table', 'table'), 'tbl': ('table', 'table'),
         'margintable': ('margintbl', 'margintable'),
         'margintbl': ('margintbl', 'margintable'),
         'fulltable': ('fulltable', 'table*'), 'ftbl': ('fulltable', 'table*'),
         'fulltbl': ('fulltable', 'table*')}


def squeeze(s):
    return ' '.join(s.split())


def source(cell):
    return ''.join(x if isinstance(x, str) else '@%s{%s}' % tuple(x)
                   for x in cell)


def tex(cell):
    return ''.join(x if isinstance(x, str) else TAGS[x[0]][1] % x[1]
                   for x in cell).replace('&', '\\&')


def html(cell):
    """[text | [element, text]] without empty texts."""
    return norm([x if isinstance(x, str) else [TAGS[x[0]][0], x[1]]
                 for x in cell])


def norm(parts):
    out = []
    for x in parts:
        if not isinstance(x, str):
            out.append([x[0], squeeze(x[1])])
        elif out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    out = [squeeze(x) if isinstance(x, str) else x for x in out]
    return [x for x in out if x]


def write_csv(rng, rows, delim, indent):
    """The text of the rows, in one of the ways it can be written."""
    lines = []
    for row in rows:
        cells = []
        for c in row:
            s = source(c)
            if (any(ch in s for ch in delim + '"\n\t') or s != s.strip() or
                    (s and rng.random() < .1)):
                s = '"' + s.replace('"', '""') + '"'
            cells.append(s)
        sep = delim + ('' if delim == '\t' else
                       rng.choice(['', ' ', ' ', '  ']))
        lines.append(indent + sep.join(cells))
        if rng.random() < .08:
            lines.append(rng.choice(['', indent, '   ']))
    return '\n'.join(lines)


class Check(BaseCheck):
    id = 'C09'
    rule = ('cells of headers and rows of the data == cells written; table '
            'read back from html, xhtml and LaTeX (kind, caption, header '
            'cells, rows of cells with their markup) == cells written; '
            'tables and texts around them once and in order; rendering again '
            'gives the same')
    assumptions = ['rows with a single blank cell count as blank lines; '
                   'tags with commas are written in quoted cells']
    quick_n = 1200
    thorough_n = 16000
    quick_s = 90
    floor = {'tables': 2000, 'cells': 20000, 'files': 300, 'ragged': 200,
             'dupheads': 200, 'captions': 300}

    def cell(self, r):
        x = r.random()
        if x < .7:
            return [r.choice(WORDS)]
        if x < .8:
            return [r.choice(QUOTED)]
        out = []
        for _ in range(r.randint(1, 2)):
            out.append(r.choice(['', 'w ', 'x & ']))
            out.append([r.choice(list(TAGS)), r.choice(
                ['q', 'two words', 'x & y', 'a, b', 'é', '<i>'])])
        out.append(r.choice(['', ' end', ', z']))
        return out

    def table(self, r, n):
        ncols, nrows = r.randint(1, 5), r.choice([0, 1, 1, 2, 3, 4, 7])
        header = r.random() < .7
        if not header:
            nrows = max(nrows, 1)
        rows = [[self.cell(r) for _ in range(ncols)]
                for _ in range(nrows + header)]
        for row in rows:
            if ncols == 1 and not source(row[0]).strip():
                row[0] = ['x']
        if r.random() < .2 and ncols > 1:
            for row in rows:
                if r.random() < .4:
                    k = r.randint(1, ncols - 1)
                    if k > 1 or source(row[0]).strip():
                        row[k:] = []
        delim = '\t' if r.random() < .15 else ','
        indent = '' if delim == '\t' else r.choice(['', '', '  ', '      '])
        text = write_csv(r, rows, delim, indent)
        opts = [] if header else ['noheader']
        return dict(
            kind=r.choice(list(KINDS)), header=header, rows=rows, text=text,
            delim=delim, opts=opts, file=r.random() < .25,
            lead=r.choice(['', '\n', '\n', '\n\n  ']),
            tail=r.choice(['', '\n', '\n  ', '\n\n']),
            cap=(r.choice(['before', 'after']) if r.random() < .4 else None),
            ident=('t%d' % n if r.random() < .5 else None),
            cls=r.choice([None, None, 'k1', 'k1 k2']))

    def gen(self, rng, index, ctx):
        n = rng.randint(1, 4)
        tables = [self.table(rng, i) for i in range(n)]
        return dict(tables=tables, sub=rng.random() < .3,
                    place=rng.choice(['doc', 'root', 'data']))

    def check(self, ctx, case):
        from lxml import etree
        import lxml.html
        doc = 'src/s/b.dm' if case['sub'] else 'src/main.dm'
        files, text = {}, '---\ntargets: html, tex\n---\n'
        for n, t in enumerate(case['tables']):
            attrs = []
            if t['cls']:
                attrs.append('class="%s"' % t['cls'])
            if t['ident'] and t['cap']:
                attrs.append('id=' + t['ident'])
            body = t['lead'] + t['text'] + t['tail']
            if t['file']:
                name = 'd%d.%s' % (n, 'tsv' if t['delim'] == '\t' else 'csv')
                if case['place'] == 'data':
                    name = 'data/' + name
                base = ('src/s/' if case['sub'] and case['place'] == 'doc'
                        else 'src/')
                files[base + name] = t['text'] + t['tail']
                body = t['lead'] + name + t['tail']
                ctx.event('files')
            data = '@%s%s{%s}' % (
                'tsv' if t['delim'] == '\t' else 'csv',
                '[%s]' % ' '.join(t['opts']) if t['opts'] else '', body)
            cap = '@caption{Caption %d}' % n
            text += 'Mark%d.\n\n@%s%s{%s%s%s}\n\n' % (
                n, t['kind'], '[%s]' % ' '.join(attrs) if attrs else '',
                cap + '\n  ' if t['cap'] == 'before' else '\n  ', data,
                '\n' + cap if t['cap'] == 'after' else '\n')
        text += 'End.\n'
        files[doc] = text
        if case['sub']:
            files['src/main.dm'] = ('---\ntargets: html\ninclude: s/b.dm\n'
                                    '---\nroot')
        with ctx.scratch() as d:
            write_project(d, files)
            root = make_env(d).root_document
            this = root.documents_list(recursive=True)[-1 if case['sub']
                                                       else 0]
            body = this.context['body']
            self.data(ctx, case, body)
            h = str(body.html)
            x = str(body.xhtml)
            self.page(ctx, case, lxml.html.fragment_fromstring(h), 'html')
            self.page(ctx, case, etree.fromstring(x), 'xhtml')
            t = str(body.tex)
            self.tex(ctx, case, t)
            ctx.equal((str(body.html), str(body.xhtml), str(body.tex)),
                      (h, x, t), 'again', 'rendered a second time')
        ctx.count(distinct=[[t['rows'], t['header']]
                            for t in case['tables']],
                  sample=[t['text'] for t in case['tables']])

    def want(self, t):
        rows = t['rows']
        ncols = max(len(r) for r in rows)
        rows = [r + [['']] * (ncols - len(r)) for r in rows]
        return (rows[0] if t['header'] else None,
                rows[1:] if t['header'] else rows, ncols)

    def data(self, ctx, case, body):
        from disseminate.tags.data import Data
        tags = [t for t in body.flatten(filter_tags=True)
                if isinstance(t, Data)]
        ctx.equal(len(tags), len(case['tables']), 'data:number')
        for tag, t in zip(tags, case['tables']):
            head, rows, ncols = self.want(t)
            ctx.event('tables')
            ctx.event('cells', len(rows) * ncols)
            if len({len(r) for r in t['rows']}) > 1:
                ctx.event('ragged')
            if head is not None:
                names = [source(c).strip() for c in head]
                if len(set(names)) < len(names):
                    ctx.event('dupheads')
                ctx.equal([str(h).strip() for h in tag.headers], names,
                          'data:headers')
            else:
                ctx.equal(list(tag.headers), list(range(ncols)),
                          'data:headers')
            ctx.equal([[str(c).strip() for c in r]
                       for r in tag.rows_transpose],
                      [[source(c).strip() for c in r] for r in rows],
                      'data:rows')
            ctx.equal(tag.num_cols, ncols, 'data:num_cols')
            ctx.equal(tag.num_rows, len(rows), 'data:num_rows')

    def page(self, ctx, case, root, fmt):
        def name(e):
            return e.tag.split('}')[-1] if isinstance(e.tag, str) else '!'

        def cell(e):
            out = [e.text or '']
            for c in e:
                out.append([name(c), ''.join(c.itertext())])
                out.append(c.tail or '')
            return norm(out)
        tables = [e for e in root.iter() if name(e) == 'table']
        ctx.equal(len(tables), len(case['tables']), fmt + ':number')
        words = []
        for n, (e, t) in enumerate(zip(tables, case['tables'])):
            head, rows, ncols = self.want(t)
            cls = set((t['cls'] or '').split()) | {KINDS[t['kind']][0]}
            ctx.equal(set((e.get('class') or '').split()), cls,
                      fmt + ':class')
            caps = [c for c in e if name(c) == 'caption']
            cap = [squeeze(''.join(c.itertext())) for c in caps]
            words.append('Mark%d.' % n)
            if t['cap']:
                ctx.event('captions')
                ctx.expect(len(cap) == 1 and
                           cap[0].endswith('. Caption %d' % n),
                           fmt + ':caption', lambda: repr(cap))
                if t['ident'] and caps:
                    ctx.equal(caps[0].get('id'), t['ident'], fmt + ':id')
            else:
                ctx.equal(cap, [], fmt + ':caption')
            heads = [c for c in e if name(c) == 'thead']
            bodies = [c for c in e if name(c) == 'tbody']
            got = [[name(c) for c in tr] for h in heads for tr in h]
            ctx.equal(got, [['th'] * ncols] if head is not None else [],
                      fmt + ':header')
            ctx.equal([cell(c) for h in heads for tr in h for c in tr],
                      [html(c) for c in head or []], fmt + ':header cells')
            ctx.equal([name(tr) for b in bodies for tr in b],
                      ['tr'] * len(rows), fmt + ':rows')
            ctx.equal([[cell(c) if name(c) == 'td' else name(c) for c in tr]
                       for b in bodies for tr in b],
                      [[html(c) for c in r] for r in rows],
                      fmt + ':cells')
            rest = ''.join([e.text or ''] + [c.tail or '' for c in e])
            ctx.equal(rest.strip(), '', fmt + ':loose text')
        marks = []
        for e in root.iter():
            if name(e) == 'table':
                marks.append('T')
            elif name(e) == 'p':
                marks.append(squeeze(''.join(e.itertext())))
        ctx.equal(marks, [m for n in range(len(case['tables']))
                          for m in ('Mark%d.' % n, 'T')] + ['End.'],
                  fmt + ':order')

    def tex(self, ctx, case, text):
        found = re.findall(
            r'\\begin\{(table\*?|margintable)\}(.*?)\\end\{\1\}', text, re.S)
        ctx.equal(len(found), len(case['tables']), 'tex:number')
        pieces = re.sub(r'\\begin\{(table\*?|margintable)\}(.*?)\\end\{\1\}',
                        ' T ', text, flags=re.S).split()
        ctx.equal(pieces, [m for n in range(len(case['tables']))
                           for m in ('Mark%d.' % n, 'T')] + ['End.'],
                  'tex:order')
        for n, ((env, inner), t) in enumerate(zip(found, case['tables'])):
            head, rows, ncols = self.want(t)
            ctx.equal(env, KINDS[t['kind']][1], 'tex:environment')
            m = re.search(r'\\begin\{tabular\}\{(\w*)\}\s*\\toprule\n(.*)'
                          r'\\bottomrule\s*\\end\{tabular\}', inner, re.S)
            if not ctx.expect(m is not None, 'tex:tabular', lambda: inner):
                continue
            ctx.equal(len(m.group(1)), ncols, 'tex:columns')
            parts = m.group(2).split('\\midrule\n')
            ctx.equal(len(parts), 2 if head is not None else 1,
                      'tex:midrule')
            got = [[[squeeze(c) for c in re.split(r'(?<!\\)&', line)]
                    for line in re.split(r'\\\\\n', part)[:-1]]
                   for part in parts]
            want = [[[squeeze(tex(c)) for c in r] for r in p]
                    for p in (([head],) if head is not None else ()) + (rows,)]
            ctx.equal(got, want, 'tex:cells')
            rest = inner[:m.start()] + inner[m.end():]
            if t['cap']:
                ctx.expect(rest.count('\\caption{') == 1 and
                           '. Caption %d}' % n in rest, 'tex:caption',
                           lambda: rest)
            else:
                ctx.equal(rest.strip(), '', 'tex:loose text')
