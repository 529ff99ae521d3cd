"""Random projects with images, equations and figures, as plain data.

A project is {'targets': [...], 'docs': {path: {'include': [...], 'items':
[item]}}, 'files': {path: text}}; an item is [key, wrapper, tag] with a tag
  ['img', path as written, path of the file, options]
  ['asy', text or path as written, path of the file or None, options]
  ['eq', name, contents, options]
where the options are [[name, value or None]].  Each item stands between two
marks in the pages, so that what is found there belongs to it.
"""
import copy
import posixpath
import re

DOCS = ['ch 1/one.dm', 'two.dm', 's/t/three.dm', 'été/f.dm', 's/four.dm']
STEMS = ['pic', 'a b', 'fig.v2', 'plot-1', 'tête', 'spin_x', 'Pic', 'x+y',
         'pic2', 'media', "it's"]
WRAPPERS = ['p', 'p', 'p', 'alone', 'marginfig', 'fig', 'b', 'caption']
EQS = ['y=x', 'y = x', 'x=y', 'y=x^{2}', r'\alpha+1', 'E', 'e', 'H', 'Hy',
       r'\frac{1}{2}', 'a_{i}', '12', '21']
ASY = ['draw((0,0)--(1,1));', 'draw((0,0)--(1,2));', 'size(200);\nfill(c);',
       'dot((20,0));', 'path p={x};']
COLORS = ['blue', 'red']
ENVS = ['align', 'align*', 'alignat*']


class MediaGen:
    def __init__(self, rng, targets, tex=None, options=True, kinds=None):
        self.rng = rng
        self.targets = targets
        self.options = options
        self.n = 0
        tex = any(t in ('tex', 'pdf') for t in targets)
        self.kinds = kinds or (['pdf', 'png', 'tif', 'asy', 'tiff'] if tex else
                               ['pdf', 'svg', 'png', 'tif', 'asy', 'tiff'])

    def file_text(self):
        self.n += 1
        return 'file %d' % self.n

    def project(self, ndocs=None):
        rng = self.rng
        names = ['main.dm'] + rng.sample(DOCS, rng.randint(0, 3)
                                         if ndocs is None else ndocs - 1)
        docs = {n: dict(include=[], items=[]) for n in names}
        for i, n in enumerate(names[1:], 1):
            parent = rng.choice(names[:i])
            docs[parent]['include'].append(
                posixpath.relpath(n, posixpath.dirname(parent) or '.'))
        files = {}
        for stem in rng.sample(STEMS, rng.randint(1, 5)):
            # a stem is used once in each directory, and the directories with
            # the same stem are not searched for the same documents
            d = posixpath.dirname(rng.choice(names))
            if rng.random() < .4:
                d = posixpath.join(d, 'img')
            kind = rng.choice(self.kinds)
            files[posixpath.join(d, '%s.%s' % (stem, kind))] = (
                self.file_text())
            if rng.random() < .3:
                # the same name elsewhere
                d2 = posixpath.join(posixpath.dirname(rng.choice(names)),
                                    'more')
                files[posixpath.join(d2, '%s.%s' % (stem, kind))] = (
                    self.file_text())
        proj = dict(targets=self.targets, docs=docs, files=files)
        for _ in range(rng.randint(1, 9)):
            self.add(proj)
        return proj

    def add(self, proj):
        rng = self.rng
        doc = rng.choice(sorted(proj['docs']))
        items = proj['docs'][doc]['items']
        items.insert(rng.randint(0, len(items)), self.item(proj, doc))

    def item(self, proj, doc):
        rng = self.rng
        self.n += 1
        return ['k%d' % self.n, rng.choice(WRAPPERS), self.tag(proj, doc)]

    def tag(self, proj, doc):
        rng = self.rng
        r = rng.random()
        if r < .45 and proj['files']:
            path = rng.choice(sorted(proj['files']))
            return ['img', self.written(doc, path), path,
                    self.opts(path.rpartition('.')[2])]
        if r < .6:
            asys = [f for f in sorted(proj['files']) if f.endswith('.asy')]
            if asys and rng.random() < .4:
                path = rng.choice(asys)
                return ['asy', self.written(doc, path), path,
                        self.opts('asy')]
            return ['asy', rng.choice(ASY), None, self.opts('asy')]
        opts = []
        if rng.random() < .3:
            opts.append(['env', rng.choice(ENVS)])
            if opts[0][1] == 'alignat*':
                opts.append([rng.choice('23'), None])
        if rng.random() < .25:
            opts.append(['color', rng.choice(COLORS)])
        if rng.random() < .15:
            opts.append(['bold', None])
        return ['eq', rng.choice(['eq', 'eq', 'eq', 'term', 'termb']),
                rng.choice(EQS), opts]

    def written(self, doc, path):
        """The file relative to the document, or to the root."""
        d = posixpath.dirname(doc)
        if d and path.startswith(d + '/') and self.rng.random() < .6:
            return path[len(d) + 1:]
        return path

    def opts(self, kind):
        rng, out = self.rng, []
        if not self.options:
            return out
        if kind in ('pdf', 'asy') and rng.random() < .4:
            out.append(['scale', rng.choice(['2', '1.5', '0.5', '2.0'])])
        if kind == 'pdf' and rng.random() < .3:
            out.append(['page', rng.choice(['1', '2', '12'])])
        if rng.random() < .3:
            out.append(['width', rng.choice(['50%', '100%', '25%', '33%',
                                             '66%', '75%'])])
        return out

    # -- edits -----------------------------------------------------------

    def edit(self, proj):
        rng = self.rng
        new = copy.deepcopy(proj)
        for _ in range(20):
            name = rng.choice(['file', 'file', 'add', 'remove', 'tag', 'move',
                               'swap', 'newfile'])
            items = [(d, i) for d in sorted(new['docs'])
                     for i in range(len(new['docs'][d]['items']))]
            if name == 'file' and new['files']:
                path = rng.choice(sorted(new['files']))
                new['files'][path] = self.file_text()
            elif name == 'newfile' and new['files']:
                # a file gets a different contents and another its old ones
                a = rng.choice(sorted(new['files']))
                b = rng.choice(sorted(new['files']))
                if a == b:
                    continue
                f = new['files']
                f[a], f[b] = f[b], f[a]
            elif name == 'add':
                self.add(new)
            elif name in ('remove', 'tag', 'move') and items:
                d, i = rng.choice(items)
                item = new['docs'][d]['items']
                if name == 'remove':
                    del item[i]
                elif name == 'tag':
                    item[i] = [item[i][0], item[i][1], self.tag(new, d)]
                else:
                    x = item.pop(i)
                    d2 = rng.choice(sorted(new['docs']))
                    if x[2][0] != 'eq' and x[2][2]:
                        x[2][1] = self.written(d2, x[2][2])
                    new['docs'][d2]['items'].insert(0, x)
            elif name == 'swap' and len(items) > 1:
                (d, i), (e, j) = rng.sample(items, 2)
                if d != e:
                    continue
                it = new['docs'][d]['items']
                it[i][2], it[j][2] = it[j][2], it[i][2]
            else:
                continue
            return name, new
        self.add(new)
        return 'add', new


def attrs(opts):
    if not opts:
        return ''
    return '[%s]' % ' '.join(n if v is None else '%s=%s' % (n, v)
                             for n, v in opts)


def tag_source(tag):
    if tag[0] == 'eq':
        return '@%s%s{%s}' % (tag[1], attrs(tag[3]), tag[2])
    return '@%s%s{%s}' % (tag[0], attrs(tag[3]), tag[1])


def item_source(item):
    key, wrapper, tag = item
    text = tag_source(tag)
    if wrapper in ('marginfig', 'fig'):
        return '(%s\n\n@%s{%s @caption{c %s}}\n\n%s)' % (key, wrapper, text,
                                                       key, key)
    if wrapper == 'caption':
        return '(%s\n\n@marginfig{@caption{c %s}}\n\n%s)' % (key, text, key)
    if wrapper == 'alone':
        return '(%s\n\n%s\n\n%s)' % (key, text, key)
    if wrapper == 'b':
        return '(%s @b{b %s} %s)' % (key, text, key)
    return '(%s %s %s)' % (key, text, key)


def doc_source(proj, path):
    doc = proj['docs'][path]
    head = ''
    if path == 'main.dm':
        head += 'targets: %s\n' % ', '.join(proj['targets'])
    if doc['include']:
        head += 'include:\n' + ''.join('  %s\n' % i for i in doc['include'])
    return (('---\n%s---\n' % head if head else '') + '@chapter{One}\n\n' +
            '\n\n'.join(item_source(i) for i in doc['items']) + '\n')


def sources(proj):
    """{path below the source directory: text}"""
    out = {path: doc_source(proj, path) for path in proj['docs']}
    out.update(proj['files'])
    return out


def write(root, proj, touch):
    """Write the sources that are new or changed."""
    for name, text in sources(proj).items():
        p = root / 'src' / name
        if p.is_file() and p.read_text() == text:
            continue
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
        touch(p)


# -- what is expected ------------------------------------------------------

def eq_tex(tag, block):
    """The LaTeX of an equation."""
    _, name, text, opts = tag
    opts = dict(opts)
    text = text.strip()
    if 'color' in opts:
        text = r'\textcolor{%s}{%s}' % (opts['color'], text)
    if 'bold' in opts or name == 'termb':
        text = r'\boldsymbol{%s}' % text
    if 'env' in opts or block:
        env = opts.get('env', 'align*')
        n = ''.join('{%s}' % o for o in opts if o.isdigit())
        return r'\begin{%s}%s %s \end{%s}' % (env, n, text, env)
    return r'\ensuremath{%s}' % text


def steps(proj, item, target):
    """How the file of a tag is made: ([commands with options, the last one
    first], contents of its source) """
    key, wrapper, tag = item
    opts = dict(tag[3])
    chain = []
    if tag[0] == 'eq':
        block = wrapper == 'alone'
        return (['pdf2svg', 'pdf-crop-margins -p4 100 100 0 0 -a4 0 0 -1 0',
                 'pdflatex'], eq_tex(tag, block))
    if tag[2] is not None:
        kind = tag[2].rpartition('.')[2]
        text = proj['files'][tag[2]]
    else:
        kind, text = 'asy', tag[1]
    html = target in ('html', 'xhtml', 'epub')
    if kind in ('tif', 'tiff'):
        return ['convert'], text
    if kind == 'asy':
        chain = ['asy']
    if html and kind in ('asy', 'pdf'):
        chain.insert(0, 'pdf2svg' + (' ' + opts['page'] if 'page' in opts
                                     else ''))
        if 'scale' in opts:
            chain.insert(0, 'rsvg-convert -z %s' % float(opts['scale']))
    return chain, text


def made(contents):
    """How a file was made: ([commands with options, the last one first],
    contents of its source)."""
    from .faketools import recipe
    r, chain = recipe(contents), []
    if r is None:
        return [], contents
    while isinstance(r, dict):
        o = r['options']
        flat = sorted((x if isinstance(x, list) else [x] for x in o
                       if x not in ('-safe', '-interaction=nonstopmode',
                                    '-halt-on-error')
                       and x[0] not in ('-f',)), key=lambda x: x[0] != '-p4')
        chain.append(' '.join([r['tool']] + [y for x in flat for y in x]))
        r = r['in'][0]
    return chain, r


def eq_body(tex):
    """The equation in a tex file for one."""
    m = re.search(r'\\begin\{document\}(.*)\\end\{document\}', tex, re.S)
    if not m:
        return tex
    text = re.sub(r'\\(begin|end)\{preview\}|\{\\Large|%\n', '', m.group(1))
    text = re.sub(r'\s+', ' ', text).strip()
    return text[:-1].strip() if text.endswith('}') else text
