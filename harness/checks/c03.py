"""C03: macros are replaced by their values, to any depth, and only macros."""
import re
from html.entities import name2codepoint

from ..core import BaseCheck, CaseDone
from .. import refparse, refattrs
from ..lib import (bare_context, tree, write_project, make_env, strip_ws,
                   touch_forward)

NAMES = ['@mac', '@m2', '@Name', '@x_y', '@CO2', '@13Q', '@p90x', '@sig',
         '@macro', '@ma', '@é1']
PLAIN = ['text', 'two words', ' ', 'a@', '@', '@ ', '.', ', ', '; ', '{', '}',
         '@@', '(', 'é', '$y$', '\\x', '%', '\n', '1', '[a]', '@unknown',
         '@b{bold}', '@sup{2}', '@foo[k=v]{x}', 'mail@host', '@macs', '@mac_',
         '@undefined.attr', '  ']
ATTRS = [('title', 'A Title'), ('number', '3'), ('sub', None)]


class Obj:
    """A macro value with attributes, like a label."""

    def __init__(self, text, **kw):
        self.__dict__.update(kw)
        self._text = text

    def __str__(self):
        return self._text


def expand(s, macros, active=()):
    """Reference: leftmost macro names, values expanded in turn."""
    out = []
    i = 0
    while i < len(s):
        if s[i] != '@':
            out.append(s[i])
            i += 1
            continue
        j = i + 1
        while j < len(s) and (refparse.isword(s[j]) or s[j] == '.'):
            j += 1
        if j == i + 1:
            out.append('@')
            i += 1
            continue
        pieces = s[i:j].split('.')
        end = j
        if j < len(s) and s[j] == '{':
            k = j + 1
            while k < len(s) and s[k].isspace():
                k += 1
            if k < len(s) and s[k] == '}':
                end = k + 1
        name = pieces[0]
        if name not in macros:
            # kept as it is
            out.append(s[i:end])
            i = end
            continue
        if name in active:
            raise Recursive()
        val = macros[name]
        rest = pieces[1:]
        while rest and isinstance(val, Obj) and hasattr(val, rest[0]):
            val = getattr(val, rest.pop(0))
        out.append(expand(str(val) + ''.join('.' + r for r in rest), macros,
                          active + (name,)))
        i = end
    return ''.join(out)


class Recursive(Exception):
    pass


class Check(BaseCheck):
    id = 'C03'
    rule = ('case = a set of macro definitions (in nesting chains of up to 8, '
            'with attributes, or recursive) and a text using them; through '
            'the substitution function, through header and body of a '
            'document, through inheritance by an included document, and '
            'after an edit of the definitions. Non-trivial: at least two '
            'uses of macros.')
    assumptions = ['for macros that (mutually) reference themselves only '
                   'termination and the recursion-free text are required']
    quick_n = 16000
    thorough_n = 200000
    quick_s = 100
    floor = {'substitutions': 3000, 'documents': 100, 'recursive': 100,
             'symbols': 40, 'inherited': 40, 'edited': 40}

    def setup(self, ctx):
        self.context = bare_context(ctx)

    def value(self, rng, allowed):
        n = rng.randint(1, 4)
        out = ''
        for _ in range(n):
            if allowed and rng.random() < .55:
                out += rng.choice(allowed) + rng.choice(
                    ['', ' ', '{}. ', '{ } ', '.', ' and ', ','])
            else:
                out += rng.choice([p for p in PLAIN if p not in '{}'
                                   and not p.endswith('@')])
        # no text that merges with what follows the macro
        return out.strip() + rng.choice(['', ';', '!'])

    def gen(self, rng, i, ctx):
        names = NAMES[:]
        rng.shuffle(names)
        names = names[:rng.randint(1, 8)]
        macros = {}
        recursive = rng.random() < .05
        for n, name in enumerate(names):
            allowed = names[:n] if not recursive else names[:3]
            # long chains
            if allowed and rng.random() < .5:
                allowed = [allowed[-1]]
            macros[name] = self.value(rng, allowed)
        text = ''
        for _ in range(rng.randint(1, 10)):
            r = rng.random()
            if r < .45:
                text += rng.choice(names) + rng.choice(
                    ['', ' ', '{}', '{ }', '. ', ', ', '.', '\n', '{}.', ')',
                     '-'])
            elif r < .55:
                text += '@obj' + rng.choice(
                    ['.title', '.number', '.sub.title', '', '.missing',
                     '.title.x', '.', '.sub', '.title. ']) + ' '
            else:
                text += rng.choice(PLAIN)
        kind = 'doc' if rng.random() < .06 else 'string'
        edit = {n: rng.choice(['changed', 'new @b{v}', 'z'])
                for n in names if rng.random() < .5}
        return dict(macros=macros, text=text, kind=kind, edit=edit)

    def cases(self, ctx):
        for i, name in enumerate(sorted(self.symbols())):
            if i % ctx.nshards == ctx.shard:
                yield -1 - i, dict(kind='symbol', name=name)
        for x in super().cases(ctx):
            yield x

    def symbols(self):
        greek = ('alpha beta gamma delta epsilon zeta eta theta iota kappa '
                 'lambda mu nu xi omicron pi rho sigma tau upsilon phi chi '
                 'psi omega').split()
        return greek + [g.capitalize() for g in greek]

    def check(self, ctx, case):
        if case['kind'] == 'symbol':
            return self.symbol(ctx, case)
        from disseminate.utils.string import replace_macros
        macros, text = case['macros'], case['text']
        objs = {'@obj': Obj('OBJ', title='A title', number=3,
                            sub=Obj('SUB', title='inner @b{t}'))}
        uses = len(re.findall('@', text))
        ctx.count(distinct=[macros, text], nontrivial=uses >= 2,
                  sample=dict(macros=macros, text=text))
        try:
            want = expand(text, dict(macros, **objs))
        except Recursive:
            ctx.event('recursive')
            with ctx.guard(cpu=40, key='endless', what='substituting the '
                           'recursive macros %r in %r' % (macros, text)):
                replace_macros(text, dict(macros, **objs))
            return
        ctx.event('substitutions')
        got = replace_macros(text, dict(macros, **objs))
        ctx.equal(got, want, 'substitution', '%r with %r' % (text, macros))
        got = replace_macros(text, macros, objs)
        ctx.equal(got, want, 'substitution-dicts', '%r with %r'
                  % (text, macros))
        first = {k: 'FIRST' for k in list(macros)[:1]}
        got = replace_macros(text, first, macros, objs)
        ctx.equal(got, expand(text, dict(dict(macros, **objs), **first)),
                  'precedence', '%r with %r' % (text, macros))
        if case['kind'] == 'doc':
            self.document(ctx, case)

    def flat(self, t):
        out = []
        for x in t:
            for y in (x[2] if not isinstance(x, str) and x[0] == 'p' else [x]):
                if isinstance(y, str):
                    y = strip_ws(y)
                    if y and out and isinstance(out[-1], str):
                        out[-1] += y
                    elif y:
                        out.append(y)
                else:
                    out.append([y[0], y[1], self.flat(y[2])])
        return out

    def model(self, text, macros):
        def conv(t):
            return [x if isinstance(x, str) else
                    [x[0], refattrs.parse(x[1]), conv(x[2])] for x in t]
        return self.flat(conv(refparse.parse(expand(text, macros))))

    def document(self, ctx, case):
        macros = {k: v.replace('\n', ' ') for k, v in case['macros'].items()}
        if any(v != v.strip() or not v or ':' in v or '"' in v or "'" in v
               for v in macros.values()):
            return
        text = case['text'].replace('{', '(').replace('}', ')')
        text = re.sub(r'@obj[\w.]*', 'o', text)
        text = 'start ' + text + ' end'
        # default macros are in scope as well, but not used here
        with ctx.scratch('doc') as d:
            def header(ms, extra=''):
                return ('---\ntargets: txt\n' + extra +
                        ''.join('%s: %s\n' % kv for kv in ms.items()) +
                        '---\n')
            files = {'src/main.dm': header(macros, 'include: sub.dm\n') + text,
                     'src/sub.dm': text}
            override = dict(list(case['edit'].items()))
            if override:
                files['src/sub.dm'] = header(override) + text
            write_project(d, files)
            env = make_env(d)
            doc = env.root_document
            docs = doc.documents_list()
            ctx.event('documents')
            ctx.equal(self.flat(tree(docs[0].context['body'].content)),
                      self.model(text, macros), 'document',
                      'body %r with header macros %r' % (text, macros))
            ctx.event('inherited')
            ctx.equal(self.flat(tree(docs[1].context['body'].content)),
                      self.model(text, dict(macros, **override)),
                      'inherited', 'included document: body %r with macros %r '
                      'overridden by %r' % (text, macros, override))
            if override:
                m2 = dict(macros, **override)
                p = d / 'src/main.dm'
                p.write_text(header(m2, 'include: sub.dm\n') + text)
                touch_forward(p)
                (d / 'src/sub.dm').write_text(text)
                touch_forward(d / 'src/sub.dm')
                doc.load()
                docs = doc.documents_list()
                ctx.event('edited')
                for x in docs[:2]:
                    ctx.equal(self.flat(tree(x.context['body'].content)),
                              self.model(text, m2), 'edited',
                              'after the macros were changed to %r' % m2)

    def symbol(self, ctx, case):
        from disseminate.tags import Tag
        from lxml import html as lhtml, etree
        name = case['name']
        root = Tag(name='root', content='x @%s y' % name, attributes='',
                   context=self.context)
        ctx.count(distinct=name)
        ctx.event('symbols')
        char = chr(name2codepoint[name])
        txt = lhtml.fragment_fromstring(str(root.html)).text_content()
        ctx.equal(strip_ws(txt), 'x' + char + 'y', 'symbol', 'html of @' + name)
        e = etree.fromstring(str(root.xhtml))
        ctx.equal(strip_ws(''.join(e.itertext())), 'x' + char + 'y', 'symbol',
                  'xhtml of @' + name)
        ctx.equal(root.tex, 'x \\ensuremath{\\%s} y' % name, 'symbol',
                  'tex of @' + name)
