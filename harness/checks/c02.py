"""C02: attributes are read as written and selected per target."""
import re

from lxml import etree, html as lhtml

from ..core import BaseCheck
from .. import refattrs
from ..lib import bare_context, attr_tuple

KEYS = ['class', 'id', 'width', 'height', 'style', 'short', 'k', 'long_key',
        'src', 'alt', 'data2', 'rows', 'x', 'a.b', 'é']
VALS = ['v', 'one', '30%', '3.2in', '200', '1.5', '-20em', 'sec:file1',
        'http://a.b/c?d=e#f', '"two words"', "'single quoted'", '"a=b"',
        '"x, y"', '"it\'s fine ok"', '@b{x}', 'α', '""', '"[no]"'[1:-1],
        'a,b', '(a)', '\\textwidth', '"  padded "']
POSN = ['red', 'h', '3', '42', '2.718', '-1', '(a)', 'link#anchor', 'vertex',
        'myhtml', 'latex', '"two words"', "'q p'", 'path/to/img.png', 'nolabel',
        'all', '*', '1e3', 'tex', 'html', 'a.b.c', '-20em', '$x$']
SUFFIX = ['', '', '', '.html', '.tex', '.xhtml', '.css']
SEPS = [' ', ' ', '  ', '\n', ', ', '\t']
TARGETS = [None, 'html', 'tex', 'xhtml', '.html', '.tex', '.xhtml', 'css']


class Check(BaseCheck):
    id = 'C02'
    rule = ('case = an attribute string built from keyed, quoted, positional '
            'and target-specific entries, with the target(s) and keys asked '
            'for. Non-trivial: three or more entries.')
    assumptions = ['values do not themselves end in a target suffix, and '
                   'quotes are not nested at the ends of a value']
    quick_n = 24000
    thorough_n = 300000
    quick_s = 80
    floor = {'parses': 2000, 'filters': 2000, 'finds': 2000, 'positional': 1000,
             'rendered': 300}

    def setup(self, ctx):
        self.context = bare_context(ctx)

    def entry(self, rng, simple=False):
        sfx = rng.choice(SUFFIX)
        r = rng.random()
        if r < .6:
            k = rng.choice(KEYS[:6] if simple or rng.random() < .6 else KEYS)
            eq = rng.choice(['=', '=', '=', ' = ', '= ', ' ='])
            return k + sfx + eq + rng.choice(VALS)
        p = rng.choice(POSN)
        if sfx and p[0] in '"\'':
            return p[0] + p[1:-1] + sfx + p[0]
        return p + sfx

    def gen(self, rng, i, ctx):
        n = rng.choice([0, 1, 2, 3, 4, 5, 8])
        s = rng.choice(['', '', ' '])
        for j in range(n):
            e = self.entry(rng)
            s += e + rng.choice(SEPS)
        if rng.random() < .5:
            s = s.rstrip(', \n\t')
        if rng.random() < .1:
            s = '[' + s + ']'
        ask = [rng.choice(KEYS[:8]) for _ in range(rng.randint(1, 4))]
        return dict(s=s, target=rng.choice(TARGETS), ask=ask,
                    render=rng.random() < .3)

    def check(self, ctx, case):
        from disseminate.attributes import Attributes
        from disseminate.utils.types import (
            PositionalValue, StringPositionalValue, IntPositionalValue,
            FloatPositionalValue, ispositional)
        s = case['s']
        target = case['target']
        tname = target.strip('.') if target else None
        want = refattrs.parse(s)
        a = Attributes(s)
        ctx.count(distinct=[s, target, case['ask']], nontrivial=len(want) >= 3,
                  sample=dict(string=s, entries=want))

        # 1. Parsing
        got = attr_tuple(a)
        ctx.event('parses')
        ctx.equal(got, want, 'parse-differs', 'entries of %r' % s)
        types = {'int': IntPositionalValue, 'float': FloatPositionalValue,
                 'str': StringPositionalValue}
        for k, v in a.items():
            if ispositional(v):
                ctx.equal(v, types[refattrs.kind(k)], 'positional-kind',
                          'kind of positional %r in %r' % (k, s))
        ctx.equal([list(x) if isinstance(x, tuple) else [x, None]
                   for x in a.totuple()], want, 'totuple', repr(s))
        before = attr_tuple(a)

        def plain(d):
            return {str(k): (v if isinstance(v, str) else None)
                    for k, v in d.items()}

        # 2. Filtering for a target
        ctx.event('filters')
        exp = refattrs.select(want, tname)
        ctx.equal(plain(a.filter(target=target)), exp, 'filter-target',
                  '%r for %r' % (s, target))
        ask = case['ask']
        exp = refattrs.select(want, tname, ask)
        f = a.filter(attrs=ask, target=target, sort_by_attrs=True)
        ctx.equal(plain(f), exp, 'filter-keys', '%r of %r for %r'
                  % (ask, s, target))
        uniq = [k for n, k in enumerate(ask) if k not in ask[:n] and k in exp]
        ctx.equal(list(f), uniq, 'filter-order', '%r of %r for %r'
                  % (ask, s, target))
        f = a.filter(attrs=tuple(ask), target=target)
        ctx.equal(plain(f), exp, 'filter-keys', '%r of %r for %r'
                  % (ask, s, target))
        generals = [k for k, v in want]
        if all(k in generals and not any(
                k2 != k and refattrs.strip(k2)[0] == k for k2 in generals)
               for k in ask):
            ctx.equal(list(f), [k for k in generals if k in ask],
                      'filter-order', 'entries keep their order')
        # unstripped keys name the entry that was used
        f = a.filter(target=target, strip=False)
        for k in f:
            t = refattrs.strip(k)[1]
            ctx.expect(t is None or t == tname, 'other-target',
                       'filter(%r) of %r kept %r' % (target, s, k))

        # 3. Looking entries up
        ctx.event('finds')
        d = dict((k, v) for k, v in want)
        for k in ask:
            own = '%s.%s' % (k, tname)
            if tname and own in d:
                e = (own, d[own])
            elif k in d:
                e = (k, d[k])
            else:
                e = None
            r = a.find_item(k, target=target)
            r = r and (r[0], r[1] if isinstance(r[1], str) else None)
            ctx.equal(r, e, 'find', '%r in %r for %r' % (k, s, target))
            r = a.get(k, target=target, default='DEFAULT')
            if e is None:
                ctx.equal(r, 'DEFAULT', 'get', '%r in %r for %r'
                          % (k, s, target))
            elif e[1] is not None:
                ctx.equal(r, e[1], 'get', '%r in %r for %r' % (k, s, target))
            else:
                ctx.expect(ispositional(r), 'get', '%r in %r' % (k, s))
        if tname or not any(v is None and refattrs.strip(k)[1]
                            for k, v in want):
            for nm, cls in [(None, PositionalValue)] + list(types.items()):
                ctx.event('positional')
                e = refattrs.first_positional(want, tname, nm)
                ctx.equal(a.get(cls, target=target), e, 'get-positional',
                          '%s in %r for %r' % (cls.__name__, s, target))
                r = a.filter(attrs=(cls,), target=target)
                ctx.equal(list(r), [] if e is None else [e],
                          'filter-positional', '%s in %r for %r'
                          % (cls.__name__, s, target))

        # 4. Formatting
        g = a.filter(target='tex')
        exp = refattrs.select(want, 'tex')
        ctx.equal(re.findall(r'\{(.*?)\}(?=\{|$)', g.tex_arguments, re.S)
                  if '}' not in ''.join(exp) + ''.join(
                      v or '' for v in exp.values()) else None,
                  [v if v is not None else k for k, v in
                   ((k, plain(g)[k]) for k in g)]
                  if '}' not in ''.join(exp) + ''.join(
                      v or '' for v in exp.values()) else None,
                  'tex-arguments', s)
        opts = g.tex_optionals
        ctx.equal(opts, '[' + ', '.join(
            k if v is None else '%s=%s' % (k, v)
            for k, v in ((k, plain(g)[k]) for k in g)) + ']' if g else '',
            'tex-optionals', s)

        # 5. Nothing above changes the attributes
        ctx.equal(attr_tuple(a), before, 'mutated', 'by lookups, %r' % s)
        cp = a.copy()
        ctx.equal(attr_tuple(cp), before, 'copy', s)
        cp['new'] = '1'
        cp.append('k', 'more')
        ctx.equal(attr_tuple(a), before, 'copy-shared', s)
        st = a.copy()
        st.strip()
        ctx.expect(all(refattrs.strip(k)[1] is None for k in st),
                   'strip', s)

        # 6. What reaches the rendered output
        if case['render']:
            self.render(ctx, s, want)

    def render(self, ctx, s, want):
        from disseminate.tags import Tag
        if ']' in s or '[' in s or not s.strip():
            return
        if any('@' in (k + (v or '')) for k, v in want):
            return
        ctx.event('rendered')
        root = Tag(name='root', content='@zzz[%s]{x}' % s, attributes='',
                   context=self.context)
        for fmt in ('html', 'xhtml'):
            out = getattr(root, fmt)
            e = etree.fromstring(str(out)) if fmt == 'xhtml' else \
                lhtml.fragment_fromstring(str(out))
            el = e[0]
            exp = {k: v for k, v in refattrs.select(
                want, fmt, ('class', 'id', 'style')).items()}
            if any(v is None for v in exp.values()):
                return
            exp.setdefault('class', 'zzz')
            ctx.equal(dict(el.attrib), exp, 'rendered-' + fmt,
                      'attributes of the %s element for %r' % (fmt, s))
