"""C04: header entries are inherited as documented, and contexts are isolated.

Monitor 1 drives chains of contexts through random histories of updates,
resets, header loads and direct mutations, and compares the whole state of
*every* context with a deep-copying model after each step.
Monitor 2 loads projects of documents with headers, edits the headers, and
compares the entries of every document's context with the fold of the headers
along its line of ancestors.
"""
import copy
import os

from ..core import BaseCheck, CaseDone
from ..lib import write_project, make_env, touch_forward

WORDS = ['one', 'two', 'x y', 'é', 'v1', 'true', 'False', '12', '3.5', '-4',
         'a.b', 'A title', '@b{t}', 'nested']
KEYS = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'targets',
        'private', 'kept', 'zeta']


def to_text(d, indent=0):
    out = ''
    for k, v in d.items():
        if isinstance(v, dict):
            out += ' ' * indent + k + ':\n' + to_text(v, indent + 2)
        else:
            out += ' ' * indent + k + ': ' + v + '\n'
    return out


def as_items(v):
    """How a string reads as a list (the generator uses commas only)."""
    if isinstance(v, str):
        return [x.strip() for x in v.split(',')] if ',' in v else [v]
    return list(v)


def merge(d, changes, keys=None, overwrite=True, replace=()):
    """Reference for the matched update."""
    for k in (changes if keys is None else keys):
        if k not in changes:
            continue
        c = changes[k]
        if k not in d:
            d[k] = copy.deepcopy(c)
            continue
        if not overwrite:
            continue
        o = d[k]
        if k in replace and isinstance(o, (list, set, dict)):
            o = d[k] = type(o)()
        if isinstance(o, list):
            d[k] = as_items(copy.deepcopy(c)) + o
        elif isinstance(o, set):
            d[k] = o | set(as_items(c))
        elif isinstance(o, dict):
            if isinstance(c, str):
                c = read_flat(c)
            merge(o, c)
        elif isinstance(o, bool):
            s = str(c).strip().lower()
            if s in ('true', 'false'):
                d[k] = s == 'true'
        elif isinstance(o, (int, float)):
            try:
                d[k] = type(o)(c)
            except (ValueError, TypeError):
                pass
        elif type(o) == type(c):
            d[k] = c


def read_flat(text):
    d = {}
    for line in text.split('\n'):
        if line.strip():
            k, v = line.strip().split(':', 1)
            v = v.strip()
            if len(v) > 1 and v[0] == v[-1] == '"':
                v = v[1:-1]
            d[k.strip()] = v
    return d


def freeze(v):
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(str, v)))
    if isinstance(v, list):
        return [freeze(x) for x in v]
    return (type(v).__name__, v) if isinstance(v, (bool, int, float)) else v


def dedent(v):
    return '\n'.join(x for x in v.split('\n'))


class Node:
    """Reference context."""

    def __init__(self, parent, initial, replace, private, kept):
        self.parent, self.initial = parent, copy.deepcopy(initial)
        self.replace, self.private, self.kept = replace, private, kept
        self.d = {}
        self.reset()

    def reset(self):
        self.d = {k: v for k, v in self.d.items() if k in self.kept}
        if self.parent is not None:
            p = self.parent.d
            merge(self.d, p, keys=[k for k in p if k not in self.private],
                  replace=self.replace)
        merge(self.d, self.initial, replace=self.replace)


class Check(BaseCheck):
    id = 'C04'
    rule = ('case = a history of updates, header loads, resets and direct '
            'mutations on a family of contexts, or a project of documents '
            'with headers and an edit history; after every step the state of '
            'every context is compared with the model. Non-trivial: at least '
            'three contexts or documents.')
    assumptions = ['header values are strings or nested entries; the '
                   'conversion of mismatched nested entries is not judged']
    quick_n = 4000
    thorough_n = 60000
    quick_s = 110
    floor = {'steps': 8000, 'contexts_compared': 20000, 'projects': 60,
             'documents_compared': 400, 'edits': 100}

    def setup(self, ctx):
        from disseminate.context import BaseContext

        class Ctxt(BaseContext):
            __slots__ = ()
            do_not_inherit = {'private'}
            exclude_from_reset = {'kept'}
            replace = {'targets'}

        class Sub(Ctxt):
            __slots__ = ()
            do_not_inherit = {'zeta'}
        self.classes = [Ctxt, Sub]
        self.private = [{'private'}, {'private', 'zeta'}]

    # generators

    def gen(self, rng, i, ctx):
        if rng.random() < .06:
            return self.gen_project(rng)
        return self.gen_history(rng)

    def value(self, rng, kind, depth=0):
        w = lambda: rng.choice(WORDS)
        if kind == 'list':
            return [w() for _ in range(rng.randint(0, 3))]
        if kind == 'set':
            return {'set': [w() for _ in range(rng.randint(0, 3))]}
        if kind == 'dict':
            out = {}
            for k in rng.sample(['k1', 'k2', 'k3', 'k4'], rng.randint(0, 3)):
                sub = {'k1': 'str', 'k2': 'list', 'k3': 'set',
                       'k4': 'dict'}[k]
                if depth >= 2 and sub == 'dict':
                    sub = 'str'
                out[k] = self.value(rng, sub, depth + 1)
            return out
        if kind == 'int':
            return rng.randint(-5, 50)
        if kind == 'float':
            return rng.choice([0.5, 2.0, -1.25])
        if kind == 'bool':
            return rng.random() < .5
        return w()

    def gen_history(self, rng):
        kinds = {k: rng.choice(['list', 'set', 'dict', 'int', 'float', 'bool',
                                'str', 'str']) for k in KEYS}
        kinds['targets'] = rng.choice(['set', 'list'])
        kinds['kept'] = rng.choice(['str', 'int'])

        def entries(p=.5):
            return {k: self.value(rng, kinds[k]) for k in KEYS
                    if rng.random() < p}

        def strings(p=.4):
            out = {}
            for k in KEYS:
                if rng.random() >= p:
                    continue
                if kinds[k] == 'dict':
                    out[k] = {x: rng.choice(['one', 'two', 'A title'])
                              for x in rng.sample(['k1', 'k5', 'k6'], 2)}
                elif kinds[k] in ('list', 'set') and rng.random() < .6:
                    out[k] = ', '.join(rng.sample(['one', 'two', 'v1', 'b'],
                                                  rng.randint(2, 3)))
                else:
                    out[k] = rng.choice(WORDS)
            return out
        ops = [['new', None, entries(.7), rng.randint(0, 1)]]
        n = 1
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            t = rng.randrange(n)
            if r < .25 and n < 6:
                ops.append(['new', t, entries(.3), rng.randint(0, 1)])
                n += 1
            elif r < .45:
                ops.append(['update', t, entries(.4),
                            rng.sample(KEYS, 4) if rng.random() < .2 else None,
                            rng.random() < .8])
            elif r < .55:
                ops.append(['string', t, strings(.4)])
            elif r < .68:
                ops.append(['load', t, strings(.4), rng.random() < .5,
                            rng.random() < .8])
            elif r < .82:
                ops.append(['reset', t])
            else:
                ops.append(['mutate', t, rng.choice(KEYS), rng.random()])
        return dict(kind='history', ops=ops)

    def gen_project(self, rng):
        n = rng.randint(3, 6)
        parent = [None] + [rng.randrange(i) for i in range(1, n)]

        def header():
            h = {}
            if rng.random() < .35:
                h['targets'] = rng.choice(['html', 'tex', 'html, tex', 'txt',
                                           '.html, .txt'])
            if rng.random() < .3:
                h['inactive_tags'] = rng.choice(['sidenote', 'part, chapter',
                                                 'marginfig'])
            if rng.random() < .4:
                h['label_fmts'] = {
                    k: rng.choice(['Sec @label.number', '@label.title',
                                   'N @label.tree_number'])
                    for k in rng.sample(['heading', 'heading_section',
                                         'caption_figure', 'mine'], 2)}
            if rng.random() < .4:
                h['label_resets'] = {
                    rng.choice(['chapter', 'section', 'part', 'figure']):
                    rng.choice(['figure, table', 'section, x', 'other'])}
            if rng.random() < .3:
                h['process_paragraphs'] = rng.choice(['title', 'body, mine'])
            if rng.random() < .3:
                h['relative_links'] = rng.choice(['true', 'false', 'maybe'])
            if rng.random() < .2:
                h['template'] = rng.choice(['books/tufte', 'articles/basic',
                                            'default', 'books/novel'])
            if rng.random() < .3:
                h['short'] = rng.choice(['Short one', 'Short two'])
            if rng.random() < .2:
                h['doc_id'] = 'id%d' % rng.randrange(10 ** 6)
            for k in ('mykey', 'other', '@mac', 'base_url'):
                if rng.random() < .4:
                    h[k] = rng.choice(['one', 'two words', 'é', '7'])
            if rng.random() < .3:
                h['own'] = {'a': rng.choice(['1', '2']),
                            'b': {'c': rng.choice(['3', '4'])}}
            return h
        edits = []
        for _ in range(rng.randint(1, 4)):
            edits.append([rng.randrange(n), header()])
        return dict(kind='project', parent=parent,
                    headers=[header() for _ in range(n)], edits=edits)

    # monitors

    def real(self, v):
        if isinstance(v, dict):
            if set(v) == {'set'}:
                return set(v['set'])
            return {k: self.real(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.real(x) for x in v]
        return v

    def check(self, ctx, case):
        if case['kind'] == 'project':
            return self.project(ctx, case)
        objs, models = [], []
        for n, op in enumerate(case['ops']):
            self.step(ctx, op, objs, models)
            ctx.event('steps')
            for j, (o, m) in enumerate(zip(objs, models)):
                ctx.event('contexts_compared')
                if not ctx.equal(freeze(dict(o)), freeze(m.d),
                                 'state:' + op[0],
                                 'context %d after step %d %r of %r' % (
                                     j, n, op, case['ops'])):
                    raise CaseDone()
                if freeze(o.initial_values) != freeze(m.initial):
                    ctx.fail('initial', 'the initial values of context %d '
                             'changed in step %d of %r' % (j, n, case['ops']))
                    raise CaseDone()
        ctx.count(distinct=case['ops'], nontrivial=len(objs) >= 3,
                  sample=case['ops'][:4])

    def step(self, ctx, op, objs, models):
        if op[0] == 'new':
            _, p, init, cls = op
            init = {k: self.real(v) for k, v in init.items()}
            parent = objs[p] if p is not None else None
            kw = copy.deepcopy(init)
            given = copy.deepcopy(kw)
            if parent is not None:
                kw['parent_context'] = parent
            o = self.classes[cls](**kw)
            objs.append(o)
            models.append(Node(models[p] if p is not None else None, given,
                               {'targets'}, self.private[cls], {'kept'}))
            return
        o, m = objs[op[1]], models[op[1]]
        if op[0] == 'update':
            ch = {k: self.real(v) for k, v in op[2].items()}
            before = copy.deepcopy(ch)
            o.match_update(ch, keys=op[3], overwrite=op[4])
            merge(m.d, before, keys=op[3], overwrite=op[4],
                  replace=m.replace)
            ctx.equal(freeze(ch), freeze(before), 'changes-changed',
                      'the entries given to an update were changed')
            # the context must not hold on to what it was given
            for v in ch.values():
                if isinstance(v, list):
                    v.append('LATER')
                elif isinstance(v, set):
                    v.add('LATER')
                elif isinstance(v, dict):
                    v['LATER'] = '1'
        elif op[0] in ('string', 'load'):
            text = to_text(op[2])
            flat = {k: (to_text(v, 2).rstrip('\n') if isinstance(v, dict)
                        else v) for k, v in op[2].items()}
            if op[0] == 'string':
                o.match_update(text)
                merge(m.d, flat, replace=m.replace)
            else:
                src = '---\n' + text + '---\nbody text\n'
                rest = o.load(src, strip_header=op[3], overwrite=op[4])
                if op[2]:
                    merge(m.d, flat, overwrite=op[4], replace=m.replace)
                    ctx.equal(rest, 'body text\n' if op[3] else src,
                              'load-rest', 'text returned by load()')
        elif op[0] == 'reset':
            o.reset()
            m.reset()
        elif op[0] == 'mutate':
            k = op[2]
            for d in (o, m.d):
                self.mutate(d, k, op[3])

    def mutate(self, d, k, x):
        v = d.get(k)
        for _ in range(2):
            if isinstance(v, dict) and v and x < .7:
                sub = sorted(v)[int(x * 100) % len(v)]
                if isinstance(v[sub], (dict, list, set)):
                    v = v[sub]
        if isinstance(v, list):
            v.append('m')
        elif isinstance(v, set):
            v.add('m')
        elif isinstance(v, dict):
            v['m'] = 'm'
        else:
            d[k] = 'mutated'

    # documents

    def model_project(self, parent, headers):
        from disseminate import settings
        out = []
        for i, p in enumerate(parent):
            if p is None:
                d = copy.deepcopy(settings.default_context)
            else:
                d = copy.deepcopy({k: v for k, v in out[p].items()
                                   if k not in ('short', 'doc_id')})
            h = {k: (to_text(v, 2).rstrip('\n') if isinstance(v, dict) else v)
                 for k, v in headers[i].items()}
            rep = ('targets', 'inactive_tags')
            t = h.get('template') or d.get('template')
            merge(d, self.template(t), replace=rep)
            merge(d, h, replace=rep)
            d.setdefault('doc_id', NAMES[i])
            out.append(d)
        return out

    def template(self, name):
        """The entries of a template's own context file."""
        from disseminate import settings
        from disseminate.context import BaseContext
        c = BaseContext()
        p = settings.module_template_paths[0] / name
        chain = [p]
        while True:
            # {% extends "default/template.html" %}
            nxt = None
            for f in sorted(chain[-1].glob('template*')):
                text = f.read_text()
                if 'extends' in text:
                    ref = text.split('extends', 1)[1].split('"')[1]
                    nxt = (settings.module_template_paths[0] / ref).parent
            if nxt is None or nxt in chain:
                break
            chain.append(nxt)
        for q in reversed(chain):
            f = q / 'context.txt'
            if not f.is_file():
                f = q.parent / 'context.txt'
            if f.is_file():
                c.load(f.read_text())
        return dict(c)

    def project(self, ctx, case):
        parent, headers = case['parent'], [dict(h) for h in case['headers']]
        n = len(parent)
        kids = {i: [j for j in range(n) if parent[j] == i] for i in range(n)}

        def source(i):
            h = dict(headers[i])
            text = '---\n' + to_text(h)
            if kids[i]:
                text += 'include:\n' + ''.join(
                    '  %s\n' % os.path.relpath(
                        NAMES[j], os.path.dirname(NAMES[i]) or '.')
                    for j in kids[i])
            if text == '---\n':
                return 'body %d\n' % i
            return text + '---\nbody %d\n' % i
        with ctx.scratch('proj') as d:
            write_project(d, {'src/' + NAMES[i]: source(i)
                              for i in range(n)})
            env = make_env(d)
            root = env.root_document
            ctx.event('projects')
            ctx.count(distinct=[case['parent'], case['headers']],
                      nontrivial=n >= 3, sample=case['headers'][:2])
            self.compare(ctx, root, parent, headers, 'load')
            for who, h in case['edits']:
                headers[who] = dict(h)
                p = d / 'src' / NAMES[who]
                p.write_text(source(who))
                touch_forward(p)
                root.load()
                ctx.event('edits')
                self.compare(ctx, root, parent, headers, 'reload')

    def compare(self, ctx, root, parent, headers, when):
        from disseminate import settings
        want = self.model_project(parent, headers)
        docs = {str(x.src_filepath.subpath): x
                for x in root.documents_list(recursive=True)}
        ctx.equal(sorted(docs), sorted(NAMES[:len(parent)]), when + '-docs',
                  'documents of the project')
        skip = {'body', 'toc', 'prev', 'next', 'srclink', 'txtlink',
                'texlink', 'pdflink', 'epublink', 'paths', 'include'}
        for i in range(len(parent)):
            ctx.event('documents_compared')
            real = docs[NAMES[i]].context
            for k in set(want[i]) - skip | {'short', 'doc_id', 'mykey'}:
                got = real.get(k, '<missing>')
                exp = want[i].get(k, '<missing>')
                if k == 'epub':
                    continue
                if hasattr(got, 'default_fmt'):
                    got = got.default_fmt()
                if not ctx.equal(freeze(got), freeze(exp), when + ':' +
                                 ('entry' if k in ('mykey', 'other', '@mac')
                                  else k),
                                 'entry %r of document %d; parents %r, '
                                 'headers %r' % (k, i, parent, headers)):
                    raise CaseDone()


NAMES = ['main.dm', 'a.dm', 'sub/b.dm', 'sub/c.dm', 'd.dm', 'sub/deep/e.dm']
