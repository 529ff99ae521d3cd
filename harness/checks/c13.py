"""C13: the document tree is the one the include entries describe."""
import re

from ..core import BaseCheck
from ..genproj import ProjGen, order, resolve, source, doc_id, rel, write
from ..lib import make_env, touch_forward


class Check(BaseCheck):
    id = 'C13'
    rule = ('documents, their order, nesting, level and parent == depth-first '
            'walk of the include entries taking every document at its first '
            'place; loading always ends; a missing file is an error that '
            'names it')
    assumptions = ['include entries are paths relative to the including '
                   'document, one per line']
    quick_n = 900
    thorough_n = 12000
    quick_s = 60
    case_cpu = 60
    floor = {'trees': 500, 'cycles': 50, 'missing': 20, 'reloads': 200}

    def gen(self, rng, index, ctx):
        g = ProjGen(rng, ndocs=rng.randint(1, 11), nblocks=1, texts='plain')
        proj = g.project()
        docs = proj['docs']
        names = sorted(docs)
        for d in docs.values():
            d['blocks'] = [b for b in d['blocks'] if b[0] == 'h']
        for _ in range(rng.choice([0, 0, 1, 2, 4])):      # again, and cycles
            q, p = rng.choice(names), rng.choice(names)
            inc = docs[q]['include']
            inc.insert(rng.randint(0, len(inc)), self.spell(rng, q, p, docs))
        missing = None
        if rng.random() < .1:
            q = rng.choice([x[0] for x in order(docs)])
            missing = [q, rng.choice(['nothere.dm', 's/none.dm', '../z.dm'])]
        steps = []
        cur = proj
        for _ in range(rng.randint(0, 3)):
            for _ in range(10):
                e = rng.choice(['reorder', 'reparent', 'again', 'exclude',
                                'adddoc'])
                import copy
                new = copy.deepcopy(cur)
                if getattr(g, 'edit_' + e)(new):
                    cur = new
                    steps.append([e, copy.deepcopy(new)])
                    break
        return dict(proj=proj, missing=missing, steps=steps)

    def spell(self, rng, q, p, docs):
        """Another way to write the path."""
        r = rel(p, q)
        k = rng.randint(0, 3)
        if k == 1:
            r = './' + r
        elif k == 2:
            dirs = sorted({x.split('/')[0] for x in docs if '/' in x})
            base = q.rsplit('/', 1)[0] if '/' in q else ''
            if dirs and not base:
                r = rng.choice(dirs) + '/../' + r
        return r

    def check(self, ctx, case):
        docs = case['proj']['docs']
        with ctx.scratch() as d:
            write(d, case['proj'], None, touch_forward)
            if case['missing']:
                q, name = case['missing']
                docs[q]['include'].append(name)
                (d / 'src' / q).write_text(source(docs[q]), encoding='utf-8')
                try:
                    make_env(d).root_document
                except Exception as e:
                    ctx.event('missing')
                    ctx.count(distinct=['missing', name, q])
                    ctx.expect(name.split('/')[-1] in str(e)
                               and not isinstance(e, RecursionError),
                               'missing:message',
                               'the error for a missing file does not name it:'
                               ' %r' % e)
                else:
                    ctx.fail('missing:accepted', 'the missing file %s of %s '
                             'was ignored' % (name, q))
                return
            env = make_env(d)
            root = env.root_document
            self.compare(ctx, root, docs, 'load')
            old = case['proj']
            for name, proj in case['steps']:
                write(d, proj, old, touch_forward)
                old = proj
                root.load()
                ctx.event('reloads')
                self.compare(ctx, root, proj['docs'], name)

    def compare(self, ctx, root, docs, what):
        want = order(docs)
        if len({x for d, v in docs.items() for x in v['include']}) < sum(
                len(v['include']) for v in docs.values()) or any(
                resolve(q, i) == 'main.dm' for q, v in docs.items()
                for i in v['include']):
            ctx.event('cycles')
        got = []
        for x in root.documents_list(recursive=True):
            pc = x.context.parent_context
            parent = getattr(pc, 'document', None)
            got.append((str(x.src_filepath.subpath), x.context.get('level'),
                        str(parent.src_filepath.subpath)
                        if parent is not None else None))
        ctx.event('trees')
        ctx.event('documents', len(got))
        ctx.count(distinct=want, sample=dict(what=what, tree=want))
        ctx.equal(got, want, 'tree:' + ('load' if what == 'load' else
                                        'reload'),
                  'documents (path, level, parent) after ' + what)
        # the views of the tree agree
        ids = list(root.documents_by_id(recursive=True))
        ctx.equal(ids, [doc_id(docs, p) for p, _, _ in want], 'tree:ids')
        ctx.equal([str(k.subpath) for k in root.documents_dict(
            recursive=True, only_subdocuments=True)],
            [p for p, _, _ in want[1:]], 'tree:dict')
        nested = []

        def walk(doc):
            for s, sub in doc.subdocuments.items():
                nested.append((str(s.subpath), doc.src_filepath.subpath))
                walk(sub)
        walk(root)
        ctx.equal([(a, str(b)) for a, b in nested],
                  [(p, q) for p, _, q in want[1:]], 'tree:nesting')
