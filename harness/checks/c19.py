"""C19: commands run at the same time do not disturb one another.

Projects in which the same equations, drawings and images are used by many
tags, documents and targets are built while the commands (stand-ins, see
harness/faketools) take different times.  The log of the commands has to show
that each file is written by one command, once in a build, that a file is only
read after the command that writes it has ended, and that a build without edits
runs no command.  The pages have to show the files of their own tags (the
monitor of C16).
"""
import copy

from . import c16
from .. import genmedia
from ..faketools import conflicts
from ..genmedia import MediaGen, EQS, ASY
from ..lib import make_env, touch_forward


class Check(c16.Check):
    id = 'C19'
    rule = ('in the log of a build: no overlapping use of a file that is '
            'written; one run for each file; reads after the writes; no run '
            'without edits')
    assumptions = c16.Check.assumptions + [
        'one build runs at a time in a project']
    quick_n = 100
    thorough_n = 2500
    quick_s = 140
    grace_s = 280
    floor = {'builds': 40, 'runs': 120, 'overlapping runs': 24,
             'shared files': 12, 'chained reads': 40, 'idle builds': 16,
             'files': 120}

    def cases(self, ctx):
        yield from super(c16.Check, self).cases(ctx)

    def gen(self, rng, index, ctx):
        g = MediaGen(rng, rng.choice(c16.TARGETS + [
            ['html', 'xhtml', 'epub', 'tex', 'pdf']]))
        proj = g.project()
        # the same equations, drawings and images in many places
        for path in sorted(proj['docs']):
            items = proj['docs'][path]['items']
            for _ in range(rng.randint(0, 4)):
                tags = [i[2] for d in proj['docs'].values()
                        for i in d['items']]
                if not tags or rng.random() < .3:
                    g.add(proj)
                    continue
                tag = copy.deepcopy(rng.choice(tags))
                if tag[0] != 'eq' and tag[2]:
                    tag[1] = g.written(path, tag[2])
                if rng.random() < .3:
                    tag[3] = g.opts((tag[2] or '.asy').rpartition('.')[2]) \
                        if tag[0] != 'eq' else []
                g.n += 1
                items.insert(rng.randint(0, len(items)), [
                    'k%d' % g.n, rng.choice(genmedia.WRAPPERS), tag])
        out = [dict(name='start', proj=copy.deepcopy(proj), how='new')]
        for _ in range(rng.choice([0, 1, 1, 2])):
            names = []
            for _ in range(rng.choice([1, 2, 3])):
                name, proj = g.edit(proj)
                names.append(name)
            out.append(dict(name='+'.join(names), proj=copy.deepcopy(proj),
                            how=rng.choice(['new', 'live', 'live'])))
        return dict(steps=out, folder='p', seed=rng.randint(0, 99),
                    jitter=rng.choice([0, .05, .2, .4]))

    def check(self, ctx, case):
        with ctx.scratch() as d:
            root, env, done = d / case['folder'], None, []
            for step in case['steps']:
                proj = step['proj']
                genmedia.write(root, proj, touch_forward)
                done.append('%s (%s)' % (step['name'], step['how']))
                self.tools.reset()
                self.tools.control(jitter=case['jitter'], seed=case['seed'])
                if env is None or step['how'] == 'new':
                    env = make_env(root)
                with ctx.guard(cpu=60, wall=300, key='build:hang',
                               what='build after %s' % done):
                    status = env.build()
                runs = self.tools.log()
                ctx.event('builds')
                ctx.event('runs', len(runs))
                bad = [r for r in runs if r['rc'] != 0]
                if not ctx.expect(status == 'done' and not bad,
                                  'build:status', lambda: 'after %s the build '
                                  'gives %s, and these commands fail: %s' % (
                                      done, status, [(r['tool'], r['args'],
                                                      r.get('msg'))
                                                     for r in bad])):
                    return
                if not self.judge(ctx, runs, done):
                    return
                for path in sorted(proj['docs']):
                    for target in proj['targets']:
                        if not self.page(ctx, root, proj, path, target, done):
                            return
                # once more
                self.tools.reset()
                e = env if case['seed'] % 2 else make_env(root)
                status = e.build()
                runs = self.tools.log()
                ctx.event('idle builds')
                if not ctx.expect(
                        status == 'done' and not runs, 'idle',
                        lambda: 'after %s, a build without edits gives %s and '
                        'runs %s' % (done, status, [r['args'] for r in runs])):
                    return

    def judge(self, ctx, runs, done):
        writers, reads = {}, 0
        for i, a in enumerate(runs):
            for b in runs[i + 1:]:
                if b['start'] < a['end'] and a['start'] < b['end']:
                    ctx.event('overlapping runs')
            for w in a['writes']:
                writers.setdefault(w, []).append(a)
        used = {}
        for r in runs:
            for f in set(r['reads']) | set(r['images']):
                used.setdefault(f, []).append(r)
                for w in writers.get(f, []):
                    if w is r:
                        continue
                    ctx.event('chained reads')
                    if not ctx.expect(
                            w['end'] <= r['start'], 'read:early',
                            lambda: 'after %s the command %s reads %s, which '
                            'is written by %s until %.3f s later' % (
                                done, r['args'], f, w['args'],
                                w['end'] - r['start'])):
                        return False
        ctx.event('shared files', sum(len(u) > 1 for u in used.values()))
        ctx.count(distinct=[sorted(r['tool'] for r in runs),
                            [r['args'][-1:] for r in runs][:3], done],
                  sample=dict(done=done, runs=len(runs)))
        for f, w in writers.items():
            if not ctx.expect(
                    len(w) == 1, 'written:twice', lambda: 'after %s the file '
                    '%s is written %d times in a build: %s' % (
                        done, f, len(w), [x['args'] for x in w])):
                return False
        found = conflicts(runs)
        return ctx.expect(
            not found, 'overlap', lambda: 'after %s the commands %s and %s '
            'use %s at the same time' % (done, found[0][0]['args'],
                                         found[0][1]['args'], found[0][2]))
