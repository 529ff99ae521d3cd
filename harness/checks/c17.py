"""C17: a command that fails fails the build, and what it left is not used.

Projects with images, equations and drawings are built while the external
programs (stand-ins, see harness/faketools) fail in different ways: these exit
with an error, with or without half a file, are killed, write nothing or hang.
The build has to end, must not be done, and has to name the command.  When the
cause is gone, by a repaired program or an edit, the next build has to be done
and every page has to show the files that its own tags describe (the monitor of
C16), whether the environment is kept or new.
"""
import copy
import os
import time

from . import c16
from .. import genmedia
from ..genmedia import MediaGen
from ..lib import make_env, touch_forward

FAILS = ('exit', 'noout', 'killed', 'hang')
TOOLS = ['pdflatex', 'pdf-crop-margins', 'pdf2svg', 'rsvg-convert', 'asy',
         'convert', None]


class Check(c16.Check):
    id = 'C17'
    rule = ('command failed => build ends, is not done and names a failed '
            'command; cause gone => next build done, pages as from scratch; '
            'output of any size and delays change nothing')
    assumptions = [
        'pdflatex, pdf-crop-margins, pdf2svg, rsvg-convert, asy and convert '
        'are replaced with programs that fail on request',
        'the timeout of commands is lowered for commands that hang',
        'a command that is successful but leaves an old file is not judged']
    quick_n = 110
    thorough_n = 2600
    quick_s = 160
    grace_s = 280
    floor = {'failed builds': 16, 'failed:exit': 3, 'failed:killed': 2,
             'failed:noout': 2, 'failed:hang': 2, 'noise': 2,
             'repaired builds': 16, 'repaired by edit': 3,
             'repaired in a kept environment': 4, 'files': 60}

    def cases(self, ctx):
        yield from super(c16.Check, self).cases(ctx)

    def gen(self, rng, index, ctx):
        g = MediaGen(rng, rng.choice(c16.TARGETS))
        proj = g.project()
        for _ in range(rng.randint(0, 3)):
            g.add(proj)
        out, n = [], rng.choice([2, 2, 3, 4])
        rules, by = [], None
        for i in range(n):
            last = i == n - 1
            name = 'start'
            if i:
                name = 'rebuild'
                if not rules or rng.random() < .5:
                    if rules and rng.random() < .4:
                        name, proj = self.cut(rng, proj)
                    else:
                        name, proj = g.edit(proj)
            rules = []
            if not last and (rng.random() < .75 or n == 2):
                rules = [self.rule_of(rng, proj, i == 0)]
            elif last and rng.random() < .2:
                rules = [dict(mode='noise', value=rng.choice(
                    [70000, 300000, 2000000]))]
            out.append(dict(name=name, proj=copy.deepcopy(proj), rules=rules,
                            how=rng.choice(['new', 'live', 'live']),
                            by=rng.choice(['env', 'doc', 'cli'])))
            if i and out[-1]['by'] == 'cli':
                # the build command has a new environment
                out[-1]['how'] = 'new'
        return dict(steps=out, folder=rng.choice(['p', 'p q']),
                    jitter=rng.choice([0, 0, .05]), seed=rng.randint(0, 9))

    def rule_of(self, rng, proj, first):
        mode = rng.choice(['exit', 'exit', 'killed', 'hang', 'noise'] +
                          (['noout'] * 2 if first else ['exit']))
        rule = dict(mode=mode, tool=rng.choice(TOOLS))
        if mode == 'exit':
            rule['value'] = rng.choice([0, 1])
        if mode == 'noise':
            rule['value'] = rng.choice([70000, 300000, 2000000])
        texts = [proj['files'].get(t[2], t[2] or t[1])
                 for d in proj['docs'].values() for _, _, t in d['items']]
        if texts and rng.random() < .5:
            rule['match'] = rng.choice(sorted(texts))
        return rule

    def cut(self, rng, proj):
        """Remove the tags of one or of all documents."""
        new = copy.deepcopy(proj)
        for d in sorted(new['docs']):
            if rng.random() < .6:
                new['docs'][d]['items'] = []
        return 'cut', new

    def check(self, ctx, case):
        from disseminate.builders.builder import Builder
        with ctx.scratch() as d:
            root, env, done, failed = d / case['folder'], None, [], False
            for step in case['steps']:
                proj = step['proj']
                modes = [r['mode'] for r in step['rules']]
                genmedia.write(root, proj, touch_forward)
                done.append('%s (%s, %s%s)' % (
                    step['name'], step['how'], step['by'],
                    ''.join(', %(mode)s of %(tool)s' % dict(r, tool=r.get(
                        'tool')) for r in step['rules'])))
                self.tools.reset()
                self.tools.control(rules=step['rules'], jitter=case['jitter'],
                                   seed=case['seed'])
                if env is None or step['how'] == 'new':
                    env, kept = make_env(root), False
                else:
                    kept = True
                old, start = Builder.timeout, time.time()
                if 'hang' in modes:
                    Builder.timeout = 3
                try:
                    with ctx.guard(cpu=60, wall=300, key='build:hang',
                                   what='build after %s' % done):
                        status, error = self.build(env, step['by'])
                finally:
                    Builder.timeout = old
                took = time.time() - start
                runs = self.settle()
                bad = [r for r in runs if r['rc'] != 0 or
                       r['mode'] == 'noout']
                ctx.event('commands', len(runs))
                ctx.event('noise', sum(r['mode'] == 'noise' for r in runs))
                ctx.count(distinct=[modes, status, str(type(error)),
                                    step['name'], kept],
                          sample=dict(done=done, status=status,
                                      error=str(error)[:200]))
                if not bad:
                    if not ctx.expect(
                            status == 'done', 'build:status',
                            lambda: 'after %s no command failed, and the '
                            'build gives %s %r' % (done, status, error)):
                        return
                    if failed:
                        ctx.event('repaired builds')
                        if kept:
                            ctx.event('repaired in a kept environment')
                        if step['name'] != 'rebuild':
                            ctx.event('repaired by edit')
                    failed = False
                    for path in sorted(proj['docs']):
                        for target in proj['targets']:
                            if not self.page(ctx, root, proj, path, target,
                                             done):
                                return
                    continue
                if not ctx.expect(
                        status != 'done', 'failed:done',
                        lambda: 'after %s the build is done, but these '
                        'commands failed: %s' % (done, [
                            (r['args'], r['mode']) for r in bad])):
                    return
                failed = True
                ctx.event('failed builds')
                for m in set(r['mode'] for r in bad):
                    ctx.event('failed:%s' % m)
                if error is not None:
                    tools = sorted(set(r['tool'] for r in bad))
                    if not ctx.expect(
                            any(t in str(error) for t in tools),
                            'failed:error', lambda: 'after %s the commands %s '
                            'failed, but the error of the build is %r' % (
                                done, tools, error)):
                        return
                else:
                    # a command that wrote nothing gives a status
                    if not ctx.expect(
                            'missing' in str(status), 'failed:status',
                            lambda: 'after %s the commands %s failed, and the '
                            'status of the build is %s' % (done, [
                                r['args'] for r in bad], status)):
                        return
                if 'hang' in modes:
                    hung = [r for r in bad if r['mode'] == 'hang']
                    ctx.expect(
                        not any(alive(r['pid']) for r in hung),
                        'hang:alive', lambda: 'after %s, %.1f seconds, the '
                        'command %s still runs' % (done, took,
                                                   hung[0]['args']))

    def build(self, env, by):
        try:
            if by == 'env':
                return env.build(), None
            if by == 'doc':
                return env.root_document.build(), None
            # as the build command
            builder = env.create_root_builder()
            builder.flatten()
            status = builder.status
            while status in {'ready', 'building'}:
                status = builder.build(complete=False)
            return builder.status, None
        except Exception as e:
            return 'error', e

    def settle(self):
        """Wait for the commands that run on after the end of the build, as
        these may be of use for the next one."""
        end = time.time() + 20
        while time.time() < end:
            runs = self.tools.log()
            if not any(r['end'] is None and alive(r['pid']) for r in runs):
                break
            time.sleep(.02)
        return runs


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rpartition(')')[2].split()[0] not in 'ZX'
    except OSError:
        return False
