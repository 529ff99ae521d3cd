"""C18: a build that was killed does not spoil the builds after it.

Builds run in child processes that are killed at a chosen write, at the start
of a command, or at a random time; the commands (stand-ins, harness/faketools)
that run then are killed as well, or run on.  The next build in a new process
has to be done and has to leave the files of a clean build of the same sources.
"""
import copy
import os
import re
import shutil
import signal
import threading
import time

from . import c16, c17
from .. import genmedia
from ..core import BaseCheck
from ..faketools import FakeTools
from ..faults import child
from ..genmedia import MediaGen
from ..lib import make_env, touch_forward

TARGETS = c16.TARGETS + [['html', 'txt'], ['tex', 'txt']]


def files(root, tmp):
    """{path: contents} of the written files; of epubs, the members."""
    import zipfile
    out = {}
    for p in sorted(root.rglob('*')):
        rel = p.relative_to(root)
        if not p.is_file() or rel.parts[0] in ('src', '.cache'):
            continue
        if p.suffix == '.epub':
            try:
                with zipfile.ZipFile(p) as z:
                    for n in z.namelist():
                        out['%s!%s' % (rel, n)] = clean(z.read(n), root, tmp)
            except zipfile.BadZipFile:
                out[str(rel)] = 'not an epub'
        else:
            out[str(rel)] = clean(p.read_bytes(), root, tmp)
    return out


def clean(data, root, tmp):
    s = data.decode('utf-8', 'replace').replace(str(root), 'ROOT')
    s = s.replace('ROOT' + str(root)[len(str(tmp)):], 'ROOT')
    s = re.sub(r'(urn:uuid:)[-0-9A-Fa-f]+', r'\1', s)
    s = re.sub(r'(dcterms:modified">)\d{4}-[-0-9T:Z]+', r'\1', s)
    return re.sub(r'(?m)^/(CreationDate|ID).*$', '', s)


class Check(BaseCheck):
    id = 'C18'
    rule = ('files(build after killed builds) == files(clean build of the same'
            ' sources), and the build is done')
    assumptions = [
        'a killed process keeps the writes that it finished, in their order',
        'commands that are still running when a build is killed are killed or '
        'end before the next build starts',
        'the external programs are replaced with stand-ins']
    quick_n = 80
    thorough_n = 4000
    quick_s = 160
    grace_s = 280
    floor = {'killed': 12, 'killed at a write': 6, 'killed at a time': 2,
             'killed at a command': 3, 'recovered': 16, 'compared': 160,
             'killed after an edit': 3, 'commands killed': 2}

    def setup(self, ctx):
        self.tools = FakeTools(ctx.tmp / 'tools', ctx.tmp)
        self.tools.on_path()

    def gen(self, rng, index, ctx):
        g = MediaGen(rng, rng.choice(TARGETS))
        proj = g.project()
        steps = []
        for i in range(rng.choice([1, 1, 2, 3])):
            kills = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if i else
                           rng.choice([0, 1, 1, 2])):
                kills.append(self.kill(rng))
            name = 'start'
            if i:
                names = []
                for _ in range(rng.choice([1, 1, 2])):
                    name, proj = g.edit(proj)
                    names.append(name)
                name = '+'.join(names)
            steps.append(dict(name=name, proj=copy.deepcopy(proj),
                              kills=kills))
        if not any(s['kills'] for s in steps):
            steps[-1]['kills'].append(self.kill(rng))
        return dict(steps=steps, seed=rng.randint(0, 9),
                    jitter=rng.choice([0, .2, .6]))

    def kill(self, rng):
        r = rng.random()
        orphans = rng.random() < .5
        if r < .35:
            return ['command', rng.randint(1, 5), orphans]
        if r < .85:
            return ['write', int(2 ** rng.uniform(0, 7.5)), orphans]
        return ['time', round(rng.uniform(.02, 1.5), 2), orphans]

    def build(self, root, die=None, when=None, after=None):
        def go():
            return make_env(root).build()
        if when is None and after is None:
            return child(go, root, die)
        # killed from outside
        started = {}

        def timed():
            pid = os.getpid()

            def kill():
                if when is not None:
                    time.sleep(when)
                else:
                    # while the command runs
                    while len(self.tools.log()) < after:
                        time.sleep(.005)
                os.kill(pid, signal.SIGKILL)
            t = threading.Thread(target=kill, daemon=True)
            t.start()
            return go()
        return child(timed, root)

    def settle(self, orphans, ctx):
        """End the commands of a killed build, or wait for their ends."""
        end = time.time() + 20
        while time.time() < end:
            runs = [r for r in self.tools.log() if r['end'] is None and
                    c17.alive(r['pid'])]
            if not runs:
                return
            if orphans:
                for r in runs:
                    try:
                        os.kill(r['pid'], signal.SIGKILL)
                        ctx.event('commands killed')
                    except ProcessLookupError:
                        pass
            time.sleep(.01)

    def check(self, ctx, case):
        with ctx.scratch() as d:
            root, other = d / 'a' / 'p', d / 'b' / 'p'
            done = []
            for step in case['steps']:
                genmedia.write(root, step['proj'], touch_forward)
                done.append(step['name'])
                for kind, value, orphans in step['kills']:
                    self.tools.reset()
                    self.tools.control(jitter=case['jitter'],
                                       seed=case['seed'])
                    out = self.build(root, **{
                        {'write': 'die', 'time': 'when',
                         'command': 'after'}[kind]: value})
                    # a command may have just been started
                    time.sleep(.05 if out['killed'] else 0)
                    self.settle(orphans, ctx)
                    done.append('killed at %s %s' % (kind, value)
                                if out['killed'] else 'built')
                    if out['killed']:
                        ctx.event('killed')
                        ctx.event('killed at a ' + kind)
                        if step['name'] != 'start':
                            ctx.event('killed after an edit')
                self.tools.reset()
                self.tools.control(seed=case['seed'])
                out = self.build(root)
                if not ctx.expect(
                        out.get('status') == 'done', 'build:status',
                        lambda: 'after %s the build gives %s' % (done, out)):
                    return
                done.append('built')
                if other.exists():
                    shutil.rmtree(other)
                shutil.copytree(root / 'src', other / 'src')
                want = self.build(other)
                if not ctx.expect(
                        want.get('status') == 'done', 'build:clean',
                        lambda: 'a clean build of %s gives %s' % (
                            step['name'], want)):
                    return
                ctx.event('recovered')
                ctx.count(distinct=[step['kills'], step['proj']['docs']],
                          sample=dict(done=done, events=out.get('events')))
                if not self.compare(ctx, files(root, ctx.tmp),
                                    files(other, ctx.tmp), done):
                    return

    def compare(self, ctx, got, want, done):
        for path in sorted(want):
            ctx.event('compared')
            if got.get(path) == want[path]:
                continue
            ext = path.rpartition('.')[2]
            where = 'missing'
            if path in got:
                a, b = got[path], want[path]
                n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                         min(len(a), len(b)))
                n = max(0, n - 40)
                where = '...%r, in a clean build ...%r' % (a[n:n + 160],
                                                          b[n:n + 160])
            ctx.fail('recovery:' + ext, 'after %s the file %s is not that of '
                     'a clean build: %s' % (done, path, where))
            return False
        return True
