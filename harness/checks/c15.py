"""C15: an incremental build leaves exactly the files of a clean build.

A project is taken through a history of edits of its sources and images and of
damage to its written files.  After every step it is built again (in the same
environment, in a new one, or with a loop of the root builder, as the command
line does), and every file that a clean build of a copy of the sources writes
is compared with the file in the project.  A further build without edits must
not write anything.  A watchdog judges whether builds end.
"""
import copy
import os
import re
import shutil
import signal
import zipfile
from pathlib import Path

from ..core import BaseCheck
from ..genproj import ProjGen, write, order
from ..lib import make_env, touch_forward

TEXT = ('.html', '.xhtml', '.tex', '.txt', '.css', '.svg')
LIMIT = 120
SVG = ('<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" '
       'width="%d" height="10"><rect width="%d" height="4"/></svg>\n')


class TooLong(BaseException):
    pass


def alarm(*args):
    raise TooLong


def limited(f):
    """The result of a function that has to end."""
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def files(root):
    """{path: (contents, modification time)} of the written files."""
    root, out = Path(root), {}
    for p in sorted(root.rglob('*')):
        rel = p.relative_to(root)
        if not p.is_file() or rel.parts[0] in ('src', '.cache'):
            continue
        mtime = p.stat().st_mtime_ns
        if p.suffix == '.epub':
            try:
                with zipfile.ZipFile(p) as z:
                    for n in sorted(z.namelist()):
                        out['%s!%s' % (rel, n)] = (text(z.read(n), root),
                                                   mtime)
            except zipfile.BadZipFile:
                out[str(rel)] = ('not an epub', mtime)
        elif p.suffix == '.pdf':
            out[str(rel)] = (pdf(p), mtime)
        else:
            out[str(rel)] = (text(p.read_bytes(), root), mtime)
    return out


def text(data, root):
    s = data.decode('utf-8', 'replace').replace(str(root), 'ROOT')
    # the identifier and date of an epub are new in every build
    s = re.sub(r'(urn:uuid:)[-0-9A-Fa-f]+', r'\1', s)
    return re.sub(r'(dcterms:modified">)\d{4}-[-0-9T:Z]+', r'\1', s)


def pdf(p):
    import subprocess
    out = subprocess.run(['pdftotext', '-layout', str(p), '-'],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return out.stdout.decode('utf-8', 'replace')


class Check(BaseCheck):
    id = 'C15'
    rule = ('after each step: files(project built again) == files(clean build '
            'of a copy of its sources), and a further build without edits '
            'writes no file; every build ends')
    assumptions = [
        'an edit gives a file a later modification time',
        'files of documents and targets that are not part of the project any '
        'more may remain',
        'pages that are removed or changed by others are written again, and '
        'so are all files in a new environment if all of them are removed; '
        'histories that remove only the copies of images or style sheets are '
        'left out',
        'pdf files are compared by the text that they show; identifiers and '
        'dates of epub files are left out',
        'equations and asymptote figures are left out, as the programs for '
        'these (pdf-crop-margins, asy) do not work in this sandbox']
    quick_n = 60
    thorough_n = 1200
    quick_s = 150
    floor = {'steps': 60, 'compared': 400, 'idle': 60, 'edit:image': 3,
             'edit:header': 3, 'edit:damage': 3, 'how:new': 10,
             'how:live': 15, 'how:loop': 5, 'rewritten': 60, 'kept': 60}

    def gen(self, rng, index, ctx):
        targets = rng.choice([
            ['html'], ['html', 'tex', 'txt'], ['html', 'txt'], ['xhtml'],
            ['epub'], ['html', 'epub'], ['tex'], ['html', 'xhtml', 'tex'],
            ['tex', 'txt']])
        if ctx.tier != 'quick' and rng.random() < .1:
            targets = ['pdf', 'html']
        g = ProjGen(rng, ndocs=rng.randint(1, 5), nblocks=rng.randint(0, 5),
                    targets=targets,
                    texts='plain' if 'pdf' in targets else None)
        good = g.project()
        if rng.random() < .3:
            # documents with the same text
            paths = sorted(good['docs'])
            a, b = rng.choice(paths), rng.choice(paths)
            good['docs'][a]['blocks'] = [
                x for x in good['docs'][b]['blocks'] if x[0] == 'p'
                and not any(i[0] == 'r' for i in x[1])]
        images = {}
        if 'tex' not in targets and 'pdf' not in targets:
            for path in good['docs']:
                if rng.random() < .4:
                    name = rng.choice(['pic.svg', 'img/a b.svg', 'été.svg'])
                    images[name] = rng.randint(1, 99)
                    good['docs'][path]['blocks'].append(
                        ['raw', '@img{%s}' % name])
        steps = [dict(name='start', proj=copy.deepcopy(good),
                      images=dict(images), how='live', damage=[])]
        for _ in range(rng.randint(2, 6)):
            names, new, damage = [], good, []
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random()
                if r < .12 and images:
                    k = rng.choice(sorted(images))
                    images = dict(images, **{k: rng.randint(1, 99)})
                    names.append('image')
                elif r < .24:
                    damage.append([rng.choice(['remove', 'change', 'truncate',
                                               'all']),
                                   rng.random()])
                    names.append('damage')
                elif 'break' not in names:
                    name, new = g.edit(new)
                    names.append(name)
            step = dict(name='+'.join(names), proj=copy.deepcopy(new),
                        images=dict(images), damage=damage,
                        how=rng.choice(['live', 'live', 'new', 'loop']))
            if any(kind == 'all' for kind, _ in damage):
                step['how'] = 'new'
            steps.append(step)
            new.pop('touch', None)
            if 'break' not in names:
                good = new
        return dict(steps=steps)

    def build(self, env, how):
        if how == 'loop':
            # as the command line does
            env.root_document.load()
            builder = env.create_root_builder()
            status = builder.status
            while status in {'ready', 'building'}:
                status = builder.build(complete=False)
            return builder.status
        return env.root_document.build()

    def run_build(self, env, how):
        try:
            return limited(lambda: self.build(env, how))
        except TooLong:
            return 'endless'

    def attempt(self, f):
        try:
            return 'ok', f()
        except RecursionError:
            raise
        except Exception as e:
            return 'error', type(e).__name__, re.sub(r'0x\w+', '', str(e))

    def check(self, ctx, case):
        with ctx.scratch() as d:
            root, clean = d / 'p', d / 'clean'
            env, old, done, before = None, None, [], {}
            for step in case['steps']:
                name, how = step['name'], step['how']
                proj = copy.deepcopy(step['proj'])
                write(root, proj, old, touch_forward)
                old = proj
                self.images(root, step['images'], proj)
                self.damage(root, step['damage'])
                done.append('%s (%s)' % (name, how))

                # the clean build
                if clean.exists():
                    shutil.rmtree(clean)
                shutil.copytree(root / 'src', clean / 'src')
                want = self.attempt(lambda: self.run_build(make_env(clean),
                                                           'live'))
                if want[-1] == 'endless':
                    ctx.fail('build:endless', 'a clean build does not end '
                             'after ' + str(done))
                    return
                expected = files(clean)

                # the project itself
                if how == 'new' or env is None:
                    env = None

                    def go():
                        e = make_env(root)
                        return e, self.run_build(e, how)
                else:
                    def go():
                        return env, self.run_build(env, how)
                got = self.attempt(go)
                if got[0] == 'ok':
                    env, status = got[1]
                    got = ('ok', status)
                ctx.event('steps')
                ctx.event('how:' + how)
                for e in name.split('+'):
                    ctx.event('edit:' + e)
                ctx.count(distinct=[name, how, proj['docs'], step['images']],
                          sample=dict(step=name, how=how, outcome=want[-1]))
                if want[0] == 'error' or want[1] != 'done':
                    # The sources cannot be built: neither can the project
                    ctx.event('error_steps')
                    if not ctx.expect(
                            got[:2] == want[:2], 'build:outcome',
                            lambda: 'after %s\n incremental build: %s\n clean '
                            'build: %s' % (done, got, want)):
                        return
                    if env is None:
                        return
                    continue
                if not ctx.expect(
                        got == want, 'build:status', lambda: 'after %s the '
                        'build gives %s, a clean build gives %s' % (
                            done, got, want)):
                    return
                actual = files(root)
                if not self.compare(ctx, actual, expected, done, before):
                    return
                before = actual

                # once more, without edits
                for e in (env, None):
                    if e is None and how != 'new':
                        continue
                    e = e or make_env(root)
                    status = self.run_build(e, how)
                    again = files(root)
                    written = [k for k in again if again[k] != actual.get(k)]
                    ctx.event('idle')
                    if not ctx.expect(
                            status == 'done' and not written, 'build:idle',
                            lambda: 'after %s a build without edits (%s) gives'
                            ' %s and writes %s' % (done, how, status,
                                                   written)):
                        return

    def images(self, root, images, proj):
        for name, width in images.items():
            data = SVG % (width, width)
            for path in proj['docs']:
                p = root / 'src' / os.path.dirname(path) / name
                if p.exists() and p.read_text() == data:
                    continue
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(data)
                touch_forward(p)

    def damage(self, root, damage):
        for kind, r in damage:
            pages = sorted(p for p in root.rglob('*')
                           if p.is_file() and p.suffix in
                           ('.html', '.xhtml', '.tex', '.txt', '.epub')
                           and p.relative_to(root).parts[0]
                           not in ('src', '.cache'))
            if kind == 'all':
                for p in root.iterdir():
                    if p.name not in ('src', '.cache'):
                        shutil.rmtree(p)
            elif not pages:
                continue
            elif kind == 'remove':
                pages[int(r * len(pages))].unlink()
            elif kind == 'change':
                with open(pages[int(r * len(pages))], 'ab') as f:
                    f.write(b'changed')
            elif kind == 'truncate':
                pages[int(r * len(pages))].write_bytes(b'')

    def compare(self, ctx, actual, expected, done, before):
        for path in sorted(expected):
            ctx.event('compared')
            if path in before:
                ctx.event('kept' if actual.get(path) == before[path]
                          else 'rewritten')
            want = expected[path][0]
            got = actual.get(path, (None,))[0]
            if got == want:
                continue
            ext = path.rpartition('.')[2]
            where = 'missing'
            if got is not None:
                a, b = got.split('\n'), want.split('\n')
                n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                         min(len(a), len(b)))
                where = 'line %d: %r, a clean build gives %r' % (
                    n + 1, a[n:n + 2], b[n:n + 2])
            ctx.fail('build:stale:' + ext,
                     'after %s the file %s is not that of a clean build: %s'
                     % (done, path, where))
            return False
        return True
