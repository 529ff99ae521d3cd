"""C14: reloading an edited project gives what loading it afresh gives.

One long-lived environment is taken through a history of edits of its source
files (texts, headings, ids, headers, includes, added, moved and deleted
documents, errors and their repair).  After every edit it is reloaded, and all
that can be seen of it (tree, contexts, labels with their numbers, navigation,
renderings for every target) is compared with a fresh environment opened on the
same files.
"""
import copy
import re

from ..core import BaseCheck
from ..genproj import ProjGen, write
from ..lib import make_env, touch_forward
from .. import observe


class Check(BaseCheck):
    id = 'C14'
    rule = ('after each step: observe(reloaded environment) == '
            'observe(fresh environment on the same files), or both raise the '
            'same kind of error; a load without edits loads nothing')
    assumptions = [
        'an edit gives a file a later modification time (what the loader '
        'looks at), as saving a file does',
        'several edits may lie between two loads; files that are not edited '
        'keep their modification time']
    quick_n = 260
    thorough_n = 4000
    quick_s = 120
    floor = {'steps': 300, 'edit:adddoc': 5, 'edit:exclude': 5,
             'error_steps': 10, 'recoveries': 5}

    def gen(self, rng, index, ctx):
        g = ProjGen(rng, ndocs=rng.randint(1, 6), nblocks=rng.randint(1, 7),
                    targets=rng.choice([['html', 'tex'], ['html'],
                                        ['html', 'txt', 'tex'],
                                        ['html', 'epub']]))
        proj = g.project()
        steps = [['start', copy.deepcopy(proj)]]
        good = proj
        for _ in range(rng.randint(3, 9)):
            names, new = [], good
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if 'break' in names:
                    break
                name, new = g.edit(new)
                names.append(name)
            steps.append(['+'.join(names), copy.deepcopy(new)])
            new.pop('touch', None)
            if 'break' not in names:
                good = new
        return dict(steps=steps)

    def load(self, f):
        """('ok', observation) or ('error', type)."""
        try:
            return 'ok', observe.project(f())
        except RecursionError:
            raise
        except Exception as e:
            # the message may name objects by address
            return 'error', type(e).__name__, re.sub(r'0x\w+', '', str(e))

    def check(self, ctx, case):
        with ctx.scratch() as d:
            root, live, old = d / 'p', None, None
            failed_before = False
            done = []
            for n, (name, proj) in enumerate(case['steps']):
                proj = copy.deepcopy(proj)
                changed = write(root, proj, old, touch_forward)
                old = proj
                done.append(name)

                fresh = self.load(lambda: make_env(root).root_document)
                if live is None:
                    try:
                        env = make_env(root)
                        live = env.root_document
                    except Exception as e:
                        # the start project may already be in error
                        ctx.event('start_in_error')
                        return
                    got = self.load(lambda: live)
                else:
                    def reload_():
                        live.load()
                        return live
                    got = self.load(reload_)
                ctx.event('steps')
                for e in name.split('+'):
                    ctx.event('edit:' + e)
                if fresh[0] == 'error':
                    ctx.event('error_steps')
                    failed_before = True
                elif failed_before:
                    ctx.event('recoveries')
                    failed_before = False
                ctx.count(distinct=[fresh[0], name, proj['docs']],
                          sample=dict(step=name, changed=changed,
                                      outcome=fresh[0]))
                if not self.compare(ctx, got, fresh, done):
                    return
                if fresh[0] == 'error':
                    # still in error
                    got = self.load(reload_ if n else (lambda: live))
                    if n and not self.compare(ctx, got, fresh,
                                              done + ['again']):
                        return
                if fresh[0] == 'ok':
                    # nothing changed: nothing is loaded
                    again = live.load()
                    if not ctx.expect(not again, 'reload:not-idle',
                                      'a load without edits loaded documents '
                                      'again after ' + name):
                        return

    def compare(self, ctx, got, fresh, done):
        ctx.event('comparisons')
        if got[0] != fresh[0] or got[0] == 'error':
            return ctx.expect(
                got[:2] == fresh[:2], 'reload:outcome',
                lambda: 'after the edits %s\n reload: %s\n fresh: %s' % (
                    done, str(got)[:900], str(fresh)[:900]))
        diff = observe.difference(got[1], fresh[1])
        if diff is None:
            return True
        where = re.sub(r'/\d+', '', diff[0])
        parts = where.split('/')
        ctx.fail('reload:' + '/'.join(parts[1:4]),
                 'after the edits %s the reloaded project differs from the '
                 'same project loaded afresh at %s\n reloaded: %r\n fresh:    '
                 '%r' % (done, diff[0], diff[1], diff[2]))
        return False
