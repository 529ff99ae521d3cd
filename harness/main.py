"""Runs one check: spawns the workers, merges, writes evidence, gives the verdict."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

from .core import Ctx, HOME, HarnessError, load_known, sha


def get_check(pid):
    mod = importlib.import_module('harness.checks.' + pid.lower())
    return mod.Check()


def worker(args):
    check = get_check(args.pid)
    tmp = Path(args.tmp)
    tmp.mkdir(parents=True, exist_ok=True)
    ctx = Ctx(check, args.tier, args.seed, args.shard, args.nshards, tmp,
              deadline=time.monotonic() + args.budget)
    err = None
    try:
        import disseminate
        from .core import REPO
        assert str(disseminate.__file__).startswith(str(REPO)), \
            disseminate.__file__
        check.run(ctx)
    except BaseException:
        err = traceback.format_exc()
    out = dict(evaluations=ctx.evaluations, distinct=sorted(ctx.distinct),
               events=dict(ctx.events), samples=ctx.samples,
               violations=ctx.violations, keys=dict(ctx.violation_keys),
               error=err)
    p = Path(args.out)
    p.with_suffix('.tmp').write_text(json.dumps(out, default=str))
    os.replace(str(p.with_suffix('.tmp')), str(p))
    sys.stdout.flush()
    # Threads of the code under test must not keep a finished worker alive
    os._exit(2 if err else 0)


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def second_opinion(pid, note, tmp, env):
    """A worker was lost in a case: does the case, alone, end a process
    again?  Only then it is a violation."""
    p = subprocess.Popen([sys.executable, '-m', 'harness.main', pid,
                          '--replay', str(note)], cwd=str(HOME),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=140)
    except subprocess.TimeoutExpired:
        kill_group(p)
        p.wait()
        return 'hang', 'the case does not end (140 s, alone)'
    kill_group(p)
    text = out.decode('utf-8', 'replace')[-1500:]
    if p.returncode < 0:
        return 'crash', 'the process dies of signal %d\n%s' % (
            -p.returncode, text)
    if p.returncode == 1:
        return 'reproduced', text
    return None, text


def replay(args):
    rec = json.loads(Path(args.replay).read_text())
    check = get_check(rec['property'])
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        ctx = Ctx(check, rec.get('tier', args.tier), rec['seed'], 0, 1, tmp)
        check.setup(ctx)
        check.one(ctx, rec['index'], rec['case'])
        check.teardown(ctx)
        for v in ctx.violations:
            print('--', v['key'], '\n', v['msg'])
        print('reproduced' if ctx.violations else 'not reproduced')
        sys.stdout.flush()
        os._exit(1 if ctx.violations else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--nshards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--tmp')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.replay:
        return replay(args)
    if args.shard is not None:
        return worker(args)

    t0 = time.monotonic()
    check = get_check(args.pid)
    pid = check.id
    thorough = args.tier == 'thorough'
    budget = check.thorough_s if thorough else check.quick_s
    nshards = getattr(check, 'thorough_shards', check.shards) if thorough \
        else check.shards
    tmp = Path(tempfile.mkdtemp(prefix='verif-%s-' % pid))
    procs = []
    results = []
    lost = []
    lost_checked = 0
    evidence = HOME / 'evidence' / (pid + '.json')
    evidence.parent.mkdir(exist_ok=True)
    if evidence.exists():
        evidence.unlink()
    try:
        for i in range(nshards):
            out = tmp / ('r%d.json' % i)
            log = open(str(tmp / ('log%d' % i)), 'wb')
            p = subprocess.Popen(
                [sys.executable, '-m', 'harness.main', pid, '--tier',
                 args.tier, '--seed', str(args.seed), '--shard', str(i),
                 '--nshards', str(nshards), '--out', str(out), '--tmp',
                 str(tmp / ('s%d' % i)), '--budget', str(budget)],
                stdout=log, stderr=subprocess.STDOUT, cwd=str(HOME),
                stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((i, p, out, log))
        hard = time.monotonic() + budget + check.grace_s
        for i, p, out, log in procs:
            try:
                p.wait(timeout=max(1, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                lost.append('worker %d exceeded the wall limit' % i)
            kill_group(p)
            p.wait()
            log.close()
            if out.exists():
                r = json.loads(out.read_text())
                results.append(r)
                if r['error']:
                    lost.append('worker %d: %s' % (i, r['error']))
            else:
                note = tmp / ('s%d' % i) / 'current.json'
                key = None
                if note.exists() and lost_checked < 2:
                    lost_checked += 1
                    key, text = second_opinion(pid, note, tmp, None)
                if key:
                    rec = json.loads(note.read_text())
                    results.append(dict(
                        evaluations=0, distinct=[], events={}, samples=[],
                        error=None, keys={key: 1},
                        violations=[dict(key=key, msg=text, case=rec['case'],
                                         index=rec['index'], detail={})]))
                    continue
                tail = (tmp / ('log%d' % i)).read_bytes()[-1500:]
                lost.append('worker %d left no result (rc %s): %s' % (
                    i, p.returncode, tail.decode('utf-8', 'replace')))
    finally:
        for i, p, out, log in procs:
            kill_group(p)
        shutil.rmtree(str(tmp), ignore_errors=True)

    events, keys = Counter(), Counter()
    distinct = set()
    samples, violations = [], []
    evaluations = 0
    for r in results:
        events.update(r['events'])
        keys.update(r['keys'])
        distinct.update(r['distinct'])
        samples += r['samples'][:1]
        violations += r['violations']
        evaluations += r['evaluations']

    known = load_known().get(pid, {})
    new = [v for v in violations if v['key'] not in known]
    found_known = sorted({k for k in keys if k in known})

    low = {k: (events.get(k, 0), n) for k, n in check.floor.items()
           if events.get(k, 0) < n}
    wall = round(time.monotonic() - t0, 2)
    ev = dict(property=pid, tier='thorough' if thorough else 'quick',
              seed=args.seed, level=check.level,
              coverage=dict(evaluations=evaluations,
                            distinct_nontrivial=len(distinct),
                            rule=check.rule,
                            samples=samples[:4],
                            observed=dict(sorted(events.items())),
                            workers=nshards,
                            lost_workers=len(lost),
                            known_findings_seen=found_known),
              assumptions=check.assumptions, wall_s=wall,
              violations=len(new))
    evidence.write_text(json.dumps(ev, indent=1, default=str))

    print('%s %s seed=%d: %d evaluations, %d distinct, %.1fs' % (
        pid, args.tier, args.seed, evaluations, len(distinct), wall))
    print('observed: ' + json.dumps(dict(sorted(events.items()))))
    for k, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s%s' % (
            pid, text, '' if k in found_known else ' [not sampled this run]'))

    if new:
        outdir = HOME / 'out' / pid
        outdir.mkdir(parents=True, exist_ok=True)
        seen = set()
        for v in new:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            rec = dict(property=pid, tier=args.tier, seed=args.seed, **v)
            path = outdir / ('%s-%s.json' % (sha(v['key'])[:6],
                                             sha(v['case'])[:8]))
            path.write_text(json.dumps(rec, indent=1, default=str))
            print('-- %s (%d times)\n%s' % (v['key'], keys[v['key']],
                                            v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    if lost:
        print('INCONCLUSIVE: ' + '\n'.join(lost))
        return 3
    if low:
        print('INCONCLUSIVE: too few events observed (got, needed): %s' % low)
        return 3
    print('HELD on everything observed')
    return 0


if __name__ == '__main__':
    sys.exit(main())
