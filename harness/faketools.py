"""Stand-ins for the external programs, which log what they read and write.

``install(directory)`` puts scripts called pdflatex, pdf-crop-margins, pdf2svg,
rsvg-convert, asy and convert in front of the PATH.  Each writes an output that
names its input (by content), its options and, for pdflatex, the images that
the tex file includes, so that the contents of a file at the end of a chain of
commands tell what it was made from, and with which options.  Each run leaves a
"start" and an "end" record in a log, with the files that it reads and writes.

A control file, read at every start, makes commands slow, or makes them fail in
one of several ways (see RULES).
"""
import json
import os
import stat
import time
from pathlib import Path

TOOLS = ('pdflatex', 'pdf-crop-margins', 'pdf2svg', 'rsvg-convert', 'asy',
         'convert')

#: What a rule of the control file can ask for: {"tool": ..., "match": text of
#: the inputs, "nth": number of the run of the tool, "mode": ..., "value": ...}
RULES = ('exit', 'noout', 'hang', 'noise', 'slow', 'killed')

SCRIPT = r'''#!/usr/bin/python3 -SE
import hashlib, json, os, re, signal, sys, time
tool = os.path.basename(sys.argv[0])
args = sys.argv[1:]
base = %(base)r
log = open(os.path.join(base, 'log'), 'ab', 0)
try:
    control = json.load(open(os.path.join(base, 'control')))
except Exception:
    control = {}


def record(**kw):
    kw.update(tool=tool, pid=os.getpid(), t=time.time())
    log.write((json.dumps(kw) + '\n').encode())


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def fail(msg, rc=1):
    sys.stdout.write('! ' + msg + '\n')
    sys.stdout.flush()
    record(ev='end', rc=rc, msg=msg)
    sys.exit(rc)


ins, out, options, extra = [], None, [], []
a = list(args)
if tool == 'pdflatex':
    name = outdir = None
    while a:
        x = a.pop(0)
        if x.startswith('-jobname='):
            name = x[9:]
        elif x.startswith('-output-directory='):
            outdir = x[18:]
        elif x.startswith('-'):
            options.append(x)
        else:
            ins.append(x)
    out = os.path.join(outdir or '.', (name or 'texput') + '.pdf')
    extra = [out[:-4] + '.log', out[:-4] + '.aux']
elif tool == 'pdf-crop-margins':
    while a:
        x = a.pop(0)
        if x == '-o':
            out = a.pop(0)
        elif x in ('-p4', '-a4'):
            options.append([x] + [a.pop(0) for i in range(4)])
        elif x == '-p':
            options.append([x, a.pop(0)])
        else:
            ins.append(x)
elif tool == 'pdf2svg':
    ins, out, options = a[:1], a[1] if a[1:] else None, a[2:]
elif tool == 'rsvg-convert':
    while a:
        x = a.pop(0)
        if x == '-o':
            out = a.pop(0)
        elif x in ('-f', '-z'):
            options.append([x, a.pop(0)])
        else:
            ins.append(x)
elif tool == 'asy':
    while a:
        x = a.pop(0)
        if x == '-o':
            out = a.pop(0)
        elif x == '-f':
            options.append([x, a.pop(0)])
        elif x.startswith('-'):
            options.append(x)
        else:
            ins.append(x)
else:
    ins, out = a[:-1], a[-1] if a else None

rule, n = None, 0
for r in control.get('rules', []):
    if r.get('tool') not in (None, tool):
        continue
    if r.get('match'):
        try:
            if not any(r['match'].encode() in read(i) for i in ins):
                continue
        except OSError:
            continue
    rule = r
mode = rule and rule['mode']

reads = {}
for i in ins:
    try:
        reads[os.path.abspath(i)] = hashlib.sha1(read(i)).hexdigest()[:12]
    except OSError:
        reads[os.path.abspath(i)] = None
record(ev='start', args=args, reads=reads, mode=mode,
       writes=[os.path.abspath(w) for w in ([out] if out else []) + extra])
jitter = control.get('jitter', 0)
if jitter:
    h = hashlib.sha1((str(control.get('seed')) + repr(args)).encode())
    jitter *= int(h.hexdigest()[:4], 16) / 65536.
if mode == 'noise':
    sys.stdout.write('noise ' * (rule.get('value', 300000) // 6))
    sys.stderr.write('noise ' * (rule.get('value', 300000) // 6))
    sys.stdout.flush()
    sys.stderr.flush()
if mode == 'hang':
    time.sleep(rule.get('value', 60))
if mode == 'slow':
    jitter += rule.get('value', .2)
if mode == 'killed':
    os.kill(os.getpid(), signal.SIGKILL)
if len(ins) < 1 or out is None:
    fail('usage: %%r' %% args, 2)
if os.path.isdir(out):
    fail('%%s is a directory' %% out, 2)
try:
    data = [read(i).decode('utf-8', 'replace') for i in ins]
except OSError as e:
    fail(str(e), 2)
if mode == 'exit':
    # half an output is left behind, as by a crashed program
    if rule.get('value'):
        with open(out, 'w') as f:
            f.write('half')
    fail('the command failed', 3)
if tool == 'pdflatex':
    tex = data[0]
    images = []
    for m in re.finditer(r'\\includegraphics(?:\[[^]]*\])?'
                         r'\{\{(?:\\detokenize\{)?(.*?)\}?\}(\.\w+)\}', tex):
        path = m.group(1) + m.group(2)
        try:
            images.append(read(path).decode('utf-8', 'replace'))
            reads[os.path.abspath(path)] = 1
        except OSError:
            fail("File '%%s' not found" %% path)
        record(ev='image', path=os.path.abspath(path))
    tex = tex.replace(%(root)r, 'ROOT')
    data = [tex] + images


def payload(text):
    """The recipe that made a file of one of these tools, or its text."""
    m = re.search(r'RECIPE(\{.*\})RECIPE', text, re.S)
    if m:
        return json.loads(m.group(1).replace('&quot;', '"'))
    return text


recipe = {'tool': tool, 'options': options, 'in': [payload(d) for d in data]}
recipe = 'RECIPE' + json.dumps(recipe) + 'RECIPE'
if out.endswith('.svg'):
    body = ('<svg xmlns="http://www.w3.org/2000/svg" width="10" height="10">'
            '<!--' + recipe.replace('--', '\\u002d\\u002d') + '--></svg>\n')
elif out.endswith('.pdf'):
    body = ('%%PDF-1.5\n/CreationDate (' + str(time.time()) + ')\n' + recipe +
            '\n/ID <' + str(os.getpid()) + '>\n%%%%EOF\n')
else:
    body = recipe
if mode != 'noout':
    for e in extra:
        with open(e, 'w') as f:
            f.write('log\n')
    with open(out, 'w') as f:
        f.write(body[:len(body) // 2])
        f.flush()
        if jitter:
            time.sleep(jitter)
        f.write(body[len(body) // 2:])
elif jitter:
    time.sleep(jitter)
record(ev='end', rc=0)
'''


class FakeTools:
    def __init__(self, base, root=''):
        self.base = Path(base)
        self.bin = self.base / 'bin'
        self.bin.mkdir(parents=True, exist_ok=True)
        for tool in TOOLS:
            p = self.bin / tool
            p.write_text(SCRIPT % {'base': str(self.base), 'root': str(root)})
            p.chmod(0o755)
        self.reset()

    def on_path(self):
        os.environ['PATH'] = '%s:%s' % (self.bin, os.environ['PATH'])

    def reset(self):
        (self.base / 'log').write_text('')
        self.control()

    def control(self, rules=(), jitter=0, seed=0):
        tmp = self.base / 'control.new'
        tmp.write_text(json.dumps({'rules': list(rules), 'jitter': jitter,
                                   'seed': seed}))
        tmp.replace(self.base / 'control')

    def log(self):
        """The runs of commands, in the order of their starts."""
        runs, by = [], {}
        for line in (self.base / 'log').read_text().splitlines():
            r = json.loads(line)
            if r['ev'] == 'start':
                run = dict(r, start=r['t'], end=None, rc=None, images=[])
                runs.append(run)
                by[r['pid']] = run
            elif r['ev'] == 'image':
                if r['pid'] in by:
                    by[r['pid']]['images'].append(r['path'])
            elif r['pid'] in by:
                by[r['pid']].update(end=r['t'], rc=r['rc'],
                                    msg=r.get('msg'))
        return runs


def recipe(text):
    """What a file was made from: a nested dict, or None."""
    import re
    m = re.search(r'RECIPE(\{.*\})RECIPE', text, re.S)
    return json.loads(m.group(1)) if m else None


def conflicts(runs):
    """Pairs of runs that use one file at overlapping times, at least one of
    them writing it."""
    out = []
    for i, a in enumerate(runs):
        for b in runs[i + 1:]:
            if a['end'] is not None and b['start'] > a['end']:
                continue
            if b['end'] is not None and a['start'] > b['end']:
                continue
            wa, wb = set(a['writes']), set(b['writes'])
            ra = set(a['reads']) | set(a['images'])
            rb = set(b['reads']) | set(b['images'])
            both = (wa & wb) | (wa & rb) | (ra & wb)
            if both:
                out.append((a, b, sorted(both)))
    return out
