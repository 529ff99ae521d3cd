"""Builds in a child process, which can be made to die at a chosen write.

``child(f, die)`` forks, calls f() in the child and gives its result.  With
``die`` = n, the child is killed (SIGKILL) at its n-th event, where an event is
a file opened for writing below the given folder, a write to such a file (one
half of the data is written), or the start of a command.
"""
import builtins
import io
import json
import os
import signal
import subprocess
import time


class Writer:
    """A file opened for writing, which counts its writes."""

    def __init__(self, f, count):
        self.__dict__.update(_f=f, _count=count)

    def write(self, data):
        def half():
            self._f.write(data[:len(data) // 2])
            self._f.flush()
        self._count('write', half)
        return self._f.write(data)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *args):
        return self._f.__exit__(*args)

    def __iter__(self):
        return iter(self._f)


class Events:
    def __init__(self, folder, die):
        self.folder, self.die, self.n = str(folder), die, 0
        self.kinds = {}

    def count(self, kind, before=None):
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.n == self.die:
            if before is not None:
                before()
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(60)

    def install(self):
        real_open, real_popen = io.open, subprocess.Popen.__init__
        events = self

        def open_(file, mode='r', *args, **kwargs):
            f = real_open(file, mode, *args, **kwargs)
            if isinstance(mode, str) and any(m in mode for m in 'wax+') and \
               not isinstance(file, int) and \
               os.path.abspath(os.fsdecode(file)).startswith(events.folder):
                events.count('open')
                return Writer(f, events.count)
            return f

        def popen(self, *args, **kwargs):
            events.count('command')
            return real_popen(self, *args, **kwargs)

        io.open = builtins.open = open_
        subprocess.Popen.__init__ = popen


def child(f, folder, die=None, limit=300):
    """Call f in a forked child: {'status' | 'error', 'events', 'killed'}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            events = Events(folder, die)
            events.install()
            signal.alarm(limit)
            try:
                out = dict(status=f())
            except Exception as e:
                out = dict(error='%s: %s' % (type(e).__name__, e))
            out['events'] = events.kinds
            os.write(w, json.dumps(out).encode()[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        return dict(killed=True, hang=sig == signal.SIGALRM)
    return dict(json.loads(data.decode()), killed=False, hang=False)
