"""Reference reader for attribute strings and target-specific selection."""
import re

#: targets that can end an attribute name or a positional value
TARGETS = ('html', 'xhtml', 'tex', 'css')


def parse(s):
    """[[key, value or None]] in order of first appearance, last value wins.

    Grammar: entries separated by blanks (or commas between positional
    entries); key = value, with value quoted or bare; or a positional value,
    quoted or bare.
    """
    out = []
    i, n = 0, len(s)

    def put(k, v):
        for e in out:
            if e[0] == k:
                e[1] = v
                return
        out.append([k, v])

    word = re.compile(r'[\w.]+')
    while i < n:
        if s[i].isspace() or s[i] in ',[]':
            i += 1
            continue
        m = word.match(s, i)
        if m:
            j = m.end()
            while j < n and s[j].isspace():
                j += 1
            if j < n and s[j] == '=':
                j += 1
                while j < n and s[j].isspace():
                    j += 1
                if j < n and s[j] in '"\'' and s.find(s[j], j + 1) > 0:
                    e = s.index(s[j], j + 1)
                    put(m.group(), s[j + 1:e])
                    i = e + 1
                    continue
                e = j
                while e < n and not s[e].isspace() and s[e] != ']':
                    e += 1
                if e > j:
                    put(m.group(), s[j:e].strip('"').strip("'"))
                    i = e
                    continue
        if s[i] in '"\'' and s.find(s[i], i + 1) > 0:
            e = s.index(s[i], i + 1)
            put(s[i + 1:e], None)
            i = e + 1
            continue
        e = i
        while e < n and not s[e].isspace() and s[e] not in ',[]':
            e += 1
        put(s[i:e].strip("'").strip('"'), None)
        i = e
    return out


def strip(key):
    for t in TARGETS:
        if key.endswith('.' + t):
            return key[:-len(t) - 1], t
    return key, None


def kind(key):
    """int, float or str: what a positional value is."""
    base = strip(key)[0]
    for t in (int, float):
        try:
            t(base)
            return t.__name__
        except ValueError:
            pass
    return 'str'


def select(entries, target, bases=None):
    """{base: value} for a target (None: only general entries)."""
    out = {}
    for k, v in entries:
        b, t = strip(k)
        if bases is not None and b not in bases:
            continue
        if t is None:
            out.setdefault(b, v)
    if target is not None:
        for k, v in entries:
            b, t = strip(k)
            if t == target and (bases is None or b in bases):
                out[b] = v
    return out


def first_positional(entries, target, want=None):
    """The positional entry a target uses: its own first, else a general
    one.  want: None or 'int'/'float'/'str'."""
    pos = [k for k, v in entries if v is None
           and (want is None or kind(k) == want)]
    own = [k for k in pos if target and strip(k)[1] == target]
    gen = [k for k in pos if strip(k)[1] is None]
    for k in own + gen:
        return strip(k)[0]
    return None
