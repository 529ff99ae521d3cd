"""Reference parser for the markup: @name[attributes]{content}.

Written from the language description, not from the implementation.  A parse
is a list of str and (name, attrs_text, children) nodes.
"""

NAME0 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789')
#: tags whose contents are taken literally
RAW = {'verb', 'v', 'pre', 'verbatim'}


class Unclosed(Exception):
    pass


class TooDeep(Exception):
    """Outside the range of nesting the language promises to support."""


def isword(c):
    return c == '_' or c.isalnum()


def closing(s, i, limit):
    """Index of the brace that closes the one before s[i]."""
    level = 1
    while i < len(s):
        if s[i] == '{':
            level += 1
            if level >= limit:
                raise TooDeep()
        elif s[i] == '}':
            level -= 1
            if level == 0:
                return i
        i += 1
    raise Unclosed()


def parse(s, raw=RAW, limit=10):
    out = []
    buf = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '@' and i + 1 < n and s[i + 1] in NAME0:
            j = i + 1
            while j < n and isword(s[j]):
                j += 1
            name = s[i + 1:j]
            attrs = ''
            if j < n and s[j] == '[':
                k = s.find(']', j)
                if k > j + 1:
                    attrs = s[j + 1:k]
                    j = k + 1
            inner = ''
            if j < n and s[j] == '{':
                k = closing(s, j + 1, limit)
                inner = s[j + 1:k]
                j = k + 1
            if buf:
                out.append(''.join(buf))
                buf = []
            if name.lower() in raw:
                children = [inner] if inner else []
            else:
                children = parse(inner, raw, limit)
            out.append((name, attrs, children))
            i = j
        else:
            buf.append(c)
            i += 1
    if buf:
        out.append(''.join(buf))
    return out


def names(t):
    for x in t:
        if not isinstance(x, str):
            yield x[0]
            for y in names(x[2]):
                yield y


def depth(t):
    return max([0] + [1 + depth(x[2]) for x in t if not isinstance(x, str)])
