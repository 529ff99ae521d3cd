"""Helpers to drive disseminate: projects on disk, trees as plain data."""
import os
import re
import time
from pathlib import Path


def write_project(root, files, bump=None):
    """Write {relative path: text/bytes} below root."""
    for name, text in files.items():
        p = Path(root) / name
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(text, bytes):
            p.write_bytes(text)
        else:
            p.write_text(text, encoding='utf-8')


_mtime = [time.time() + 10]


def touch_forward(path):
    """Give a file a strictly larger modification time than anything before
    (the loader compares modification times)."""
    _mtime[0] += 1
    os.utime(str(path), (_mtime[0], _mtime[0]))


def make_env(root, src='src/main.dm', target_root=None):
    from disseminate.builders import Environment
    from disseminate.paths import TargetPath, SourcePath
    root = Path(root)
    src = root / src
    tr = TargetPath(target_root=target_root or root)
    return Environment(src_filepath=src, target_root=tr)


_envs = []


def bare_context(ctx, header=''):
    """The context of a fresh, empty root document."""
    from disseminate.builders import Environment  # noqa: F401
    d = ctx.tmp / ('ctx%d' % len(_envs))
    text = '---\n' + header + '\n---\n' if header else ''
    write_project(d, {'src/main.dm': text})
    env = make_env(d)
    doc = env.root_document
    _envs.append((env, doc))
    return doc.context


def as_list(content):
    if content is None:
        return []
    if isinstance(content, (list, tuple)):
        return list(content)
    return [content]


def tree(content):
    """Plain-data form of tag content: str | [name, attrs, children]."""
    out = []
    for item in as_list(content):
        if isinstance(item, str):
            if item == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += item
            else:
                out.append(str(item))
        elif isinstance(item, (list, tuple)):
            for x in tree(item):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        else:
            out.append([item.name, attr_tuple(item.attributes),
                        tree(item.content)])
    return out


def attr_tuple(attrs):
    """[(key, value)], value None for positional entries."""
    return [[str(k), v if isinstance(v, str) else None]
            for k, v in attrs.items()]


def text_of(t):
    """Concatenated strings of a plain tree."""
    return ''.join(x if isinstance(x, str) else text_of(x[2]) for x in t)


def nodes(t, name=None):
    for x in t:
        if not isinstance(x, str):
            if name is None or x[0] == name:
                yield x
            for y in nodes(x[2], name):
                yield y


def norm_ws(s):
    return re.sub(r'\s+', ' ', s).strip()


def strip_ws(s):
    return re.sub(r'\s+', '', s)


def hide_pycache():
    pass
