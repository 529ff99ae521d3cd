"""What can be seen of a loaded project, as plain data."""
import re
from pathlib import PurePath

NAV = re.compile(r'^(prev|next|curr)_')
HIDE = {'document', 'environment', 'root_document', 'label_manager', 'mtime',
        'builders', 'body', 'paths', 'project_root', 'target_root',
        'src_filepath'}


def plain(v):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in sorted(v.items(), key=str)}
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, PurePath):
        return str(v)
    if hasattr(v, 'default_fmt'):
        from .lib import tree
        return [v.name, tree(v.content)]
    return type(v).__name__


def label(l):
    out = dict(doc=l.doc_id, id=l.id, kind=list(l.kind), order=list(l.order)
               if l.order is not None else None, title=plain(l.title))
    if hasattr(l, 'tree_number'):
        out['tree'] = l.tree_number
    return out


def render(doc, target):
    body = doc.context.get('body')
    if body is None:
        return None
    attr = {'.epub': 'xhtml', '.pdf': 'tex'}.get(target, target.strip('.'))
    try:
        return getattr(body, attr)
    except Exception as e:          # compared as an outcome
        return 'raises ' + type(e).__name__ + ' ' + str(e)


def project(root, rendering=True):
    """The observation of a whole loaded project, document by document."""
    docs = []
    man = root.label_manager
    man.register()
    for d in root.documents_list(recursive=True):
        c = d.context
        o = dict(path=str(d.src_filepath.subpath), doc_id=d.doc_id,
                 ctx_id=c.get('doc_id'), title=d.title, short=d.short,
                 level=c.get('level'), root=c.get('is_root_document'),
                 targets={k: str(v) for k, v in sorted(d.targets.items())},
                 includes=[str(s.subpath) for s in d.subdocuments],
                 paths=[str(p) for p in c.get('paths', [])])
        o['context'] = {str(k): plain(c[k]) for k in sorted(c.keys(), key=str)
                        if k not in HIDE and not NAV.match(str(k))}
        nav = {}
        for k in c.keys():
            if NAV.match(str(k)):
                l = c[k]() if callable(c[k]) else c[k]
                nav[str(k)] = [l.doc_id, l.id] if l is not None else None
        o['nav'] = nav
        if rendering:
            for t in sorted(d.targets):
                o['render' + t] = render(d, t)
            o['render.txt'] = render(d, '.txt')
        docs.append(o)
    return dict(docs=docs, labels=[label(l) for l in man.labels.values()],
                keys=[list(k) for k in man.labels])


def difference(a, b, path=''):
    """First difference of two observations: (path, a, b) or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return (path + '/' + str(k), a.get(k, '<absent>'),
                        b.get(k, '<absent>'))
            r = difference(a[k], b[k], path + '/' + str(k))
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = difference(x, y, path + '/' + str(i))
            if r:
                return r
        if len(a) != len(b):
            n = min(len(a), len(b))
            return (path + '/len', a[n:n + 1] or len(a), b[n:n + 1] or len(b))
        return None
    return None if a == b else (path, a, b)
