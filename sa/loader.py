"""Parse every module under /repo/pycomplex (plus examples) from the current working tree."""
import ast
import os
import hashlib


class Module(object):
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src


class AnalysisBroken(Exception):
    pass


def load_program(repo='/repo', roots=('pycomplex',), tests=False):
    mods = {}
    for root in roots:
        top = os.path.join(repo, root)
        if not os.path.isdir(top):
            raise AnalysisBroken('source root %s is gone' % top)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                parts = rel[:-3].split(os.sep)
                if 'test' in parts and not tests:
                    continue
                if rel.endswith('stencil/experiment.py'):
                    continue   # scratch script, never imported by the library
                name = '.'.join(parts[:-1] if parts[-1] == '__init__' else parts)
                with open(path, 'rb') as fh:
                    src = fh.read()
                tree = ast.parse(src, path)
                m = Module(name, path, rel, tree, src.decode('utf8', 'replace'))
                m.is_pkg = parts[-1] == '__init__'
                for node in ast.walk(tree):
                    for ch in ast.iter_child_nodes(node):
                        ch._parent = node
                    node._mod = m
                mods[name] = m
    return mods


def add_module(mods, name, src):
    """an additional module (the abstract collaborators of a rule) that the analysed code is applied to"""
    tree = ast.parse(src, name)
    m = Module(name, name, name + '.py', tree, src)
    m.is_pkg = False
    for node in ast.walk(tree):
        for ch in ast.iter_child_nodes(node):
            ch._parent = node
        node._mod = m
    mods[name] = m
    return m


def digest(mods):
    h = hashlib.sha256()
    for k in sorted(mods):
        h.update(k.encode())
        h.update(mods[k].src.encode())
    return h.hexdigest()
