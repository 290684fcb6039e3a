"""Reads the current source of the target and prepares an interpreter."""
import ast
import os

from .engine import Interp, Module, fix_source

REPO = os.environ.get('VERIF_REPO', '/repo')


def read_modules(repo=None, package='profiling'):
    repo = repo or REPO
    out = {}
    root = os.path.join(repo, package)
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(dirpath, f)
            rel = os.path.relpath(path, repo)
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            with open(path, encoding='utf-8') as fp:
                src = fp.read()
            fixed = fix_source(src)
            out[name] = Module(name, rel, ast.parse(fixed), src)
    return out


def read_stub(name):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs',
                        name + '.py')
    with open(path, encoding='utf-8') as fp:
        src = fp.read()
    return Module(name, 'stubs/%s.py' % name, ast.parse(src), src)


def make(repo=None, **config):
    it = Interp(read_modules(repo), config)
    it.load()
    return it
