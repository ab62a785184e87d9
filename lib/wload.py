"""Load the real `wilson` package from /repo's working tree.

The pinned tree lacks the `wcxf-bases` git submodule, so the plain
`import wilson` cannot register any EFT or basis and fails.  This loader
imports the real `wilson.wcxf.classes` first, registers the frozen basis
definitions of /verif/fixtures/bases.json through its EFT/Basis classes, and
only then imports the real package.  Every line of wilson that runs is the one
in /repo.
"""
import importlib
import json
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WILSON_REPO', '/repo')
FIXTURE = os.environ.get('WILSON_BASES', os.path.join(os.path.dirname(HERE), 'fixtures', 'bases.json'))


def register(wcxf, fixture=None):
    """Register the frozen EFTs and bases (in a parent-first order)."""
    with open(fixture or FIXTURE) as f:
        d = json.load(f)
    for e in d['efts']:
        wcxf.EFT(**json.loads(json.dumps(e)))
    for b in d['bases']:
        wcxf.Basis(**json.loads(json.dumps(b)))


def load(repo=None, fixture=None):
    repo = repo or REPO
    sys.dont_write_bytecode = True
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(0, repo)
    pkgdir = os.path.join(repo, 'wilson')
    # 1. the real wilson.wcxf.classes, below stub parents
    for name, sub in (('wilson', ''), ('wilson.wcxf', 'wcxf')):
        stub = types.ModuleType(name)
        stub.__path__ = [os.path.join(pkgdir, sub)]
        sys.modules[name] = stub
    classes = importlib.import_module('wilson.wcxf.classes')
    # 2. the frozen bases go into its registries
    register(classes, fixture)
    # 3. the real package: its wcxf/__init__.py finds the registries filled
    del sys.modules['wilson'], sys.modules['wilson.wcxf']
    mod = importlib.import_module('wilson')
    mod.wcxf.classes = classes      # what the import system does for a first import
    got = os.path.realpath(mod.wcxf.__file__)
    if not got.startswith(os.path.realpath(pkgdir) + os.sep):
        raise RuntimeError('wilson imported from %s, not from %s' % (got, pkgdir))
    return mod
