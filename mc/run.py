#!/usr/bin/env python
"""run.py Cxx [--tier quick|thorough] | run.py --replay FILE"""
import importlib
import importlib.machinery
import json
import os
import sys

# one BLAS thread per worker, deterministic hashing, no byte code in /repo
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mc import engine  # noqa: E402



class _FromSource(importlib.machinery.SourceFileLoader):
    """Compiles the tree under test from source: no stale byte code."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if os.path.abspath(path).startswith(engine.REPO):
        return importlib.machinery.FileFinder(path, (_FromSource, ['.py']))
    raise ImportError(path)


sys.path_hooks.insert(0, _hook)
sys.path_importer_cache.clear()
sys.path.insert(0, engine.REPO)


def self_test():
    """setup_cmd: the explorer runs, and reports a planted mismatch."""
    import svgpy
    assert os.path.abspath(svgpy.__file__).startswith(engine.REPO)
    run = engine.Run('SELF', 'quick', 1)
    run.cases('self', range(300), lambda c, ctx: engine.expect(
        c != 123, 'planted mismatch'))
    assert [v['case'] for v in run.viol] == ['123'], run.viol
    print('self test ok')
    return 0


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    pid = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--self-test':
            return self_test()
        else:
            pid = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    todo = [(None, None)]
    if replay:
        with open(replay) as f:
            d = json.load(f)
        pid = d['property']
        tier = d['tier']
        todo = [(v['space'], v['case']) for v in d['violations'][:5]]
    rc = 0
    for space, case in todo:
        run = engine.Run(pid, tier, seed)
        run.only = space
        run.only_case = case
        try:
            mod = importlib.import_module('mc.props.' + pid.lower())
            mod.check(run)
        except Exception as exp:
            # the code under test cannot even be loaded or driven
            run.viol.append(engine._describe('driver', None, exp))
        rc |= run.finish()
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
