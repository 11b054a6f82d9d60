"""C31: native objects stay usable for as long as they are held."""
import json
import os
import subprocess
import sys

from mc import lifetimes
from mc.engine import expect, outcome  # noqa: F401

DRIVER = lifetimes.__file__


def fn_lifetimes(case, ctx):
    scenario, depth, op = case
    env = dict(os.environ)
    # freed memory is overwritten, and every object of Python is malloc'ed,
    # so that what reads it can be seen to
    env.update(PYTHONMALLOC='malloc', MALLOC_PERTURB_='165')
    p = subprocess.run([sys.executable, DRIVER, scenario, str(depth), op],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=env, timeout=600)
    lines = [json.loads(x) for x in p.stdout.decode().splitlines()
             if x.startswith('{')]
    bad = [x for x in lines if 'problem' in x]
    for x in bad[:1]:
        expect(False, 'history %s of %s: %s' % (
            ', '.join(x['history']), scenario, x['problem']))
    expect(p.returncode == 0, '%s: the process exits with %d' % (
        scenario, p.returncode))
    nodes = [x['nodes'] for x in lines if 'nodes' in x]
    expect(len(nodes) == 1, scenario + ': the exploration ends')
    expect(nodes[0] > 0, scenario + ': nothing explored')
    ctx.step(nodes[0])
    ctx.outcome(scenario)


def check(run):
    depth = 4 if run.thorough else 3
    cases = []
    for scenario, spec in lifetimes.SCENARIOS.items():
        for name, _, _, _ in spec:
            for verb in ('drop', 'make'):
                cases.append((scenario, depth, verb + ' ' + name))
    run.cases('lifetimes', cases, fn_lifetimes,
              'all histories of up to %d droppings and makings of %d families '
              'of native objects, each in a process of its own'
              % (depth, len(lifetimes.SCENARIOS)))
