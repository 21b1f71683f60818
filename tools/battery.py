#!/usr/bin/env python3
"""Tests of the checker: tools/battery.py bugs|refs [name prefixes...]

tests/bugs_*.py hold edits that break a property (its check has to report them), tests/refs_*.py hold edits that keep the
behaviour (every check has to stay quiet). An edit is (name, property, [(file, old, new), ...])."""
import concurrent.futures
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props import P  # noqa


def edits(kind):
    out = []
    for f in sorted(glob.glob(HERE + '/tests/%s_*.py' % kind)):
        sp = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.E
    names = [e[0] for e in out]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return out


def make(name, eds):
    root = os.environ.get('BATTERY', '/tmp/m') + '/' + name
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree('/repo/scrappybara', root + '/scrappybara', ignore=lambda d, fs: [
        f for f in fs if f in ('data', '__pycache__') or os.path.isfile(d + '/' + f) and not f.endswith('.py')])
    for f, old, new in eds:
        p = root + '/scrappybara/' + f
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            return None, '%s: %d occurrences of %r in %s' % (name, s.count(old), old[:60], f)
        s = s.replace(old, new)
        compile(s, p, 'exec')
        open(p, 'w', encoding='utf-8').write(s)
    return root, ''


FILES = {}


def deps():
    """property -> files its check looks at (from the evidence of a run on the unchanged tree)"""
    for pid in P:
        ev = json.load(open(HERE + '/evidence/%s.json' % pid))
        FILES[pid] = set()
        for f in ev['coverage']['function_names']:
            parts = f.split('.')
            for n in range(len(parts), 0, -1):
                if os.path.isfile('/repo/' + '/'.join(parts[:n]) + '.py'):
                    FILES[pid].add('/'.join(parts[1:n]) + '.py')


def run(root, pid):
    p = subprocess.run([sys.executable, HERE + '/run.py', pid, '--root', root, '--no-evidence'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()


def main():
    kind, pre = sys.argv[1], sys.argv[2:]
    verbose = '-v' in pre
    hist = '-h' in pre
    pre = [p for p in pre if not p.startswith('-')]
    deps()
    todo = [e for e in edits(kind) if not pre or any(e[0].startswith(p) or e[1] == p for p in pre)]
    jobs = []
    for name, prop, eds in todo:
        root, err = make(name, eds)
        if root is None:
            print('BAD', err)
            continue
        if kind == 'bugs':
            jobs.append((name, root, prop))
        else:
            fs = set(f for f, _, _ in eds)
            for pid in P:
                if pid == 'C04' and not hist:
                    continue
                if fs & FILES[pid] or any(not os.path.exists('/repo/scrappybara/' + f) for f in fs):
                    jobs.append((name, root, pid))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for (name, root, pid), (rc, out) in zip(jobs, ex.map(lambda j: run(j[1], j[2]), jobs)):
            want = 1 if kind == 'bugs' else 0
            und = out.count('UNDECIDED')
            if rc != want or kind == 'refs' and und and verbose:
                if rc != want:
                    bad += 1
                print('%s %s %s rc=%d undecided=%d' % ('MISS' if kind == 'bugs' else 'ALARM' if rc else 'und', name, pid, rc, und))
                if verbose:
                    print('\n'.join('    ' + l[:150] + ' ... ' + l[-200:] if len(l) > 350 else '    ' + l for l in out.splitlines()[:4]))
    print('%d jobs, %d unexpected' % (len(jobs), bad))
    for name, _, _ in todo:
        shutil.rmtree(os.environ.get('BATTERY', '/tmp/m') + '/' + name, ignore_errors=True)


if __name__ == '__main__':
    main()
