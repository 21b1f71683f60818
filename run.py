#!/usr/bin/env python3
"""Check of one property: python3 run.py <property> [--tier quick|thorough] [--root /repo]

exit 0: the property holds on everything that was decided; 1: violation; 2: the analysis could not run."""
import argparse
import ast
import concurrent.futures
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def functions(root):
    """qualified name -> (AST digest, location) of every function and module body of the package."""
    out = {}
    for base, _, files in os.walk(os.path.join(root, 'scrappybara')):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(base, f)
            rel = os.path.relpath(path, root)
            try:
                tree = ast.parse(open(path, encoding='utf-8').read())
            except SyntaxError as e:
                raise SystemExit2('cannot parse %s: %s' % (rel, e))

            def visit(body, prefix):
                rest = []
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        out[rel + ':' + prefix + n.name] = (ast.dump(n), n.lineno)
                    elif isinstance(n, ast.ClassDef):
                        visit(n.body, prefix + n.name + '.')
                    else:
                        rest.append(n)
                out[rel + ':' + prefix + '<body>'] = (' '.join(ast.dump(r) for r in rest), 1)

            visit(tree.body, '')
    return out


class SystemExit2(Exception):
    pass


def changed(root):
    a, b = functions(os.path.join(HERE, 'ref')), functions(root)
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append('%s (removed)' % k)
        elif k not in a:
            out.append('%s, line %d (new)' % (k, b[k][1]))
        elif a[k][0] != b[k][0]:
            out.append('%s, line %d' % (k, b[k][1]))
    return out, len(b)


def job(root, driver, comps, modes, limit, seed='0'):
    try:
        p = subprocess.run([sys.executable, '-m', 'sa.check', root, driver, json.dumps(comps), json.dumps(modes)], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit,
                           env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1'))
        return json.loads(p.stdout.decode())
    except subprocess.TimeoutExpired:
        return {'driver': driver, 'components': [], 'status': 'undecided', 'notes': ['time limit of %d s' % limit]}
    except ValueError:
        return {'driver': driver, 'components': [], 'status': 'undecided',
                'notes': ['analysis ended abnormally: ' + p.stderr.decode()[-300:]]}


def known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if line.startswith('known: property=%s ' % prop):
            out.append(line[len('known: property=%s ' % prop):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    from sa.props import P
    from sa.texts import RULES, ASSUME
    t0 = time.time()
    spec = list(P[a.property])
    if a.tier == 'thorough':
        from sa.props import THOROUGH
        spec += THOROUGH.get(a.property, [])
    try:
        diff, nfun = changed(a.root)
    except SystemExit2 as e:
        print('ERROR %s' % e)
        return 2
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda s: job(a.root, s[0], s[1], s[2], 240 if a.tier == 'quick' else 400), spec))
        unstable = []
        if a.tier == 'thorough':
            # the same decisions with other orders of the analyser's own sets
            for seed in ('1', '2'):
                for r, r2 in zip(res, list(ex.map(lambda s: job(a.root, s[0], s[1], s[2], 400, seed), spec))):
                    unstable += ['%s.%s' % (r['driver'], c['component']) for c, c2 in zip(r['components'], r2['components'])
                                 if c['status'] != c2['status']]
    sure, unsure, missing, proved = [], [], [], 0
    for r in res:
        if r['status'] == 'missing':
            missing.append('%s: %s' % (r['driver'], '; '.join(r['notes'])))
        elif r['status'] == 'undecided':
            unsure.append('%s: %s' % (r['driver'], ' '.join(r['notes'][:1])))
        for c in r['components']:
            if c['status'] == 'violation':
                sure += ['%s.%s: %s' % (r['driver'], c['component'], s) for s in c['sure']]
            elif c['status'] == 'undecided':
                unsure += ['%s.%s: %s' % (r['driver'], c['component'], s) for s in c['unsure']]
            else:
                proved += 1
    listed = known(a.property)
    hits = [k for k in listed if any(k in s for s in sure)]
    sure = [s for s in sure if not any(k in s for k in listed)]
    for k in hits:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k))
    funcs = sorted(set(f for r in res for f in r.get('functions', [])))
    stats = {}
    for r in res:
        for k, v in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
    ev = {
        'property': a.property,
        'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'coverage': {
            'explanation': 'Static value-flow analysis: %s' % RULES[a.property],
            'obligations_total': sum(len(r['components']) for r in res),
            'obligations_proved': proved,
            'obligations_undecided': len(unsure),
            'drivers': [r['driver'] for r in res],
            'functions_analysed': len(funcs),
            'function_names': funcs,
            'statements_interpreted': stats.get('statements', 0),
            'calls_inlined': stats.get('calls', 0),
            'loops_summarised': stats.get('loops', 0),
            'branches_joined': stats.get('branches', 0),
            'term_nodes_compared': sum(c.get('size', 0) for r in res for c in r['components']),
            'components': [dict(driver=r['driver'], **{k: c[k] for k in ('component', 'status', 'mode', 'size') if k in c})
                           for r in res for c in r['components']],
            'functions_in_package': nfun,
            'functions_differing_from_specification': diff[:40],
            'undecided': unsure[:20],
            'decisions_that_depend_on_set_order': unstable,
            'notes': [n for r in res for n in r['notes']][:20],
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': sure,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for u in unsure:
        print('UNDECIDED %s' % u[:500])
    if sure:
        path = os.path.join(HERE, 'evidence', 'replay-%s.txt' % a.property)
        if not a.no_evidence:
            with open(path, 'w', encoding='utf-8') as f:
                f.write('Property %s\nRule: %s\n\nConstructs that differ from the specification:\n' % (a.property, RULES[a.property]))
                f.write(''.join('  %s\n' % d for d in diff))
                f.write('\nDivergences of the value-flow summaries:\n' + ''.join('  %s\n' % s for s in sure))
                f.write('\nReplay: python3 %s/run.py %s --tier %s\n' % (HERE, a.property, a.tier))
        for s in sure[:6]:
            print('  ' + s[:900])
        for d in diff[:8]:
            print('  construct: ' + d)
        print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    if missing:
        print('ERROR anchor not found: %s' % ' | '.join(missing))
        return 2
    print('OK property=%s: %d obligations proved, %d undecided, %d functions' % (a.property, proved, len(unsure), len(funcs)))
    return 0


if __name__ == '__main__':
    sys.exit(main())
