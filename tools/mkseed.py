"""Writes /verif/seeded/<id>/ from the list below, after confirming each in a scratch copy (builds, demo 0 clean / nonzero
patched). The stable tests are run by hand / by vcheck. Usage: mkseed.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile
PY = '/opt/venv/bin/python'
COMMON = '''
class LM:
    """Language-model stand-in: a dict of ngram => count"""
    def __init__(self, counts=None):
        self.c = counts or {}
    def has_ngram(self, ngram, min_count=1):
        return self.c.get(ngram, 0) >= min_count
    def best_ngram(self, *ngrams):
        known = [n for n in ngrams if n in self.c]
        return max(known, key=lambda n: self.c[n]) if known else None
    def best_token(self, *tokens, before=None, after=None):
        return self.best_ngram(*tokens)
'''
S = []


def seed(id, prop, edits, demo, needs, breaks):
    S.append((id, prop, edits, demo, needs, breaks))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.txt')).read())


def main():
    ids = sys.argv[1:]
    for id, prop, edits, demo, needs, breaks in S:
        if ids and id not in ids:
            continue
        d = '/verif/seeded/' + id
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(dir='/tmp')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
            subprocess.run('cp -a --update=none /repo/scrappybara/data/. %s/r/scrappybara/data/' % w, shell=True)
            r = w + '/r'
            open(d + '/demo.py', 'w').write(COMMON.lstrip() + '\n\n' + demo.strip() + '\n\nprint("ok")\n' if 'LM(' in demo else demo.strip() + '\n\nprint("ok")\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=\n'
                                            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 250 "$PY" "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            run = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
            clean = run()
            for f, old, new in edits:
                p = r + '/scrappybara/' + f
                t = open(p).read()
                assert t.count(old) == 1, (id, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True, check=True).stdout
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
            bad = run()
            chk = subprocess.run([sys.executable, '/verif/run.py', prop, '--root', r, '--no-evidence'], capture_output=True, text=True)
            print(id, prop, 'clean', clean.returncode, 'patched', bad.returncode, bad.stderr.strip().split('\n')[-1][:100],
                  '| check', chk.returncode, chk.stdout.strip().split('\n')[-1][:150], flush=True)
            if clean.returncode:
                print(clean.stderr[-800:])
        finally:
            shutil.rmtree(w)


main()
