#!/usr/bin/env python3
'''Create or verify planted bugs.

  seed.py make ID FILE META_JSON DEMO_PY OLD NEW [OLD NEW ...]  (used through `make`)
  seed.py verify [ID ...]      applies each patch in a scratch copy of /repo:
                               builds, tests, demo, and runs the property check
'''
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
ln -s "$PWD" "$work/causets"
export PYTHONPATH="$work" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" SCRATCH="$work"
cd "$work" && /opt/venv/bin/python -B -W ignore "$here/demo.py"
'''


def make(ident, prop, fname, pairs, needs, breaks, demo):
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        for s in 'ab':
            os.makedirs(os.path.join(work, s))
        src = open('/repo/' + fname, newline='').read()
        new = src
        for o, n in pairs:
            o, n = (x.strip('\n').replace('\r\n', '\n').replace('\n', '\r\n')
                    for x in (o, n))
            assert new.count(o) == 1, (ident, new.count(o), o)
            new = new.replace(o, n)
        for s, t in (('a', src), ('b', new)):
            with open(os.path.join(work, s, fname), 'w', newline='') as f:
                f.write(t)
        p = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a',
                            'b'], cwd=work, capture_output=True)
        diff = p.stdout.decode().replace('a/a/', 'a/').replace('b/b/', 'b/')
        d = os.path.join(SEEDED, ident)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(work)


def verify(ident, checks=None):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(d + '/meta.json'))
    work = tempfile.mkdtemp(prefix='seedv_')
    try:
        repo = work + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)

        def demo():
            return subprocess.run([d + '/demo.sh'], cwd=repo,
                                  capture_output=True, timeout=300)
        clean = demo().returncode
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo,
                           capture_output=True, text=True)
        if a.returncode:
            return ident, 'patch does not apply: ' + a.stderr
        x = demo()
        os.makedirs(work + '/path')
        os.symlink(repo, work + '/path/causets')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   PYTHONHASHSEED='0')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p',
                            'no:cacheprovider', '--rootdir=' + work + '/path',
                            '--pyargs', 'causets'], cwd=work + '/path',
                           env=env, capture_output=True, text=True)
        tests = t.stdout.strip().split('\n')[-1]
        res = []
        for c in checks or [meta['property']]:
            r = subprocess.run([ROOT + '/run.sh', c], capture_output=True,
                               text=True, env=dict(os.environ,
                                                   CAUSETS_REPO=repo))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            why = r.stdout.strip().split('\n')[-2:-1]
            res.append((c, r.returncode, 'CAUGHT' if v else 'MISSED',
                        why[0].strip()[:160] if v and why else ''))
        return (ident, 'demo clean=%d patched=%d (%s)' % (
            clean, x.returncode, (x.stdout + x.stderr).decode().strip()
            .split('\n')[-1][:100]), tests, res)
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    if sys.argv[1] == 'verify':
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(*verify(i), sep='\n    ', flush=True)
