#!/usr/bin/env python3
"""Development tool: turn a /tmp/seeds/<id>.py spec into /verif/seeded/<id>/ and try it on /repo.

spec: prop, needs, breaks, edits=[(file, old, new)], demo (python source run with the built module)
usage: seed.py ID [--no-check] [--check-only]"""
import json, os, subprocess, sys
R = '/repo'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/_inst/site PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec timeout 250 /opt/vp/venv/bin/python3 "$here/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def demo(d):
    r = sh(f'bash {d}/demo.sh', cwd=R)
    return r.returncode, r.stdout[-600:]


def main():
    sid = sys.argv[1]
    check = '--no-check' not in sys.argv
    d = f'/verif/seeded/{sid}'
    assert not sh('git status --short', cwd=R).stdout.strip(), 'repo dirty'
    if '--check-only' not in sys.argv:
        ns = {}
        exec(open(f'/tmp/seeds/{sid}.py').read(), ns)
        os.makedirs(d, exist_ok=True)
        for f, old, new in ns['edits']:
            s = open(f'{R}/{f}').read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        patch = sh('git diff', cwd=R).stdout
        sh('git checkout -- .', cwd=R)
        open(f'{d}/patch.diff', 'w').write(patch)
        for k, v in ns.get('files', {}).items():
            open(f'{d}/{k}', 'w').write(v)
        if 'demo' in ns:
            open(f'{d}/demo.py', 'w').write(ns['demo'])
        open(f'{d}/demo.sh', 'w').write(ns.get('demo_sh', DEMO_SH))
        json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        print('build clean', sh('bash /opt/vp/build.sh').returncode)
        print('demo on unchanged tree (want 0):', demo(d))
    prop = json.load(open(f'{d}/meta.json'))['property']
    a = sh(f'git apply {d}/patch.diff', cwd=R)
    assert a.returncode == 0, a.stdout
    try:
        if '--check-only' not in sys.argv:
            r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            print('tests:', r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r)
            t = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            want = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
            miss = [x for x in want if x not in t['passed']]
            print('  stable tests lost (want []):', miss[:5])
            print('demo with the patch (want nonzero):', demo(d))
        if check:
            r = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 -m vf.runner {prop}', cwd='/verif')
            print(f'check {prop} rc', r.returncode, '\n'.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith(prop + ':'))[:700])
    finally:
        sh('git checkout -- .', cwd=R)


main()
