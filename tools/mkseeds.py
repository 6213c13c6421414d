#!/usr/bin/env python3
"""Development helper: writes seeded/<id>/ from the definitions in tools/seeds/*.py.
usage: tools/mkseeds.py [id ...]   (writes patch.diff, demo.sh, demo.py, meta.json)"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in /repo after the build: exits 0 if the property holds.
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=/repo/build/lib
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def main():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'tools', 'seeds', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    ids = sys.argv[1:] or list(seeds)
    for i in ids:
        s = seeds[i]
        with tempfile.TemporaryDirectory() as t:
            subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
            for (path, old, new) in s['edits']:
                p = os.path.join(t, 'r', path)
                src = open(p).read()
                if src.count(old) != 1:
                    print('SKIP %s: %d matches of %r' % (i, src.count(old), old)); break
                open(p, 'w').write(src.replace(old, new))
            else:
                diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
                d = os.path.join(VERIF, 'seeded', i)
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'wb').write(diff)
                open(d + '/demo.sh', 'w').write(DEMO)
                open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
                json.dump({'property': s['property'], 'needs': s['needs'],
                    'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                print('wrote', i)
main()
