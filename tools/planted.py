#!/usr/bin/env python3
"""Run the checks against the planted bugs of seeded/ and note in planted.json which of them catch them.

    tools/planted.py [-j N] [ID ...]

Everything runs in copies of the repository and of the checks below /tmp, which are removed. No check reads these.
"""

import argparse
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = os.path.join(HERE, 'tools', 'planted.json')


def sh(command, cwd, **env):
    return subprocess.run(command, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, **env))


def run(name):
    work = '/tmp/planted/' + name
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + '/verif/evidence')
    with open(os.path.join(HERE, 'seeded', name, 'meta.json')) as fp:
        meta = json.load(fp)
    try:
        p = sh('git clone -q /repo repo && cd repo && git apply %s/seeded/%s/patch.diff' % (HERE, name), work)
        if p.returncode:
            return name, {'property': meta['property'], 'caught': [], 'said': 'the patch does not apply'}
        sh('cp -r check pbt vendor tools known_findings.txt %s/verif/' % work, HERE)
        sh('sed -i "s#/repo:#%s/repo:#; s#/repo/#%s/repo/#" check pbt/run.py' % (work, work), work + '/verif')
        caught = []
        p = sh('timeout 900 ./check %s' % meta['property'], work + '/verif', VERIF_SEED='1')
        if p.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in p.stdout:
            caught.append(meta['property'])
        return name, {'property': meta['property'], 'caught': caught, 'said': (p.stdout.strip().split('\n') or [''])[-1][:300]
                      if not caught else 'violation'}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('names', nargs='*')
    parser.add_argument('-j', type=int, default=2)
    args = parser.parse_args()
    names = args.names or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    notes = {}
    if os.path.exists(NOTES):
        with open(NOTES) as fp:
            notes = json.load(fp)
    with ThreadPoolExecutor(args.j) as pool:
        for name, note in pool.map(run, names):
            notes[name] = note
            print(name, note['caught'] or 'MISSED ' + note['said'], flush=True)
            notes = {n: v for n, v in notes.items() if os.path.exists(os.path.join(HERE, 'seeded', n))}
            with open(NOTES, 'w') as fp:
                json.dump(notes, fp, indent=1, sort_keys=True)
                fp.write('\n')


if __name__ == '__main__':
    main()
