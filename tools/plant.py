"""Development tool: makes seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.

usage: plant.py SPECFILE [id ...]
SPECFILE is Python defining BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
A change is kept only if it builds, passes the stable tests, and its demo passes without and fails with it.
Then the check of its property is run (SYMPL_REPO=scratch copy) and the outcome printed.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', TZ='UTC', VERIF_SEED='1')
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds there
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def run(cmd, cwd, timeout=600, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, universal_newlines=True)


def stable_tests_missing(copy, work):
    run([sys.executable, '-c', 'pass'], copy)
    xml = os.path.join(work, 'junit.xml')
    run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
         '--basetemp=' + os.path.join(work, 'pytest'), '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'], copy)
    out = os.path.join(work, 'out.json')
    run(['python3', '/opt/vp/results.py', out, 'junit:' + xml], copy)
    with open('/opt/vp/BASELINE.json') as f:
        stable = set(json.load(f)['stable'])
    with open(out) as f:
        return sorted(stable - set(json.load(f)['passed']))


def plant(bug, skip_check=False):
    work = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        folder = os.path.join(work, 'seed')
        os.makedirs(folder)
        with open(os.path.join(folder, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        with open(os.path.join(folder, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(folder, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        r = run(['bash', os.path.join(folder, 'demo.sh')], copy)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree\n' + r.stdout[-1500:]
        for name, old, new in bug['edits']:
            path = os.path.join(copy, name)
            with open(path, encoding='utf8') as f:
                s = f.read()
            if s.count(old) != 1:
                return 'old text occurs {} times in {}: {}'.format(s.count(old), name, old[:80])
            with open(path, 'w', encoding='utf8') as f:
                f.write(s.replace(old, new))
        diff = run(['git', 'diff', '--', 'sympl'], copy).stdout
        with open(os.path.join(folder, 'patch.diff'), 'w') as f:
            f.write(diff)
        r = run(['bash', os.path.join(folder, 'demo.sh')], copy)
        if r.returncode == 0:
            return 'demo passes with the change'
        missing = stable_tests_missing(copy, work)
        if missing:
            return 'tests fail: {} {}'.format(len(missing), missing[:3])
        target = os.path.join(ROOT, 'seeded', bug['id'])
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(folder, target)
        if skip_check:
            return 'kept'
        verif = os.path.join(work, 'verif')
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        results = []
        for prop in [bug['property']] + list(bug.get('also', ())):
            r = run(['./run.sh', 'check', prop], verif, SYMPL_REPO=copy, timeout=900)
            caught = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
            results.append('{} {}{}'.format(prop, 'CAUGHT' if caught else 'MISSED rc={}'.format(r.returncode),
                                            '' if r.returncode in (0, 1) else r.stdout[-600:]))
            if caught:
                with open(os.path.join('/tmp', 'caught_' + bug['id'] + '.txt'), 'w') as f:
                    f.write(r.stdout)
        return 'kept; ' + ', '.join(results)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    wanted = sys.argv[2:]
    bugs = [b for b in bugs if not wanted or b['id'] in wanted]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for bug, result in zip(bugs, pool.map(plant, bugs)):
            print('{:28s} {}'.format(bug['id'], result), flush=True)


if __name__ == '__main__':
    main()
