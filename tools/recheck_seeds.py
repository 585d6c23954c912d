"""Development tool: confirms that every kept change still applies and that its demo tells it apart.

usage: recheck_seeds.py [--checks] [id ...]      (--checks: also run the quick check of the property)
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, VERIF_SEED='1')


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, timeout=900)


def one(name):
    folder = os.path.join(ROOT, 'seeded', name)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    work = tempfile.mkdtemp(prefix='recheck_', dir='/tmp')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        base = subprocess.check_output(['git', 'log', '--format=%h', '--reverse'], cwd=copy).decode().split()[0]
        r = sh(['bash', os.path.join(folder, 'demo.sh')], copy)
        if r.returncode:
            return 'DEMO FAILS ON THE UNCHANGED TREE\n' + r.stdout[-800:]
        r = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], copy)
        if r.returncode:
            return 'DOES NOT APPLY ' + r.stdout[-300:]
        removed = [l[1:] for l in open(os.path.join(folder, 'patch.diff')) if l[0] == '-' and l[:3] != '---']
        original = ''.join(subprocess.check_output(['git', 'show', base + ':' + f], cwd=copy).decode()
                           for f in sh(['git', 'diff', '--name-only'], copy).stdout.split())
        ours = [l for l in removed if l not in original]
        r = sh(['bash', os.path.join(folder, 'demo.sh')], copy)
        if r.returncode == 0:
            return 'DEMO PASSES WITH THE CHANGE'
        text = 'ok' + (' (changes lines we added: {})'.format(ours) if ours else '') + \
            ('' if removed else ' (only adds lines)')
        if '--checks' in sys.argv:
            verif = os.path.join(work, 'verif')
            shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
            r = sh(['./run.sh', 'check', prop], verif, SYMPL_REPO=copy)
            sub = [l for l in r.stdout.splitlines() if l.startswith('sub-check')]
            text += ' ' + ('CAUGHT ' + sub[0].split(':')[0] if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED')
        return text
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for name, result in zip(names, pool.map(one, names)):
            print('{:28s} {}'.format(name, result), flush=True)


if __name__ == '__main__':
    main()
