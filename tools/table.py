"""Adds the rows of DESIGN.md's table of planted changes that are not there yet: each change is applied to a scratch
copy of /repo, the check of its property runs against the copy, and the row names the sub-check that reported it."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile

ROW = re.compile(r'\| (C\d\d-[a-z][\w-]*) \|')


def one(i):
    meta = json.load(open(f'/verif/seeded/{i}/meta.json'))
    work = tempfile.mkdtemp(prefix='table_', dir='/tmp')
    try:
        shutil.copytree('/repo', work + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        subprocess.run(['patch', '-p1', '-s', '-i', f'/verif/seeded/{i}/patch.diff'], cwd=work + '/repo', check=True)
        shutil.copytree('/verif', work + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
        r = subprocess.run(['./run.sh', 'check', meta['property']], cwd=work + '/verif', stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, SYMPL_REPO=work + '/repo'))
        m = re.search(r'replay=\S*/C\d\d-(\S+)\.json', r.stdout.decode())
        return i, '| {} | {} | {} |'.format(i, meta['needs'], m.group(1) if m else 'missed')
    finally:
        shutil.rmtree(work, ignore_errors=True)


lines = open('/verif/DESIGN.md').read().split('\n')
rows = {ROW.match(l).group(1): l for l in lines if ROW.match(l)}
todo = [i for i in sorted(os.listdir('/verif/seeded')) if i not in rows]
with cf.ThreadPoolExecutor(3) as ex:
    for i, row in ex.map(one, todo):
        print(row)
        rows[i] = row
first = next(n for n, l in enumerate(lines) if ROW.match(l))
rest = [l for l in lines if not ROW.match(l)]
lines = rest[:first] + [rows[i] for i in sorted(rows) if os.path.isdir('/verif/seeded/' + i)] + rest[first:]
open('/verif/DESIGN.md', 'w').write('\n'.join(lines))
