"""Helper to create a planted bug: seed(id, property, [(file, old, new)], needs, breaks, demo).  Works on a scratch copy of /repo."""
import json
import os
import shutil
import subprocess

SD = '/tmp/w/sd'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def seed(sid, prop, edits, needs, breaks, demo):
    if os.path.exists(SD):
        shutil.rmtree(SD)
    shutil.copytree('/repo', SD, symlinks=True)
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONPATH=SD, OMP_NUM_THREADS='1', MPLCONFIGDIR='/tmp/w/mpl')
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(SD, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=SD).stdout
    # original lines only
    removed = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONPATH="$PWD" OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    bad = sh('bash %s/demo.sh' % d, cwd=SD, env=env)
    good = sh('bash %s/demo.sh' % d, cwd='/repo', env=dict(os.environ))
    chk = sh('VERIF_REPO=%s python3 check.py --property %s --no-evidence' % (SD, prop), cwd='/verif')
    blame = []
    base = sh('git diff -U0', cwd=SD).stdout
    for l in removed:
        pass
    print('%s: demo good=%d bad=%d check=%s' % (sid, good.returncode, bad.returncode, chk.stdout.strip().splitlines()[-1][:150] if chk.stdout.strip() else chk.stderr[-300:]))
    if good.returncode:
        print(good.stdout[-500:], good.stderr[-1500:])
    if not bad.returncode:
        print('!! not shown', bad.stdout[-500:])
    for l in chk.stdout.strip().splitlines()[:3]:
        print('     ', l[:220])
