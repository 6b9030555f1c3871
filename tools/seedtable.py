"""Run the check of its property on each planted bug; print a table for DESIGN.md.  usage: seedtable.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
tmp = tempfile.mkdtemp()


def one(i):
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
    w = os.path.join(tmp, i)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = subprocess.run(['patch', '-sp1', '-i', '%s/seeded/%s/patch.diff' % (HERE, i)], cwd=w, capture_output=True, text=True)
    if p.returncode:
        return '| %s | %s | patch does not apply | |' % (i, meta['property'])
    r = subprocess.run(['python3', '-m', 'tl.check', meta['property'], '--repo', w], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    shutil.rmtree(w)
    res = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode)
    return '| %s | %s | %s | %s |' % (i, meta['property'], res, ' '.join(meta['needs'].split())[:160])


print('| bug | property | check | needs |\n|-|-|-|-|')
try:
    with ThreadPoolExecutor(2) as ex:
        for l in ex.map(one, ids):
            print(l, flush=True)
finally:
    shutil.rmtree(tmp)
