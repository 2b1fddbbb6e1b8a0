"""Runs the named check on a patched copy of /repo for every seeded change: seeds.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(SEEDS))
W = '/tmp/vsa_seed_copy'
for i in ids:
    d = os.path.join(SEEDS, i)
    prop = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('test_data', '.git', '__pycache__'))
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, check=True)
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), prop], env=dict(os.environ, VSA_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode().strip().split('\n')
    print('CAUGHT' if p.returncode == 1 and out[-1].startswith('VIOLATION property=' + prop) else 'missed', i, prop, out[0][:200], flush=True)
shutil.rmtree(W, ignore_errors=True)
