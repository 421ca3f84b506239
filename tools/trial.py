"""trial.py [ids]: run each planted bug's check against a scratch copy of /repo with the change (SMARTDNN_REPO)."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get('J', '2'))
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
def one(s):
    o = '/verif/seeded/' + s; p = json.load(open(o + '/meta.json'))['property']
    d = '/tmp/trial/' + s
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run('cd /repo && git ls-files -z smart_dnn | xargs -0 cp -a --parents -t %s && cd %s && patch -s -p1 < %s/patch.diff' % (d, d, o), shell=True, check=True)
    v = d + '/v'; os.makedirs(v)
    subprocess.run('cp -a /verif/dv /verif/harness /verif/known_findings.txt %s' % v, shell=True, check=True)
    r = subprocess.run(['python3-vt', v + '/dv/check.py', p, '--jobs', str(8 // J)], capture_output=True, text=True, env=dict(os.environ, SMARTDNN_REPO=d))
    shutil.copy(v + '/replay_out/%s.txt' % p, '/tmp/trial/%s.txt' % s) if os.path.exists(v + '/replay_out/%s.txt' % p) else None
    shutil.rmtree(d)
    return s, r.returncode, r.stdout, r.stderr
with ThreadPoolExecutor(J) as ex:
    for s, rc, so, se in ex.map(one, ids):
        print('==', s, 'rc', rc); print('\n'.join('   ' + l[:260] for l in so.splitlines())); 
        if se.strip(): print('   stderr', se[-300:])
        sys.stdout.flush()
