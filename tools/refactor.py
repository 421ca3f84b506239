"""refactor.py REF.py [ids]: apply behaviour-preserving edits to scratch copies of /repo and run the checks they could disturb; every check must stay quiet (exit 0)."""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get('J', '2'))
refs = runpy.run_path(sys.argv[1])['REFS']; want = sys.argv[2:]
if want: refs = [r for r in refs if r['id'] in want]
def one(s):
    d = '/tmp/refac/' + s['id']
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run('cd /repo && git ls-files -z smart_dnn tests | xargs -0 cp -a --parents -t %s' % d, shell=True, check=True)
    for f, a, b in s['edits']:
        p = d + '/smart_dnn/' + f; t = open(p).read()
        if t.count(a) != 1: return s['id'], 'edit of %s matches %d times' % (f, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    v = d + '/v'; os.makedirs(v)
    subprocess.run('cp -a /verif/dv /verif/harness /verif/known_findings.txt %s' % v, shell=True, check=True)
    out = []
    for p in s['props'].split():
        r = subprocess.run(['python3-vt', v + '/dv/check.py', p, '--jobs', str(8 // J)], capture_output=True, text=True, env=dict(os.environ, SMARTDNN_REPO=d))
        bad = [l for l in r.stdout.splitlines()[1:] if not l.startswith('KNOWN')]
        out.append('%s rc %d %s' % (p, r.returncode, r.stdout.splitlines()[0][:160] if r.stdout else r.stderr[-300:]) + ''.join('\n        ' + l[:230] for l in bad[:6]))
    shutil.rmtree(d)
    return s['id'], '\n     '.join(out)
with ThreadPoolExecutor(J) as ex:
    for i, m in ex.map(one, refs): print('==', i, '\n    ', m, flush=True)
