"""Development tool: runs the claimed checks against seeded changes in scratch copies (CORAL_REPO).
python3 tools/tryseeds.py [seed-id-substring ...]"""
import sys, os, subprocess, shutil, json, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
ids = [d for d in sorted(os.listdir(V)) if not sys.argv[1:] or any(a in d for a in sys.argv[1:])]
def one(i):
    meta = json.load(open(os.path.join(V, i, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='try')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        p = subprocess.run(['git', '-C', r, 'apply', os.path.join(V, i, 'patch.diff')], capture_output=True, text=True)
        if p.returncode:
            return i, 'patch does not apply', 0, ''
        v = os.path.join(tmp, 'verif')
        shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        os.mkdir(os.path.join(v, 'evidence'))
        t0 = time.time()
        p = subprocess.run(['python3-vt', 'check.py', meta['property']], cwd=v, capture_output=True, text=True, env=dict(os.environ, CORAL_REPO=r))
        last = [l for l in p.stdout.splitlines() if l.startswith(('VIOLATION', 'FAILED', 'failing'))]
        return i, 'exit %d' % p.returncode, time.time() - t0, "\n     ".join(x[:230] for x in last) or p.stderr[-300:]
    finally:
        shutil.rmtree(tmp)
with ThreadPoolExecutor(3) as ex:
    for i, st, dt, l in ex.map(one, ids):
        print("%-28s %s %.0fs\n     %s" % (i, st, dt, l), flush=True)
