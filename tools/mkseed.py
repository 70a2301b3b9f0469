"""Development tool: python3 tools/mkseed.py SPECFILE...   makes seeded/<id> from a spec and confirms it in a scratch copy.

A spec is a Python file: ID, PROP, FILE, EDITS=[(old,new),...], NEEDS, BREAKS, DEMO (python source)."""
import sys, os, subprocess, shutil, json, tempfile
V = '/verif/seeded'
def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in [(e if len(e) == 3 else (g['FILE'],) + tuple(e)) for e in g['EDITS']]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (g['ID'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = run('git', '-C', r, 'diff').stdout
        out = os.path.join(V, g['ID'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo.py', 'w').write("import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + g['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({"property": g['PROP'], "needs": g['NEEDS'], "what_it_breaks": g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        # confirm
        a = run('bash', out + '/demo.sh', cwd='/repo')
        b = run('bash', out + '/demo.sh', cwd=r)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = run('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '--doctest-modules', '--ignore=coral/recipes.py', '-rA', 'tests', 'coral', cwd=r, env=env)
        import json as j
        stable = j.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = [l for l in t.stdout.splitlines() if l.startswith('PASSED')]
        ok = len(passed) >= len(stable)
        print(g['ID'], 'clean', a.returncode, 'patched', b.returncode, 'tests', len(passed), '/', len(stable), 'OK' if a.returncode == 0 and b.returncode != 0 and ok else 'BAD ' + a.stderr[-600:] + b.stderr[-300:] + t.stdout[-500:])
    finally:
        shutil.rmtree(tmp)
