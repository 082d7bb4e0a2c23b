"""Plants a bug: python3-vt tools/plant.py SPEC.py [...]
SPEC.py defines id, property, edits=[(file, old, new)], demo (python text run from /repo), needs, breaks.
Confirms: the patch applies, stable tests pass, the demo passes without and fails with it; then runs the check. Writes seeded/<id>/."""
import sys, os, json, subprocess, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
TESTS = os.environ.get('PV_TESTS', 'bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant_out.json')  # a copy needs its own
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def clean():
    for f in sh(f'git -C {REPO} diff --name-only').stdout.split():
        sh(f'rm -f {REPO}/{os.path.dirname(f)}/__pycache__/{os.path.basename(f)[:-3]}.*')
    subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
def one(spec, check=True):
    s = runpy.run_path(spec)
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    assert not sh(f'git -C {REPO} status --porcelain -uno').stdout.strip(), 'repo not clean'
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nPYTHONPATH="$PWD" exec timeout 60 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = sh(f'sh {d}/demo.sh', cwd=REPO)
    if r0.returncode: print(s['id'], 'DEMO FAILS UNPATCHED', r0.stdout[-500:], r0.stderr[-800:]); return
    import time; time.sleep(1.1)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f); t = open(p).read()
            if t.count(old) != 1: print(s['id'], 'EDIT MATCHES', t.count(old), repr(old)); return
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh(f'git -C {REPO} diff').stdout)
        r1 = sh(f'sh {d}/demo.sh', cwd=REPO)
        if not r1.returncode: print(s['id'], 'DEMO PASSES PATCHED'); return
        sh(TESTS)
        o = json.load(open('/tmp/plant_out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        bad = set(b['stable']) - set(o['passed'])
        if bad: print(s['id'], 'TESTS CATCH IT', sorted(bad)[:3]); return
        if check:
            r = sh(f"python3-vt -m pv.run {s['property']}", cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'observed', 'bounded', 'undecided', 'failed'))]
            pc = os.path.join(HERE, 'tools', 'caught.json')
            caught = json.load(open(pc)) if os.path.exists(pc) else {}
            ob = [l for l in lines if l.startswith('failed')]
            vio = [l for l in lines if l.startswith('VIOLATION')]
            caught[s['id']] = ('Caught: ' + ('failed obligation "' + ob[0].split(': ', 1)[1] + '"' if ob else 'no failed obligation') + ('' if 'no-failing' in vio[0] else ', failing input found') + '.') if r.returncode == 1 and vio else 'Missed.'
            json.dump(caught, open(pc, 'w'), indent=1, sort_keys=True)
            print(s['id'], 'CAUGHT' if r.returncode == 1 else f'MISSED rc={r.returncode}', '| ' + ' | '.join(l[:160] for l in lines[:6]))
        else: print(s['id'], 'planted')
    finally: clean()
for f in sys.argv[1:]:
    if f.startswith('-'): continue
    one(f, '-n' not in sys.argv)
