"""Runs every claimed check (or those named) one after another, quick mode; prints one line each."""
import json, subprocess, sys, time
m = json.load(open('/verif/MANIFEST.json'))
sel = [a for a in sys.argv[1:] if not a.startswith('-')]
extra = [a for a in sys.argv[1:] if a.startswith('-')]
bad = 0
for c in m['checks']:
    if sel and c['property'] not in sel: continue
    t = time.time()
    r = subprocess.run(c['quick_cmd'].split() + extra, cwd='/verif', capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'KNOWN', 'bounded', 'undecided', c['property'] + ':'))]
    print(c['property'], 'rc', r.returncode, f'{time.time() - t:.0f}s', ' | '.join(l[:200] for l in lines), flush=True)
    if r.returncode: bad = 1; print(r.stdout[-600:], r.stderr[-600:])
sys.exit(bad)
