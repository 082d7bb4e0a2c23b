"""Development aid: mutates the functions a property has under contract, keeps the mutants the repository's tests accept, lists those the property's check does not report.
python3-vt tools/mutate.py C28 [-j 6] [-n 60] [-s SEED]     (works on copies below /tmp/w/mut, never on /repo)"""
import sys, os, ast, json, random, subprocess, shutil, threading, queue, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/w/mut'
ap = argparse.ArgumentParser(); ap.add_argument('props', nargs='+'); ap.add_argument('-j', type=int, default=6); ap.add_argument('-n', type=int, default=60); ap.add_argument('-s', type=int, default=1); ap.add_argument('--fn'); ap.add_argument('--list', action='store_true')
A = ap.parse_args()
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mult: '+'}
def functions(prop):
    names = json.load(open(f'{HERE}/evidence/{prop}.json'))['coverage']['functions_under_contract']; files = {}
    for n in names:
        parts = n.split('.')
        for k in range(len(parts), 0, -1):
            p = '/repo/' + '/'.join(parts[:k]) + '.py'
            if os.path.exists(p): files.setdefault(p[6:], set()).add('.'.join(parts[k:])); break
    return files
def mutants(rel, quals):
    src = open('/repo/' + rel).read(); lines = src.split('\n'); offs = [0]
    for l in lines: offs.append(offs[-1] + len(l) + 1)
    enc = [l.encode() for l in lines]
    def pos(ln, col): return offs[ln - 1] + len(enc[ln - 1][:col].decode())
    def span(n): return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    def put(n, new, what): a, b = span(n); out.append((rel, n.lineno, a, b, new, what))
    def seg(n): a, b = span(n); return src[a:b]
    def body(stmts, q):
        for i, s in enumerate(stmts):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)): put(s, 'pass', 'drop statement')
            if isinstance(s, ast.Continue): put(s, 'break', 'break')
            if isinstance(s, ast.Break): put(s, 'continue', 'continue')
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant): pass
            if i + 1 < len(stmts):
                t = stmts[i + 1]; simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)
                if isinstance(s, simple) and isinstance(t, simple) and s.col_offset == t.col_offset and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    a, b = span(s)[0], span(t)[1]; out.append((rel, s.lineno, a, b, seg(t) + src[span(s)[1]:span(t)[0]] + seg(s), 'swap statements'))
    def walk(fn, q):
        for n in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and not isinstance(n, ast.ClassDef): body(b, q)
            if isinstance(n, ast.Compare) and len(n.ops) == 1: put(n, f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})', 'compare'); 
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) : put(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'operator')
            if isinstance(n, ast.BoolOp): put(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({seg(v)})' for v in n.values) + ')', 'and/or'); [put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(f'({seg(v)})' for v in n.values if v is not w) + ')', 'drop operand') for w in n.values]
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): put(n, f'({seg(n.operand)})', 'drop not')
            if isinstance(n, ast.Constant) and type(n.value) is int:
                for d in (1, -1): put(n, f'({n.value + d})', 'constant')
            if isinstance(n, ast.Constant) and type(n.value) is bool: put(n, str(not n.value), 'constant')
            if isinstance(n, ast.Constant) and type(n.value) in (bytes, str) and 0 < len(n.value) < 9: put(n, repr(n.value[:-1]), 'constant')
            if isinstance(n, (ast.If, ast.IfExp)): put(n.test, f'(not ({seg(n.test)}))', 'negate'); put(n.test, 'False', 'never')
            if isinstance(n, ast.While) and not isinstance(n.test, ast.Constant): put(n.test, f'(not ({seg(n.test)}))', 'negate')
    def find(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + n.name
                if q in quals and (not A.fn or A.fn in q): walk(n, q)
                find(n, q + '.')
            elif isinstance(n, ast.ClassDef): find(n, prefix + n.name + '.')
            else: find(n, prefix)
    find(ast.parse(src), '')
    res = []; seen = set()
    for m in out:
        new = src[:m[2]] + m[4] + src[m[3]:]
        if new in seen or src[m[2]:m[3]] == m[4]: continue
        seen.add(new)
        try: compile(new, rel, 'exec')
        except SyntaxError: continue
        res.append((m, new))
    return res
def run(cmd, t, **kw):
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try: return p.communicate(timeout=t)[0], p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return '', 'timeout'
BL = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
LOCK = threading.Lock()
def worker(slot, q):
    d = f'{BASE}/{slot}'; repo = d + '/repo'; ver = d + '/verif'
    subprocess.run(['rm', '-rf', d]); os.makedirs(d); shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__')); shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    open(d + '/run_all.py', 'w').write(open('/opt/vp/run_all.py').read().replace("REPO = '/repo'", f"REPO = '{repo}'"))
    for f in os.listdir('/opt/vp'):
        if f.endswith('.py') and f != 'run_all.py': shutil.copy('/opt/vp/' + f, d)
    env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'); env.pop('PYTHONPATH', None)
    while True:
        try: prop, m, new = q.get_nowait()
        except queue.Empty: break
        rel, ln, a, b, txt, what = m; old = open('/repo/' + rel).read()
        open(f'{repo}/{rel}', 'w').write(new)
        sc = d + '/scratch'; subprocess.run(['rm', '-rf', sc]); os.makedirs(sc)
        o, rc = run(['/opt/venv/bin/python', d + '/run_all.py', sc + '/report.txt', sc], 60, cwd=repo, env=env); st = 'killed'
        if rc != 'timeout' and os.path.exists(sc + '/report.txt'):
            subprocess.run(['python3', '/opt/vp/results.py', sc + '/out.json', 'lines:' + sc + '/report.txt'], capture_output=True)
            try: missing = BL - set(json.load(open(sc + '/out.json'))['passed'])
            except Exception: missing = {1}
            if not missing:
                o, rc = run(['python3-vt', '-m', 'pv.run', prop], 900, cwd=ver, env=dict(os.environ, PV_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
                vio = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                st = ('CAUGHT-obl' if 'no-failing' in vio[0] else 'CAUGHT') if vio else f'MISSED rc={rc}'
                if not vio and 'undecided' in o: st += ' undecided'
        open(f'{repo}/{rel}', 'w').write(old)
        with LOCK: print(f'{st:10} {prop} {rel.split("/")[-1]}:{ln} [{what}] {old[a:b][:90]!r} -> {txt[:90]!r}', flush=True)
    subprocess.run(['rm', '-rf', d])
q = queue.Queue(); rng = random.Random(A.s)
for prop in A.props:
    ms = [x for rel, qs in functions(prop).items() for x in mutants(rel, qs)]
    rng.shuffle(ms); print(prop, len(ms), 'mutants', flush=True)
    for m, new in ms[:A.n]: q.put((prop, m, new))
if not A.list:
    ts = [threading.Thread(target=worker, args=(i, q)) for i in range(A.j)]
    for t in ts: t.start()
    for t in ts: t.join()
