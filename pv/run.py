"""
Runs the check of one property:   python3-vt -m pv.run C03 [--replay FILE]
"""
import os, sys, json, time, random, signal, hashlib, traceback, importlib, itertools, resource, tempfile, shutil
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
EVID = os.environ.get('PV_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.setrecursionlimit(12000)
sys.dont_write_bytecode = True
_bx = importlib._bootstrap_external           # never run a stale compiled file of the repository: always from its current source
_cfs = _bx.cache_from_source
_bx.cache_from_source = lambda path, *a, **k: (path + '.none') if os.fspath(path).startswith((REPO, HERE)) else _cfs(path, *a, **k)
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

TRUSTED = [
    'pv (this repository\'s verification-condition generator and its models of Python built-ins, /verif/pv)',
    'z3 5.3.2 and cvc5 1.1.2 answers "unsat"',
    'CPython executes the parsed source as the language reference says (docstrings, annotations and comments are dropped)',
]


class CaseTimeout(BaseException):
    pass

def _alarm(signum, frame):
    raise CaseTimeout


def raised_by_repo(e):
    """whether an exception the oracle does not expect comes from the code under test, and not from a stand-in which no longer fits it"""
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    while files and files[-1].endswith(('rich_attribute_error.py', 'export_include.py')):
        files.pop()
    if not files or not files[-1].startswith(os.path.join(REPO, 'scarletio')): return False
    if isinstance(e, AttributeError) and type(getattr(e, 'obj', None)).__module__.startswith(('contracts', 'pv', 'unittest')): return False
    if isinstance(e, TypeError) and 'argument' in str(e): return False
    return not isinstance(e, (ImportError, NotImplementedError, RecursionError, MemoryError))

def run_case(mod, case, seconds=10):
    """-> None when the property held on the case, else a description. Runs the real code."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return mod.check_case(case)
    except CaseTimeout:
        if getattr(mod, 'HANG_IS_VIOLATION', True):
            return f'no answer within {seconds} s (does not terminate)'
        return None
    except Exception as e:
        if not raised_by_repo(e): raise
        return f'raised {type(e).__name__}: {str(e)[:200]}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def proof_worker(args):
    modname, idx, tier, rename = args
    limits()
    t0 = time.monotonic()
    mod = importlib.import_module(modname)
    from pv import engine, lib
    p = mod.PROOFS[idx]
    opts = dict(p.opts)
    budget = opts.pop('budget', 240 if tier == 'quick' else 600)
    covers = opts.pop('covers', None)
    xopts = dict(opts.get('options', {}))
    res = None
    alts = [{}]
    tried = 0
    while alts and tried < 24:
        choice = alts.pop(0)
        tried += 1
        xo = dict(xopts)
        xo['rename_choice'] = {}
        xo['rename_options'] = {}
        xo['_choice_list'] = choice
        x = engine.Explorer(p.name, None, budget_s=max(5, budget - (time.monotonic() - t0)), options=xo, z3_ms=opts.get('z3_ms', 4000), cvc5_s=opts.get('cvc5_s', 25))
        # renamed locals: choices are keyed by order of discovery
        order = []
        class Choice(dict):
            def get(self, k, d=0):
                if k not in order: order.append(k)
                return choice.get(order.index(k), d)
        xo['rename_choice'] = Choice()
        def body(ctx):
            lib.setup(ctx)
            try:
                p.body(ctx)
            except lib.PyExc as e:
                ctx.prove(f'the proof script sees no unexpected exception ({e})', engine.z3.BoolVal(False))
                raise engine.PathEnd
            ctx.x.stats.covers['end'] = ctx.x.stats.covers.get('end') or ctx.is_feasible()
        x.body = body
        err = None
        try:
            x.run()
        except engine.z3.Z3Exception as exc:
            x.unsupported = f'z3: {exc}'
        except Exception:
            x.unsupported = 'engine error: ' + traceback.format_exc()[-1500:]
        ok = not x.failures and not x.unsupported and not x.undecided
        if res is None or ok: res = x
        if ok: break
        n_opts = xo['rename_options']
        if n_opts and not choice:
            # enumerate the other renamings
            ranges = [range(n_opts[k]) for k in order if k in n_opts]
            alts = [dict(enumerate(c)) for c in itertools.islice(itertools.product(*ranges), 1, 24)]
        elif not n_opts: break
        if time.monotonic() - t0 > budget: break
    x = res
    st = x.stats
    out = dict(name=p.name, obligations=st.obligations, discharged=st.discharged, by=st.by_backend, solver_s=round(st.solver_s, 3), paths=st.paths,
        feas=st.feas_checks, functions=sorted(st.functions), covers={k: bool(v) for k, v in st.covers.items()}, names=sorted(st.names),
        wall=round(time.monotonic() - t0, 2), unsupported=x.unsupported, undecided=x.undecided[:10],
        failures=[dict(name=f.name, reason=f.reason, inputs=jsonable(f.inputs), model=f.model_text, goal=f.goal, pc=f.pc_text) for f in x.failures],
        assumptions=sorted(st.assumptions), bounded=p.opts.get('bounded'))
    return idx, out


def jsonable(v, depth=0):
    if depth > 6: return repr(v)
    if isinstance(v, bytes): return {'$bytes': v.hex()}
    if isinstance(v, (str, int, float, bool)) or v is None: return v
    if isinstance(v, (list, tuple, set, frozenset)): return [jsonable(e, depth + 1) for e in v]
    if isinstance(v, dict): return {str(k): jsonable(e, depth + 1) for k, e in v.items()}
    return repr(v)

def unjson(v):
    if isinstance(v, dict):
        if set(v) == {'$bytes'}: return bytes.fromhex(v['$bytes'])
        return {k: unjson(e) for k, e in v.items()}
    if isinstance(v, list): return [unjson(e) for e in v]
    return v


def search_worker(args):
    modname, seed, part, parts, budget = args
    limits()
    mod = importlib.import_module(modname)
    rng = random.Random(f'{seed}-{part}')
    t0 = time.monotonic()
    n = 0
    seen = set()
    samples = []
    try:
        for case in mod.cases(rng, part, parts):
            if time.monotonic() - t0 > budget: break
            n += 1
            key = hash(json.dumps(jsonable(case), sort_keys=True))
            seen.add(key)
            if len(samples) < 2 and n % 7 == 3: samples.append(jsonable(case))
            try:
                err = run_case(mod, case)
            except MemoryError:
                continue
            if err:
                if mod_known(mod, case, err): continue
                case, err = shrink(mod, case, err, t0 + budget + 10)
                return n, len(seen), samples, jsonable(case), err
    except MemoryError:
        pass
    except Exception:
        return n, len(seen), samples, None, 'search error: ' + traceback.format_exc()[-1500:]
    return n, len(seen), samples, None, None


def mod_known(mod, case, err):
    f = getattr(mod, 'known', None)
    if f is None: return False
    k = f(case, err)
    return bool(k) and k in load_known(mod.__name__.split('.')[-1].upper())


def shrink(mod, case, err, deadline):
    f = getattr(mod, 'shrink', None)
    if f is None: return case, err
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for c in f(case):
            try: e = run_case(mod, c, 5)
            except Exception: continue
            if e and not mod_known(mod, c, e):
                case, err, changed = c, e, True
                break
            if time.monotonic() > deadline: break
    return case, err


def load_known(pid):
    """known findings of this property: lines "known: property=<id> key=<key> <what fails>" -> {key: what}"""
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == f'property={pid}' and w[2].startswith('key='): out[w[2][4:]] = w[3].strip()
    return out


def write_replay(pid, data):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True, default=repr).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{h}.json')
    with open(p, 'w') as f: json.dump(data, f, indent=1, default=repr)
    return p


def main():
    pid = sys.argv[1]
    modname = 'contracts.' + pid.lower()
    if '--replay' in sys.argv:
        data = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        mod = importlib.import_module(modname)
        if data.get('case') is None:
            print('no failing input; failed obligation:', json.dumps(data.get('obligation'), indent=1)); return 1
        err = run_case(mod, unjson(data['case']))
        print('replayed:', err)
        return 1 if err else 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    verbose = '-v' in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith('--only=')]
    only = [a.split('=', 1)[1] for a in sys.argv if a.startswith('--only=')]
    try:
        mod = importlib.import_module(modname)
    except Exception:
        return broken_import(pid, tier, seed, t0)
    ncpu = os.cpu_count() or 4
    ctx = mp.get_context('fork')
    results = {}
    search_budget = getattr(mod, 'SEARCH_S', 12) if tier == 'quick' else getattr(mod, 'SEARCH_S_THOROUGH', 240)
    proof_jobs = [(modname, k, tier, None) for k in range(len(mod.PROOFS))]
    if only: proof_jobs = [j for j in proof_jobs if any(o in mod.PROOFS[j[1]].name for o in only)]
    hard = 700 if tier == 'quick' else 3000
    violation = None
    n_cases = n_distinct = 0
    samples = []
    search_errors = []

    def do_search(budget, tag):
        nonlocal n_cases, n_distinct, violation
        parts = max(2, ncpu - 0)
        with ctx.Pool(parts) as pool:
            rs = [pool.apply_async(search_worker, ((modname, f'{seed}{tag}', k, parts, budget),)) for k in range(parts)]
            for r in rs:
                try:
                    n, d, sm, case, err = r.get(timeout=budget + 60)
                except mp.TimeoutError:
                    search_errors.append('search worker did not answer'); continue
                n_cases += n; n_distinct += d; samples.extend(sm[:1])
                if err and case is not None:
                    if violation is None: violation = dict(case=case, error=err, found_by='native search')
                elif err: search_errors.append(err)
            pool.terminate()

    # 1. proofs
    with ctx.Pool(min(ncpu, max(1, len(proof_jobs))), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(proof_worker, (j,))) for j in proof_jobs]
        for j, r in rs:
            left = max(1, hard - (time.monotonic() - t0))
            try:
                idx, out = r.get(timeout=left)
            except mp.TimeoutError:
                idx, out = j[1], dict(name=mod.PROOFS[j[1]].name, obligations=0, discharged=0, by={}, solver_s=0, paths=0, feas=0, functions=[], covers={}, names=[], wall=left, unsupported='worker timeout', undecided=[], failures=[], assumptions=[], bounded=None)
            except Exception as exc:
                idx, out = j[1], dict(name=mod.PROOFS[j[1]].name, obligations=0, discharged=0, by={}, solver_s=0, paths=0, feas=0, functions=[], covers={}, names=[], wall=0, unsupported=f'worker died: {exc!r}', undecided=[], failures=[], assumptions=[], bounded=None)
            results[idx] = out
            if verbose:
                print(f"  {out['name']}: {out['discharged']}/{out['obligations']} paths={out['paths']} wall={out['wall']} by={out['by']} {'UNSUPPORTED ' + out['unsupported'] if out['unsupported'] else ''} {out['undecided'] or ''}")
                for f in out['failures']:
                    print('     FAILED', f['name'], '|', f['reason'] or '', json.dumps(f['inputs'])[:600])
                    if '-vv' in sys.argv: print('       goal', f['goal'][:1500]); print('       pc', f['pc'][-3000:])
        pool.terminate()
    failures = [(out['name'], f) for _, out in sorted(results.items()) for f in out['failures']]
    problems = [(out['name'], out['unsupported']) for _, out in sorted(results.items()) if out['unsupported']]
    undecided = [(out['name'], u) for _, out in sorted(results.items()) for u in out['undecided']]
    for _, out in results.items():
        if not out['failures'] and not out['unsupported']:
            if out['obligations'] == 0: problems.append((out['name'], 'vacuous: no obligation generated'))
            elif not any(out['covers'].values()): problems.append((out['name'], 'vacuous: no path reaches the end'))

    # 2. replay of solver models on the real code
    if failures and violation is None:
        conv = getattr(mod, 'model_cases', None)
        if conv is not None:
            for pname, f in failures:
                try:
                    for case in conv(pname, unjson(f['inputs'])) or ():
                        err = run_case(mod, case)
                        n_cases += 1
                        if err and not mod_known(mod, case, err):
                            case, err = shrink(mod, case, err, time.monotonic() + 15)
                            violation = dict(case=jsonable(case), error=err, found_by='solver counterexample replayed', obligation=f['name'], proof=pname)
                            break
                except Exception:
                    pass
                if violation: break

    # 3. native search: validates the trusted models on every run; longer when a proof is not available
    if violation is None and '--nosearch' not in sys.argv:
        b = search_budget
        if failures or problems or undecided: b = max(b, 60 if tier == 'quick' else 300)
        do_search(b, '')
    known = load_known(pid)
    for d in known.values():
        print(f"KNOWN-FINDING: property={pid} {d}")

    obligations = sum(o['obligations'] for o in results.values())
    discharged = sum(o['discharged'] for o in results.values())
    by = {}
    for o in results.values():
        for k, v in o['by'].items(): by[k] = by.get(k, 0) + v
    functions = sorted({f for o in results.values() for f in o['functions']})
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for o in results.values() for a in o['assumptions']})
    assumptions += [f'not proved on this tree, bounded stand-in only ({n}): {w}' for n, w in problems]
    assumptions += [f'undecided by the solvers within their limits ({n}): {u[0]}' for n, u in undecided]
    exit_code = 0
    vio = 0
    if violation is not None:
        vio = 1
        data = dict(property=pid, case=violation['case'], error=violation['error'], found_by=violation['found_by'],
            obligation=[dict(proof=n, obligation=f['name'], goal=f['goal'], reason=f['reason'], inputs=f['inputs'], model=f['model']) for n, f in failures],
            how=f'cd /verif && python3-vt -m pv.run {pid} --replay <this file>')
        path = write_replay(pid, data)
        for n, f in failures: print(f'failed obligation: {n}: {f["name"]}')
        print('failing input:', json.dumps(violation['case'])[:2000])
        print('observed:', violation['error'][:2000])
        print(f'VIOLATION property={pid} replay={path}')
        exit_code = 1
    elif failures:
        vio = 1
        data = dict(property=pid, case=None, obligation=[dict(proof=n, obligation=f['name'], goal=f['goal'], reason=f['reason'], inputs=f['inputs'], model=f['model'], path_condition=f['pc']) for n, f in failures])
        path = write_replay(pid, data)
        for n, f in failures: print(f'failed obligation: {n}: {f["name"]}')
        print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        exit_code = 1
    for n, w in problems: print(f'bounded stand-in: {n}: {w}'[:600])
    for n, w in undecided: print(f'undecided: {n}: {w}'[:600])
    for w in search_errors: print('search:', w)
    all_proved = not failures and not problems and not undecided and obligations and obligations == discharged
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if all_proved or violation or failures else 'exploration',
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f'cd /verif && VERIF_TIER={tier} VERIF_SEED={seed} python3-vt -m pv.run {pid}',
            trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
            by_backend=by, solver_s=round(sum(o['solver_s'] for o in results.values()), 2), paths=sum(o['paths'] for o in results.values()),
            feasibility_checks=sum(o['feas'] for o in results.values()),
            functions_under_contract=functions,
            proofs=[dict(name=o['name'], obligations=o['obligations'], discharged=o['discharged'], paths=o['paths'], wall_s=o['wall'], bounded=o['bounded'], reached={k: v for k, v in o['covers'].items()}) for _, o in sorted(results.items())],
            evaluations=n_cases, distinct_nontrivial=n_distinct,
            rule=getattr(mod, 'RULE', 'cases generated from the seed and run through the real code against an independent oracle; distinct by content'),
            samples=samples[:6] or ['none'],
        ),
        assumptions=assumptions, wall_s=round(time.monotonic() - t0, 2), violations=vio)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid}: {discharged}/{obligations} obligations discharged {by}, {len(functions)} functions, {n_cases} native cases, {ev["wall_s"]} s')
    return exit_code


def broken_import(pid, tier, seed, t0):
    """The contracts could not be bound to the source: an alarm only when the repository itself cannot be imported."""
    tb = traceback.format_exc()
    try:
        import scarletio, scarletio.web_common, scarletio.dns_query, scarletio.core, scarletio.http_client, scarletio.streaming
        vio = 0
    except Exception:
        vio = 1
    print(tb[-2000:])
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=dict(explanation='the contracts could not be bound to this source tree, nothing was decided: ' + tb[-500:]), wall_s=round(time.monotonic() - t0, 2), violations=vio)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    if vio:
        path = write_replay(pid, dict(property=pid, case=None, obligation='import of the verified modules', error=tb))
        print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    else:
        print(f'{pid}: contracts could not be bound to this source tree; undecided')
    return vio


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)
