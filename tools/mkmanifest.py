"""Writes MANIFEST.json from the contract modules present (run by hand; the output is committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C30': 'the guarantee quantifies over garbage-collection timing (weak reference callbacks fired by the interpreter at any bytecode); no contract on the Python source can state when they run, and the verifier has no model of the collector',
 'C31': 'the guarantee is about OS thread interleavings of Executor / queue hand-over; the deductive back end is sequential (coroutine-atomic) and has no ownership logic for threads and OS primitives',
}
PENDING = 'no contract set has been completed for it in this framework; nothing is claimed'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    path = os.path.join(HERE, 'contracts', i.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=i, reason=PENDING)); continue
    src = open(path).read()
    note = 'Every obligation generated from the current source of the functions under contract is discharged for all inputs; trusted: the pv verification-condition generator and its models of Python built-ins, z3 and cvc5, and what the evidence file lists. A native search of the same property (bounded, seeded) runs next to it and validates the trusted models.'
    for line in src.splitlines():
        if line.startswith('LEVEL_NOTE ='): note = eval(line.split('=', 1)[1]) + ' ' + note
    checks.append(dict(property=i, quick_cmd=f'python3-vt -m pv.run {i}', thorough_cmd=f'python3-vt -m pv.run {i} --thorough', technique='contract-based deductive verification of the extracted Python source (weakest preconditions / symbolic execution with loop invariants, z3 + cvc5)', level='proof', level_note=note))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.path[:0] = [\"/verif\", \"/repo\"]; import pv.engine, scarletio'", checks=checks, not_applicable=na,
    notes='Run from /verif. See DESIGN.md. KNOWN_FINDINGS.txt lists recorded and fixed defects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
