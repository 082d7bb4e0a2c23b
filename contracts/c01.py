"""C01: a multi value dictionary is a faithful multimap."""
from contracts.mvd import *
PROOFS, proof = proof_registry()
TRUSTED = ['keys and values: equality is an equivalence, compatible with hashing (one abstract identity stands for equal objects)', 'built-in dict: a finite map with an insertion order holding each key once; iterating it while it is not changed gives every key once']
ops(proof, PK, '')
RULE = 'random operation histories (creation from every kind of source, every read and write operation, copies, pickling, changed results) against a map of value lists; distinct by history'
SEARCH_S = 6
def cases(rng, part, parts):
    while True: yield gen_history(rng, ['a', 'b', 'c'][:rng.randint(1, 3)] + ['dd'])
def check_case(case): return run_history(MultiValueDictionary, case, lambda k: k)
shrink = shrink_history
