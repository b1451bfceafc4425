#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {
 'C01': 'All element types: the element operations stay uninterpreted, so the proof also covers floating point rounding and integer wrap-around.',
 'C02': 'mult: uninterpreted or real arithmetic; Strassen over exact real arithmetic.',
 'C07': 'Exact real arithmetic (rounding not covered); Laplace expansion as definition, elimination lemmas.',
 'C08': 'Exact real arithmetic; adjugate lemmas.',
 'C09': 'Exact real arithmetic; link from zero pivots to leading principal minors is a lemma.',
 'C10': 'Exact real arithmetic with exact square roots; precondition: symmetric positive definite.',
 'C17': 'Bounds, termination, integer overflow and callee preconditions of every function, for all dimensions; storage layout of std::array trusted.',
 'C19': 'Frame obligations of every function, no mutable static or namespace-scope state; external functions assumed pure are listed in the evidence.',
 'C20': 'Every path of every function is scanned for allocating constructs (containers, new, callee effects); std::sort and std::map assumed as documented.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
        'technique': 'contract-based deductive verification: contracts on the functions extracted from /repo on every run, '
                     'verification conditions discharged by z3 for all inputs and dimensions; failed obligations are replayed by a bounded harness on the compiled templates',
        'level': 'proof',
        'level_note': NOTE.get(i, 'All dimensions and all inputs.') + ' Trusted: clang AST, mlv extractor and VC generator, z3, the lemma library; '
                      'a function rewritten outside the verifier\'s fragment falls back to the bounded harness and is reported as such.',
    })
m = {'version': 1,
     'setup_cmd': 'python3-vt -m compileall -q mlv check.py && python3-vt -c "import z3"',
     'hooks': {'guard': 'MLIB_VERIF', 'enable': 'no hooks were needed: the checks read and compile /repo/matrix as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': [],
     'notes': 'check.py decides one property; mlv/ is the verifier, replay/ the bounded harnesses, known-findings.txt the defects found and repaired.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
